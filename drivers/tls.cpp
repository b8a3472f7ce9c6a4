// SSLSocket and SSLListener on a simulated kernel, against an independent TLS endpoint (plain mbedtls) that lives in
// this process: everything is one thread and every schedule is scripted.
// params: ca=none|ca|ca2|both|mem (authorities the library context loads)
// ops: peer KIND (what the next connection will find: a certificate name, or plain, mute, alert, weak) ;
//      new o sock | lst CERT ; ver o 0|1 ; conn o host DIR.. ; listen o ; acc l c DIR.. ; send o n DIR.. ; resend o DIR.. ; recv o n DIR.. ;
//      blk o 0|1 ; inet o 0|4|6 ; rto o ms ; sto o ms ; disc o ; del o ; lclose l ; shut o ; psend o n ; pend o fin|eof|both
// DIR: rcv=v,v,.. for reads: number (at most so many bytes), E<errno>, Z (end of stream), X (deliver, one bit flipped) ;
//      snd=v,v,.. for writes: number, E<errno>; and the queues of simkern.h
#include "simkern.h"
#include <memory>
#include <algorithm>
#include <numeric>
#include <frnetlib/SSLSocket.h>
#include <frnetlib/SSLListener.h>
#include <frnetlib/SSLContext.h>
using namespace vd;

static std::string cert_dir;
static unsigned char pat(long long p)
{
    unsigned long long x = (unsigned long long)p * 0x9E3779B97F4A7C15ull + 0x1234567;
    x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32;
    return (unsigned char)x;
}
static int peer_rng(void *, unsigned char *o, size_t n)
{
    static unsigned long long s = 88172645463325252ull;
    for(size_t a = 0; a < n; a++) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; o[a] = (unsigned char)(s >> 11); }
    return 0;
}

struct Peer
{
    std::string kind;
    bool server;                    // the peer's role
    mbedtls_ssl_context ssl;
    mbedtls_ssl_config conf;
    mbedtls_x509_crt crt;
    mbedtls_pk_context key;
    std::string inq, outq;          // bytes on the wire: to the peer, from the peer
    size_t inoff = 0;
    bool hs = false, dead = false, closed = false;
    long long got = 0;              // application bytes received, in order
    bool ok = true;                 // ... and they were the right ones
    long long wrote = 0;            // application bytes handed to the wire
    std::deque<long long> todo;     // application data still to be written
    bool fin = false, eofp = false, finsent = false;
    std::vector<int> suites;
    long long rcvd = 0;             // what the library delivered of it
    bool ended = false, flipped = false;

    Peer(const std::string &k, bool srv) : kind(k), server(srv)
    {
        mbedtls_ssl_init(&ssl);
        mbedtls_ssl_config_init(&conf);
        mbedtls_x509_crt_init(&crt);
        mbedtls_pk_init(&key);
        bool special = k == "plain" || k == "mute" || k == "alert" || k == "weak";
        bool fa = vk::active;
        vk::active = false;
        mbedtls_ssl_config_defaults(&conf, server ? MBEDTLS_SSL_IS_SERVER : MBEDTLS_SSL_IS_CLIENT, MBEDTLS_SSL_TRANSPORT_STREAM, MBEDTLS_SSL_PRESET_DEFAULT);
        mbedtls_ssl_conf_rng(&conf, peer_rng, nullptr);
        mbedtls_ssl_conf_authmode(&conf, MBEDTLS_SSL_VERIFY_NONE);
        if(server)
        {
            if(mbedtls_x509_crt_parse_file(&crt, (cert_dir + (special ? "good" : k) + ".pem").c_str()) != 0 ||
               mbedtls_pk_parse_keyfile(&key, (cert_dir + "key.pem").c_str(), nullptr) != 0 ||
               mbedtls_ssl_conf_own_cert(&conf, &crt, &key) != 0)
            {
                fprintf(stderr, "certificate %s\n", k.c_str());
                _exit(99);
            }
        }
        if(k == "weak")
        {
            suites = {MBEDTLS_TLS_RSA_WITH_AES_128_CBC_SHA, 0};
            mbedtls_ssl_conf_ciphersuites(&conf, suites.data());
        }
        mbedtls_ssl_setup(&ssl, &conf);
        mbedtls_ssl_set_bio(&ssl, this, [](void *c, const unsigned char *b, size_t n) -> int {
            ((Peer *)c)->outq.append((const char *)b, n);
            return (int)n;
        }, [](void *c, unsigned char *b, size_t n) -> int {
            auto *p = (Peer *)c;
            size_t k = std::min(n, p->inq.size() - p->inoff);
            if(!k) return MBEDTLS_ERR_SSL_WANT_READ;
            memcpy(b, p->inq.data() + p->inoff, k);
            p->inoff += k;
            return (int)k;
        }, nullptr);
        vk::active = fa;
    }
    ~Peer()
    {
        mbedtls_ssl_free(&ssl);
        mbedtls_ssl_config_free(&conf);
        mbedtls_x509_crt_free(&crt);
        mbedtls_pk_free(&key);
    }
    void pump()
    {
        if(dead) return;
        if(kind == "plain" || kind == "mute" || kind == "alert")
        {
            if(server && inq.empty()) return;
            if(kind == "plain") outq += "HTTP/1.0 400 Bad Request\r\nConnection: close\r\n\r\n";
            if(kind == "alert") outq += std::string("\x15\x03\x03\x00\x02\x02\x28", 7);
            dead = closed = true;
            return;
        }
        if(!hs)
        {
            int r = mbedtls_ssl_handshake(&ssl);
            if(r == 0) hs = true;
            else
            {
                if(r != MBEDTLS_ERR_SSL_WANT_READ && r != MBEDTLS_ERR_SSL_WANT_WRITE) dead = closed = true;
                return;
            }
        }
        while(!todo.empty() && !finsent)
        {
            std::string b;
            for(long long a = 0; a < todo.front(); a++) b.push_back((char)pat(wrote + a));
            size_t off = 0;
            while(off < b.size())
            {
                int w = mbedtls_ssl_write(&ssl, (const unsigned char *)b.data() + off, b.size() - off);
                if(w <= 0) { dead = closed = true; return; }
                off += (size_t)w;
            }
            wrote += todo.front();
            todo.pop_front();
        }
        if(fin && !finsent) { mbedtls_ssl_close_notify(&ssl); finsent = true; }
        if(eofp) closed = true;
        for(;;)
        {
            unsigned char b[4096];
            int r = mbedtls_ssl_read(&ssl, b, sizeof b);
            if(r <= 0)
            {
                if(r != MBEDTLS_ERR_SSL_WANT_READ && r != MBEDTLS_ERR_SSL_WANT_WRITE) dead = closed = true;
                break;
            }
            for(int a = 0; a < r; a++) if(b[a] != pat(got + a)) ok = false;
            got += r;
        }
        if(inoff > 1 << 16) { inq.erase(0, inoff); inoff = 0; }
    }
};

struct Obj
{
    std::unique_ptr<fr::SSLSocket> s;
    std::unique_ptr<fr::SSLListener> l;
    long long base = 0, total = 0;   // position of the message being sent, its length
    size_t sent = 0;
    std::unique_ptr<char[]> buf;
};

static std::map<int, std::unique_ptr<Peer>> peers;
static std::map<int, bool> gone;     // reads have reported the end
static std::string next_kind = "good";
static std::map<int, long long> pos;  // stream position the next received byte should come from
static bool clear_seen = false;
static std::string needle;

static Peer *peer_of(int fd)
{
    auto &p = peers[fd];
    if(!p) p.reset(new Peer(next_kind, vk::tab[fd].peer.empty()));
    return p.get();
}
static ssize_t tx(int fd, const void *d, size_t n)
{
    auto r = vk::next("snd", "100000000");
    auto *p = peer_of(fd);
    auto &f = vk::tab[fd];
    if(f.wr) r = "E32";
    if(r == "E11" && !f.nb && !f.wt) r = "100000000";     // a blocking descriptor without a timeout does not do that
    if(r[0] == 'E')
    {
        int e = atoi(r.c_str() + 1);
        Ev("KTx").i("fd", fd).s("res", vk::errcls(e)).emit();
        return -e;
    }
    size_t k = std::min<size_t>(n, (size_t)atoll(r.c_str()));
    if(!needle.empty() && std::string((const char *)d, k).find(needle) != std::string::npos) clear_seen = true;
    p->inq.append((const char *)d, k);
    Ev("KTx").i("fd", fd).s("res", k == n ? "all" : "part").emit();
    p->pump();
    return (ssize_t)k;
}
static ssize_t rx(int fd, void *d, size_t n)
{
    auto *p = peer_of(fd);
    auto &f = vk::tab[fd];
    p->pump();
    auto r = vk::next("rcv", "100000000");
    bool idle = p->outq.empty() && !p->closed && !f.nb && !f.rt; // nothing to read and nothing coming: a failure may
    while(idle && (isdigit(r[0]) || r == "E11" || r == "X") && !vk::q["rcv"].empty()) r = vk::next("rcv", "");
    if(r == "S") vk::interrupted(fd);
    if(r == "E11" && !f.nb && !f.rt) r = "100000000";
    if(f.rd) r = "Z";
    if(r == "Z") { gone[fd] = true; p->outq.clear(); }
    if(gone[fd]) { Ev("KRx").i("fd", fd).s("res", "eof").emit(); return 0; }
    if(r[0] == 'E')
    {
        int e = atoi(r.c_str() + 1);
        Ev("KRx").i("fd", fd).s("res", vk::errcls(e)).emit();
        return -e;
    }
    if(p->outq.empty())
    {
        if(p->closed) { gone[fd] = true; Ev("KRx").i("fd", fd).s("res", "eof").emit(); return 0; }
        if(f.nb || f.rt) { Ev("KRx").i("fd", fd).s("res", "again").emit(); return -EAGAIN; }
        Ev("Stuck").emit();
        _exit(88);
    }
    bool flip = r[0] == 'X';
    size_t k = std::min(n, p->outq.size());
    if(!flip) k = std::min(k, (size_t)atoll(r.c_str()));
    memcpy(d, p->outq.data(), k);
    if(!vk::peeking) p->outq.erase(0, k);
    if(flip && k > 5) ((unsigned char *)d)[k - 1] ^= 0x10; // never in a record header: a longer record would simply never end
    else flip = false;
    if(flip) p->flipped = true;
    Ev("KRx").i("fd", fd).s("res", flip ? "tampered" : "data").emit();
    return (ssize_t)k;
}

static void body(const Scenario &sc)
{
    vk::tab.clear();
    vk::lists.clear();
    vk::next_list = 1;
    peers.clear();
    gone.clear();
    pos.clear();
    next_kind = "good";
    vk::tx_hook = tx;
    vk::rx_hook = rx;
    vk::notify = [](char c, int fd) { if(c == 'x') { peers.erase(fd); gone.erase(fd); pos.erase(fd); } };
    auto ctx = std::make_shared<fr::SSLContext>();
    auto load = [&](const std::string &how, const std::string &what) {
        bool ok;
        if(how == "mem")
        {
            std::ifstream f(cert_dir + what + ".pem");
            std::string pem((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
            if(what == "garbage") pem = "not a certificate";
            if(what == "half") pem = "-----BEGIN CERTIFICATE-----\nMIIB";
            ok = ctx->load_ca_certs_from_memory(pem);
        }
        else ok = ctx->load_ca_certs_from_file(cert_dir + what + ".pem");
        Ev("Loaded").t("ok", ok).s("what", what).emit();
    };
    auto ca = sc.ps("ca", "ca");
    if(ca == "mem" || ca == "mem2") load("mem", ca == "mem2" ? "both" : "ca");
    else if(ca != "none") load("file", ca);
    std::map<int, Obj> objs;
    auto snap = [&]() {
        std::string o = "[";
        for(auto &p : objs)
        {
            if(o.size() > 1) o += ",";
            bool sock = (bool)p.second.s;
            int d = sock ? p.second.s->get_socket_descriptor() : p.second.l->get_socket_descriptor();
            bool c = sock ? p.second.s->connected() : p.second.l->connected();
            o += "{\"o\":" + std::to_string(p.first) + ",\"d\":" + std::to_string(d) + ",\"c\":" + (c ? "true" : "false");
            if(sock)
                o += std::string(",\"k\":\"sock\",\"bl\":") + (p.second.s->get_blocking() ? "true" : "false") + ",\"rt\":" +
                     vk::limbs(p.second.s->get_receive_timeout()) + ",\"wt\":" + vk::limbs(p.second.s->get_send_timeout()) + ",\"addr\":" +
                     Ev::quote(p.second.s->get_remote_address()) + "}";
            else
                o += ",\"k\":\"lst\"}";
        }
        return o + "]";
    };
    auto table = [&]() {
        std::string o = "[";
        for(auto &p : vk::tab)
        {
            if(o.size() > 1) o += ",";
            auto *q = peers.count(p.first) ? peers[p.first].get() : nullptr;
            o += "{\"fd\":" + std::to_string(p.first) + ",\"nb\":" + (p.second.nb ? "true" : "false") + ",\"nd\":" + (p.second.nd ? "true" : "false") +
                 ",\"rt\":" + vk::limbs(p.second.rt) + ",\"wt\":" + vk::limbs(p.second.wt) + ",\"est\":" + (p.second.est ? "true" : "false") +
                 ",\"hs\":" + (q && q->hs ? "true" : "false") + ",\"got\":" + std::to_string(q ? q->got : 0) + ",\"ok\":" + (!q || q->ok ? "true" : "false") + "}";
        }
        return o + "]";
    };
    auto run = [&](const std::vector<std::string> &op, const std::string &kind) {
        int o = op.size() > 1 ? atoi(op[1].c_str()) : 0;
        vk::q.clear();
        vk::calls = 0;
        vk::cands = "4";
        std::vector<std::string> a;
        for(auto &w : op)
        {
            auto eq = w.find('=');
            if(eq == std::string::npos) { a.push_back(w); continue; }
            if(w.substr(0, eq) == "L") vk::cands = w.substr(eq + 1);
            else for(auto &v : split(w.substr(eq + 1), ',')) vk::q[w.substr(0, eq)].push_back(v);
        }
        auto num = [&](size_t k) { return a.size() > k ? atoll(a[k].c_str()) : 0; };
        auto str = [&](size_t k) { return a.size() > k ? a[k] : std::string(); };
        if(kind == "newctx") // whoever uses the old context keeps it
        {
            ctx = std::make_shared<fr::SSLContext>();
            if(ca != "none") ctx->load_ca_certs_from_file(cert_dir + (ca == "mem" ? "ca" : ca == "mem2" ? "both" : ca) + ".pem");
            return;
        }
        if(kind == "load") { load(str(1), str(2)); return; }
        if(kind == "peer") { next_kind = str(1); Ev("Peer").s("kind", next_kind).emit(); return; }
        auto *O = objs.count(o) ? &objs[o] : nullptr;
        auto *S = O ? O->s.get() : nullptr;
        auto *L = O ? O->l.get() : nullptr;
        vk::intr = [&](int) {
            Ev("Int").emit();
            if(S) S->shutdown(); else L->shutdown();
            Ev("IntEnd").raw("objs", snap()).emit();
        };
        if(kind == "psend" || kind == "pend")
        {
            int fd = S->get_socket_descriptor();
            if(!vk::tab.count(fd)) return;
            auto *p = peer_of(fd);
            if(kind == "psend")
            {
                if(p->fin || p->eofp) return;
                p->todo.push_back(num(2));
                Ev("PSend").i("fd", fd).i("n", num(2)).emit();
            }
            else
            {
                if(str(2) != "eof") p->fin = true;
                if(str(2) != "fin") p->eofp = true;
                Ev("PEnd").i("fd", fd).s("how", str(2)).emit();
            }
            return;
        }
        if(kind == "recv" && S)
        {
            // a read that could only wait for ever is not made
            int fd = S->get_socket_descriptor();
            if(vk::tab.count(fd) && !vk::tab[fd].nb && !vk::tab[fd].rt && !gone[fd] && !vk::tab[fd].rd)
            {
                auto *p = peer_of(fd);
                bool waits = !p->eofp && !p->dead && (p->finsent || p->fin ? p->ended : p->rcvd >= p->wrote + std::accumulate(p->todo.begin(), p->todo.end(), 0ll));
                bool fails = false;
                for(auto &v : vk::q["rcv"]) if(v == "Z" || v == "S" || (v[0] == 'E' && v != "E4" && v != "E11")) fails = true;
                if((waits || (p->flipped && !p->eofp && !p->dead)) && !fails) return;
            }
        }
        Ev call("Call");
        call.s("op", kind).i("o", o);
        int st = -1;
        long long cnt = 0, from = -1;
        bool tailok = true, threw = false;
#define GO call.emit(); vk::active = true
        if(kind == "new")
        {
            bool sock = str(2) == "sock";
            call.t("sock", sock).s("cert", sock ? "" : str(3)).s("key", sock || op.size() < 5 ? "key" : str(4));
            GO;
            if(sock) objs[o].s.reset(new fr::SSLSocket(ctx));
            else
            {
                try { objs[o].l.reset(new fr::SSLListener(ctx, cert_dir + str(3) + ".pem", cert_dir + (op.size() > 4 ? str(4) : std::string("key")) + ".pem")); }
                catch(const std::exception &) { threw = true; objs.erase(o); }
            }
        }
        else if(kind == "del") { GO; objs.erase(o); }
        else if(kind == "ver") { call.t("v", num(2) == 1); GO; S->verify_certificates(num(2) == 1); }
        else if(kind == "conn")
        {
            call.s("host", str(2));
            GO;
            O->total = 0;
            O->base = 0;
            O->sent = 0;
            st = (int)S->connect(str(2), "443", std::chrono::seconds(1));
        }
        else if(kind == "disc") { GO; S->disconnect(); }
        else if(kind == "rel") { GO; S->set_descriptor(nullptr); }
        else if(kind == "blk") { call.t("v", num(2) == 1); GO; st = (int)S->set_blocking(num(2) == 1); }
        else if(kind == "rto") { call.raw("v", vk::limbs((uint32_t)num(2))); GO; S->set_receive_timeout((uint32_t)num(2)); }
        else if(kind == "sto") { call.raw("v", vk::limbs((uint32_t)num(2))); GO; S->set_send_timeout((uint32_t)num(2)); }
        else if(kind == "inet")
        {
            int v = (int)num(2);
            auto ip = v == 4 ? fr::Socket::IP::v4 : v == 6 ? fr::Socket::IP::v6 : fr::Socket::IP::any;
            call.i("v", v);
            GO;
            if(S) S->set_inet_version(ip); else L->set_inet_version(ip);
        }
        else if(kind == "listen") { GO; st = (int)L->listen("443"); }
        else if(kind == "acc")
        {
            int c = (int)num(2);
            call.i("c", c);
            GO;
            objs[c].base = objs[c].total = 0;
            objs[c].sent = 0;
            st = (int)L->accept(*objs[c].s);
        }
        else if(kind == "lclose") { GO; L->close_socket(); }
        else if(kind == "shut") { GO; if(S) S->shutdown(); else L->shutdown(); }
        else if(kind == "send" || kind == "resend")
        {
            if(kind == "send")
            {
                O->base += (long long)O->sent;
                O->total = num(2);
                O->sent = 0;
                O->buf.reset(new char[O->total + 1]);
                for(long long x = 0; x < O->total; x++) O->buf[x] = (char)pat(O->base + x);
                needle = O->total >= 12 ? std::string(O->buf.get(), 12) : "";
            }
            call.i("n", O->total).i("sent0", (long long)O->sent).t("fresh", kind == "send");
            GO;
            st = (int)S->send_raw(O->buf.get(), (size_t)O->total, O->sent);
            vk::active = false;
            cnt = O->sent > 100000000 ? 100000000 : (long long)O->sent;
        }
        else if(kind == "recv")
        {
            size_t n = (size_t)num(2), got = 12345;
            call.i("n", num(2));
            std::unique_ptr<char[]> heap(new char[n + 8]);
            memset(heap.get(), 0xEE, n + 8);
            GO;
            st = (int)S->receive_raw(heap.get(), n, got);
            vk::active = false;
            cnt = got > 100000000 ? 100000000 : (long long)got;
            for(size_t x = got <= n ? got : n; x < n + 8; x++) if(heap[x] != '\xEE') tailok = false;
            if(peers.count(S->get_socket_descriptor()))
            {
                auto *p = peers[S->get_socket_descriptor()].get();
                if(got <= n) p->rcvd += (long long)got;
                if(st == (int)fr::Socket::Status::Disconnected) p->ended = true;
            }
            if(got <= n && got > 0)
            {
                // where in the peer's stream do these bytes come from?
                int fd = S->get_socket_descriptor();
                long long w = peers.count(fd) ? peers[fd]->wrote : 0;
                auto &hint = pos[fd];
                auto at = [&](long long b) {
                    if(b < 0 || b + (long long)got > w) return false;
                    for(size_t x = 0; x < got; x++) if((unsigned char)heap[x] != pat(b + (long long)x)) return false;
                    return true;
                };
                if(at(hint)) from = hint;
                else for(long long b = 0; b + (long long)got <= w && from < 0; b++) if(at(b)) from = b;
                hint = from >= 0 ? from + (long long)got : 0;
            }
        }
        else { fprintf(stderr, "bad op %s\n", kind.c_str()); _exit(99); }
        vk::active = false;
        for(auto &p : peers) if(p.second) p.second->pump();
        Ev("Ret").s("op", kind).i("st", st).i("cnt", cnt).i("from", from).t("tailok", tailok).t("threw", threw).t("clear", clear_seen)
            .raw("objs", snap()).raw("fds", table()).emit();
        clear_seen = false;
    };
    for(auto &w : sc.ops) run(w, w[0]);
    std::vector<int> ids;
    for(auto &p : objs) ids.push_back(p.first);
    if(sc.ps("order") == "rev") std::reverse(ids.begin(), ids.end());
    for(int i : ids) run({"del", std::to_string(i)}, "del");
    vk::tx_hook = nullptr;
    vk::rx_hook = nullptr;
    peers.clear();
}

int main(int argc, char **argv)
{
    std::string f = __FILE__;
    cert_dir = f.substr(0, f.rfind('/')) + "/certs/";
    return run_all(argc, argv, body, vd::reset_event);
}
