// WebSocket handshakes and endings (C21..C23), over a scripted transport (t=s) or TcpSocket on the simulated kernel (t=k).
// params: t=s|k
// ops: wire in|out ITEMS (appended; see below) ; connect PATHHEX PROTOHEX,... [conn=E111] ; accept ; adopt 0|1 ; blk 0|1
//      send OP FIN HEX ; recv ; disc ; del ; new ; more HEX (frames wait to be read behind what is there)
// input items: D<hex> W T X E, and R<hex>:n:n:W:... a text cut into pieces of n bytes with outcomes in between, in which
// @A stands for the accept value of the key sent, @B for it in lower case, @C for it cut short, @D with something added, @E of another key, @K the key
// output items: A<n> W T E
#include "simkern.h"
#include "sock.h"
#include <memory>
#include <frnetlib/TcpSocket.h>
#include <frnetlib/TcpListener.h>
#include <frnetlib/WebSocket.h>
#include <mbedtls/sha1.h>
#include <mbedtls/base64.h>
using namespace vd;

static Bytes accept_of(const Bytes &key)
{
    Bytes in = key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11";
    unsigned char d[20], o[64];
    size_t n = 0;
    mbedtls_sha1((const unsigned char *)in.data(), in.size(), d);
    mbedtls_base64_encode(o, sizeof o, &n, d, 20);
    return Bytes((char *)o, n);
}

// consecutive reads (writes) are recorded as one: how they are cut up must not matter
static thread_local Bytes merged;
static thread_local const char *merging = nullptr;
static void emit_now(Ev e) { bool m = mute; mute = false; e.emit(); mute = m; }
static void flush()
{
    if(merging) emit_now(Ev(merging).s("k", "D").b("b", merged));
    merging = nullptr;
    merged.clear();
}
static void emit(Ev e) { flush(); emit_now(e); }
static void on_io(const char *what, char k, const Bytes &b)
{
    if(merging && (k != 'D' || strcmp(merging, what))) flush();
    if(k == 'D') { merging = what; merged += b; }
    else emit_now(Ev(what).s("k", std::string(1, k)).b("b", b));
}
static void on_recv(char k, const Bytes &b) { on_io("TRecv", k, b); }
static void on_send(char k, const Bytes &b) { on_io("TSend", k, b); }

struct Wire
{
    std::deque<Item> in, out;
    Bytes sent;
    long long n = 0;
    void tick() { maybe_turn(); if(++n > 200000) { emit(Ev("Spin")); _exit(87); } }
    Bytes key() const
    {
        auto l = sent;
        for(auto &c : l) c = (char)tolower(c);
        auto p = l.find("sec-websocket-key:");
        if(p == Bytes::npos) return "";
        p += 18;
        while(p < sent.size() && sent[p] == ' ') ++p;
        auto e = sent.find('\r', p);
        return sent.substr(p, e == Bytes::npos ? e : e - p);
    }
    void add(bool input, const std::string &items)
    {
        for(auto &w : split(items, ','))
        {
            Item it;
            it.k = w[0];
            if(it.k == 'D') it.d = unhex(w.substr(1));
            if(it.k == 'R') it.d = w.substr(1);
            if(it.k == 'A') it.n = (size_t)atoll(w.c_str() + 1);
            (input ? in : out).push_back(it);
        }
    }
    void expand()
    {
        auto w = split(in.front().d, ':');
        in.pop_front();
        Bytes t = unhex(w[0]), o, k = key();
        Bytes a = accept_of(k);
        for(size_t i = 0; i < t.size(); i++)
        {
            if(t[i] != '@' || i + 1 >= t.size()) { o += t[i]; continue; }
            char c = t[++i];
            if(c == 'A') o += a;
            else if(c == 'B') for(char x : a) o += (char)tolower(x);
            else if(c == 'C') o += a.substr(0, a.size() - 1);
            else if(c == 'D') o += a + "x";
            else if(c == 'E') o += accept_of(k + "x");
            else if(c == 'K') o += k;
            else if(c == '@') o += c;
        }
        std::deque<Item> v;
        size_t at = 0;
        auto piece = [&](size_t n) {
            n = std::min(n, o.size() - at);
            if(!n) return;
            Item it;
            it.k = 'D';
            it.d = o.substr(at, n);
            at += n;
            v.push_back(it);
        };
        for(size_t i = 1; i < w.size(); i++)
        {
            if(isdigit(w[i][0])) piece((size_t)atoll(w[i].c_str()));
            else { Item it; it.k = w[i][0]; v.push_back(it); }
        }
        piece(o.size());
        in.insert(in.begin(), v.begin(), v.end());
    }
    // 'D' and data, or the kind of failure
    char read(size_t max, Bytes &b)
    {
        tick();
        while(!in.empty() && (in.front().k == 'R' || (in.front().k == 'D' && in.front().d.empty())))
        {
            if(in.front().k == 'R') expand(); else in.pop_front();
        }
        if(in.empty()) return 'X';
        auto &it = in.front();
        if(it.k == 'D')
        {
            size_t k = std::min(max, it.d.size());
            b = it.d.substr(0, k);
            it.d.erase(0, k);
            if(it.d.empty()) in.pop_front();
            return 'D';
        }
        char k = it.k;
        if(k == 'W' || k == 'T') in.pop_front();
        return k;
    }
    // the number of bytes taken, or -kind
    long write(const char *d, size_t n)
    {
        tick();
        if(out.empty()) { sent.append(d, n); return (long)n; }
        auto &it = out.front();
        if(it.k == 'A')
        {
            size_t k = std::min(n, it.n);
            out.pop_front();
            sent.append(d, k);
            return (long)k;
        }
        char k = it.k;
        if(k != 'E') out.pop_front();
        return -(long)k;
    }
};
static thread_local Wire wire;
static thread_local bool connect_fails = false;
class WireSocket : public fr::Socket
{
public:
    ~WireSocket() override { close_socket(); }
    bool open = false, blocking = true;
    Status connect(const std::string &, const std::string &, std::chrono::seconds) override
    {
        close_socket();
        if(connect_fails) return Status::NoRouteToHost;
        open = true;
        wire.sent.clear();
        emit(Ev("TConn"));
        return Status::Success;
    }
    Status set_blocking(bool b) override { blocking = b; return Status::Success; }
    bool get_blocking() const override { return blocking; }
    bool connected() const override { return open; }
    int32_t get_socket_descriptor() const override { return open ? 77 : -1; }
    void set_descriptor(void *d) override { close_socket(); open = d && *(int *)d >= 0; if(open) emit(Ev("TConn")); }
    void reconfigure_socket() override {}
    void close_socket() override { if(open) emit(Ev("TClose").t("ok", true)); open = false; }
    static Status failed(char k)
    {
        return k == 'W' ? Status::WouldBlock : k == 'T' ? Status::Timeout : k == 'X' ? Status::Disconnected : Status::ReceiveError;
    }
    Status receive_raw(void *data, size_t size, size_t &received) override
    {
        received = 0;
        if(!open) { on_recv('-', ""); return Status::ReceiveError; }
        Bytes b;
        char k = wire.read(size, b);
        on_recv(k, b);
        if(k != 'D') return failed(k);
        memcpy(data, b.data(), b.size());
        received = b.size();
        return Status::Success;
    }
    Status send_raw(const char *data, size_t size, size_t &sent) override
    {
        while(sent < size)
        {
            if(!open) { on_send('-', ""); return Status::SendError; }
            long r = wire.write(data + sent, size - sent);
            if(r >= 0) { on_send('D', Bytes(data + sent, (size_t)r)); sent += (size_t)r; continue; }
            on_send((char)-r, "");
            return -r == 'E' ? Status::SendError : failed((char)-r);
        }
        return Status::Success;
    }
};

// what the simulated kernel's connections carry
static thread_local int conn_fd = -1;
static void hook()
{
    vk::tx_hook = [](int fd, const void *d, size_t n) -> ssize_t {
        if(fd != conn_fd) { on_send(fd < 0 ? '-' : '!', ""); return -EBADF; }
        long r = wire.write((const char *)d, n);
        if(r >= 0) { on_send('D', Bytes((const char *)d, (size_t)r)); return r; }
        char k = (char)-r;
        if(k == 'W' || k == 'T') k = vk::tab[fd].nb ? 'W' : 'T';
        on_send(k, "");
        return k == 'E' || k == 'X' ? -EPIPE : -EAGAIN;
    };
    vk::rx_hook = [](int fd, void *d, size_t n) -> ssize_t {
        if(fd != conn_fd) { on_recv(fd < 0 ? '-' : '!', ""); return -EBADF; }
        Bytes b;
        char k = wire.read(n, b);
        if(k == 'W' || k == 'T') k = vk::tab[fd].nb ? 'W' : 'T';
        on_recv(k, b);
        if(k == 'D') { memcpy(d, b.data(), b.size()); return (ssize_t)b.size(); }
        return k == 'X' ? 0 : k == 'E' ? -ECONNRESET : -EAGAIN;
    };
    vk::notify = [](char w, int fd) {
        if(w == 'c' || w == 'a') { conn_fd = fd; wire.sent.clear(); emit(Ev("TConn")); }
        else if(fd == conn_fd && w == 'x') { conn_fd = -1; emit(Ev("TClose").t("ok", true)); }
        else if(w == '!') emit(Ev("TClose").t("ok", false));
    };
}

template<typename Base> static void body(const Scenario &sc, bool kern)
{
    wire = Wire();
    merging = nullptr;
    merged.clear();
    conn_fd = -1;
    if(kern)
    {
        vk::tab.clear();
        vk::lists.clear();
        vk::next_list = 1;
        vk::q.clear();
        vk::cands = "4";
    }
    mute = true;
    typedef fr::WebSocket<Base> W;
    std::unique_ptr<W> s(new W());
    std::unique_ptr<fr::TcpListener> lst;
    int lfd = -1;
    bool client = true;
    auto del = [&]() { if(kern) vk::active = true; s.reset(); if(kern) vk::active = false; };
    auto ret = [&](const std::string &op, int st, bool thrown, int fop = 0, bool fin = false, const Bytes &pl = "") {
        bool c = s && s->connected();
        int left = 0;
        if(kern) { for(auto &p : vk::tab) if(p.first != lfd) ++left; }
        else left = c;
        emit(Ev("Ret").s("op", op).i("st", st).t("thrown", thrown).t("conn", c).t("desc", s && s->get_socket_descriptor() >= 0).i("left", left)
             .i("fop", fop).t("fin", fin).b("pl", pl));
    };
    for(auto op : sc.ops)
    {
        auto k = op[0];
        if(kern) { vk::q.clear(); vk::calls = 0; }
        int st = -1;
        bool thrown = false;
        if(k == "wire" && op[1] == "new") { wire.in.clear(); wire.out.clear(); continue; }
        if(k == "wire") { wire.add(op[1] == "in", op[2]); continue; }
        if(k == "more") { Item it; it.k = 'D'; it.d = unhex(op[1]); wire.in.push_back(it); continue; }
        if(k == "new") { if(s) { emit(Ev("Call").s("op", "del")); del(); ret("del", -1, false); } s.reset(new W()); emit(Ev("New")); continue; }
        if(k == "sha" || k == "b64")
        {
            Bytes in = unhex(op[1]);
            emit(Ev(k == "sha" ? "Sha" : "B64").b("b", in).b("out", k == "sha" ? fr::Sha1::sha1_digest(in) : fr::Base64::encode(in)));
            continue;
        }
        if(!s) continue;
        if(k == "connect")
        {
            client = true;
            Bytes path = unhex(op[1]);
            std::vector<std::string> pr;
            std::string list = "[";
            if(op[2] != "-") for(auto &x : split(op[2], ',')) { pr.push_back(unhex(x)); list += (list.size() > 1 ? "," : "") + Ev::arr(pr.back()); }
            connect_fails = op.size() > 3;
            if(kern && connect_fails) vk::q["conn"].push_back(op[3].substr(5));
            emit(Ev("Call").s("op", k).b("path", path).raw("protos", list + "]"));
            if(kern) vk::active = true;
            try { st = path == "-" ? (int)s->connect("h", "1", std::chrono::seconds(0)) : (int)s->connect("host.example", "80", path, pr, std::chrono::seconds(1)); }
            catch(const std::exception &) { thrown = true; }
            if(kern) vk::active = false;
            ret(k, st, thrown);
        }
        else if(k == "accept" || k == "adopt")
        {
            client = false;
            if(kern && k == "accept" && !lst)
            {
                lst.reset(new fr::TcpListener());
                vk::active = true;
                lst->listen("80");
                if(kern) vk::active = false;
                lfd = lst->get_socket_descriptor();
            }
            emit(Ev("Call").s("op", "accept"));
            int fd = 78;
            if(kern && k == "adopt")
            {
                fd = vk::lowest();
                vk::tab[fd] = vk::FD();
                vk::tab[fd].est = true;
                vk::tab[fd].nb = op[1] == "1";
                int keep = conn_fd;
                if(keep < 0) { conn_fd = fd; emit(Ev("TConn")); }
            }
            if(kern) vk::active = true;
            try
            {
                if(kern && k == "accept") st = (int)lst->accept(*s);
                else { s->set_descriptor(&fd); st = 1; }
            }
            catch(const std::exception &) { thrown = true; }
            if(kern) vk::active = false;
            ret("accept", st, thrown);
        }
        else if(k == "blk")
        {
            if(kern) vk::active = true;
            s->set_blocking(op[1] == "1");
            if(kern) vk::active = false;
        }
        else if(k == "send" || k == "recv")
        {
            std::unique_ptr<fr::WebFrame> f(client ? (fr::WebFrame *)new fr::ClientWebFrame() : (fr::WebFrame *)new fr::ServerWebFrame());
            Bytes pl;
            if(k == "send")
            {
                pl = unhex(op[3]);
                f->set_opcode((fr::WebFrame::Opcode)atoi(op[1].c_str()));
                f->set_final(op[2] == "1");
                f->set_payload(pl);
            }
            emit(Ev("Call").s("op", k).i("fop", (int)f->get_opcode()).t("fin", f->is_final()).b("pl", pl));
            if(kern) vk::active = true;
            try { st = k == "send" ? (int)s->send(*f) : (int)s->receive(*f); }
            catch(const std::exception &) { thrown = true; }
            if(kern) vk::active = false;
            ret(k, st, thrown, (int)f->get_opcode(), f->is_final(), f->get_payload());
        }
        else if(k == "disc")
        {
            emit(Ev("Call").s("op", k));
            if(kern) vk::active = true;
            try { s->disconnect(); }
            catch(const std::exception &) { thrown = true; }
            if(kern) vk::active = false;
            ret(k, st, thrown);
        }
        else if(k == "del")
        {
            emit(Ev("Call").s("op", k));
            del();
            ret(k, st, thrown);
        }
        else { fprintf(stderr, "bad op %s\n", k.c_str()); _exit(99); }
    }
    if(s) { emit(Ev("Call").s("op", "del")); del(); ret("del", -1, false); }
    if(kern) vk::active = true;
    lst.reset();
    if(kern) vk::active = false;
    mute = false;
}

int main(int argc, char **argv)
{
    hook();
    return run_all(argc, argv, [](const Scenario &s) {
        if(s.ps("t") == "k") body<fr::TcpSocket>(s, true); else body<WireSocket>(s, false);
    }, [](const Scenario &s) { mute = false; reset_event(s); });
}
