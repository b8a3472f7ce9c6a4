// Listeners and their ports, on a simulated kernel that knows which ports are in use.
// ops: new o lst|ssl|sock ; inet o 0|4|6 ; listen o port DIR.. ; close o ; del o ; move o n ; adopt o port fam ;
//      peer id port fam k (a client connects; k picks among several listeners) ; acc o c DIR.. ; use c ; disc c ;
//      linger port fam (a connection of an earlier program) ; other port fam 0|1 (another program listens, or stops)
// DIR: kind=v1,v2,.. (outcomes of system calls, see simkern.h) and L=4:6 (the machine's wildcard addresses)
// parameter real=1: on the machine's own kernel (in a network of its own: lib/ownnet.sh), DIR and L are ignored
// parameter v6only: the system's default for IPv6 sockets
#include "simkern.h"
#include <memory>
#include <frnetlib/TcpSocket.h>
#include <frnetlib/TcpListener.h>
#include <frnetlib/SSLListener.h>
#include <frnetlib/SSLContext.h>
using namespace vd;

static std::string cert_dir;

// the same operations on the machine's own kernel: clients come from 10.0.0.k and fd00::k (lib/ownnet.sh: a network of its own)
namespace rk
{
    static std::vector<int> open_fds;                        // clients, and connections of others
    static std::map<std::pair<int, int>, int> others;        // (port, family) -> another program's listener
    static void addr(sockaddr_storage &ss, socklen_t &len, int fam, int k, int port, bool any)
    {
        memset(&ss, 0, sizeof ss);
        std::string t = (fam == 4 ? "10.0.0." : "fd00::") + std::to_string(k);
        if(fam == 4)
        {
            auto *a = (sockaddr_in *)&ss;
            a->sin_family = AF_INET; a->sin_port = htons((uint16_t)port); len = sizeof *a;
            if(!any) inet_pton(AF_INET, t.c_str(), &a->sin_addr);
        }
        else
        {
            auto *a = (sockaddr_in6 *)&ss;
            a->sin6_family = AF_INET6; a->sin6_port = htons((uint16_t)port); len = sizeof *a;
            if(!any) inet_pton(AF_INET6, t.c_str(), &a->sin6_addr);
        }
    }
    static int server(int port, int fam, bool share)
    {
        sockaddr_storage ss;
        socklen_t l;
        addr(ss, l, fam, 0, port, true);
        int f = socket(ss.ss_family, SOCK_STREAM, 0), one = 1;
        setsockopt(f, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
        if(share) setsockopt(f, SOL_SOCKET, SO_REUSEPORT, &one, sizeof one);
        if(fam == 6) setsockopt(f, IPPROTO_IPV6, IPV6_V6ONLY, &one, sizeof one);
        if(bind(f, (sockaddr *)&ss, l) != 0 || listen(f, 64) != 0) { close(f); return -1; }
        return f;
    }
    static int client(int id, int port, int fam)
    {
        sockaddr_storage ss;
        socklen_t l;
        addr(ss, l, fam, 1 + id % 90, 0, false);
        int f = socket(ss.ss_family, SOCK_STREAM | SOCK_NONBLOCK, 0);
        if(bind(f, (sockaddr *)&ss, l) != 0) { perror("bind"); _exit(99); }
        addr(ss, l, fam, 1, port, false);
        int r = connect(f, (sockaddr *)&ss, l);
        if(r != 0 && errno == EINPROGRESS)
        {
            pollfd p = {f, POLLOUT, 0};
            int so = 0;
            socklen_t n = sizeof so;
            if(poll(&p, 1, 300) == 1) { getsockopt(f, SOL_SOCKET, SO_ERROR, &so, &n); r = so ? -1 : 0; }
        }
        if(r != 0) { close(f); return -1; }
        open_fds.push_back(f);
        return f;
    }
    static void linger(int port, int fam)
    {
        int s = server(port, fam, false);
        if(s < 0) return;
        if(client(0, port, fam) >= 0) { int c = accept(s, nullptr, nullptr); if(c >= 0) close(c); close(open_fds.back()); open_fds.pop_back(); }
        close(s);
    }
    static bool waits(int fd)
    {
        pollfd p = {fd, POLLIN, 0};
        return fd >= 0 && poll(&p, 1, 30) == 1 && (p.revents & POLLIN);
    }
    static std::string families(int ver)
    {
        addrinfo h = {}, *r = nullptr;
        h.ai_family = ver == 4 ? AF_INET : ver == 6 ? AF_INET6 : AF_UNSPEC;
        h.ai_socktype = SOCK_STREAM;
        h.ai_flags = AI_PASSIVE;
        std::string o;
        if(getaddrinfo(nullptr, "80", &h, &r) != 0) return o;
        for(auto *p = r; p; p = p->ai_next) o += p->ai_family == AF_INET6 ? '6' : '4';
        freeaddrinfo(r);
        return o;
    }
    static void over()
    {
        for(int f : open_fds) close(f);
        for(auto &o : others) close(o.second);
        open_fds.clear();
        others.clear();
    }
}

static void body(const Scenario &sc)
{
    vk::tab.clear();
    vk::lists.clear();
    vk::left.clear();
    vk::next_list = 1;
    vk::ports = true;
    bool real = sc.pi("real") == 1;
    std::map<int, int> version;
    vk::v6only_default = sc.pi("v6only") == 1;
    std::map<int, std::unique_ptr<fr::Listener>> ls;
    std::map<int, std::unique_ptr<fr::TcpSocket>> ss;
    static auto ctx = std::make_shared<fr::SSLContext>();
    auto quiet = [real](const std::function<void()> &f) { mute = true; vk::active = !real; f(); vk::active = false; mute = false; };
    auto run = [&](const std::vector<std::string> &op) {
        const std::string &kind = op[0];
        vk::q.clear();
        vk::calls = 0;
        vk::cands = "4";
        std::vector<std::string> a;
        bool fault = false;
        for(auto &w : op)
        {
            auto eq = w.find('=');
            if(eq == std::string::npos) { a.push_back(w); continue; }
            if(w.substr(0, eq) == "L") vk::cands = w.substr(eq + 1);
            else for(auto &v : split(w.substr(eq + 1), ',')) { vk::q[w.substr(0, eq)].push_back(v); if(v[0] == 'E') fault = true; }
        }
        auto num = [&](size_t k) { return a.size() > k ? atoi(a[k].c_str()) : 0; };
        int o = num(1), n = num(2), m = num(3), st = -1;
        if(kind == "new")
        {
            if(a[2] == "sock") { quiet([&] { ss[o].reset(new fr::TcpSocket()); }); return; }
            quiet([&] {
                if(a[2] == "lst") ls[o].reset(new fr::TcpListener());
                else { vk::active = false; ls[o].reset(new fr::SSLListener(ctx, cert_dir + "good.pem", cert_dir + "key.pem")); }
            });
            version.erase(o);
            Ev("New").i("o", o).emit();
        }
        else if(kind == "inet")
        {
            version[o] = n;
            ls[o]->set_inet_version(n == 4 ? fr::Socket::IP::v4 : n == 6 ? fr::Socket::IP::v6 : fr::Socket::IP::any);
            Ev("Inet").i("o", o).i("v", n).emit();
        }
        else if(kind == "listen")
        {
            if(real) vk::cands = rk::families(version[o]);
            quiet([&] { st = (int)ls[o]->listen(a[2]); });
            std::string c = "[";
            for(char x : vk::cands) if(x != ':') { if(c.size() > 1) c += ","; c += x; }
            Ev("Listen").i("o", o).i("port", n).raw("cands", c + "]").t("fault", fault).i("st", st).t("up", ls[o]->connected()).emit();
        }
        else if(kind == "close") { quiet([&] { ls[o]->close_socket(); }); Ev("Close").i("o", o).t("up", ls[o]->connected()).emit(); }
        else if(kind == "del") { quiet([&] { ls.erase(o); }); Ev("Gone").i("o", o).emit(); }
        else if(kind == "move")
        {
            auto *t = dynamic_cast<fr::TcpListener *>(ls[o].get());
            if(!t) return;
            version[n] = version[o];
            quiet([&] { std::unique_ptr<fr::Listener> fresh(new fr::TcpListener(std::move(*t))); ls[n] = std::move(fresh); });
            Ev("Move").i("o", o).i("c", n).t("up", ls[n]->connected()).emit();
        }
        else if(kind == "adopt")
        {
            if(ls[o]->connected()) return;
            if(real)
            {
                int g = rk::server(n, m, true);
                if(g < 0) return;
                ls[o]->set_socket_descriptor(g);
                Ev("Adopt").i("o", o).i("port", n).i("fam", m).emit();
                return;
            }
            int f = vk::lowest();
            vk::FD d;
            d.fam = m == 6 ? AF_INET6 : AF_INET;
            d.port = n; d.reuse = d.share = d.lsn = d.v6only = true; d.backlog = 64;
            if(vk::in_use(d, f)) return;
            vk::tab[f] = d;
            quiet([&] { ls[o]->set_socket_descriptor(f); });
            Ev("Adopt").i("o", o).i("port", n).i("fam", m).emit();
        }
        else if(kind == "peer")
        {
            if(real)
            {
                bool got = rk::client(o - 1, n, m) >= 0;
                Ev("Peer").i("id", o).i("port", n).i("fam", m).s("by", !got ? "none" : rk::others.count({n, m}) ? "other" : "us").emit();
                return;
            }
            std::vector<int> to;
            for(auto &p : vk::tab) if(p.second.lsn && p.second.port == n && p.second.serves(m)) to.push_back(p.first);
            std::string by = "none";
            if(!to.empty())
            {
                auto &f = vk::tab[to[(size_t)num(4) % to.size()]];
                if((int)f.pend.size() <= std::max(f.backlog, 0))
                {
                    f.pend.push_back(std::to_string(m) + ":" + std::to_string(o));
                    by = f.ext ? "other" : "us";
                }
            }
            Ev("Peer").i("id", o).i("port", n).i("fam", m).s("by", by).emit();
        }
        else if(kind == "acc")
        {
            int d = ls[o]->get_socket_descriptor();
            bool waits = real ? rk::waits(d) : vk::tab.count(d) && vk::tab[d].lsn && !vk::tab[d].pend.empty(), on = ls[o]->connected();
            if(waits || !on) quiet([&] { st = (int)ls[o]->accept(*ss[n]); });
            Ev("Acc").i("o", o).i("c", n).t("waits", waits).t("fault", fault).i("st", st).s("peer", ss[n]->get_remote_address()).t("up", ss[n]->connected()).emit();
        }
        else if(kind == "use")
        {
            size_t sent = 0;
            quiet([&] { st = (int)ss[o]->send_raw("x", 1, sent); });
            Ev("Use").i("c", o).i("st", st).emit();
        }
        else if(kind == "disc") { quiet([&] { ss[o]->disconnect(); }); Ev("Disc").i("c", o).emit(); }
        else if(kind == "linger")
        {
            if(real) rk::linger(o, n);
            else vk::left.push_back({o, n == 4, n == 6, true, false});
            Ev("Linger").emit();
        }
        else if(kind == "other")
        {
            if(real)
            {
                auto k = std::make_pair(o, n);
                if(m == 1)
                {
                    int f = rk::others.count(k) ? -1 : rk::server(o, n, false);
                    if(f < 0) return;
                    rk::others[k] = f;
                }
                else
                {
                    if(!rk::others.count(k)) return;
                    close(rk::others[k]);
                    rk::others.erase(k);
                }
                Ev("Other").i("port", o).i("fam", n).t("on", m == 1).emit();
                return;
            }
            bool had = false;
            for(auto p = vk::tab.begin(); p != vk::tab.end();)
            {
                bool it = p->second.ext && p->second.port == o && p->second.serves(n);
                had = had || it;
                if(it && m == 0) p = vk::tab.erase(p); else ++p;
            }
            if(m == 1)
            {
                vk::FD d;
                d.fam = n == 6 ? AF_INET6 : AF_INET;
                d.port = o; d.reuse = d.lsn = d.v6only = d.ext = true; d.backlog = 1000;
                int f = vk::lowest();
                if(had || vk::in_use(d, f)) return;
                vk::tab[f] = d;
            }
            else if(!had) return;
            Ev("Other").i("port", o).i("fam", n).t("on", m == 1).emit();
        }
        else { fprintf(stderr, "bad op %s\n", kind.c_str()); _exit(99); }
    };
    for(auto &w : sc.ops) run(w);
    quiet([&] { ls.clear(); ss.clear(); });
    if(real) rk::over();
}

int main(int argc, char **argv)
{
    std::string f = __FILE__;
    cert_dir = f.substr(0, f.rfind('/')) + "/certs/";
    return run_all(argc, argv, body);
}
