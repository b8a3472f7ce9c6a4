// A simulated kernel: while `vk::active`, the socket system calls of this process act on a scripted table of
// descriptors and are recorded as normalised events. Otherwise everything passes through to the real calls.
#pragma once
#include "common.h"
#include <deque>
#include <dlfcn.h>
#include <stdarg.h>
#include <signal.h>
#include <poll.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <netdb.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/ioctl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>

namespace vk
{
    using vd::Ev;
    struct FD
    {
        int fam = AF_INET;
        bool nb = false, ext = false, est = false, prog = false;
        int so = 0, cand = 0;
        unsigned long long rt = 0, wt = 0; // timeouts in force, milliseconds
        bool nd = false;
        bool rd = false, wr = false;       // shut down for reading, for writing
        bool waited = false;               // somebody waited for it to become ready
        long long rxc = 0;
        std::string peer;
        // ports: which one it is bound to, what for, and who is waiting there
        int port = -1, backlog = 0;
        bool reuse = false, share = false, v6only = false, lsn = false;
        std::deque<std::string> pend;
        bool serves(int f) const { return fam == AF_INET ? f == 4 : f == 6 || !v6only; }
    };
    // With `ports` set, addresses are wildcard addresses with real port numbers and binding takes what is in use into account.
    struct Left { int port; bool four, six, reuse, share; };
    static bool ports = false, v6only_default = false;
    static std::vector<Left> left;             // connections the kernel still remembers
    static bool active = false;
    static long long skew_ms = 0;              // time which simulated waiting has taken
    static int base = 64;
    static std::map<int, FD> tab;
    static std::map<std::string, std::deque<std::string>> q;
    static std::map<addrinfo *, int> lists;
    static int next_list = 1;
    static std::string cands = "4";
    static std::string sent_bytes;
    static int calls = 0;
    // a driver may take over the data of connections, and be told of their beginning and end
    static std::function<ssize_t(int, const void *, size_t)> tx_hook;      // -errno on failure
    static std::function<ssize_t(int, void *, size_t)> rx_hook;
    static std::function<void(char, int)> notify;      // 'c' connected, 'a' accepted, 'x' closed, '!' closed though not open

    static std::function<void(int)> intr;              // another thread's chance while this one is blocked on the descriptor

    static std::string next(const std::string &k, const std::string &def)
    {
        auto &d = q[k];
        if(d.empty()) return def;
        auto v = d.front();
        d.pop_front();
        return v;
    }
    static bool in_use(const FD &n, int self)
    {
        auto meets = [&](bool four, bool six) { return (n.serves(4) && four) || (n.serves(6) && six); };
        for(auto &l : left)
            if(l.port == n.port && meets(l.four, l.six) && !(n.reuse && l.reuse) && !(n.share && l.share)) return true;
        for(auto &p : tab)
        {
            auto &o = p.second;
            if(p.first == self || o.port != n.port || !meets(o.serves(4), o.serves(6)) || (n.share && o.share)) continue;
            if(o.lsn || !(n.reuse && o.reuse)) return true;
        }
        return false;
    }
    static int lowest()
    {
        int f = base;
        while(tab.count(f)) ++f;
        return f;
    }
    static bool fail(const std::string &r)
    {
        if(r[0] != 'E') return false;
        errno = atoi(r.c_str() + 1);
        return true;
    }
    static bool bad(int fd)
    {
        if(tab.count(fd)) return false;
        errno = EBADF;
        return true;
    }
    static void tick()
    {
        if(++calls > 5000) { Ev("Spin").emit(); _exit(87); }
    }
    template<typename F> static F real(const char *n)
    {
        return (F)dlsym(RTLD_NEXT, n);
    }
    static const char *errcls(int e)
    {
        return e == EINTR ? "intr" : (e == EAGAIN || e == EWOULDBLOCK) ? "again" : "other";
    }
    static int famno(int f) { return f == AF_INET ? 4 : f == AF_INET6 ? 6 : f == AF_UNSPEC ? 0 : 99; }
    static void sim_addr(int fam, int k, sockaddr_storage &ss, socklen_t &len, const char *net4, const char *net6)
    {
        memset(&ss, 0, sizeof ss);
        char b[64];
        if(fam == AF_INET)
        {
            auto *a = (sockaddr_in *)&ss;
            a->sin_family = AF_INET;
            a->sin_port = htons(1000 + k);
            snprintf(b, sizeof b, "%s%d", net4, k);
            inet_pton(AF_INET, b, &a->sin_addr);
            len = sizeof *a;
        }
        else
        {
            auto *a = (sockaddr_in6 *)&ss;
            a->sin6_family = AF_INET6;
            a->sin6_port = htons(1000 + k);
            snprintf(b, sizeof b, "%s%d", net6, k);
            inet_pton(AF_INET6, b, &a->sin6_addr);
            len = sizeof *a;
        }
    }
    static int cand_of(const sockaddr *a, socklen_t len)
    {
        if(a->sa_family == AF_INET && len >= sizeof(sockaddr_in)) return ntohs(((sockaddr_in *)a)->sin_port) - 1000;
        if(a->sa_family == AF_INET6 && len >= sizeof(sockaddr_in6)) return ntohs(((sockaddr_in6 *)a)->sin6_port) - 1000;
        return -1;
    }
    static int wait_ready(int fd, long long ms)
    {
        auto r = next("wait", "R");
        auto &f = tab[fd];
        if(fail(r)) { Ev("KWait").i("fd", fd).i("ms", ms).s("res", "err").t("est", false).emit(); errno = atoi(r.c_str() + 1); return -1; }
        if(r[0] == 'I')                        // a signal, after so many milliseconds
        {
            int adv = atoi(r.c_str() + 1);
            if(ms >= 0 && adv > ms) adv = (int)ms;
            skew_ms += adv;
            Ev("KWait").i("fd", fd).i("ms", ms).s("res", "intr").i("adv", adv).t("est", false).emit();
            errno = EINTR;
            return -1;
        }
        if(r == "T")
        {
            Ev("KWait").i("fd", fd).i("ms", ms).s("res", "timeout").t("est", false).emit();
            if(ms > 0) skew_ms += ms;
            return 0;
        }
        if(f.prog)
        {
            f.prog = false;
            f.so = atoi(next("so", "0").c_str());
            f.est = f.so == 0;
        }
        f.waited = true;
        Ev("KWait").i("fd", fd).i("ms", ms).s("res", "ready").t("est", f.est).emit();
        return 1;
    }
    static std::string limbs(unsigned long long v)
    {
        return "[" + std::to_string((v >> 16) & 0xffff) + "," + std::to_string(v & 0xffff) + "]";
    }
    static int set_nb(int fd, bool nb)
    {
        auto r = next("nb", "ok");
        int e = atoi(r.c_str() + 1);
        bool f = r[0] == 'E';
        if(!f) tab[fd].nb = nb;
        Ev("KNb").i("fd", fd).t("nb", nb).t("ok", !f).emit();
        if(f) { errno = e; return -1; }
        return 0;
    }
    // the call in progress blocks on fd until another thread shuts the descriptor down
    static void interrupted(int fd)
    {
        if(intr) intr(fd);
        if(!tab.count(fd) || !tab[fd].rd) { Ev("Stuck").emit(); _exit(88); }
    }
    static bool scripted_interruption(const char *k)
    {
        if(q[k].empty() || q[k].front() != "S") return false;
        q[k].pop_front();
        return true;
    }
    // writing to a connection nobody reads any more: the signal comes first
    static void broken_pipe(int e, int flags)
    {
        if(e == EPIPE && !(flags & MSG_NOSIGNAL)) raise(SIGPIPE);
        errno = e;
    }
    // a call which asks not to wait, on a descriptor which would have waited: too early
    static bool too_early(int fd, int flags)
    {
        bool w = tab[fd].waited;
        tab[fd].waited = false;
        return (flags & MSG_DONTWAIT) && !tab[fd].nb && !w;
    }
    static bool peeking = false;
    static ssize_t do_send(int fd, const void *d, size_t n, int flags)
    {
        tick();
        std::string b((const char *)d, n);
        if(bad(fd)) { Ev("KSend").i("fd", fd).b("b", b).i("res", -1).s("err", "other").emit(); errno = EBADF; return -1; }
        if(too_early(fd, flags)) { if(tx_hook) Ev("KTx").i("fd", fd).s("res", "nowait").emit(); else Ev("KSend").i("fd", fd).b("b", b).i("res", -1).s("err", "nowait").emit(); errno = EAGAIN; return -1; }
        if(!tx_hook && tab[fd].wr) { Ev("KSend").i("fd", fd).b("b", b).i("res", -1).s("err", "other").emit(); broken_pipe(EPIPE, flags); return -1; }
        if(tx_hook) { ssize_t k = tx_hook(fd, d, n); if(k < 0) { broken_pipe((int)-k, flags); return -1; } return k; }
        auto r = next("snd", "1000000");
        if(r[0] == 'E')
        {
            int e = atoi(r.c_str() + 1);
            Ev("KSend").i("fd", fd).b("b", b).i("res", -1).s("err", errcls(e)).emit();
            broken_pipe(e, flags);
            return -1;
        }
        size_t k = std::min<size_t>(n, (size_t)atoll(r.c_str()));
        sent_bytes.append((const char *)d, k);
        Ev("KSend").i("fd", fd).b("b", b).i("res", (long long)k).s("err", "").emit();
        return (ssize_t)k;
    }
    static ssize_t do_recv(int fd, void *d, size_t n, int flags)
    {
        tick();
        if(bad(fd)) { Ev("KRecv").i("fd", fd).i("max", (long long)n).i("res", -1).s("err", "other").b("b", "").emit(); errno = EBADF; return -1; }
        if(too_early(fd, flags)) { if(rx_hook) Ev("KRx").i("fd", fd).s("res", "nowait").emit(); else Ev("KRecv").i("fd", fd).i("max", (long long)n).i("res", -1).s("err", "nowait").b("b", "").emit(); errno = EAGAIN; return -1; }
        peeking = flags & MSG_PEEK;
        if(scripted_interruption("rcv")) interrupted(fd);
        if(!rx_hook && tab[fd].rd) { Ev("KRecv").i("fd", fd).i("max", (long long)n).i("res", 0).s("err", "").b("b", "").emit(); return 0; }
        if(rx_hook) { ssize_t k = rx_hook(fd, d, n); if(k < 0) { errno = (int)-k; return -1; } return k; }
        auto r = next("rcv", "0");
        if(r[0] == 'E')
        {
            int e = atoi(r.c_str() + 1);
            Ev("KRecv").i("fd", fd).i("max", (long long)n).i("res", -1).s("err", errcls(e)).b("b", "").emit();
            errno = e;
            return -1;
        }
        size_t k = std::min<size_t>(n, (size_t)atoll(r.c_str()));
        if((flags & MSG_WAITALL) && k < n && k > 0 && !tab[fd].nb) { Ev("Stuck").emit(); _exit(88); } // the rest may never come
        std::string b;
        for(size_t a = 0; a < k; a++) b.push_back((char)((tab[fd].rxc + (long long)a) * 3 + 1));
        if(!peeking) tab[fd].rxc += (long long)k;
        memcpy(d, b.data(), k);
        Ev("KRecv").i("fd", fd).i("max", (long long)n).i("res", (long long)k).s("err", "").b("b", b).emit();
        return (ssize_t)k;
    }
}

extern "C"
{
    int socket(int fam, int type, int proto)
    {
        using namespace vk;
        if(!active) return real<int (*)(int, int, int)>("socket")(fam, type, proto);
        tick();
        auto r = next("sock", "ok");
        if(r[0] == 'E')
        {
            Ev("KSock").i("fam", famno(fam)).i("fd", -1).t("nb", false).emit();
            errno = atoi(r.c_str() + 1);
            return -1;
        }
        int f = lowest();
        tab[f] = FD();
        tab[f].fam = fam;
        tab[f].nb = (type & SOCK_NONBLOCK) != 0;
        tab[f].v6only = v6only_default;
        Ev("KSock").i("fam", famno(fam)).i("fd", f).t("nb", tab[f].nb).emit();
        return f;
    }
    int connect(int fd, const sockaddr *a, socklen_t len)
    {
        using namespace vk;
        if(!active) return real<int (*)(int, const sockaddr *, socklen_t)>("connect")(fd, a, len);
        tick();
        int c = cand_of(a, len);
        if(bad(fd)) { Ev("KConn").i("fd", fd).i("cand", c).s("res", "err").emit(); errno = EBADF; return -1; }
        auto &f = tab[fd];
        f.cand = c;
        auto r = next("conn", "ok");
        if(a->sa_family != f.fam) r = "E97";
        if(r[0] == 'E')
        {
            Ev("KConn").i("fd", fd).i("cand", c).s("res", "err").emit();
            errno = atoi(r.c_str() + 1);
            return -1;
        }
        if(r == "P")
        {
            if(f.nb)
            {
                f.prog = true;
                Ev("KConn").i("fd", fd).i("cand", c).s("res", "prog").emit();
                errno = EINPROGRESS;
                return -1;
            }
            int so = atoi(next("so", "0").c_str());
            if(so)
            {
                Ev("KConn").i("fd", fd).i("cand", c).s("res", "err").emit();
                errno = so;
                return -1;
            }
        }
        f.est = true;
        Ev("KConn").i("fd", fd).i("cand", c).s("res", "ok").emit();
        if(notify) notify('c', fd);
        return 0;
    }
    int bind(int fd, const sockaddr *a, socklen_t len)
    {
        using namespace vk;
        if(!active) return real<int (*)(int, const sockaddr *, socklen_t)>("bind")(fd, a, len);
        tick();
        auto r = next("bind", "ok");
        bool ok = !bad(fd) && r[0] != 'E';
        if(ok && ports)
        {
            auto &f = tab[fd];
            f.port = ntohs(a->sa_family == AF_INET6 ? ((const sockaddr_in6 *)a)->sin6_port : ((const sockaddr_in *)a)->sin_port);
            if(a->sa_family != f.fam || in_use(f, fd)) { f.port = -1; r = a->sa_family != f.fam ? "E97" : "E98"; ok = false; }
        }
        Ev("KBind").i("fd", fd).i("cand", cand_of(a, len)).t("ok", ok).emit();
        if(!ok) { errno = r[0] == 'E' ? atoi(r.c_str() + 1) : EBADF; return -1; }
        return 0;
    }
    int listen(int fd, int n)
    {
        using namespace vk;
        if(!active) return real<int (*)(int, int)>("listen")(fd, n);
        tick();
        auto r = next("lst", "ok");
        bool ok = !bad(fd) && r[0] != 'E';
        if(ok && ports && tab[fd].port < 0) { r = "E98"; ok = false; }       // it would listen somewhere, but not there
        if(ok) { tab[fd].lsn = true; tab[fd].backlog = n; }
        Ev("KListen").i("fd", fd).t("ok", ok).emit();
        if(!ok) { errno = r[0] == 'E' ? atoi(r.c_str() + 1) : EBADF; return -1; }
        return 0;
    }
    int accept4(int fd, sockaddr *a, socklen_t *len, int flags)
    {
        using namespace vk;
        if(!active) return real<int (*)(int, sockaddr *, socklen_t *, int)>("accept4")(fd, a, len, flags);
        tick();
        if(tab.count(fd) && scripted_interruption("acc")) interrupted(fd);
        auto r = next("acc", "4:7");
        if(tab.count(fd) && tab[fd].rd) r = "E22";
        if(ports && tab.count(fd) && r[0] != 'E')
        {
            auto &l = tab[fd];
            if(!l.lsn) r = "E22";
            else if(l.pend.empty()) { Ev("Stuck").emit(); _exit(88); }
            else { r = l.pend.front(); l.pend.pop_front(); }
        }
        if(bad(fd) || r[0] == 'E')
        {
            int e = r[0] == 'E' ? atoi(r.c_str() + 1) : EBADF;
            Ev("KAcc").i("fd", fd).i("new", -1).s("peer", "").t("nb", false).emit();
            errno = e;
            return -1;
        }
        int f = lowest();
        tab[f] = FD();
        auto &n = tab[f];
        n.fam = r[0] == '6' ? AF_INET6 : AF_INET;
        n.est = true;
        n.nb = (flags & SOCK_NONBLOCK) != 0;
        if(ports)
        {
            auto &l = tab[fd];
            n.port = l.port; n.reuse = l.reuse; n.share = l.share; n.v6only = l.v6only;
        }
        int k = atoi(r.c_str() + 2);
        sockaddr_storage ss;
        socklen_t sl;
        sim_addr(n.fam, k, ss, sl, "10.0.0.", "fd00::");
        if(ports && n.fam == AF_INET && tab[fd].fam == AF_INET6)       // an IPv4 client of an IPv6 listener
        {
            char t[64];
            snprintf(t, sizeof t, "::ffff:10.0.0.%d", k);
            memset(&ss, 0, sizeof ss);
            auto *x = (sockaddr_in6 *)&ss;
            x->sin6_family = AF_INET6;
            x->sin6_port = htons(1000 + k);
            inet_pton(AF_INET6, t, &x->sin6_addr);
            sl = sizeof *x;
        }
        if(a && len)
        {
            memcpy(a, &ss, std::min(*len, sl));
            *len = sl;
        }
        n.cand = k;
        n.peer = (r[0] == '6' ? "fd00::" : "10.0.0.") + std::to_string(k);
        Ev("KAcc").i("fd", fd).i("new", f).s("peer", n.peer).t("nb", n.nb).emit();
        if(notify) notify('a', f);
        return f;
    }
    int accept(int fd, sockaddr *a, socklen_t *len)
    {
        using namespace vk;
        if(!active) return real<int (*)(int, sockaddr *, socklen_t *)>("accept")(fd, a, len);
        return accept4(fd, a, len, 0);
    }
    int close(int fd)
    {
        using namespace vk;
        if(!active) return real<int (*)(int)>("close")(fd);
        tick();
        if(ports && tab.count(fd) && tab[fd].port >= 0 && tab[fd].est)
            left.push_back({tab[fd].port, tab[fd].serves(4), tab[fd].serves(6), tab[fd].reuse, tab[fd].share});
        bool ok = tab.erase(fd) > 0;
        Ev("KClose").i("fd", fd).t("ok", ok).emit();
        if(notify) notify(ok ? 'x' : '!', fd);
        if(!ok) { errno = EBADF; return -1; }
        auto r = next("close", "ok");
        if(fail(r)) return -1; // the descriptor is gone all the same
        return 0;
    }
    int shutdown(int fd, int how)
    {
        using namespace vk;
        if(!active) return real<int (*)(int, int)>("shutdown")(fd, how);
        tick();
        Ev("KShut").i("fd", fd).i("how", how).emit();
        if(bad(fd)) return -1;
        if(how == SHUT_RD || how == SHUT_RDWR) tab[fd].rd = true;
        if(how == SHUT_WR || how == SHUT_RDWR) tab[fd].wr = true;
        return 0;
    }
    ssize_t send(int fd, const void *d, size_t n, int flags)
    {
        if(!vk::active) return vk::real<ssize_t (*)(int, const void *, size_t, int)>("send")(fd, d, n, flags);
        return vk::do_send(fd, d, n, flags);
    }
    ssize_t sendto(int fd, const void *d, size_t n, int flags, const sockaddr *a, socklen_t l)
    {
        if(!vk::active) return vk::real<ssize_t (*)(int, const void *, size_t, int, const sockaddr *, socklen_t)>("sendto")(fd, d, n, flags, a, l);
        return vk::do_send(fd, d, n, flags);
    }
    ssize_t sendmsg(int fd, const msghdr *m, int flags)
    {
        if(!vk::active) return vk::real<ssize_t (*)(int, const msghdr *, int)>("sendmsg")(fd, m, flags);
        std::string b;
        for(size_t a = 0; a < m->msg_iovlen; a++) b.append((char *)m->msg_iov[a].iov_base, m->msg_iov[a].iov_len);
        return vk::do_send(fd, b.data(), b.size(), flags);
    }
    ssize_t write(int fd, const void *d, size_t n)
    {
        if(!vk::active) return vk::real<ssize_t (*)(int, const void *, size_t)>("write")(fd, d, n);
        return vk::do_send(fd, d, n, 0);
    }
    ssize_t recv(int fd, void *d, size_t n, int flags)
    {
        if(!vk::active) return vk::real<ssize_t (*)(int, void *, size_t, int)>("recv")(fd, d, n, flags);
        return vk::do_recv(fd, d, n, flags);
    }
    ssize_t recvfrom(int fd, void *d, size_t n, int flags, sockaddr *a, socklen_t *l)
    {
        if(!vk::active) return vk::real<ssize_t (*)(int, void *, size_t, int, sockaddr *, socklen_t *)>("recvfrom")(fd, d, n, flags, a, l);
        return vk::do_recv(fd, d, n, flags);
    }
    ssize_t recvmsg(int fd, msghdr *m, int flags)
    {
        if(!vk::active) return vk::real<ssize_t (*)(int, msghdr *, int)>("recvmsg")(fd, m, flags);
        return vk::do_recv(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, flags);
    }
    ssize_t read(int fd, void *d, size_t n)
    {
        if(!vk::active) return vk::real<ssize_t (*)(int, void *, size_t)>("read")(fd, d, n);
        return vk::do_recv(fd, d, n, 0);
    }
    int fcntl(int fd, int cmd, ...)
    {
        va_list ap;
        va_start(ap, cmd);
        long arg = va_arg(ap, long);
        va_end(ap);
        using namespace vk;
        if(!active) return real<int (*)(int, int, long)>("fcntl")(fd, cmd, arg);
        tick();
        if(bad(fd)) return -1;
        if(cmd == F_GETFL)
        {
            auto r = next("nbg", "ok");
            if(r[0] == 'E') Ev("KNb").i("fd", fd).t("nb", tab[fd].nb).t("ok", false).emit();
            if(fail(r)) return -1;
            return O_RDWR | (tab[fd].nb ? O_NONBLOCK : 0);
        }
        if(cmd == F_SETFL)
        {
            return set_nb(fd, (arg & O_NONBLOCK) != 0);
        }
        return 0;
    }
    int fcntl64(int fd, int cmd, ...)
    {
        va_list ap;
        va_start(ap, cmd);
        long arg = va_arg(ap, long);
        va_end(ap);
        return fcntl(fd, cmd, arg);
    }
    int ioctl(int fd, unsigned long req, ...) noexcept
    {
        va_list ap;
        va_start(ap, req);
        void *arg = va_arg(ap, void *);
        va_end(ap);
        using namespace vk;
        if(!active) return real<int (*)(int, unsigned long, void *)>("ioctl")(fd, req, arg);
        tick();
        if(bad(fd)) return -1;
        if(req == FIONBIO) return set_nb(fd, *(int *)arg != 0);
        return 0;
    }
    int setsockopt(int fd, int lev, int opt, const void *v, socklen_t len) noexcept
    {
        using namespace vk;
        if(!active) return real<int (*)(int, int, int, const void *, socklen_t)>("setsockopt")(fd, lev, opt, v, len);
        tick();
        if(bad(fd)) { Ev("KOpt").i("fd", fd).s("opt", "other").raw("ms", "[0,0]").t("ok", false).emit(); errno = EBADF; return -1; }
        if(lev == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO) && len >= sizeof(timeval))
        {
            auto *tv = (const timeval *)v;
            bool ok = tv->tv_usec >= 0 && tv->tv_usec < 1000000;
            unsigned long long us = (unsigned long long)tv->tv_sec * 1000000ull + (unsigned long long)tv->tv_usec;
            bool whole = us % 1000 == 0 && us / 1000 <= 0xffffffffull;
            Ev("KOpt").i("fd", fd).s("opt", opt == SO_RCVTIMEO ? "rcv" : "snd").raw("ms", whole ? limbs(us / 1000) : "[-1,-1]").t("ok", ok).emit();
            if(!ok) { errno = EDOM; return -1; }
            (opt == SO_RCVTIMEO ? tab[fd].rt : tab[fd].wt) = us / 1000;
            return 0;
        }
        if(lev == IPPROTO_TCP && opt == TCP_NODELAY)
        {
            tab[fd].nd = *(const int *)v != 0;
            Ev("KOpt").i("fd", fd).s("opt", "nodelay").raw("ms", *(const int *)v ? "[0,1]" : "[0,0]").t("ok", true).emit();
            return 0;
        }
        auto r = lev == SOL_SOCKET ? next("opt", "ok") : std::string("ok");
        if(r[0] != 'E' && len >= sizeof(int))
        {
            bool v1 = *(const int *)v != 0;
            if(lev == SOL_SOCKET && opt == SO_REUSEADDR) tab[fd].reuse = v1;
            if(lev == SOL_SOCKET && opt == SO_REUSEPORT) tab[fd].share = v1;
            if(lev == IPPROTO_IPV6 && opt == IPV6_V6ONLY && tab[fd].port < 0) tab[fd].v6only = v1;
        }
        Ev("KOpt").i("fd", fd).s("opt", "other").raw("ms", "[0,0]").t("ok", r[0] != 'E').emit();
        return fail(r) ? -1 : 0;
    }
    int getsockopt(int fd, int lev, int opt, void *v, socklen_t *len) noexcept
    {
        using namespace vk;
        if(!active) return real<int (*)(int, int, int, void *, socklen_t *)>("getsockopt")(fd, lev, opt, v, len);
        tick();
        if(bad(fd)) return -1;
        if(lev == SOL_SOCKET && opt == SO_ERROR)
        {
            auto r = next("gso", "ok");
            Ev("KSoErr").i("fd", fd).t("ok", r[0] != 'E').i("val", tab[fd].so).emit();
            if(fail(r)) return -1;
            *(int *)v = tab[fd].so;
            *len = sizeof(int);
            return 0;
        }
        memset(v, 0, *len);
        if(lev == SOL_SOCKET && opt == SO_TYPE) *(int *)v = SOCK_STREAM;
        return 0;
    }
    int clock_gettime(clockid_t id, timespec *t) noexcept
    {
        int r = (int)syscall(SYS_clock_gettime, id, t);
        long long ns = t->tv_nsec + vk::skew_ms % 1000 * 1000000;
        t->tv_sec += vk::skew_ms / 1000 + ns / 1000000000;
        t->tv_nsec = ns % 1000000000;
        return r;
    }
    int getpeername(int fd, sockaddr *a, socklen_t *len) noexcept
    {
        using namespace vk;
        if(!active) return real<int (*)(int, sockaddr *, socklen_t *)>("getpeername")(fd, a, len);
        tick();
        if(bad(fd)) return -1;
        if(!tab[fd].est) { errno = ENOTCONN; return -1; }
        sockaddr_storage ss;
        socklen_t sl;
        if(tab[fd].peer.empty()) sim_addr(tab[fd].fam, tab[fd].cand, ss, sl, "127.0.1.", "fd01::");
        else sim_addr(tab[fd].fam, tab[fd].cand, ss, sl, "10.0.0.", "fd00::");
        memcpy(a, &ss, std::min(*len, sl));
        *len = sl;
        return 0;
    }
    int select(int n, fd_set *r, fd_set *w, fd_set *x, timeval *tv)
    {
        using namespace vk;
        if(!active) return real<int (*)(int, fd_set *, fd_set *, fd_set *, timeval *)>("select")(n, r, w, x, tv);
        tick();
        long long ms = tv ? (long long)tv->tv_sec * 1000 + tv->tv_usec / 1000 : -1;
        int fd = -1;
        for(int a = 0; a < n; a++) if((w && FD_ISSET(a, w)) || (r && FD_ISSET(a, r))) { fd = a; break; }
        if(fd < 0 || bad(fd)) { Ev("KWait").i("fd", fd).i("ms", ms).s("res", "err").t("est", false).emit(); errno = EBADF; return -1; }
        int res = wait_ready(fd, ms);
        bool inr = r && FD_ISSET(fd, r), inw = w && FD_ISSET(fd, w);
        if(r) FD_ZERO(r);
        if(w) FD_ZERO(w);
        if(x) FD_ZERO(x);
        if(res == 1)
        {
            if(inr) FD_SET(fd, r);
            if(inw) FD_SET(fd, w);
        }
        return res;
    }
    int poll(pollfd *p, nfds_t n, int ms)
    {
        using namespace vk;
        if(!active) return real<int (*)(pollfd *, nfds_t, int)>("poll")(p, n, ms);
        tick();
        if(n != 1 || bad(p->fd)) { Ev("KWait").i("fd", n ? p->fd : -1).i("ms", ms).s("res", "err").t("est", false).emit(); errno = EBADF; return -1; }
        int res = wait_ready(p->fd, ms);
        p->revents = 0;
        if(res == 1) p->revents = (short)((p->events & (POLLOUT | POLLIN)) | (tab[p->fd].so ? POLLERR | POLLHUP : 0));
        return res;
    }
    int ppoll(pollfd *p, nfds_t n, const timespec *ts, const sigset_t *m)
    {
        using namespace vk;
        if(!active) return real<int (*)(pollfd *, nfds_t, const timespec *, const sigset_t *)>("ppoll")(p, n, ts, m);
        return poll(p, n, ts ? (int)(ts->tv_sec * 1000 + ts->tv_nsec / 1000000) : -1);
    }
    int getaddrinfo(const char *node, const char *svc, const addrinfo *hints, addrinfo **res)
    {
        using namespace vk;
        if(!active) return real<int (*)(const char *, const char *, const addrinfo *, addrinfo **)>("getaddrinfo")(node, svc, hints, res);
        tick();
        auto r = next("gai", "ok");
        bool ok = r[0] != 'E';
        std::string fams;
        auto w = vd::split(cands, ':');
        if(ports && hints && hints->ai_family != AF_UNSPEC)
        {
            std::vector<std::string> v;
            for(auto &c : w) if((c == "6" ? AF_INET6 : AF_INET) == hints->ai_family) v.push_back(c);
            w = v;
            if(w.empty()) ok = false, r = "E2";
        }
        for(auto &c : w) fams += (fams.empty() ? "" : ",") + c;
        int id = ok ? next_list++ : 0;
        Ev("KLookup").i("fam", hints ? famno(hints->ai_family) : 0).t("stream", hints && hints->ai_socktype == SOCK_STREAM).t("hasnode", node != nullptr)
            .s("node", node ? node : "").s("svc", svc ? svc : "").t("passive", hints && (hints->ai_flags & AI_PASSIVE))
            .t("ok", ok).i("list", id).raw("fams", ok ? "[" + fams + "]" : "[]").emit();
        if(!ok) return atoi(r.c_str() + 1) ? -atoi(r.c_str() + 1) : EAI_NONAME;
        addrinfo *head = nullptr, **tail = &head;
        for(size_t a = 0; a < w.size(); a++)
        {
            auto *ai = (addrinfo *)calloc(1, sizeof(addrinfo));
            auto *ss = (sockaddr_storage *)calloc(1, sizeof(sockaddr_storage));
            socklen_t sl;
            int fam = w[a] == "6" ? AF_INET6 : AF_INET;
            sim_addr(fam, (int)a + 1, *ss, sl, "127.0.1.", "fd01::");
            if(ports)
            {
                uint16_t p = htons((uint16_t)atoi(svc ? svc : "0"));
                if(fam == AF_INET) { ((sockaddr_in *)ss)->sin_port = p; ((sockaddr_in *)ss)->sin_addr.s_addr = 0; }
                else { ((sockaddr_in6 *)ss)->sin6_port = p; ((sockaddr_in6 *)ss)->sin6_addr = in6addr_any; }
            }
            ai->ai_family = fam;
            ai->ai_socktype = SOCK_STREAM;
            ai->ai_protocol = IPPROTO_TCP;
            ai->ai_addr = (sockaddr *)ss;
            ai->ai_addrlen = sl;
            *tail = ai;
            tail = &ai->ai_next;
        }
        lists[head] = id;
        *res = head;
        return 0;
    }
    void freeaddrinfo(addrinfo *p) noexcept
    {
        using namespace vk;
        if(!active) return real<void (*)(addrinfo *)>("freeaddrinfo")(p);
        tick();
        auto it = lists.find(p);
        Ev("KFree").i("list", it == lists.end() ? -1 : it->second).emit();
        if(it == lists.end()) return;
        lists.erase(it);
        while(p)
        {
            auto *n = p->ai_next;
            free(p->ai_addr);
            free(p);
            p = n;
        }
    }
    int getnameinfo(const sockaddr *a, socklen_t l, char *h, socklen_t hl, char *s, socklen_t sl, int flags)
    {
        using namespace vk;
        typedef int (*F)(const sockaddr *, socklen_t, char *, socklen_t, char *, socklen_t, int);
        if(!active) return real<F>("getnameinfo")(a, l, h, hl, s, sl, flags);
        tick();
        auto r = next("gni", "ok");
        Ev("KName").t("ok", r[0] != 'E').t("numeric", (flags & NI_NUMERICHOST) != 0).emit();
        if(r[0] == 'E') return EAI_AGAIN;
        active = false;
        int x = real<F>("getnameinfo")(a, l, h, hl, s, sl, flags | NI_NUMERICHOST);
        active = true;
        return x;
    }
}
