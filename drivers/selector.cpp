// SocketSelector on real epoll: sockets are ends of socket pairs, listeners are unix listening sockets.
// ops: new i ; newl i ; add i tag [fail] ; rm i ; wait ms [intr|virt|err] ; wr i n ; rd i n ; pclose i ; disc i ; reopen i ; drop i ; conn i ; acc i ;
//      loop ms rounds (wait and drain everything reported) ; late i n ms (wait without limit while the peer writes later) ; many a b (new+add)
#include "common.h"
#include <memory>
#include <thread>
#include <chrono>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/epoll.h>
#include <dlfcn.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <time.h>
#include <frnetlib/SocketSelector.h>
#include <frnetlib/TcpSocket.h>
#include <frnetlib/TcpListener.h>
using namespace vd;

// the kernel refuses the next registration / interrupts the next wait
static bool refuse_ctl = false, interrupt_wait = false;
extern "C" int epoll_ctl(int ep, int op, int fd, epoll_event *ev) noexcept
{
    if(refuse_ctl && op != EPOLL_CTL_DEL) { refuse_ctl = false; errno = ENOSPC; return -1; }
    return ((int (*)(int, int, int, epoll_event *))dlsym(RTLD_NEXT, "epoll_ctl"))(ep, op, fd, ev);
}
// in virtual time a wait with nothing ready only moves the clock on
static bool virt = false, fail_wait = false, forever = false;
static long long virt_ms = 0;
static int waited(int ep, epoll_event *ev, int n, long long ms)
{
    static auto real = (int (*)(int, epoll_event *, int, int))dlsym(RTLD_NEXT, "epoll_wait");
    if(interrupt_wait) { interrupt_wait = false; errno = EINTR; return -1; }
    if(fail_wait) { fail_wait = false; errno = EBADF; return -1; }
    if(!virt) return real(ep, ev, n, (int)ms);
    int r = real(ep, ev, n, 0);
    if(r != 0) return r;
    if(ms < 0 || virt_ms > (1ll << 50)) { forever = true; errno = EINTR; return -1; }
    virt_ms += ms;
    return 0;
}
extern "C" int epoll_pwait(int ep, epoll_event *ev, int n, int ms, const sigset_t *) { return waited(ep, ev, n, ms); }
extern "C" int epoll_wait(int ep, epoll_event *ev, int n, int ms) { return waited(ep, ev, n, ms); }
extern "C" int epoll_pwait2(int ep, epoll_event *ev, int n, const timespec *t, const sigset_t *)
{
    return waited(ep, ev, n, t ? t->tv_sec * 1000ll + (t->tv_nsec + 999999) / 1000000 : -1);
}
extern "C" int clock_gettime(clockid_t id, timespec *t) noexcept
{
    int r = (int)syscall(SYS_clock_gettime, id, t);
    t->tv_sec += virt_ms / 1000;
    t->tv_nsec += virt_ms % 1000 * 1000000;
    if(t->tv_nsec >= 1000000000) { t->tv_nsec -= 1000000000; ++t->tv_sec; }
    return r;
}

struct Obj
{
    std::shared_ptr<fr::SocketDescriptor> h;
    std::weak_ptr<fr::SocketDescriptor> w;
    fr::TcpSocket *s = nullptr;
    fr::TcpListener *l = nullptr;
    int peer = -1;
    std::vector<int> clients, accepted;
    sockaddr_un addr{};
    socklen_t alen = 0;
};

static void body(const Scenario &sc)
{
    std::map<int, Obj> objs;
    auto sel = std::unique_ptr<fr::SocketSelector>(new fr::SocketSelector());
    std::vector<int> parked;
    auto open_pair = [&](Obj &o) {
        int sv[2];
        if(socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) _exit(99);
        int hi = fcntl(sv[1], F_DUPFD, 400); // keep the peer ends out of the way so that low numbers are reused
        close(sv[1]);
        o.peer = hi;
        o.s->set_descriptor(&sv[0]);
        return sv[0];
    };
    auto obj_id = [&](fr::SocketDescriptor *p) {
        for(auto &x : objs) if(!x.second.w.expired() && ((x.second.s && x.second.s == p) || (x.second.l && x.second.l == p))) return x.first;
        return -1;
    };
    auto do_wait = [&](long long ms, int late, const std::string &how = "") {
        interrupt_wait = how == "intr";
        fail_wait = how == "err";
        virt = how == "virt";
        virt_ms = 0;
        forever = false;
        std::vector<int> ids;
        std::string res = "[", what;
        bool thrown = false;
        auto t0 = std::chrono::steady_clock::now();
        try
        {
            auto r = sel->wait(std::chrono::milliseconds(ms));
            for(auto &p : r)
            {
                int id = obj_id(p.first.get());
                ids.push_back(id);
                if(res.size() > 1) res += ",";
                res += "[" + std::to_string(id) + "," + std::to_string((long long)(uintptr_t)p.second & 0x7fffffff) + "]";
            }
        }
        catch(const std::exception &e) { thrown = true; }
        auto el = std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t0).count();
        virt = fail_wait = interrupt_wait = false;
        virt_ms = 0;
        auto cap = [](long long v) { return std::min<long long>(v, 2147480000); };
        Ev("Wait").i("ms", cap(ms)).i("el", cap((el + 999) / 1000)).t("thrown", thrown).i("late", late).t("intr", how == "intr")
            .t("inf", forever).t("kfail", how == "err").raw("res", res + "]").emit();
        return ids;
    };
    auto do_read = [&](int i, size_t n) {
        auto &o = objs[i];
        std::string b(n, 0);
        size_t got = 0;
        auto st = (int)o.s->receive_raw(&b[0], n, got);
        Ev("Rd").i("i", i).i("n", (long long)n).i("st", st).i("got", (long long)got).emit();
        return got;
    };
    auto do_disc = [&](int i) {
        if(objs[i].s) objs[i].s->disconnect(); else objs[i].l->close_socket();
        if(objs[i].peer >= 0) close(objs[i].peer);
        objs[i].peer = -1;
        Ev("Disc").i("i", i).emit();
    };
    auto do_acc = [&](int i) {
        auto &o = objs[i];
        fr::TcpSocket c;
        auto st = (int)o.l->accept(c);
        Ev("Acc").i("i", i).i("st", st).emit();
    };
    auto mk = [&](int i) {
        auto &o = objs[i];
        auto s = std::make_shared<fr::TcpSocket>();
        o.s = s.get();
        o.h = s;
        o.w = o.h;
        int fd = open_pair(o);
        o.s->set_blocking(false);
        Ev("New").i("i", i).s("k", "sock").i("fd", fd).emit();
    };
    auto do_add = [&](int i, long long tag, bool kfail = false) {
        auto h = objs[i].w.lock();
        bool thrown = false;
        refuse_ctl = kfail;
        try { sel->add(h, (void *)(uintptr_t)tag); }
        catch(const std::exception &) { thrown = true; }
        kfail = kfail && !refuse_ctl; // the refusal was met
        refuse_ctl = false;
        Ev("Add").i("i", i).i("tag", tag).t("thrown", thrown).t("kfail", kfail).emit();
    };
    for(auto &op : sc.ops)
    {
        const auto &k = op[0];
        int i = op.size() > 1 ? atoi(op[1].c_str()) : 0;
        long long n = op.size() > 2 ? atoll(op[2].c_str()) : 0;
        if(k == "new") mk(i);
        else if(k == "newl")
        {
            auto &o = objs[i];
            auto l = std::make_shared<fr::TcpListener>();
            o.l = l.get();
            o.h = l;
            o.w = o.h;
            int fd = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0);
            sockaddr_un a{};
            a.sun_family = AF_UNIX;
            if(bind(fd, (sockaddr *)&a, sizeof(sa_family_t)) || listen(fd, 64)) _exit(99);
            o.alen = sizeof o.addr;
            getsockname(fd, (sockaddr *)&o.addr, &o.alen);
            o.l->set_socket_descriptor(fd);
            Ev("New").i("i", i).s("k", "lst").i("fd", fd).emit();
        }
        else if(k == "many") for(int a = i; a < n; a++) { mk(a); do_add(a, a + 1000); }
        else if(k == "add") do_add(i, n, op.size() > 3);
        else if(k == "rm")
        {
            auto h = objs[i].w.lock();
            void *r = nullptr;
            bool thrown = false;
            try { r = sel->remove(h); }
            catch(const std::exception &) { thrown = true; }
            h.reset();
            bool alive = !objs[i].w.expired();
            Ev("Rm").i("i", i).i("ret", (long long)(uintptr_t)r).t("thrown", thrown).t("alive", alive).emit();
        }
        else if(k == "wait") do_wait(std::stoll(op[1]), 0, op.size() > 2 ? op[2] : "");
        else if(k == "wr")
        {
            std::string b((size_t)n, 'x');
            if(::write(objs[i].peer, b.data(), b.size()) != (ssize_t)b.size()) _exit(99);
            Ev("Wr").i("i", i).i("n", n).emit();
        }
        else if(k == "rd") do_read(i, (size_t)n);
        else if(k == "pclose")
        {
            close(objs[i].peer);
            objs[i].peer = -1;
            Ev("PClose").i("i", i).emit();
        }
        else if(k == "disc")
            do_disc(i);
        else if(k == "reopen")
        {
            auto &o = objs[i];
            int fd = open_pair(o);
            o.s->set_blocking(false);
            Ev("Reopen").i("i", i).i("fd", fd).emit();
        }
        else if(k == "drop")
        {
            objs[i].h.reset();
            bool alive = !objs[i].w.expired();
            Ev("Drop").i("i", i).t("alive", alive).emit();
        }
        else if(k == "conn")
        {
            auto &o = objs[i];
            int c = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0);
            int hi = fcntl(c, F_DUPFD, 400);
            close(c);
            if(connect(hi, (sockaddr *)&o.addr, o.alen)) _exit(99);
            o.clients.push_back(hi);
            Ev("Conn").i("i", i).emit();
        }
        else if(k == "acc") do_acc(i);
        else if(k == "loop")
        {
            for(long long r = 0; r < n; r++)
            {
                auto ids = do_wait(i, 0);
                if(ids.empty()) break;
                for(int id : ids)
                {
                    if(id < 0) continue;
                    if(objs[id].l) do_acc(id);
                    else if(do_read(id, 100000) == 0) do_disc(id);
                }
            }
            Ev("LoopEnd").emit();
        }
        else if(k == "late")
        {
            long long ms = atoll(op[3].c_str());
            int fd = objs[i].peer;
            std::thread t([&]() {
                std::this_thread::sleep_for(std::chrono::milliseconds(ms));
                std::string b((size_t)n, 'x');
                if(::write(fd, b.data(), b.size()) < 0) _exit(99);
            });
            do_wait(-1, i);
            t.join();
            Ev("Wr").i("i", i).i("n", n).emit();
        }
        else { fprintf(stderr, "bad op %s\n", k.c_str()); _exit(99); }
    }
    // destroying the selector releases its members
    std::string al = "[";
    for(auto &x : objs) x.second.h.reset();
    sel.reset();
    for(auto &x : objs)
    {
        if(!x.second.w.expired()) al += (al.size() > 1 ? "," : "") + std::to_string(x.first);
        if(x.second.peer >= 0) close(x.second.peer);
        for(int c : x.second.clients) close(c);
    }
    Ev("End").raw("alive", al + "]").emit();
}

int main(int argc, char **argv)
{
    return run_all(argc, argv, body, vd::reset_event, 20, 40);
}
