// TcpSocket and TcpListener on a simulated kernel.
// ops: new o sock|lst ; del o ; conn o addr port secs DIR.. ; disc o ; blk o 0|1 ; rto o ms ; sto o ms ; inet o 0|4|6 ;
//      ext 0|1 (open a foreign descriptor, 1: non-blocking) ; extclose k ; adopt o k ; readopt o ; release o ; listen o port ; acc l o ; lclose l ;
//      lmove l l2 ; lset l k ; lrel l ; shut o ; send o n ; sraw o size sent0 ; rraw o size
// DIR: kind=v1,v2,...   (outcome queues of the simulated kernel, see simkern.h) and L=4:6:4 (resolved addresses)
#include "simkern.h"
#include <memory>
#include <frnetlib/TcpSocket.h>
#include <frnetlib/TcpListener.h>
#include <frnetlib/Sendable.h>
using namespace vd;

struct Blob : fr::Sendable
{
    std::string d;
    fr::Socket::Status send(fr::Socket *s) const override
    {
        size_t sent = 0;
        return s->send_raw(d.data(), d.size(), sent);
    }
    fr::Socket::Status receive(fr::Socket *) override { return fr::Socket::Status::Error; }
};

struct Obj
{
    std::unique_ptr<fr::TcpSocket> s;
    std::unique_ptr<fr::TcpListener> l;
};

static void body(const Scenario &sc)
{
    vk::tab.clear();
    vk::lists.clear();
    vk::next_list = 1;
    vk::base = (int)sc.pi("base", 64);
    std::map<int, Obj> objs;
    std::vector<int> ext;
    auto snap = [&]() {
        std::string o = "[";
        for(auto &p : objs)
        {
            if(o.size() > 1) o += ",";
            bool sock = (bool)p.second.s;
            int d = sock ? p.second.s->get_socket_descriptor() : p.second.l->get_socket_descriptor();
            bool c = sock ? p.second.s->connected() : p.second.l->connected();
            o += "{\"o\":" + std::to_string(p.first) + ",\"d\":" + std::to_string(d) + ",\"c\":" + (c ? "true" : "false");
            if(sock)
                o += std::string(",\"k\":\"sock\",\"bl\":") + (p.second.s->get_blocking() ? "true" : "false") + ",\"rt\":" +
                     vk::limbs(p.second.s->get_receive_timeout()) + ",\"wt\":" + vk::limbs(p.second.s->get_send_timeout()) + ",\"addr\":" +
                     Ev::quote(p.second.s->get_remote_address()) + "}";
            else
                o += ",\"k\":\"lst\"}";
        }
        return o + "]";
    };
    auto run = [&](const std::vector<std::string> &op, const std::string &kind) {
        int o = op.size() > 1 ? atoi(op[1].c_str()) : 0;
        vk::q.clear();
        vk::calls = 0;
        vk::cands = "4";
        std::vector<std::string> a;
        for(auto &w : op)
        {
            auto eq = w.find('=');
            if(eq == std::string::npos) { a.push_back(w); continue; }
            if(w.substr(0, eq) == "L") vk::cands = w.substr(eq + 1);
            else for(auto &v : split(w.substr(eq + 1), ',')) vk::q[w.substr(0, eq)].push_back(v);
        }
        auto num = [&](size_t k) { return a.size() > k ? atoll(a[k].c_str()) : 0; };
        auto str = [&](size_t k) { return a.size() > k ? a[k] : std::string(); };
        if(kind == "ext")
        {
            int f = vk::lowest();
            vk::tab[f] = vk::FD();
            vk::tab[f].ext = true;
            vk::tab[f].est = true;
            vk::tab[f].nb = num(1) == 1;
            ext.push_back(f);
            Ev("Ext").i("fd", f).t("nb", vk::tab[f].nb).emit();
            return;
        }
        if(kind == "extclose")
        {
            int f = ext[(size_t)num(1)];
            vk::tab.erase(f);
            Ev("ExtClose").i("fd", f).emit();
            return;
        }
        Ev call("Call");
        call.s("op", kind).i("o", o);
        int st = -1;
        std::string data, buf;
        long long cnt = 0;
        bool tailok = true;
        auto *S = objs.count(o) ? objs[o].s.get() : nullptr;
        auto *L = objs.count(o) ? objs[o].l.get() : nullptr;
        vk::intr = [&](int) {
            Ev("Int").emit();
            if(S) S->shutdown(); else L->shutdown();
            Ev("IntEnd").raw("objs", snap()).emit();
        };
#define GO call.emit(); vk::active = true
        if(kind == "new")
        {
            bool sock = str(2) == "sock";
            call.t("sock", sock);
            GO;
            if(sock) objs[o].s.reset(new fr::TcpSocket());
            else objs[o].l.reset(new fr::TcpListener());
        }
        else if(kind == "del") { GO; objs.erase(o); }
        else if(kind == "conn")
        {
            call.s("addr", str(2)).s("port", str(3)).i("secs", num(4));
            GO;
            st = (int)S->connect(str(2), str(3), std::chrono::seconds(num(4)));
        }
        else if(kind == "disc") { GO; S->disconnect(); }
        else if(kind == "blk") { call.t("v", num(2) == 1); GO; st = (int)S->set_blocking(num(2) == 1); }
        else if(kind == "rto") { call.raw("v", vk::limbs((uint32_t)num(2))); GO; S->set_receive_timeout((uint32_t)num(2)); }
        else if(kind == "sto") { call.raw("v", vk::limbs((uint32_t)num(2))); GO; S->set_send_timeout((uint32_t)num(2)); }
        else if(kind == "inet")
        {
            auto v = num(2) == 4 ? fr::Socket::IP::v4 : num(2) == 6 ? fr::Socket::IP::v6 : fr::Socket::IP::any;
            call.i("v", num(2));
            GO;
            if(S) S->set_inet_version(v); else L->set_inet_version(v);
        }
        else if(kind == "adopt" || kind == "readopt")
        {
            int f = kind == "adopt" ? ext[(size_t)num(2)] : S->get_socket_descriptor();
            call.i("fd", f);
            GO;
            S->set_descriptor(&f);
        }
        else if(kind == "release") { GO; S->set_descriptor(nullptr); }
        else if(kind == "listen") { call.s("port", str(2)); GO; st = (int)L->listen(str(2)); }
        else if(kind == "acc")
        {
            int c = (int)num(2);
            call.i("c", c);
            GO;
            st = (int)L->accept(*objs[c].s);
        }
        else if(kind == "lclose") { GO; L->close_socket(); }
        else if(kind == "lmove")
        {
            int n = (int)num(2);
            call.i("c", n);
            GO;
            objs[n].l.reset(new fr::TcpListener(std::move(*L)));
        }
        else if(kind == "lset") { int f = ext[(size_t)num(2)]; call.i("fd", f); GO; L->set_socket_descriptor(f); }
        else if(kind == "lrel") { GO; L->set_socket_descriptor(-1); }
        else if(kind == "shut") { GO; if(S) S->shutdown(); else L->shutdown(); }
        else if(kind == "send")
        {
            Blob b;
            for(long long x = 0; x < num(2); x++) b.d.push_back((char)(x * 5 + 2));
            data = b.d;
            call.b("b", data);
            GO;
            st = (int)S->send(b);
        }
        else if(kind == "sraw")
        {
            for(long long x = 0; x < num(2); x++) data.push_back((char)(x * 5 + 2));
            size_t sent = (size_t)num(3);
            call.b("b", data).i("sent0", num(3));
            std::unique_ptr<char[]> heap(new char[data.size() ? data.size() : 1]);
            memcpy(heap.get(), data.data(), data.size());
            GO;
            st = (int)S->send_raw(heap.get(), data.size(), sent);
            vk::active = false;
            cnt = (long long)sent;
        }
        else if(kind == "rraw")
        {
            size_t n = (size_t)num(2), got = 12345;
            call.i("n", num(2));
            buf.assign(n + 8, '\xEE');
            std::unique_ptr<char[]> heap(new char[n + 8]);
            memcpy(heap.get(), buf.data(), n + 8);
            GO;
            st = (int)S->receive_raw(heap.get(), n, got);
            vk::active = false;
            cnt = got > 1000000 ? 1000000 : (long long)got;
            buf.assign(heap.get(), n + 8);
            for(size_t x = got <= n ? got : n; x < n + 8; x++) if(buf[x] != '\xEE') tailok = false;
            buf.resize(got <= n ? got : 0);
        }
        else { fprintf(stderr, "bad op %s\n", kind.c_str()); _exit(99); }
        vk::active = false;
        Ev("Ret").s("op", kind).i("st", st).i("cnt", cnt).b("b", buf).t("tailok", tailok).raw("objs", snap()).emit();
    };
    for(auto &w : sc.ops) run(w, w[0]);
    // whatever is left is destroyed at the end of every history
    std::vector<int> ids;
    for(auto &p : objs) ids.push_back(p.first);
    for(int i : ids) run({"del", std::to_string(i)}, "del");
}

int main(int argc, char **argv)
{
    return run_all(argc, argv, body, vd::reset_event);
}
