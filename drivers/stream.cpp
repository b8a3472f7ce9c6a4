// Stream driver (C03, C04, C05, C19, C20): packets and WebSocket frames over a scripted transport.
#include "carrier.h"
#include "frnetlib/Packet.h"
#include "frnetlib/WebFrame.h"
#include <memory>
using namespace vd;

// a descriptor which does not block would block; one which blocks times out (t=k, t=t)
static std::vector<Item> outcomes(const Scenario &s, std::vector<Item> v)
{
    if(s.ps("t", "s") == "s") return v;
    std::vector<Item> o;
    for(auto &i : v)
    {
        if(i.k == 'I') continue;
        if(i.k == 'W' || i.k == 'T') i.k = s.pi("nb") ? 'W' : 'T';
        o.push_back(i);
    }
    return o;
}

static std::string tokens_in(const std::vector<Item> &v)
{
    std::string o = "[";
    bool f = true;
    auto put = [&](int n) { if(!f) o += ","; f = false; o += std::to_string(n); };
    for(auto &i : v)
        switch(i.k)
        {
            case 'D': for(unsigned char c : i.d) put(c); break;
            case 'W': put(256); break;
            case 'T': put(257); break;
            case 'X': put(258); break;
            default: put(259);
        }
    return o + "]";
}
static std::string tokens_out(const std::vector<Item> &v)
{
    std::string o = "[";
    for(size_t a = 0; a < v.size(); a++)
    {
        if(a) o += ",";
        switch(v[a].k)
        {
            case 'A': o += std::to_string(v[a].n); break;
            case 'W': o += "1000256"; break;
            case 'T': o += "1000257"; break;
            default: o += "1000259";
        }
    }
    return o + "]";
}

static void reset(const Scenario &s)
{
    Ev("Reset").i("sc", s.id).raw("inp", tokens_in(outcomes(s, parse_items(s.ps("in", "-")))))
        .raw("out", s.ps("t", "s") == "t" ? "[]" : tokens_out(outcomes(s, parse_items(s.ps("out", "-"))))).emit();
}

static Bytes bodyarg(const std::string &w)
{
    if(w[0] != 'P') return unhex(w);
    size_t n = (size_t)atoll(w.c_str() + 1), seed = (size_t)atoll(w.c_str() + w.find(':') + 1);
    Bytes b(n, 0);
    for(size_t a = 0; a < n; a++) b[a] = (char)((a * 7 + seed + (a >> 8)) & 255);
    return b;
}

// the socket under test: scripted itself (s), or a TcpSocket (k) or SSLSocket (t) on the simulated kernel
struct Link
{
    ScriptSocket script;
    std::unique_ptr<Carrier> car;
    explicit Link(const Scenario &s)
    {
        std::string t = s.ps("t", "s");
        if(t == "s")
        {
            script.in = parse_items(s.ps("in", "-"));
            script.out = parse_items(s.ps("out", "-"));
            script.blocking = s.pi("nb") == 0;
        }
        else car.reset(new Carrier(t[0], parse_items(s.ps("in", "-")), parse_items(s.ps("out", "-")), s.pi("nb") != 0, (size_t)s.pi("cut")));
    }
    size_t total_read() const { return car ? car->total_read() : script.total_read; }
    const Bytes &sent() const { return car ? car->sent_bytes : script.sent_bytes; }
    // a call into the library
    template<typename F> int call(F f)
    {
        alloc_reset();
        if(!car) return (int)f(script);
        Carrier::On on;
        return (int)f(car->sock());
    }
};

static void body(const Scenario &s)
{
    Link so(s);
    bool reuse = s.pi("reuse") != 0;
    std::unique_ptr<fr::Packet> out_p(new fr::Packet()), in_p(new fr::Packet());
    std::unique_ptr<fr::WebFrame> cf(new fr::ClientWebFrame()), sf(new fr::ServerWebFrame()), rc(new fr::ClientWebFrame()), rs(new fr::ServerWebFrame());
    Bytes last;
    std::string last_role; int last_op = 0; bool last_fin = true;
    bool dead = false;
    for(auto &w : s.ops)
    {
        if(dead) break;
        size_t rd0 = so.total_read(), w0 = so.sent().size();
        auto cap = [](size_t v) { return v > 1000000000u ? 1000000000ll : (long long)v; };
        if(w[0] == "PSend" || w[0] == "PAgain")
        {
            if(w[0] == "PSend")
            {
                last = bodyarg(w[1]);
                if(reuse) out_p->clear();
                else out_p.reset(new fr::Packet());
                out_p->add_raw(last.data(), last.size());
            }
            if(w.size() > 2) out_p->set_cursor((size_t)atoll(w[2].c_str()));
            size_t c0 = out_p->get_cursor();
            int st = so.call([&](fr::Socket &k) { return k.send(*out_p); });
            const fr::Packet &cr = *out_p;
            fr::Packet copy(cr);
            copy.set_cursor(0);
            Bytes b(copy.size(), 0);
            if(!b.empty()) copy.extract_raw(&b[0], b.size());
            Ev("PSend").i("st", st).b("body", last).b("w", so.sent().substr(w0)).i("cur0", cap(c0)).i("cur", cap(out_p->get_cursor()))
                .i("size", cap(out_p->size())).t("same", b == last).emit();
            dead = st != 1;
        }
        else if(w[0] == "PRecv")
        {
            if(!reuse) in_p.reset(new fr::Packet());
            int st = so.call([&](fr::Socket &k) { return k.receive(*in_p); });
            size_t am = alloc_max;
            Ev e("PRecv");
            e.i("st", st).i("rd", cap(so.total_read() - rd0)).i("am", cap(am));
            if(st == 1)
            {
                e.i("cur", cap(in_p->get_cursor())).i("size", cap(in_p->size()));
                Bytes b(in_p->get_bytes_remaining(), 0);
                if(!b.empty()) in_p->extract_raw(&b[0], b.size());
                e.b("v", b);
            }
            e.emit();
            dead = !(st == 1 || st == 6 || st == 21);
        }
        else if(w[0] == "Exact")
        {
            size_t n = (size_t)atoll(w[1].c_str());
            std::unique_ptr<char[]> buf(new char[n]);
            int st = so.call([&](fr::Socket &k) { return k.receive_all(buf.get(), n); });
            Ev e("Exact");
            e.i("n", (long long)n).i("st", st).i("rd", cap(so.total_read() - rd0));
            if(st == 1) e.b("v", Bytes(buf.get(), n));
            e.emit();
            dead = !(st == 1 || st == 6 || st == 21);
        }
        else if(w[0] == "FSend" || w[0] == "FAgain")
        {
            if(w[0] == "FSend")
            {
                last_role = w[1]; last_op = atoi(w[2].c_str()); last_fin = w[3] == "1"; last = bodyarg(w[4]);
                auto &f = last_role == "client" ? cf : sf;
                if(!reuse) { if(last_role == "client") f.reset(new fr::ClientWebFrame()); else f.reset(new fr::ServerWebFrame()); }
                f->set_opcode((fr::WebFrame::Opcode)last_op);
                f->set_final(last_fin);
                f->set_payload(last);
            }
            auto &f = last_role == "client" ? cf : sf;
            int st = so.call([&](fr::Socket &k) { return k.send(*f); });
            Ev("FSend").s("role", last_role).i("op", last_op).t("fin", last_fin).b("body", last).i("st", st).b("w", so.sent().substr(w0))
                .b("body2", f->get_payload()).i("op2", (int)f->get_opcode()).t("fin2", f->is_final()).emit();
            dead = st != 1;
        }
        else if(w[0] == "FRecv")
        {
            auto &f = w[1] == "client" ? rc : rs;
            if(!reuse) { if(w[1] == "client") f.reset(new fr::ClientWebFrame()); else f.reset(new fr::ServerWebFrame()); }
            int st = so.call([&](fr::Socket &k) { return k.receive(*f); });
            size_t am = alloc_max;
            Ev e("FRecv");
            e.s("role", w[1]).i("st", st).i("rd", cap(so.total_read() - rd0)).i("am", cap(am));
            if(st == 1) e.b("body", f->get_payload()).i("op", (int)f->get_opcode()).t("fin", f->is_final());
            e.emit();
            dead = !(st == 1 || st == 6 || st == 21);
        }
        else if(w[0] == "Limit")
        {
            uint32_t n = (uint32_t)strtoul(w[1].c_str(), 0, 10);
            so.call([&](fr::Socket &k) { k.set_max_receive_size(n); return 0; });
            auto c = [](uint32_t v) { return v > 1000000000u ? 1000000000 : (int)v; };
            Ev("Limit").i("n", c(n)).i("v", c(n)).i("got", c((uint32_t)so.call([&](fr::Socket &k) { return k.get_max_receive_size(); }))).emit();
        }
        else _exit(98);
    }
}

int main(int argc, char **argv)
{
    std::string f(__FILE__);
    cert_dir = f.substr(0, f.rfind('/')) + "/certs/";
    return run_all(argc, argv, body, reset);
}
