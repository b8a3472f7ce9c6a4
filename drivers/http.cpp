// HTTP driver (C13..C18): parsing in pieces, construction, transfer over a scripted transport.
// params: kind=req|resp, in=<items>, out=<items>, nb=0|1
// ops: feed HEX ; ask <h|g|p>:HEX,... ; set (type n|uri HEX|ver n|status n|h HEX HEX|g HEX HEX|p HEX HEX|body HEX)
//      build HOST-HEX ; refeed n,n,... (feed the built text to a fresh object in pieces of these sizes, the rest last)
//      srecv ; ssend
// t=s|k|t: the socket is scripted itself, or a TcpSocket or SSLSocket on the simulated kernel
#include "carrier.h"
#include "frnetlib/HttpRequest.h"
#include "frnetlib/HttpResponse.h"
#include <memory>
using namespace vd;

class LogSocket : public ScriptSocket
{
public:
    bool log = false;
    Status receive_raw(void *data, size_t size, size_t &received) override
    {
        size_t before = ip;
        auto st = ScriptSocket::receive_raw(data, size, received);
        if(!log) return st;
        std::string k = st == Status::Success ? "D" : st == Status::WouldBlock ? "W" : st == Status::Timeout ? "T" : st == Status::Disconnected ? "X" : "E";
        (void)before;
        Ev("SRead").i("max", (long long)size).s("k", k).b("b", k == "D" ? Bytes((char *)data, received) : Bytes()).emit();
        return st;
    }
    Status send_raw(const char *data, size_t size, size_t &sent) override
    {
        size_t s0 = sent, b0 = sent_bytes.size();
        auto st = ScriptSocket::send_raw(data, size, sent);
        if(!log) return st;
        (void)s0;
        Ev("SWrite").b("b", sent_bytes.substr(b0)).i("st", (long long)st).emit();
        return st;
    }
    void addr(const std::string &a) { set_remote_address(a); }
};

static std::unique_ptr<fr::Http> fresh(bool req)
{
    if(req) return std::unique_ptr<fr::Http>(new fr::HttpRequest());
    return std::unique_ptr<fr::Http>(new fr::HttpResponse());
}

static std::string pairs(const std::vector<std::pair<Bytes, Bytes>> &v)
{
    std::string o = "[";
    for(auto &p : v)
    {
        if(o.size() > 1) o += ",";
        o += "[" + Ev::arr(p.first) + "," + Ev::arr(p.second) + "]";
    }
    return o + "]";
}

static void body(const Scenario &s)
{
    bool req = s.ps("kind") == "req";
    auto h = fresh(req);
    LogSocket so;
    std::unique_ptr<Carrier> car;
    std::string t = s.ps("t", "s");
    if(t == "s")
    {
        so.in = parse_items(s.ps("in", "-"));
        so.out = parse_items(s.ps("out", "-"));
        so.addr("10.9.8.7");
    }
    else
    {
        car.reset(new Carrier(t[0], parse_items(s.ps("in", "-")), parse_items(s.ps("out", "-")), s.pi("nb") != 0, (size_t)s.pi("cut")));
        car->addr("10.9.8.7");
        car->on_read = [](char k, const Bytes &b) { Ev("SRead").i("max", 0).s("k", std::string(1, k)).b("b", b).emit(); };
        car->on_write = [](char k, const Bytes &b) {
            Ev("SWrite").b("b", b).i("st", k == 'D' ? 1 : k == 'W' ? 6 : k == 'T' ? 21 : (int)fr::Socket::Status::SendError).emit();
        };
    }
    // a transfer by the library
    auto transfer = [&](bool send) {
        if(car)
        {
            Carrier::On on;
            return (int)(send ? car->sock().send(*h) : car->sock().receive(*h));
        }
        so.log = true;
        int st = (int)(send ? so.send(*h) : so.receive(*h));
        so.log = false;
        return st;
    };
    std::vector<std::pair<Bytes, Bytes>> hs, gs, ps;
    Bytes bd, uri = "/";
    int type = -1, ver = 2, status = 200;
    Bytes built;
    auto feed = [&](const Bytes &b) {
        // an exactly sized heap copy, so that reading past the end is seen
        std::unique_ptr<char[]> p(new char[b.size() ? b.size() : 1]);
        memcpy(p.get(), b.data(), b.size());
        int st = -1;
        bool thrown = false;
        try { st = (int)h->parse(p.get(), b.size()); }
        catch(const std::exception &) { thrown = true; }
        Ev("Feed").b("b", b).i("st", st).t("thrown", thrown).emit();
        return st;
    };
    auto ask = [&](const std::string &w) {
        std::vector<std::pair<char, Bytes>> q;
        if(w != "-") for(auto &x : split(w, ',')) q.push_back({x[0], unhex(x.substr(2))});
        std::string r[3] = {"[", "[", "["};
        for(auto &x : q)
        {
            int k = x.first == 'h' ? 0 : x.first == 'g' ? 1 : 2;
            bool ex = k == 0 ? h->header_exists(x.second) : k == 1 ? h->get_exists(x.second) : h->post_exists(x.second);
            Bytes v;
            if(ex) v = k == 0 ? h->header(x.second) : k == 1 ? h->get(x.second) : h->post(x.second);
            if(r[k].size() > 1) r[k] += ",";
            r[k] += "[" + Ev::arr(x.second) + "," + (ex ? "1" : "0") + "," + Ev::arr(v) + "]";
        }
        Ev("Flds").i("type", (int)h->get_type()).b("uri", h->get_uri()).i("ver", (int)h->get_version()).i("status", (int)h->get_status())
            .b("body", h->get_body()).raw("h", r[0] + "]").raw("g", r[1] + "]").raw("p", r[2] + "]").emit();
    };
    for(auto &op : s.ops)
    {
        auto &k = op[0];
        if(k == "feed") feed(unhex(op[1]));
        else if(k == "feedall")
        {
            for(size_t a = 1; a < op.size(); a++) if(feed(unhex(op[a])) != 11) break;
        }
        else if(k == "ask") ask(op[1]);
        else if(k == "set")
        {
            auto &f = op[1];
            if(f == "type") { type = atoi(op[2].c_str()); h->set_type((fr::Http::RequestType)type); }
            else if(f == "uri") { uri = unhex(op[2]); h->set_uri(uri); }
            else if(f == "ver") { ver = atoi(op[2].c_str()); h->set_version((fr::Http::RequestVersion)ver); }
            else if(f == "status") { status = atoi(op[2].c_str()); h->set_status((fr::Http::RequestStatus)status); }
            else if(f == "h") { hs.push_back({unhex(op[2]), unhex(op[3])}); h->header(hs.back().first) = hs.back().second; }
            else if(f == "g") { gs.push_back({unhex(op[2]), unhex(op[3])}); h->get(gs.back().first) = gs.back().second; }
            else if(f == "p") { ps.push_back({unhex(op[2]), unhex(op[3])}); h->post(ps.back().first) = ps.back().second; }
            else if(f == "body") { bd = unhex(op[2]); h->set_body(bd); }
        }
        else if(k == "build" || k == "ssend")
        {
            Bytes host = k == "build" ? unhex(op[1]) : car ? car->sock().get_remote_address() : so.get_remote_address();
            const fr::Http &c = *h;
            built = c.construct(host);
            bool same = c.construct(host) == built && c.get_body() == bd && (int)c.get_version() == ver;
            for(auto &x : hs) same = same && c.header_exists(x.first) && h->header(x.first) == x.second;
            for(auto &x : gs) same = same && c.get_exists(x.first) && h->get(x.first) == x.second;
            for(auto &x : ps) same = same && c.post_exists(x.first) && h->post(x.first) == x.second;
            same = same && c.construct(host) == built;
            for(auto n : {"host", "connection", "content-length", "content-type"})
            {
                bool user = false;
                for(auto &x : hs) { auto l = x.first; for(auto &ch : l) ch = (char)tolower(ch); user = user || l == n; }
                same = same && c.header_exists(n) == user;
            }
            Ev("Build").i("type", type).b("uri", uri).i("ver", ver).i("status", status).raw("h", pairs(hs)).raw("g", pairs(gs)).raw("p", pairs(ps))
                .b("body", bd).b("host", host).b("out", built).t("same", same).emit();
            if(k == "ssend")
            {
                int st = transfer(true);
                Ev("Sent").i("st", st).emit();
            }
        }
        else if(k == "refeed")
        {
            h = fresh(req);
            Ev("Fresh").emit();
            size_t at = 0;
            int st = 11;
            if(op.size() > 1 && op[1] != "-")
                for(auto &w : split(op[1], ','))
                {
                    size_t n = std::min((size_t)atoll(w.c_str()), built.size() - at);
                    if(at + n >= built.size()) break;
                    st = feed(built.substr(at, n));
                    at += n;
                    if(st != 11) break;
                }
            if(st == 11 && at < built.size()) feed(built.substr(at));
        }
        else if(k == "srecv")
        {
            int st = transfer(false);
            Ev("Recvd").i("st", st).emit();
        }
        else { fprintf(stderr, "bad op %s\n", k.c_str()); _exit(99); }
    }
}

int main(int argc, char **argv)
{
    std::string f(__FILE__);
    cert_dir = f.substr(0, f.rfind('/')) + "/certs/";
    return run_all(argc, argv, body, [](const Scenario &s) {
        Ev("Reset").i("sc", s.id).s("kind", s.ps("kind")).i("hlim", MAX_HTTP_HEADER_SIZE).i("blim", MAX_HTTP_BODY_SIZE).emit();
    });
}
