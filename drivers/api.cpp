// Small conversions and the library's value types (C30..C33).
// ops: mime HEX ; status N ERRNO ; rtype HEX ; rname N ; tenc HEX ; net KIND HEX
//      values, numbered 0..3:  new N req|resp|packet|frame|url ; copy FROM TO ; assign FROM TO ; move FROM TO ; massign FROM TO ; drop N
//      uri|body N HEX ; type|ver|status_of N INT ; h|g|p N KEY VALUE ; hr|gr|pr N KEY (read by accessor) ; look N KEY,KEY.. ;
//      build N HOST ; feed N HEX
//      put N HEX (append raw) ; take N COUNT ; cur N POS ; clear N ; setbuf N HEX
//      pay N HEX ; op N INT ; fin N INT
#include "common.h"
#include "frnetlib/NetworkEncoding.h"
#include "frnetlib/HttpRequest.h"
#include "frnetlib/HttpResponse.h"
#include "frnetlib/Packet.h"
#include "frnetlib/WebFrame.h"
#include "frnetlib/Socket.h"
#include <memory>
using namespace vd;

struct Val
{
    std::string kind;
    std::unique_ptr<fr::HttpRequest> rq;
    std::unique_ptr<fr::HttpResponse> rs;
    std::unique_ptr<fr::Packet> pk;
    std::unique_ptr<fr::ClientWebFrame> wf;
    fr::Http *http() { return rq ? (fr::Http *)rq.get() : (fr::Http *)rs.get(); }
};

template<typename T> static void transfer(const std::string &how, std::unique_ptr<T> &from, std::unique_ptr<T> &to)
{
    if(!from) return;
    if(how == "copy") to.reset(new T(*from));
    else if(how == "move") to.reset(new T(std::move(*from)));
    else
    {
        if(!to) to.reset(new T());
        if(how == "assign") *to = *from; else *to = std::move(*from);
    }
}

template<typename T, typename F> static Bytes net(F f, const Bytes &in)
{
    T v;
    memcpy(&v, in.data(), sizeof v);
    volatile T keep = v;
    v = keep;
    T r = f(v);
    return Bytes((char *)&r, sizeof r);
}

static void body(const Scenario &s)
{
    Val v[4];
    for(auto &o : s.ops)
    {
        auto &k = o[0];
        size_t n = o.size() > 1 && o[1].size() == 1 && isdigit(o[1][0]) ? size_t(o[1][0] - '0') & 3 : 0;
        if(k == "mime")
        {
            Bytes b = unhex(o[1]);
            const std::string &t = fr::Http::get_mimetype(b);
            Ev("Mime").b("n", b).s("t", t).emit();
        }
        else if(k == "status")
        {
            errno = atoi(o[2].c_str());
            std::string t;
            bool thrown = false;
            try { t = fr::Socket::status_to_string((fr::Socket::Status)atol(o[1].c_str())); }
            catch(const std::logic_error &) { thrown = true; }
            Ev("Status").i("v", atol(o[1].c_str())).s("t", t).s("err", strerror(atoi(o[2].c_str()))).t("thrown", thrown).emit();
        }
        else if(k == "rtype") Ev("RType").b("b", unhex(o[1])).i("r", (int)fr::Http::string_to_request_type(unhex(o[1]))).emit();
        else if(k == "rname") Ev("RName").i("v", atol(o[1].c_str())).b("b", fr::Http::request_type_to_string((fr::Http::RequestType)atol(o[1].c_str()))).emit();
        else if(k == "tenc") Ev("TEnc").b("b", unhex(o[1])).i("r", (int)fr::Http::string_to_transfer_encoding(unhex(o[1]))).emit();
        else if(k == "net")
        {
            Bytes in = unhex(o[2]), out;
            auto &f = o[1];
            if(f == "htonf") out = net<float>([](float x) { return fr::htonf(x); }, in);
            else if(f == "ntohf") out = net<float>([](float x) { return fr::ntohf(x); }, in);
            else if(f == "htond") out = net<double>([](double x) { return fr::htond(x); }, in);
            else if(f == "ntohd") out = net<double>([](double x) { return fr::ntohd(x); }, in);
            else if(f == "htonll") out = net<uint64_t>([](uint64_t x) { return (uint64_t)fr_htonll(x); }, in);
            else if(f == "ntohll") out = net<uint64_t>([](uint64_t x) { return (uint64_t)fr_ntohll(x); }, in);
            else _exit(99);
            Ev("Net").s("f", f).b("i", in).b("o", out).emit();
        }
        else if(k == "new")
        {
            v[n] = Val();
            v[n].kind = o[2];
            if(o[2] == "req") v[n].rq.reset(new fr::HttpRequest());
            else if(o[2] == "resp") v[n].rs.reset(new fr::HttpResponse());
            else if(o[2] == "packet") v[n].pk.reset(new fr::Packet());
            else if(o[2] == "frame") v[n].wf.reset(new fr::ClientWebFrame());
            else _exit(99);
            Ev("New").i("n", n).s("kind", o[2]).emit();
        }
        else if(k == "copy" || k == "assign" || k == "move" || k == "massign")
        {
            size_t t = size_t(o[2][0] - '0') & 3;
            if(v[n].kind.empty() || n == t) continue;
            if(v[t].kind != v[n].kind || k == "copy" || k == "move") { v[t] = Val(); v[t].kind = v[n].kind; }
            transfer(k, v[n].rq, v[t].rq);
            transfer(k, v[n].rs, v[t].rs);
            transfer(k, v[n].pk, v[t].pk);
            transfer(k, v[n].wf, v[t].wf);
            bool moved = k == "move" || k == "massign";
            if(moved) v[n] = Val();
            Ev("Give").i("n", n).i("to", t).t("moved", moved).emit();
        }
        else if(k == "drop") { v[n] = Val(); Ev("Drop").i("n", n).emit(); }
        else if(v[n].kind.empty()) continue;
        else if(v[n].rq || v[n].rs)
        {
            fr::Http &h = *v[n].http();
            if(k == "uri") { h.set_uri(unhex(o[2])); Ev("Uri").i("n", n).b("b", unhex(o[2])).emit(); }
            else if(k == "body") { h.set_body(unhex(o[2])); Ev("Body").i("n", n).b("b", unhex(o[2])).emit(); }
            else if(k == "type") { h.set_type((fr::Http::RequestType)atoi(o[2].c_str())); Ev("Type").i("n", n).i("v", atoi(o[2].c_str())).emit(); }
            else if(k == "ver") { h.set_version((fr::Http::RequestVersion)atoi(o[2].c_str())); Ev("Ver").i("n", n).i("v", atoi(o[2].c_str())).emit(); }
            else if(k == "stat") { h.set_status((fr::Http::RequestStatus)atoi(o[2].c_str())); Ev("Stat").i("n", n).i("v", atoi(o[2].c_str())).emit(); }
            else if(k == "h" || k == "g" || k == "p")
            {
                Bytes key = unhex(o[2]), val = unhex(o[3]);
                (k == "h" ? h.header(key) : k == "g" ? h.get(key) : h.post(key)) = val;
                Ev("Put").i("n", n).s("m", k).b("k", key).b("b", val).emit();
            }
            else if(k == "hr" || k == "gr" || k == "pr")
            {
                Bytes key = unhex(o[2]);
                Bytes val = k == "hr" ? h.header(key) : k == "gr" ? h.get(key) : h.post(key);
                Ev("Read").i("n", n).s("m", k.substr(0, 1)).b("k", key).b("b", val).emit();
            }
            else if(k == "build") { Bytes b = ((const fr::Http &)h).construct(unhex(o[2])); Ev("Built").i("n", n).b("host", unhex(o[2])).b("b", b).emit(); }
            else if(k == "feed")
            {
                Bytes in = unhex(o[2]);
                std::unique_ptr<char[]> p(new char[in.size() ? in.size() : 1]);
                memcpy(p.get(), in.data(), in.size());
                Ev("Feed").i("n", n).b("b", in).i("st", (int)h.parse(p.get(), in.size())).emit();
            }
            else if(k == "look")
            {
                const fr::Http &c = h;
                std::string ex[3] = {"[", "[", "["};
                if(o[2] != "-") for(auto &w : split(o[2], ','))
                {
                    Bytes key = unhex(w);
                    bool e[3] = {c.header_exists(key), c.get_exists(key), c.post_exists(key)};
                    for(int a = 0; a < 3; a++) ex[a] += std::string(ex[a].size() > 1 ? "," : "") + "[" + Ev::arr(key) + "," + (e[a] ? "1" : "0") + "]";
                }
                Ev("Look").i("n", n).b("uri", c.get_uri()).b("body", c.get_body()).i("type", (int)c.get_type()).i("ver", (int)c.get_version()).i("status", (int)c.get_status())
                    .raw("h", ex[0] + "]").raw("g", ex[1] + "]").raw("p", ex[2] + "]").emit();
            }
        }
        else if(v[n].pk)
        {
            fr::Packet &p = *v[n].pk;
            if(k == "put") { Bytes b = unhex(o[2]); p.add_raw(b.data(), b.size()); Ev("PPut").i("n", n).b("b", b).emit(); }
            else if(k == "take")
            {
                size_t c = size_t(atoi(o[2].c_str()));
                std::unique_ptr<char[]> b(new char[c ? c : 1]);
                bool thrown = false;
                try { p.extract_raw(b.get(), c); } catch(const std::out_of_range &) { thrown = true; }
                Ev("PTake").i("n", n).i("c", c).b("b", thrown ? Bytes() : Bytes(b.get(), c)).t("thrown", thrown).emit();
            }
            else if(k == "cur") { p.set_cursor(size_t(atoi(o[2].c_str()))); Ev("PCur").i("n", n).i("v", atoi(o[2].c_str())).emit(); }
            else if(k == "clear") { p.clear(); Ev("PClear").i("n", n).emit(); }
            else if(k == "look") Ev("PLook").i("n", n).i("size", p.size()).i("cur", p.get_cursor()).i("rem", p.get_bytes_remaining()).emit();
        }
        else if(v[n].wf)
        {
            fr::ClientWebFrame &w = *v[n].wf;
            if(k == "pay") { w.set_payload(unhex(o[2])); Ev("WPay").i("n", n).b("b", unhex(o[2])).emit(); }
            else if(k == "op") { w.set_opcode((fr::WebFrame::Opcode)atoi(o[2].c_str())); Ev("WOp").i("n", n).i("v", atoi(o[2].c_str())).emit(); }
            else if(k == "fin") { w.set_final(atoi(o[2].c_str()) != 0); Ev("WFin").i("n", n).t("v", atoi(o[2].c_str()) != 0).emit(); }
            else if(k == "look") Ev("WLook").i("n", n).b("b", w.get_payload()).i("op", (int)w.get_opcode()).t("fin", w.is_final()).emit();
        }
    }
}

int main(int argc, char **argv) { return run_all(argc, argv, body); }
