// URL and percent-encoding driver (C24..C26). One URL object lives through the scenario.
// ops: parse HEX ; new ; set (scheme N|host HEX|port HEX|path HEX|query HEX|frag HEX) ; look ; enc HEX ; dec HEX ; schemes
#include "common.h"
#include "frnetlib/URL.h"
#include "frnetlib/Http.h"
#include <memory>
using namespace vd;

static std::string parts(const fr::URL &u)
{
    return "{\"scheme\":" + std::to_string((int)u.get_scheme()) + ",\"host\":" + Ev::arr(u.get_host()) + ",\"port\":" + Ev::arr(u.get_port())
           + ",\"path\":" + Ev::arr(u.get_path()) + ",\"query\":" + Ev::arr(u.get_query()) + ",\"frag\":" + Ev::arr(u.get_fragment()) + "}";
}

static Bytes tight(const Bytes &b) { return Bytes(b.data(), b.size()); }

static void look(const char *name, const fr::URL &u, const Bytes &in, bool same)
{
    Bytes url, again;
    std::string uri = "[]", back = "{}";
    bool thrown = false, equal = false, ne = true;
    fr::URL v = u;
    v.set_host(u.get_host() + "x"); ne = ne && !(v == u) && !(u == v); v = u;
    v.set_port(u.get_port() + "1"); ne = ne && !(v == u) && !(u == v); v = u;
    v.set_path(u.get_path() + "/x"); ne = ne && !(v == u) && !(u == v); v = u;
    v.set_query(u.get_query() + "x"); ne = ne && !(v == u) && !(u == v); v = u;
    v.set_fragment(u.get_fragment() + "x"); ne = ne && !(v == u) && !(u == v); v = u;
    v.set_scheme(u.get_scheme() == fr::URL::HTTP ? fr::URL::Unknown : fr::URL::HTTP); ne = ne && !(v == u) && !(u == v); v = u;
    ne = ne && v == u;
    try
    {
        uri = Ev::arr(u.get_uri());
        url = u.get_url();
        fr::URL r(url);
        back = parts(r);
        equal = r == u;
        again = r.get_url();
    }
    catch(const std::exception &) { thrown = true; back = parts(u); }
    Ev(name).b("in", in).t("same", same).raw("u", parts(u)).t("thrown", thrown).raw("uri", uri).b("url", url).raw("back", back).t("equal", equal).t("ne", ne).b("again", again).emit();
}

static void body(const Scenario &s)
{
    std::unique_ptr<fr::URL> u(new fr::URL());
    for(auto &op : s.ops)
    {
        auto &k = op[0];
        if(k == "new") { memset((void *)u.get(), 0, 0); u.reset(new fr::URL()); Ev("New").emit(); }
        else if(k == "parse")
        {
            Bytes b = tight(unhex(op[1]));
            bool same = false;
            try
            {
                u->parse(b);
                fr::URL f(b);
                same = f == *u && f.get_scheme() == u->get_scheme() && f.get_host() == u->get_host() && f.get_port() == u->get_port()
                       && f.get_path() == u->get_path() && f.get_query() == u->get_query() && f.get_fragment() == u->get_fragment();
            }
            catch(const std::exception &) { Ev("Threw").b("in", b).emit(); return; }
            look("Parse", *u, b, same);
        }
        else if(k == "set")
        {
            auto &f = op[1];
            if(f == "scheme") { u->set_scheme((fr::URL::Scheme)atoi(op[2].c_str())); Ev("SetS").i("v", atoi(op[2].c_str())).emit(); continue; }
            Bytes v = unhex(op[2]);
            if(f == "host") u->set_host(v);
            else if(f == "port") u->set_port(v);
            else if(f == "path") u->set_path(v);
            else if(f == "query") u->set_query(v);
            else u->set_fragment(v);
            Ev("Set").s("f", f).b("v", v).emit();
        }
        else if(k == "look") look("Look", *u, "", true);
        else if(k == "schemes")
        {
            for(int a = 0; a <= 6; a++)
            {
                Bytes t;
                int back = -1;
                bool thrown = false;
                try { t = fr::URL::scheme_to_string((fr::URL::Scheme)a); back = (int)fr::URL::string_to_scheme(t); }
                catch(const std::exception &) { thrown = true; }
                Ev("SchemeText").i("v", a).b("t", t).i("back", back).t("thrown", thrown).emit();
            }
        }
        else if(k == "sname")
        {
            Bytes b = unhex(op[1]);
            Ev("SchemeName").b("t", b).i("v", (int)fr::URL::string_to_scheme(b)).emit();
        }
        else if(k == "enc" || k == "dec")
        {
            Bytes b = tight(unhex(op[1])), o, d;
            bool thrown = false;
            try
            {
                if(k == "enc") { o = fr::Http::url_encode(b); d = fr::Http::url_decode(o); }
                else o = fr::Http::url_decode(b);
            }
            catch(const std::exception &) { thrown = true; }
            if(k == "enc") Ev("Enc").b("in", b).b("out", o).b("dec", d).t("thrown", thrown).emit();
            else Ev("Dec").b("in", b).b("out", o).t("thrown", thrown).emit();
        }
        else { fprintf(stderr, "bad op %s\n", k.c_str()); _exit(99); }
    }
}

int main(int argc, char **argv) { return run_all(argc, argv, body); }
