// Packet driver (C01, C02): executes scripted writes, reads and seeks on a real fr::Packet.
#include "sock.h"
#include "frnetlib/Packet.h"
#include "frnetlib/Packetable.h"
#include <list>
#include <memory>
#include <limits>
using namespace vd;

enum class E8 : uint8_t {};
enum class E16s : int16_t {};
enum E32 : uint32_t {};
enum class E32s : int32_t {};

struct Obj : public fr::Packetable
{
    uint16_t a = 7; std::string b = "junk"; std::vector<uint8_t> c{9, 9};
    void pack(fr::Packet &p) const override { p << a << b << c; }
    void unpack(fr::Packet &p) override { p >> a >> b >> c; }
};

struct Toks { const std::vector<std::string> &w; size_t i; const std::string &next() { return w[i++]; } };

// ---- value parsing from script tokens, and printing as JSON value terms
template<typename T, typename = void> struct V;
static std::string limbs(uint64_t v, int n)
{
    std::string o = "[";
    for(int a = n - 1; a >= 0; a--) { o += std::to_string((v >> (16 * a)) & 0xFFFF); if(a) o += ","; }
    return o + "]";
}
template<> struct V<bool> {
    static bool parse(Toks &t) { return t.next() != "0"; }
    static bool junk() { return true; }
    static std::string json(const bool &v) { unsigned char c; memcpy(&c, &v, 1); return std::to_string((int)c); } };
template<> struct V<uint8_t> {
    static uint8_t parse(Toks &t) { return (uint8_t)strtoull(t.next().c_str(), 0, 10); }
    static uint8_t junk() { return 0xAA; }
    static std::string json(uint8_t v) { return std::to_string((int)v); } };
#define NUM(T, U, L) template<> struct V<T> { \
    static T parse(Toks &t) { U u = (U)strtoull(t.next().c_str(), 0, 10); T v; memcpy(&v, &u, sizeof v); return v; } \
    static T junk() { U u = (U)0xAAAAAAAAAAAAAAAAull; T v; memcpy(&v, &u, sizeof v); return v; } \
    static std::string json(const T &v) { U u; memcpy(&u, &v, sizeof u); return limbs((uint64_t)u, L); } };
NUM(uint16_t, uint16_t, 1) NUM(int16_t, uint16_t, 1)
NUM(uint32_t, uint32_t, 2) NUM(int32_t, uint32_t, 2) NUM(float, uint32_t, 2)
NUM(uint64_t, uint64_t, 4) NUM(int64_t, uint64_t, 4) NUM(double, uint64_t, 4)
#define ENUM(T) template<> struct V<T> { \
    static T parse(Toks &t) { return static_cast<T>(strtoll(t.next().c_str(), 0, 10)); } \
    static T junk() { return static_cast<T>(5); } \
    static std::string json(const T &v) { return limbs((uint32_t)(int64_t)static_cast<std::underlying_type<T>::type>(v), 2); } };
ENUM(E8) ENUM(E16s) ENUM(E32) ENUM(E32s)
template<> struct V<std::string> {
    static std::string parse(Toks &t) { return unhex(t.next()); }
    static std::string junk() { return "junkjunkjunkjunkjunkjunk"; }
    static std::string json(const std::string &v) { return Ev::arr(v); } };
template<typename A, typename B> struct V<std::pair<A, B>> {
    static std::pair<A, B> parse(Toks &t) { A a = V<A>::parse(t); B b = V<B>::parse(t); return {a, b}; }
    static std::pair<A, B> junk() { return {V<A>::junk(), V<B>::junk()}; }
    static std::string json(const std::pair<A, B> &v) { return "[" + V<A>::json(v.first) + "," + V<B>::json(v.second) + "]"; } };
template<typename T> struct V<std::vector<T>> {
    static std::vector<T> parse(Toks &t) { std::vector<T> v; for(long n = atol(t.next().c_str()); n > 0; n--) v.push_back(V<T>::parse(t)); return v; }
    static std::vector<T> junk() { std::vector<T> v; v.push_back(V<T>::junk()); v.push_back(V<T>::junk()); v.push_back(V<T>::junk()); return v; }
    static std::string json(const std::vector<T> &v) { std::string o = "["; for(size_t a = 0; a < v.size(); a++) { if(a) o += ","; o += V<T>::json(v[a]); } return o + "]"; } };
template<typename M> struct VM {
    typedef typename M::key_type A; typedef typename M::mapped_type B;
    static M parse(Toks &t) { M v; for(long n = atol(t.next().c_str()); n > 0; n--) { A a = V<A>::parse(t); B b = V<B>::parse(t); v[a] = b; } return v; }
    static M junk() { M v; v[V<A>::junk()] = V<B>::junk(); v[A()] = V<B>::junk(); return v; }
    static std::string json(const M &v) { std::string o = "["; bool f = true; for(auto &p : v) { if(!f) o += ","; f = false; o += "[" + V<A>::json(p.first) + "," + V<B>::json(p.second) + "]"; } return o + "]"; } };
template<typename A, typename B> struct V<std::map<A, B>> : VM<std::map<A, B>> {};
template<typename A, typename B> struct V<std::unordered_map<A, B>> : VM<std::unordered_map<A, B>> {};
template<> struct V<Obj> {
    static Obj parse(Toks &t) { Obj o; o.a = V<uint16_t>::parse(t); o.b = V<std::string>::parse(t); o.c = V<std::vector<uint8_t>>::parse(t); return o; }
    static Obj junk() { return Obj(); }
    static std::string json(const Obj &o) { return "[" + V<uint16_t>::json(o.a) + "," + V<std::string>::json(o.b) + "," + V<std::vector<uint8_t>>::json(o.c) + "]"; } };

struct TypeOps
{
    std::string term; // JSON type term for the specification
    std::function<std::string(fr::Packet &, Toks &)> write;
    std::function<std::string(fr::Packet &)> read;
    std::function<std::string(fr::Packet &, Toks &)> range;
};

template<typename T> TypeOps make(const std::string &term)
{
    TypeOps o;
    o.term = term;
    o.write = [](fr::Packet &p, Toks &t) { T v = V<T>::parse(t); const T &c = v; p << c; return V<T>::json(v); };
    o.read = [](fr::Packet &p) { T v = V<T>::junk(); p >> v; return V<T>::json(v); };
    o.range = [](fr::Packet &p, Toks &t) {
        std::vector<T> v = V<std::vector<T>>::parse(t);
        std::list<T> l(v.begin(), v.end());
        p.add_range(l.begin(), l.end());
        return V<std::vector<T>>::json(v); };
    return o;
}

static std::map<std::string, TypeOps> types()
{
    std::map<std::string, TypeOps> m;
#define T(name, type, term) m[name] = make<type>(term);
    T("bool", bool, "[\"bool\"]") T("u8", uint8_t, "[\"u8\"]") T("u16", uint16_t, "[\"u16\"]") T("u32", uint32_t, "[\"u32\"]")
    T("u64", uint64_t, "[\"u64\"]") T("i16", int16_t, "[\"i16\"]") T("i32", int32_t, "[\"i32\"]") T("i64", int64_t, "[\"i64\"]")
    T("f32", float, "[\"f32\"]") T("f64", double, "[\"f64\"]") T("e8", E8, "[\"e8\"]") T("e16s", E16s, "[\"e16s\"]")
    T("e32", E32, "[\"e32\"]") T("e32s", E32s, "[\"e32s\"]") T("str", std::string, "[\"str\"]")
#define VEC(n) "[\"vec\"," n "]"
#define MAP(a, b) "[\"map\"," a "," b "]"
#define PAIR(a, b) "[\"pair\"," a "," b "]"
#define S(n) "[\"" n "\"]"
#define OBJ "[\"obj\"," S("u16") "," S("str") "," VEC(S("u8")) "]"
    typedef std::vector<uint8_t> vu8; typedef std::vector<uint16_t> vu16; typedef std::vector<std::string> vs; typedef std::vector<bool> vb;
    typedef std::vector<vu16> vvu16; typedef std::map<uint8_t, std::string> mu8s; typedef std::map<std::string, uint32_t> msu32;
    typedef std::unordered_map<std::string, uint16_t> usu16; typedef std::unordered_map<uint32_t, vs> uu32vs;
    typedef std::pair<uint16_t, std::string> pu16s; typedef std::pair<std::string, vu8> psvu8; typedef std::map<std::string, vu16> msvu16;
    typedef std::vector<pu16s> vpu16s; typedef std::vector<Obj> vobj; typedef std::map<std::string, usu16> msusu16; typedef std::vector<E8> ve8;
    typedef std::vector<double> vf64; typedef std::map<int32_t, bool> mi32b; typedef std::vector<mu8s> vmu8s; typedef std::vector<uint64_t> vu64;
    typedef std::pair<bool, Obj> pbobj;
    T("vec_u8", vu8, VEC(S("u8"))) T("vec_u16", vu16, VEC(S("u16"))) T("vec_u64", vu64, VEC(S("u64"))) T("vec_str", vs, VEC(S("str")))
    T("vec_vec_u16", vvu16, VEC(VEC(S("u16")))) T("map_u8_str", mu8s, MAP(S("u8"), S("str"))) T("map_str_u32", msu32, MAP(S("str"), S("u32")))
    T("umap_str_u16", usu16, MAP(S("str"), S("u16"))) T("umap_u32_vecstr", uu32vs, MAP(S("u32"), VEC(S("str"))))
    T("pair_u16_str", pu16s, PAIR(S("u16"), S("str"))) T("pair_str_vecu8", psvu8, PAIR(S("str"), VEC(S("u8"))))
    T("map_str_vecu16", msvu16, MAP(S("str"), VEC(S("u16")))) T("vec_pair", vpu16s, VEC(PAIR(S("u16"), S("str"))))
    T("map_str_umap", msusu16, MAP(S("str"), MAP(S("str"), S("u16")))) T("vec_e8", ve8, VEC(S("e8"))) T("vec_f64", vf64, VEC(S("f64")))
    T("map_i32_bool", mi32b, MAP(S("i32"), S("bool"))) T("vec_map", vmu8s, VEC(MAP(S("u8"), S("str"))))
    T("obj", Obj, OBJ) T("vec_obj", vobj, VEC(OBJ)) T("pair_bool_obj", pbobj, PAIR(S("bool"), OBJ))
    T("vec_bool", vb, VEC(S("bool")))
#undef T
    {
        TypeOps o;
        o.term = S("cstr");
        o.write = [](fr::Packet &p, Toks &t) { std::string v = unhex(t.next()); p << v.c_str(); return Ev::arr(v); };
        o.read = [](fr::Packet &p) { std::string v = "x"; p >> v; return Ev::arr(v); };
        m["cstr"] = o;
#ifdef __cpp_lib_string_view
        o.term = S("sv");
        o.write = [](fr::Packet &p, Toks &t) { std::string v = unhex(t.next()); p << std::string_view(v); return Ev::arr(v); };
        o.read = [](fr::Packet &p) { std::string_view v = "x"; p >> v; return Ev::arr(std::string(v)); };
        m["sv"] = o;
#endif
    }
    return m;
}

static bool small(const std::string &s, long long &v)
{
    errno = 0;
    v = strtoll(s.c_str(), 0, 10);
    return errno == 0 && v <= 1000000000ll && v >= -1000000000ll;
}

static void body(const Scenario &s)
{
    static thread_local auto T = types();
    std::unique_ptr<fr::Packet> p(new fr::Packet());
    for(auto &w : s.ops)
    {
        const std::string &op = w[0];
        Ev e(op == "Add3" || op == "Make3" || op == "Range" ? "W" : op);
        alloc_reset();
        auto guarded = [&](const std::function<void()> &f) {
            std::string x = "";
            bool ok = true;
            try { f(); }
            catch(const std::out_of_range &) { ok = false; x = "out_of_range"; }
            catch(const std::exception &ex) { ok = false; x = ex.what(); }
            e.t("ok", ok).s("x", x);
            return ok;
        };
        if(op == "W")
        {
            Toks t{w, 2};
            auto &o = T.at(w[1]);
            std::string v = o.write(*p, t);
            e.raw("t", o.term).raw("v", v);
        }
        else if(op == "Range")
        {
            Toks t{w, 2};
            auto &o = T.at(w[1]);
            std::string v = o.range(*p, t);
            e.raw("t", std::string("[\"vec\",") + o.term + "]").raw("v", v);
        }
        else if(op == "Add3" || op == "Make3") // u16, string, u8
        {
            Toks t{w, 1};
            uint16_t a = V<uint16_t>::parse(t); std::string b = V<std::string>::parse(t); uint8_t c = V<uint8_t>::parse(t);
            if(op == "Add3") p->add(a, b, c);
            else { p.reset(new fr::Packet(a, b, c)); Ev("New").i("cur", 0).i("size", 0).i("rem", 0).i("am", 0).emit(); }
            e.raw("t", "[\"obj\",[\"u16\"],[\"str\"],[\"u8\"]]").raw("v", "[" + V<uint16_t>::json(a) + "," + V<std::string>::json(b) + "," + V<uint8_t>::json(c) + "]");
        }
        else if(op == "R")
        {
            auto &o = T.at(w[1]);
            std::string v = "0";
            guarded([&] { v = o.read(*p); });
            e.raw("t", o.term).raw("v", v);
        }
        else if(op == "RawW")
        {
            Bytes b = unhex(w[1]);
            p->add_raw(b.data(), b.size());
            e.b("v", b);
        }
        else if(op == "RawR")
        {
            size_t n = (size_t)strtoull(w[1].c_str(), 0, 10);
            size_t cap = n > (1u << 20) ? (1u << 20) : n;
            std::vector<char> buf(cap + 1, 'j');
            bool ok = guarded([&] { p->extract_raw(buf.data(), n); });
            e.i("n", n > 1000000000u ? 1000000000 : (long long)n).t("big", n > 1000000000u).b("v", ok ? Bytes(buf.data(), cap) : Bytes());
        }
        else if(op == "Need")
        {
            size_t n = (size_t)strtoull(w[1].c_str(), 0, 10);
            guarded([&] { p->assert_bytes_remaining(n); });
            e.i("n", n > 1000000000u ? 1000000000 : (long long)n).t("big", n > 1000000000u);
        }
        else if(op == "SetCur")
        {
            size_t n = (size_t)strtoull(w[1].c_str(), 0, 10);
            p->set_cursor(n);
            e.i("n", n > 1000000000u ? 1000000000 : (long long)n).t("big", n > 1000000000u);
        }
        else if(op == "Seek")
        {
            long long n = 0;
            bool sm = small(w[1], n);
            errno = 0;
            p->seek_cursor((ssize_t)strtoll(w[1].c_str(), 0, 10));
            e.i("n", sm ? n : 0).i("dir", sm ? 0 : (n > 0 ? 1 : -1));
        }
        else if(op == "Clear") p->clear();
        else if(op == "New") p.reset(new fr::Packet());
        else if(op == "Reserve") p->reserve((size_t)atoll(w[1].c_str()));
        else if(op == "SetBuf")
        {
            Bytes b = unhex(w[1]);
            p->set_buffer(Bytes("\0\0\0\0", 4) + b);
            p->set_cursor(0);
            e.b("v", b);
        }
        else if(op == "Dump")
        {
            ScriptSocket so;
            p->send(&so);
            e.b("v", so.sent_bytes);
        }
        else _exit(98);
        auto lim = [](size_t v) { return v > 1000000000u ? 1000000000ll : (long long)v; };
        long long am = lim(alloc_max);
        e.i("cur", lim(p->get_cursor())).i("size", lim(p->size())).i("rem", lim(p->get_bytes_remaining())).i("am", am);
        e.emit();
    }
}

int main(int argc, char **argv) { return run_all(argc, argv, body); }
