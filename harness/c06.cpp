#include "lib.hpp"
#include <sse/crypto/prf.hpp>
#include <set>
#include "giant.hpp"
using namespace pbt;
const char* pbt::PROP_ID = "C06";
const char* pbt::PROP_RULE = "a case evaluating the PRF on at least one non-empty input through all overloads, compared with the reference (widths up to 16384) or with the distinct-blocks law (larger widths)";
size_t pbt::prop_tape_len() { return 160; }
void pbt::prop_setup() { lib_init_tape_rng(); }

template <size_t N> static std::unique_ptr<Bytes> vec(const std::array<uint8_t, N>& a) { return std::unique_ptr<Bytes>(new Bytes(a.begin(), a.end())); }

// no block of a wide output may repeat, within one output or across inputs
struct Blocks {
    std::map<Bytes, std::string> seen;
    void add(const Bytes& out, const std::string& who)
    {
        for (size_t p = 0; p + 64 <= out.size(); p += 64) {
            Bytes b(out.begin() + p, out.begin() + p + 64);
            auto r = seen.insert({b, who + " block " + std::to_string(p / 64)});
            CHECK(r.second, "64-byte block repeats: ", r.first->second, " and ", who, " block ", p / 64);
        }
    }
};

struct IPrf {
    virtual ~IPrf() {}
    virtual Bytes buf(const uint8_t* p, size_t n) const = 0;
    virtual Bytes str(const std::string& s) const = 0;
    virtual Bytes a7(const Bytes& in) const = 0;
    virtual Bytes a33(const Bytes& in) const = 0;
    virtual Bytes kbuf(const uint8_t* p, size_t n) const = 0;
    virtual Bytes kstr(const std::string& s) const = 0;
    virtual Bytes k7(const Bytes& in) const = 0;
    virtual Bytes k33(const Bytes& in) const = 0;
    virtual Bytes more(const Bytes& in) const = 0; // further array sizes, where instantiated
    virtual IPrf* moved() = 0;
    virtual IPrf* assigned() = 0;
};
template <uint16_t N, bool> struct More { static Bytes f(const Prf<N>&, const Bytes&) { return Bytes(); } };
template <uint16_t N> struct More<N, true> {
    template <size_t L> static Bytes one(const Prf<N>& p, const Bytes& in)
    {
        Bytes a = *vec(p.prf(arr<L>(in)));
        CHECK(key_content<N>(p.derive_key(arr<L>(in))) == a, "derive_key(array) and prf(array) of ", L, " bytes differ, width ", N);
        return a;
    }
    static Bytes f(const Prf<N>& p, const Bytes& in)
    {
        switch (in.size()) {
        case 1: return one<1>(p, in);
        case 2: return one<2>(p, in);
        case 16: return one<16>(p, in);
        case 31: return one<31>(p, in);
        case 32: return one<32>(p, in);
        case 64: return one<64>(p, in);
        case 65: return one<65>(p, in);
        case 127: return one<127>(p, in);
        case 128: return one<128>(p, in);
        case 129: return one<129>(p, in);
        case 256: return one<256>(p, in);
        case 1000: return one<1000>(p, in);
        default: return one<5000>(p, in);
        }
    }
};
template <uint16_t N> struct P : IPrf {
    Prf<N> p;
    explicit P(const Bytes& k) : p(mk<32>(k)) {}
    explicit P(Prf<N>&& o) : p(std::move(o)) {}
    Bytes buf(const uint8_t* q, size_t n) const override { return *vec(p.prf(q, n)); }
    Bytes str(const std::string& s) const override { return *vec(p.prf(s)); }
    Bytes a7(const Bytes& in) const override { return *vec(p.prf(arr<7>(in))); }
    Bytes a33(const Bytes& in) const override { return *vec(p.prf(arr<33>(in))); }
    Bytes kbuf(const uint8_t* q, size_t n) const override { return key_content<N>(p.derive_key(q, n)); }
    Bytes kstr(const std::string& s) const override { return key_content<N>(p.derive_key(s)); }
    Bytes k7(const Bytes& in) const override { return key_content<N>(p.derive_key(arr<7>(in))); }
    Bytes k33(const Bytes& in) const override { return key_content<N>(p.derive_key(arr<33>(in))); }
    Bytes more(const Bytes& in) const override { return More<N, N == 9 || N == 32 || N == 64 || N == 100 || N == 300>::f(p, in); }
    IPrf* moved() override { return new P(std::move(p)); }
    IPrf* assigned() override { P* r = new P(Prf<N>()); r->p = std::move(p); return r; }
    static IPrf* make(const Bytes& k) { return new P(k); }
};
static void go(Tape& t, Ctx& c, size_t N, IPrf* (*make)(const Bytes&))
{
        Bytes key = t.bytes(32);
        std::unique_ptr<IPrf> p(make(key));
        Blocks blocks;
        std::map<Bytes, Bytes> table;
        std::set<std::pair<Bytes, Bytes>> others;
        unsigned n = 1 + t.pick(3);
        bool history = N <= 300 && t.range(0, 399) == 399;
        if (history) { n = 200 + t.pick(200); c.label("long history"); }
        for (unsigned k = 0; k < n; k++) {
            size_t len = history ? t.pick(40) : (N > 2000 ? t.len(0, 300, 5000) : t.len(0, 1500, 70000));
            Bytes in = t.bytes(len);
            if (k > 0 && t.pick(2)) { // a close neighbour of the previous input
                in = table.rbegin()->first;
                unsigned e = t.pick(4);
                if (e == 0) in.push_back(0);
                else if (e == 1 && !in.empty()) in.pop_back();
                else if (e == 2) in.push_back(t.u8());
                else if (!in.empty()) in[t.range(0, in.size() - 1)] ^= uint8_t(1u << t.pick(8));
                c.label("neighbouring input");
            }
            len = in.size();
            Exact buf(in);
            Bytes got = p->buf(buf.data(), len);
            if (N <= 16384) {
                Bytes want = ref::prf(key, in, N);
                CHECK(got == want, "prf width ", N, " input length ", len, " differs from the definition");
            }
            std::string s = S(in);
            CHECK(p->str(s) == got, "prf(string) differs from prf(buffer), width ", N, " length ", len);
            CHECK(buf.bytes() == in && eq(in, s), "prf modified its input");
            if (table.count(in)) CHECK(table[in] == got, "prf is not deterministic, width ", N);
            else {
                if (N > 64) blocks.add(got, "input " + std::to_string(k));
                if (N >= 16) for (auto& e : table) CHECK(e.second != got, "two inputs share an output, width ", N);
                table[in] = got;
            }
            unsigned w = t.pick(4);
            if (w == 0) CHECK(p->kstr(s) == got, "derive_key(string) differs, width ", N);
            if (w == 1) CHECK(p->kbuf(buf.data(), len) == got, "derive_key(buffer) differs, width ", N);
            if (w >= 2) {
                Bytes ai = t.bytes(w == 2 ? 7 : 33);
                Bytes aw = N <= 16384 ? ref::prf(key, ai, N) : p->buf(ai.data(), ai.size());
                CHECK((w == 2 ? p->a7(ai) : p->a33(ai)) == aw, "prf(array) width ", N);
                CHECK((w == 2 ? p->k7(ai) : p->k33(ai)) == aw, "derive_key(array) width ", N);
            }
            if (t.pick(4) == 0 && (N == 9 || N == 32 || N == 64 || N == 100 || N == 300)) {
                static const size_t L[] = {1, 2, 16, 31, 32, 64, 65, 127, 128, 129, 256, 1000, 5000};
                Bytes ai = t.bytes(L[t.pick(13)]);
                CHECK(p->more(ai) == ref::prf(key, ai, N), "prf(array) of ", ai.size(), " bytes, width ", N);
                c.label("other array sizes");
            }
            switch (t.pick(6)) {
            case 1: { p.reset(p->moved()); c.label("moved"); break; }
            case 2: { p.reset(p->assigned()); c.label("move-assigned"); break; }
            default: break;
            }
            CHECK(p->str(s) == got, "prf changed between two calls, width ", N);
            { // another key gives an unrelated output
                Bytes k2 = key;
                k2[t.range(0, 31)] ^= uint8_t(1 + t.pick(255));
                std::unique_ptr<IPrf> o(make(k2));
                Bytes og = o->str(s);
                if (N >= 16) CHECK(og != got, "different keys give the same output, width ", N);
                if (N > 64 && others.insert({k2, in}).second) blocks.add(og, "other key " + std::to_string(k));
            }
            c.note("N=", N, " key=", hex(key.data(), 32, 4), " len=", len, " in=", hex(in.data(), len, 6), " out=", hex(got.data(), N, 8));
            c.nontrivial(len > 0);
        }
        c.label(N <= 64 ? "width<=64" : N <= 16384 ? "width 65..16384" : "width>16384");
}
struct Ent { size_t n; IPrf* (*make)(const Bytes&); };
#define Q(N) {N, P<N>::make}
static const Ent TAB[] = {Q(1), Q(2), Q(3), Q(5), Q(7), Q(8), Q(9), Q(10), Q(12), Q(15), Q(16), Q(17), Q(20), Q(24), Q(31), Q(32), Q(33), Q(40), Q(47), Q(48), Q(49), Q(55), Q(56), Q(60), Q(62), Q(63), Q(64),
    Q(65), Q(66), Q(72), Q(80), Q(96), Q(100), Q(112), Q(127), Q(128), Q(129), Q(160), Q(191), Q(192), Q(193), Q(200), Q(254), Q(255), Q(256), Q(257), Q(264), Q(300), Q(319), Q(320), Q(384), Q(400), Q(511), Q(512), Q(513), Q(640), Q(767), Q(768), Q(1000), Q(1023), Q(1024), Q(1025), Q(1500), Q(2000), Q(2048)};
static const Ent BIG[] = {Q(4096), Q(5000), Q(8191), Q(8192), Q(8256), Q(12000), Q(16320), Q(16321), Q(16383), Q(16384), Q(16385), Q(16448), Q(20000), Q(32768), Q(32769), Q(40000), Q(65472), Q(65473), Q(65535)};
static void giant_case(Tape& t, Ctx& c)
{
    if (mem_available_gb() < 10) { c.label("giant case skipped: not enough memory"); return; }
    size_t n = giant_size(t);
    Big b(t, n);
    if (!b.p) return;
    Bytes key = t.bytes(32);
    std::unique_ptr<IPrf> p(P<24>::make(key));
    Bytes want = ref::hmac_big(false, key, b.p, n);
    want.resize(24);
    CHECK(p->buf(b.p, n) == want, "prf of ", n, " bytes");
    c.note("giant len=", n);
    c.label("more than 2^32 bytes");
    c.nontrivial();
}
static void long_case(Tape& t, Ctx& c)
{
    Stream g(t);
    Bytes key = g.bytes(32);
    std::unique_ptr<IPrf> a(P<32>::make(key)), b(P<100>::make(key));
    for (unsigned i = 0; i < LONG_OPS; i++) {
        Bytes in = g.bytes(g.below(30));
        CHECK(a->str(S(in)) == ref::prf(key, in, 32), "evaluation ", i, " of one object, width 32");
        if (i % 4 == 0) CHECK(b->kstr(S(in)) == ref::prf(key, in, 100), "key derivation ", i, " of one object, width 100");
        if (i % 7 == 0) CHECK(b->str(S(in)) == ref::prf(key, in, 100), "evaluation ", i, " of one object, width 100");
    }
    c.note("long history of two objects");
    c.label("more than 65536 operations");
    c.nontrivial();
}
void pbt::prop_case(Tape& t, Ctx& c)
{
    if (t.longrun()) return long_case(t, c);
    if (t.giant()) return giant_case(t, c);
    static const Ent MORE[] = {Q(9), Q(32), Q(64), Q(100), Q(300)};
    Ent e = t.pick(10) == 9 ? MORE[t.pick(5)] : t.pick(12) == 11 ? BIG[t.pick(sizeof(BIG) / sizeof(BIG[0]))] : TAB[t.pick(sizeof(TAB) / sizeof(TAB[0]))];
    go(t, c, e.n, e.make);
}
