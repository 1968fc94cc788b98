#include "lib.hpp"
#include <sse/crypto/hash.hpp>
#include <sse/crypto/hmac.hpp>
#include <hash/blake2b.hpp>
#include <hash/sha512.hpp>
#include "giant.hpp"
using namespace pbt;
const char* pbt::PROP_ID = "C05";
const char* pbt::PROP_RULE = "a case computing at least one MAC of a non-empty message compared with an independent RFC 2104 implementation";
size_t pbt::prop_tape_len() { return 160; }
void pbt::prop_setup() { lib_init_tape_rng(); }

struct IMac {
    virtual ~IMac() {}
    virtual Bytes str(const std::string& s) const = 0;
    virtual Bytes buf(const uint8_t* p, size_t n) const = 0;
    virtual void raw(const uint8_t* p, size_t n, uint8_t* o, size_t ol) const = 0;
    virtual void raw(const uint8_t* p, size_t n, uint8_t* o) const = 0;
    virtual IMac* moved() = 0;         // move-constructed
    virtual IMac* assigned() = 0;      // move-assigned over a fresh random key
    virtual void out_and_back() = 0;
};
template <class H, uint16_t N> struct Mac : IMac {
    using M = HMac<H, N>;
    static_assert(M::kDigestSize == 64, "digest size");
    M m;
    explicit Mac(const Bytes& k) : m(mk<N>(k)) {}
    explicit Mac(M&& o) : m(std::move(o)) {}
    Bytes str(const std::string& s) const override { return B(m.hmac(s)); }
    Bytes buf(const uint8_t* p, size_t n) const override { return B(m.hmac(p, n)); }
    void raw(const uint8_t* p, size_t n, uint8_t* o, size_t ol) const override { m.hmac(p, n, o, ol); }
    void raw(const uint8_t* p, size_t n, uint8_t* o) const override { m.hmac(p, n, o); }
    IMac* moved() override { return new Mac(std::move(m)); }
    IMac* assigned() override { Mac* r = new Mac(M()); r->m = std::move(m); return r; }
    void out_and_back() override { M tmp(std::move(m)); m = std::move(tmp); }
    static IMac* make(const Bytes& k) { return new Mac(k); }
};
static void go(Tape& t, Ctx& c, bool sha, size_t N, IMac* (*make)(const Bytes&))
{
        Bytes key = t.bytes(N);
        std::unique_ptr<IMac> m(make(key));
        unsigned n = 1 + t.pick(4);
        bool history = t.range(0, 499) == 499;
        if (history) { n = 300 + unsigned(t.range(0, 900)); c.label("long history"); }
        for (unsigned k = 0; k < n; k++) {
            size_t len = history ? t.pick(50) : t.len(0, 1500, t.pick(20) == 0 ? 2000000 : 100000);
            Bytes msg = t.bytes(len);
            Bytes want = ref::hmac(sha, key, msg);
            switch (t.pick(6)) { // move the object around first
            case 1: { m.reset(m->moved()); c.label("move-constructed"); break; }
            case 2: { m.reset(m->assigned()); c.label("move-assigned over a random key"); break; }
            case 3: { m->out_and_back(); c.label("moved out and back"); break; }
            default: break;
            }
            std::string s = S(msg);
            CHECK(want == m->str(s), "hmac(string) key size ", N, " message length ", len);
            Exact in(msg);
            CHECK(want == m->buf(in.data(), len), "hmac(buffer) key size ", N, " message length ", len);
            size_t ol = t.pick(3) ? t.range(0, 64) : t.range(0, 100);
            if (ol <= 64) {
                Exact out(ol);
                m->raw(in.data(), len, out.data(), ol);
                CHECK(out.bytes() == Bytes(want.begin(), want.begin() + ol), "hmac with output length ", ol, ", key size ", N, " message length ", len);
            } else {
                Exact out(size_t(64));
                CHECK(attempt([&] { m->raw(in.data(), len, out.data(), ol); }) == INVALID_ARGUMENT, "output length ", ol, " accepted");
                CHECK(out.bytes() == Bytes(64, 0xA5), "rejected call wrote output");
                c.label("oversized output length refused");
            }
            Exact out(size_t(64));
            m->raw(in.data(), len, out.data());
            CHECK(out.bytes() == want, "hmac with default output length, key size ", N, " message length ", len);
            CHECK(in.bytes() == msg, "hmac modified its input");
            if (len >= 64 && t.pick(3) == 0) { // output over the input
                m->raw(in.data(), len, in.data(), 64);
                CHECK(Bytes(in.data(), in.data() + 64) == want, "hmac with overlapping output");
            }
            if (t.pick(4) == 0) {
                CHECK(attempt([&] { m->raw(nullptr, len, out.data()); }) == INVALID_ARGUMENT, "null input accepted");
                CHECK(attempt([&] { m->raw(reinterpret_cast<const unsigned char*>("x"), 1, nullptr); }) == INVALID_ARGUMENT, "null output accepted");
                CHECK(attempt([&] { (void)m->buf(nullptr, 0); }) == INVALID_ARGUMENT, "null input accepted");
                c.label("null buffers refused");
            }
            c.note(sha ? "sha512" : "blake2b", " N=", N, " key=", hex(key.data(), N, 6), " len=", len, " out_len=", ol, " mac=", hex(want.data(), 64, 8));
            c.nontrivial(len > 0);
            c.label(len == 0 ? "empty message" : len < 128 ? "message < block" : "message >= block");
        }
        c.label(N < 32 ? "key<32" : N < 64 ? "key 32..63" : N < 128 ? "key 64..127" : "key=block");
}
struct Ent { size_t n; IMac* (*make)(const Bytes&); };
template <size_t... I> static Ent pick_b(unsigned i, Idx<I...>)
{
    static const Ent tab[] = {Ent{16 + I, Mac<Hash, uint16_t(16 + I)>::make}...};
    return tab[i];
}
#define Q(N) Ent{N, Mac<hash::sha512, N>::make}
static const Ent SHA[] = {Q(16), Q(20), Q(25), Q(31), Q(32), Q(33), Q(48), Q(63), Q(64), Q(65), Q(80), Q(96), Q(100), Q(112), Q(127), Q(128)};
#define Z(N) Ent{N, Mac<hash::blake2b, N>::make}
static const Ent BLK[] = {Z(16), Z(32), Z(64), Z(127), Z(128)};

static void giant_case(Tape& t, Ctx& c)
{
    if (mem_available_gb() < 10) { c.label("giant case skipped: not enough memory"); return; }
    size_t n = giant_size(t);
    Big b(t, n);
    if (!b.p) return;
    Bytes key = t.bytes(32);
    std::unique_ptr<IMac> m(Mac<Hash, 32>::make(key));
    Exact out(size_t(64));
    m->raw(b.p, n, out.data(), 64);
    CHECK(out.bytes() == ref::hmac_big(false, key, b.p, n), "hmac of ", n, " bytes");
    c.note("giant len=", n);
    c.label("more than 2^32 bytes");
    c.nontrivial();
}
static void long_case(Tape& t, Ctx& c)
{
    Stream g(t);
    Bytes key = g.bytes(32);
    std::unique_ptr<IMac> m(Mac<Hash, 32>::make(key));
    for (unsigned i = 0; i < 2 * LONG_OPS; i++) {
        Bytes msg = g.bytes(g.below(40));
        Exact out(size_t(64));
        m->raw(msg.data() ? msg.data() : out.data(), msg.size(), out.data(), 64);
        CHECK(out.bytes() == ref::hmac(false, key, msg), "MAC number ", i, " of one object");
    }
    c.note("long history of one object");
    c.label("more than 65536 operations");
    c.nontrivial();
}
void pbt::prop_case(Tape& t, Ctx& c)
{
    if (t.longrun()) return long_case(t, c);
    if (t.giant()) return giant_case(t, c);
    unsigned h = t.pick(4);
    Ent e = h == 0 ? SHA[t.pick(16)] : h == 1 ? BLK[t.pick(5)] : pick_b(t.pick(113), MkIdx<113>::type());
    go(t, c, h == 0, e.n, e.make);
}
