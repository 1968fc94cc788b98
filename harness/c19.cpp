#include "lib.hpp"
#include "tdpkit.hpp"
#include <sse/crypto/cipher.hpp>
#include <sse/crypto/hash.hpp>
#include <sse/crypto/hmac.hpp>
#include <sse/crypto/prf.hpp>
#include <sse/crypto/prg.hpp>
#include <sse/crypto/prp.hpp>
#include <sse/crypto/rcprf.hpp>
#include <sse/crypto/set_hash.hpp>
#include <sse/crypto/wrapper.hpp>
#include <hash/sha512.hpp>
using namespace pbt;
const char* pbt::PROP_ID = "C19";
const char* pbt::PROP_RULE = "a history in which at least two invalid calls were rejected and a valid call on one of the same objects followed";
size_t pbt::prop_tape_len() { return 260; }
void pbt::prop_setup() { lib_init_tape_rng(); }

#if defined(__SANITIZE_ADDRESS__) || defined(PBT_LIBFUZZER)
static const bool HUGE_OK = false; // the sanitizer's operator new ends the process instead of throwing
#else
static const bool HUGE_OK = true;
#endif

// one invalid call: must end in one of the allowed exceptions
enum { IA = 1 << INVALID_ARGUMENT, OR = 1 << OUT_OF_RANGE, RE = 1 << RUNTIME_ERROR, BA = 1 << BAD_ALLOC, OS = 1 << OTHER_STD, STD = IA | OR | RE | BA | OS };
template <class F> static void rejected(const std::string& what, unsigned allowed, F&& f)
{
    Outcome o = attempt(std::forward<F>(f));
    CHECK(o != OK, what, " was accepted");
    CHECK((allowed >> o) & 1, what, " ended with ", outcome_name(o));
}
// an output buffer that a rejected call may not touch
struct Out {
    Bytes before;
    Exact e;
    Out(Tape& t, size_t n) : before(t.bytes(n)), e(before) {}
    uint8_t* p() { return e.data(); }
    void same(const std::string& what) { CHECK(e.bytes() == before, what, " was rejected but wrote to its output"); }
};
struct OutS {
    std::string before, s;
    explicit OutS(Tape& t) : before(t.pick(2) ? t.str(t.len(0, 300, 9000)) : "kept"), s(before) {}
    void same(const std::string& what) { CHECK(s == before, what, " was rejected but changed its output string"); }
};
static size_t huge(Tape& t)
{
    switch (t.pick(4)) {
    case 0: return SIZE_MAX;
    case 1: return SIZE_MAX - t.pick(200);
    case 2: return SIZE_MAX / 2 + t.pick(3);
    default: return size_t(1) << (48 + t.pick(16));
    }
}
static size_t over64(Tape& t) { return t.pick(3) ? 65 + t.length(0, 2000) : huge(t); }

struct Obj {
    virtual ~Obj() {}
    virtual const char* name() const = 0;
    virtual void good(Tape& t) = 0;
    virtual std::string bad(Tape& t) = 0; // what was tried
};

struct OHash : Obj {
    const char* name() const override { return "Hash"; }
    void good(Tape& t) override
    {
        Bytes in = t.bytes(t.len(0, 300, 9000));
        size_t n = t.range(0, 64);
        Bytes want = ref::blake2b512(in);
        want.resize(n);
        CHECK(eq(want, Hash::hash(S(in), n)), "hash differs");
    }
    std::string bad(Tape& t) override
    {
        Bytes in = t.bytes(t.len(1, 200, 9000));
        Out o(t, 64);
        OutS s(t);
        std::string w;
        const unsigned char* z = nullptr;
        unsigned char* zo = nullptr;
        switch (t.pick(9)) {
        case 0: w = "hash of null"; rejected(w, IA, [&] { Hash::hash(z, t.len(0, 300, 9000), o.p()); }); break;
        case 1: w = "hash to null"; rejected(w, IA, [&] { Hash::hash(in.data(), in.size(), zo); }); break;
        case 2: w = "truncated hash of null"; rejected(w, IA, [&] { Hash::hash(z, t.len(0, 300, 9000), t.range(0, 64), o.p()); }); break;
        case 3: w = "truncated hash to null"; rejected(w, IA, [&] { Hash::hash(in.data(), in.size(), t.range(0, 64), zo); }); break;
        case 4: w = "hash of more than a digest"; rejected(w, IA, [&] { Hash::hash(in.data(), in.size(), over64(t), o.p()); }); break;
        case 5: w = "string hash of more than a digest"; rejected(w, IA, [&] { Hash::hash(S(in), over64(t), s.s); }); break;
        case 6: w = "returned hash of more than a digest"; rejected(w, IA, [&] { (void)Hash::hash(S(in), over64(t)); }); break;
        case 7: w = "hash of null to null"; rejected(w, IA, [&] { Hash::hash(z, 0, zo); }); break;
        default: w = "in-place string hash of more than a digest"; rejected(w, IA, [&] { Hash::hash(s.s, over64(t), s.s); }); break;
        }
        o.same(w); s.same(w);
        return w;
    }
};
template <class H, uint16_t N, bool SHA> struct OMac : Obj {
    Bytes k;
    HMac<H, N> m;
    explicit OMac(const Bytes& key) : k(key), m(mk<N>(key)) {}
    const char* name() const override { return "HMac"; }
    void good(Tape& t) override
    {
        Bytes in = t.bytes(t.len(0, 300, 9000));
        CHECK(eq(ref::hmac(SHA, k, in), m.hmac(S(in))), "MAC differs");
    }
    std::string bad(Tape& t) override
    {
        Bytes in = t.bytes(t.len(1, 200, 9000));
        Out o(t, 64);
        std::string w;
        switch (t.pick(5)) {
        case 0: w = "MAC of null"; rejected(w, IA, [&] { m.hmac(nullptr, t.len(0, 300, 9000), o.p(), t.range(0, 64)); }); break;
        case 1: w = "MAC to null"; rejected(w, IA, [&] { m.hmac(in.data(), in.size(), nullptr, t.range(0, 64)); }); break;
        case 2: w = "MAC of more than a digest"; rejected(w, IA, [&] { m.hmac(in.data(), in.size(), o.p(), over64(t)); }); break;
        case 3: w = "returned MAC of null"; rejected(w, IA, [&] { (void)m.hmac(static_cast<const unsigned char*>(nullptr), t.len(0, 300, 9000)); }); break;
        default: {
            w = "MAC with an emptied key";
            Key<N> a = mk<N>(k), b(std::move(a));
            rejected(w, IA, [&] { HMac<H, N> x(std::move(a)); });
            HMac<H, N> y(std::move(b)), x(std::move(y));
            w = "MAC of a moved object";
            rejected(w, STD, [&] { y.hmac(in.data(), in.size(), o.p(), 64); });
            CHECK(eq(ref::hmac(SHA, k, in), x.hmac(S(in))), "MAC of the new owner differs");
        } }
        o.same(w);
        return w;
    }
};
template <uint16_t N> struct OPrf : Obj {
    Bytes k;
    Prf<N> p;
    explicit OPrf(const Bytes& key) : k(key), p(mk<32>(key)) {}
    const char* name() const override { return "Prf"; }
    void good(Tape& t) override
    {
        Bytes in = t.bytes(t.len(0, 300, 9000));
        CHECK(eq(ref::prf(k, in, N), p.prf(S(in))), "PRF differs");
        if (t.pick(3) == 0) CHECK(key_content(p.derive_key(S(in))) == ref::prf(k, in, N), "derived key differs");
    }
    std::string bad(Tape& t) override
    {
        const unsigned char* z = nullptr;
        std::string w;
        switch (t.pick(4)) {
        case 0: w = "PRF of null"; rejected(w, IA, [&] { (void)p.prf(z, t.len(0, 300, 9000)); }); break;
        case 1: w = "key derived from null"; rejected(w, IA, [&] { (void)p.derive_key(z, t.len(0, 300, 9000)); }); break;
        case 2: {
            w = "PRF with an emptied key";
            Key<32> a = mk<32>(k), b(std::move(a));
            rejected(w, IA, [&] { Prf<N> x(std::move(a)); });
            break; }
        default: {
            w = "PRF of a moved object";
            Prf<N> y(mk<32>(k)), x(std::move(y));
            std::string in = t.str(t.len(0, 100, 9000));
            rejected(w, STD, [&] { (void)y.prf(in); });
            rejected(w, STD, [&] { (void)y.derive_key(in); });
            y = std::move(x);
            CHECK(eq(ref::prf(k, B(in), N), y.prf(in)), "PRF differs after coming back");
        } }
        return w;
    }
};
struct OCipher : Obj {
    Bytes k;
    Cipher c;
    explicit OCipher(const Bytes& key) : k(key), c(mk<32>(key)) {}
    const char* name() const override { return "Cipher"; }
    void good(Tape& t) override
    {
        Bytes pt = t.bytes(t.len(1, 300, 9000)), got;
        std::string ct, back;
        c.encrypt(S(pt), ct);
        CHECK(ref::cipher_decrypt(k, B(ct), got) && got == pt, "ciphertext differs");
        c.decrypt(ct, back);
        CHECK(eq(pt, back), "decryption differs");
    }
    std::string bad(Tape& t) override
    {
        OutS s(t);
        std::string w, in;
        switch (t.pick(7)) {
        case 0: w = "encryption of nothing"; rejected(w, IA, [&] { c.encrypt("", s.s); }); break;
        case 1: w = "decryption of less than a header"; in = t.str(t.range(0, 32)); rejected(w, IA, [&] { c.decrypt(in, s.s); }); break;
        case 2: w = "decryption of noise"; in = t.str(t.len(33, 300, 9000)); rejected(w, RE, [&] { c.decrypt(in, s.s); }); break;
        case 3: { // a spoiled genuine text
            w = "decryption of a spoiled text";
            Bytes n = t.bytes(16), ct = ref::cipher_encrypt(k, n.data(), t.bytes(t.len(1, 200, 9000)));
            ct[t.below(ct.size())] ^= uint8_t(1 << t.pick(8));
            rejected(w, RE, [&] { c.decrypt(S(ct), s.s); });
            break; }
        case 4: { // a valid tag over nothing
            w = "decryption of a text without content";
            Bytes n = t.bytes(16), ct = ref::cipher_encrypt(k, n.data(), Bytes());
            rejected(w, IA, [&] { c.decrypt(S(ct), s.s); });
            break; }
        case 5: {
            w = "array decryption of noise";
            std::array<uint8_t, 60> a = arr<60>(t.bytes(60));
            std::array<uint8_t, 28> o;
            rejected(w, RE, [&] { c.decrypt<28>(a, o); });
            break; }
        default: {
            w = "use of a cipher without a key";
            Key<32> a = mk<32>(k), b(std::move(a));
            std::string in2 = t.str(t.len(1, 100, 9000));
            rejected(w, STD, [&] { Cipher x(std::move(a)); x.encrypt(in2, s.s); });
            Cipher y(std::move(b)), x(std::move(y));
            rejected(w, STD, [&] { y.encrypt(in2, s.s); });
            rejected(w, STD, [&] { y.decrypt(in2 + std::string(33, 'x'), s.s); });
            std::array<uint8_t, 5> five = {{1, 2, 3, 4, 5}};
            std::array<uint8_t, 37> ct;
            rejected(w, STD, [&] { y.encrypt<5>(five, ct); });
            rejected(w, STD, [&] { y.decrypt<5>(ct, five); });
        } }
        s.same(w);
        return w;
    }
};
struct OPrg : Obj {
    Bytes k;
    Prg p;
    explicit OPrg(const Bytes& key) : k(key), p(mk<32>(key)) {}
    const char* name() const override { return "Prg"; }
    void good(Tape& t) override
    {
        size_t off = t.len(0, 3000, 70000), len = t.len(0, 300, 9000);
        CHECK(eq(ref::prg(k, off, len), p.derive(off, len)), "PRG differs");
        if (t.pick(3) == 0) CHECK(key_content(p.derive_key<32>(uint16_t(off))) == ref::prg(k, 32 * size_t(uint16_t(off)), 32), "derived key differs");
    }
    std::string bad(Tape& t) override
    {
        OutS s(t);
        Out o(t, 32);
        std::string w;
        unsigned char* z = nullptr;
        size_t off = t.len(0, 3000, 70000);
        switch (t.pick(6)) {
        case 0: w = "PRG into null"; rejected(w, IA, [&] { p.derive(off, t.len(1, 300, 9000), z); }); break;
        case 1: {
            w = "one-shot PRG into null";
            Key<32> a = mk<32>(k);
            rejected(w, IA, [&] { Prg::derive(std::move(a), off, t.len(1, 300, 9000), z); });
            // the key is gone or whole
            if (!key_empty(a)) CHECK(key_content(a) == k, "the key was damaged by a rejected call");
            break; }
        case 2: {
            w = "one-shot PRG from an emptied key";
            Key<32> a = mk<32>(k), b(std::move(a));
            size_t len = t.range(0, 32);
            uint16_t cnt = uint16_t(t.pick(6)); // nothing to derive is no excuse
            switch (t.pick(7)) {
            case 0: rejected(w, STD, [&] { Prg::derive(std::move(a), off, len, o.p()); }); break;
            case 1: rejected(w, STD, [&] { Prg::derive(std::move(a), off, len, s.s); }); break;
            case 2: rejected(w, STD, [&] { Prg::derive(std::move(a), len, s.s); }); break;
            case 3: rejected(w, STD, [&] { (void)Prg::derive(std::move(a), off, len); }); break;
            case 4: rejected(w, STD, [&] { (void)Prg::derive_key<16>(std::move(a), uint16_t(off)); }); break;
            case 5: rejected(w, STD, [&] { (void)Prg::derive_keys<32>(std::move(a), cnt, uint16_t(off)); }); break;
            default: { std::array<uint8_t, 20> x; rejected(w, STD, [&] { Prg::derive(std::move(a), off, x); }); }
            }
            CHECK(key_empty(a) && key_content(b) == k, "the key that was moved out changed");
            break; }
        case 3: {
            w = "use of a PRG without a key";
            Prg y(mk<32>(k)), x(std::move(y));
            rejected(w, STD, [&] { y.derive(off, 32, o.p()); });
            rejected(w, STD, [&] { y.derive(off, 1 + t.pick(200), s.s); });
            rejected(w, STD, [&] { (void)y.derive(10); });
            rejected(w, STD, [&] { (void)y.derive_key<16>(uint16_t(off)); });
            rejected(w, STD, [&] { (void)y.derive_keys<16>(3, uint16_t(off)); });
            CHECK(eq(ref::prg(k, off, 20), x.derive(off, 20)), "PRG differs");
            break; }
        case 4:
            if (!HUGE_OK) return "";
            w = "PRG of an impossible length";
            rejected(w, STD, [&] { p.derive(off, huge(t), s.s); });
            break;
        default: {
            if (!HUGE_OK) return "";
            w = "one-shot PRG of an impossible length";
            Key<32> a = mk<32>(k);
            rejected(w, STD, [&] { Prg::derive(std::move(a), off, huge(t), s.s); });
            if (!key_empty(a)) CHECK(key_content(a) == k, "the key was damaged by a rejected call");
        } }
        s.same(w); o.same(w);
        return w;
    }
};
struct OPrp : Obj {
    Bytes k;
    Prp p;
    explicit OPrp(const Bytes& key) : k(key), p(mk<48>(key)) {}
    const char* name() const override { return "Prp"; }
    void good(Tape& t) override
    {
        Bytes in = t.bytes(t.len(1, 200, 9000));
        std::string o, d;
        p.encrypt(S(in), o);
        p.decrypt(S(in), d);
        CHECK(eq(ref::aez(k, in, false), o) && eq(ref::aez(k, in, true), d), "PRP differs");
    }
    std::string bad(Tape& t) override
    {
        std::string w;
        OutS s(t);
        if (t.pick(2)) {
            w = "PRP with an emptied key";
            Key<48> a = mk<48>(k), b(std::move(a));
            rejected(w, STD, [&] { Prp x(std::move(a)); std::string o = x.encrypt("abc"); });
            CHECK(key_content(b) == k, "the key that was moved out changed");
        } else {
            w = "PRP of a moved object";
            Prp y(mk<48>(k)), x(std::move(y));
            std::string in = t.str(t.len(1, 100, 9000));
            rejected(w, STD, [&] { y.encrypt(in, s.s); });
            rejected(w, STD, [&] { y.decrypt(in, s.s); });
            rejected(w, STD, [&] { (void)y.encrypt(uint32_t(5)); });
            rejected(w, STD, [&] { (void)y.decrypt_64(5); });
            CHECK(eq(ref::aez(k, B(in), false), x.encrypt(in)), "PRP differs");
        }
        s.same(w);
        return w;
    }
};
struct OWrapper : Obj {
    Bytes k;
    Wrapper w_;
    explicit OWrapper(const Bytes& key) : k(key), w_(mk<32>(key)) {}
    const char* name() const override { return "Wrapper"; }
    void good(Tape& t) override
    {
        Bytes pk = t.bytes(32), iv = t.bytes(16), ser;
        Prg p((mk<32>(pk)));
        std::vector<uint8_t> b = w_.wrap(p);
        CHECK(ref::unwrap(k, 3, Bytes(), b, ser) && ser == pk, "wrapped form differs");
        b = ref::wrap(k, iv.data(), 3, Bytes(), pk);
        Prg q = w_.unwrap<Prg>(b);
        CHECK(eq(ref::prg(pk, 0, 20), q.derive(20)), "unwrapped object differs");
    }
    std::string bad(Tape& t) override
    {
        std::string w;
        Bytes pk = t.bytes(48), iv = t.bytes(16);
        Bytes good = ref::wrap(k, iv.data(), 3, Bytes(), Bytes(pk.begin(), pk.begin() + 32));
        std::vector<uint8_t> b = good;
        unsigned allowed = STD;
        switch (t.pick(6)) {
        case 0: w = "unwrapping a fragment"; b.resize(t.range(0, 28)); allowed = IA; break;
        case 1: w = "unwrapping noise"; b = t.bytes(t.len(29, 200, 9000)); allowed = RE; break;
        case 2: w = "unwrapping a spoiled blob"; b[t.below(b.size())] ^= uint8_t(1 << t.pick(8)); allowed = RE; break;
        case 3: w = "unwrapping a shortened blob"; b.resize(t.range(29, b.size() - 1)); allowed = RE; break;
        case 4: {
            w = "unwrapping as something else";
            std::vector<uint8_t> in = b;
            switch (t.pick(5)) {
            case 0: rejected(w, RE, [&] { (void)w_.unwrap<Cipher>(b); }); break;
            case 1: rejected(w, RE, [&] { (void)w_.unwrap<Prf<32>>(b); }); break;
            case 2: rejected(w, RE, [&] { (void)w_.unwrap<Prp>(b); }); break;
            case 3: rejected(w, RE, [&] { (void)w_.unwrap<RCPrf<16>>(b); }); break;
            default: rejected(w, RE, [&] { (void)w_.unwrap<TdpInverse>(b); });
            }
            CHECK(b == in, w, " was rejected but changed the blob");
            Prg q = w_.unwrap<Prg>(b);
            CHECK(eq(ref::prg(Bytes(pk.begin(), pk.begin() + 32), 0, 20), q.derive(20)), "the blob is no longer good");
            return w; }
        default: {
            w = "wrapper with an emptied key";
            Key<32> a = mk<32>(k), c(std::move(a));
            rejected(w, STD, [&] { Wrapper x(std::move(a)); Prg p((mk<32>(pk))); (void)x.wrap(p); });
            return w; }
        }
        std::vector<uint8_t> in = b;
        rejected(w, allowed, [&] { (void)w_.unwrap<Prg>(b); });
        CHECK(b == in, w, " was rejected but changed the blob");
        return w;
    }
};
struct ORcprf : Obj {
    Bytes k;
    unsigned h;
    RCPrf<16> r;
    std::unique_ptr<ConstrainedRCPrf<16>> c;
    uint64_t lo = 0, hi = 0;
    ORcprf(Tape& t, const Bytes& key) : k(key), h(3 + t.pick(t.pick(3) ? 8 : 62)), r(mk<32>(key), uint8_t(h))
    {
        if (t.pick(2)) {
            uint64_t top = (uint64_t(1) << (h - 1)) - 1;
            lo = t.range(0, top);
            hi = t.range(lo, top);
            if (lo == 0 && hi == top) hi--;
            c.reset(new ConstrainedRCPrf<16>(r.constrain(lo, hi)));
        }
    }
    const char* name() const override { return "RCPrf"; }
    void good(Tape& t) override
    {
        uint64_t top = (uint64_t(1) << (h - 1)) - 1, l = t.range(0, top);
        CHECK(eq(ref::rcprf_leaf(k, h, l, 16), r.eval(l)), "leaf ", l, " differs");
        if (c) {
            l = t.range(lo, hi);
            CHECK(c->min_leaf() == lo && c->max_leaf() == hi && c->tree_height() == h, "shape");
            CHECK(eq(ref::rcprf_leaf(k, h, l, 16), c->eval(l)), "constrained leaf ", l, " differs");
        }
    }
    std::string bad(Tape& t) override
    {
        std::string w;
        uint64_t top = (uint64_t(1) << (h - 1)) - 1;
        unsigned calls = 0;
        auto cb = [&](uint64_t, const std::array<uint8_t, 16>&) { calls++; };
        uint64_t beyond = t.pick(2) ? top + 1 + t.pick(3) : (t.range(top + 1, ~0ull));
        switch (t.pick(c ? 12 : 7)) {
        case 0: w = "leaf outside the tree"; rejected(w, IA | OR, [&] { (void)r.eval(beyond); }); break;
        case 1: w = "range beyond the tree"; rejected(w, IA | OR, [&] { r.eval_range(t.range(0, top), beyond, cb); }); break;
        case 2: { w = "inverted range"; uint64_t b = t.range(0, top - 1), a = t.range(b + 1, top); rejected(w, IA, [&] { r.eval_range(a, b, cb); }); break; }
        case 3: w = "constraint beyond the tree"; rejected(w, IA | OR, [&] { (void)r.constrain(t.range(0, top), beyond); }); break;
        case 4: { w = "inverted constraint"; uint64_t b = t.range(0, top - 1), a = t.range(b + 1, top); rejected(w, IA, [&] { (void)r.constrain(a, b); }); break; }
        case 5: {
            w = "impossible height";
            unsigned hh = t.pick(2) ? 0 : unsigned(t.range(65, 255));
            Key<32> a = mk<32>(k);
            rejected(w, IA, [&] { RCPrf<16> x(std::move(a), uint8_t(hh)); });
            if (!key_empty(a)) CHECK(key_content(a) == k, "the key was damaged by a rejected call");
            break; }
        case 6: {
            w = "RCPRF with an emptied key";
            Key<32> a = mk<32>(k), b(std::move(a));
            rejected(w, STD, [&] { RCPrf<16> x(std::move(a), uint8_t(h)); (void)x.eval(0); });
            RCPrf<16> y(std::move(b), uint8_t(h)), x(std::move(y));
            rejected(w, STD, [&] { (void)y.eval(0); });
            CHECK(eq(ref::rcprf_leaf(k, h, 0, 16), x.eval(0)), "leaf differs");
            break; }
        case 7: w = "constrained leaf after the range"; if (hi == ~0ull) return ""; rejected(w, OR, [&] { (void)c->eval(t.range(hi + 1, ~0ull)); }); break;
        case 8: w = "constrained leaf before the range"; if (lo == 0) return ""; rejected(w, OR, [&] { (void)c->eval(t.range(0, lo - 1)); }); break;
        case 9: w = "constrained range beyond"; rejected(w, IA | OR, [&] { c->eval_range(t.range(lo, hi), t.range(hi + 1, ~0ull), cb); }); break;
        case 10: w = "constraint of a constraint beyond"; rejected(w, IA | OR, [&] { (void)c->constrain(t.range(lo, hi), t.range(hi + 1, ~0ull)); }); break;
        default: {
            if (lo == hi) return "";
            w = "inverted constraint of a constraint";
            uint64_t b = t.range(lo, hi - 1), a = t.range(b + 1, hi);
            rejected(w, IA | OR, [&] { (void)c->constrain(a, b); });
            rejected(w, IA | OR, [&] { c->eval_range(a, b, cb); });
        } }
        CHECK(calls == 0, w, " was rejected but the callback ran ", calls, " times");
        return w;
    }
};
struct OSet : Obj {
    SetHash s;
    std::array<uint8_t, 32> model;
    explicit OSet(Tape& t) { model = SetHash::kECInfinitePoint; add(t); }
    void add(Tape& t)
    {
        std::string e = t.str(t.len(0, 60, 9000));
        s.add_element(e);
        Bytes h = ref::blake2b512(B(e));
        std::array<uint8_t, 32> p;
        crypto_core_ed25519_from_uniform(p.data(), h.data());
        crypto_core_ed25519_add(model.data(), model.data(), p.data());
    }
    const char* name() const override { return "SetHash"; }
    void good(Tape& t) override { add(t); CHECK(s.data() == model, "set hash differs"); SetHash c(s.data()); CHECK(c == s, "copy by bytes differs"); }
    std::string bad(Tape& t) override
    {
        std::array<uint8_t, 32> b = arr<32>(t.bytes(32));
        if (t.pick(2)) { b = model; b[t.pick(32)] ^= uint8_t(1 + t.pick(255)); }
        if (b == SetHash::kECInfinitePoint || crypto_core_ed25519_is_valid_point(b.data()) == 1) return "";
        std::string w = "set hash from a point off the group";
        rejected(w, IA, [&] { SetHash x(b); });
        return w;
    }
};
// a string of a wrong size for an element
static std::string wrong_size(Tape& t, const Bytes& x)
{
    std::string s = S(x);
    switch (t.pick(5)) {
    case 0: return "";
    case 1: return s.substr(0, 255);
    case 2: return s + '\0';
    case 3: return s + s;
    default: { size_t n = t.length(0, 1000); if (n == 256) n = 257; return t.str(n); }
    }
}
static Bytes powm(const TestKey& k, const Bytes& x, unsigned times)
{
    mpz_t v, e;
    mpz_inits(v, e, nullptr);
    bytes_mpz(v, x);
    mpz_pow_ui(e, k.k.e, times);
    mpz_powm(v, v, e, k.k.n);
    Bytes r = mpz_bytes(v, 256);
    mpz_clears(v, e, nullptr);
    return r;
}
struct OTdp : Obj {
    const TestKey& k;
    Tdp p;
    TdpInverse s;
    TdpMultPool pool;
    unsigned size;
    OTdp(Tape& t) : k(test_key(t.pick(unsigned(TEST_SK.size())))), p(k.pk), s(k.sk), pool(k.pk, uint8_t(1 + (size = t.pick(6)))) { size++; }
    const char* name() const override { return "Tdp"; }
    void good(Tape& t) override
    {
        std::string kind;
        Bytes x = gen_element(t, k.k, false, kind);
        switch (t.pick(4)) {
        case 0: CHECK(eq(powm(k, x, 1), p.eval(S(x))), "evaluation differs"); break;
        case 1: CHECK(eq(powm(k, x, 1), s.eval(S(x))), "evaluation by the secret key differs"); break;
        case 2: { Bytes y = powm(k, x, 1); CHECK(eq(x, s.invert(S(y))), "inversion differs"); break; }
        default: { unsigned o = 1 + t.pick(size); CHECK(eq(powm(k, x, o), pool.eval(S(x), uint8_t(o))), "pool evaluation differs"); CHECK(pool.maximum_order() == size, "maximum order"); }
        }
    }
    std::string bad(Tape& t) override
    {
        OutS o(t);
        std::string w, kind;
        Bytes x = gen_element(t, k.k, false, kind);
        std::string in = wrong_size(t, x);
        switch (t.pick(14)) {
        case 0: w = "evaluation of a wrong size"; rejected(w, IA | RE, [&] { p.eval(in, o.s); }); break;
        case 1: w = "secret-key evaluation of a wrong size"; rejected(w, IA | RE, [&] { s.eval(in, o.s); }); break;
        case 2: w = "inversion of a wrong size"; rejected(w, IA | RE, [&] { s.invert(in, o.s); }); break;
        case 3: w = "repeated inversion of a wrong size"; rejected(w, IA | RE, [&] { s.invert_mult(in, o.s, uint32_t(t.pick(5))); }); break;
        case 4: w = "pool evaluation of a wrong size"; rejected(w, IA | RE, [&] { pool.eval(in, o.s, uint8_t(1 + t.pick(size))); }); break;
        case 5: w = "plain pool evaluation of a wrong size"; rejected(w, IA | RE, [&] { pool.eval(in, o.s); }); break;
        case 6: {
            w = "pool order out of range";
            unsigned n = t.pick(2) ? 0 : size + 1 + t.pick(255 - size);
            if (t.pick(2)) rejected(w, IA, [&] { pool.eval(S(x), o.s, uint8_t(n)); });
            else { std::array<uint8_t, 256> a = arr<256>(x); rejected(w, IA, [&] { (void)pool.eval(a, uint8_t(n)); }); }
            break; }
        case 7: {
            w = "inversion of a number that is not an element";
            mpz_t v;
            mpz_init(v);
            mpz_add_ui(v, k.k.n, t.pick(2) ? t.pick(3) : unsigned(t.raw(3)));
            Bytes y = mpz_bytes(v, 256);
            mpz_clear(v);
            if (t.pick(2)) rejected(w, IA | RE, [&] { s.invert(S(y), o.s); });
            else { std::array<uint8_t, 256> a = arr<256>(y); rejected(w, IA | RE, [&] { (void)s.invert(a); }); }
            break; }
        case 8: w = "pool of size zero"; rejected(w, IA, [&] { TdpMultPool q(k.pk, 0); }); break;
        case 9: {
            w = "pool larger than the key allows";
            unsigned lim = pool_limit(k.k);
            if (lim >= 255) return "";
            rejected(w, IA | RE, [&] { TdpMultPool q(k.pk, uint8_t(lim + 1 + t.pick(255 - lim))); });
            break; }
        case 10: {
            w = "bad public key";
            std::string pem = t.pick(2) ? k.sk : k.pk;
            if (pem == k.pk) { switch (t.pick(4)) { case 0: pem = ""; break; case 1: pem = " "; break; case 2: pem.resize(t.below(pem.size() - 30)); break; default: pem = t.str(t.len(0, 500, 9000)); } }
            if (t.pick(2)) rejected(w, RE, [&] { Tdp q(pem); });
            else rejected(w, RE, [&] { TdpMultPool q(pem, uint8_t(1 + t.pick(4))); });
            break; }
        case 11: {
            w = "bad private key";
            std::string pem = t.pick(2) ? k.pk : k.sk;
            if (pem == k.sk) { switch (t.pick(4)) { case 0: pem = ""; break; case 1: pem = " "; break; case 2: pem.resize(t.below(pem.size() - 30)); break; default: pem = t.str(t.len(0, 500, 9000)); } }
            rejected(w, RE, [&] { TdpInverse q(pem); });
            break; }
        default: {
            w = "element generated with an emptied key";
            Key<32> a = mk<32>(x), b(std::move(a));
            std::string seed = t.str(t.len(0, 40, 9000));
            switch (t.pick(6)) {
            case 0: rejected(w, STD, [&] { (void)p.generate(std::move(a), seed); }); break;
            case 1: rejected(w, STD, [&] { (void)p.generate_array(std::move(a), seed); }); break;
            case 2: rejected(w, STD, [&] { (void)s.generate(std::move(a), seed); }); break;
            case 3: rejected(w, STD, [&] { (void)s.generate_array(std::move(a), seed); }); break;
            case 4: rejected(w, STD, [&] { (void)pool.generate(std::move(a), seed); }); break;
            default: rejected(w, STD, [&] { (void)pool.generate_array(std::move(a), seed); }); break;
            }
        } }
        o.same(w);
        return w;
    }
};
struct OKey : Obj {
    Key<32> k;
    Bytes m;
    explicit OKey(const Bytes& b) : k(mk<32>(b)), m(b) {}
    const char* name() const override { return "Key"; }
    void good(Tape&) override { CHECK(key_content(k) == m, "key content differs"); }
    std::string bad(Tape& t) override
    {
        std::string w = "key from null";
        switch (t.pick(3)) {
        case 0: rejected(w, IA, [&] { Key<32> x(static_cast<uint8_t*>(nullptr)); }); break;
        case 1: rejected(w, IA, [&] { Key<4097> x(static_cast<uint8_t*>(nullptr)); }); break;
        default: rejected(w, IA, [&] { k = Key<32>(static_cast<uint8_t*>(nullptr)); });
        }
        return w;
    }
};
typedef OMac<Hash, 32, false> OMacA;
typedef OMac<Hash, 128, false> OMacB;
typedef OMac<hash::sha512, 25, true> OMacC;
static std::unique_ptr<Obj> make(Tape& t, unsigned kd)
{
    Obj* o;
    switch (kd) {
    case 0: o = new OHash; break;
    case 1: o = new OMacA(t.bytes(32)); break;
    case 2: o = new OMacB(t.bytes(128)); break;
    case 3: o = new OMacC(t.bytes(25)); break;
    case 4: o = new OPrf<20>(t.bytes(32)); break;
    case 5: o = new OPrf<100>(t.bytes(32)); break;
    case 6: o = new OCipher(t.bytes(32)); break;
    case 7: o = new OPrg(t.bytes(32)); break;
    case 8: o = new OPrp(t.bytes(48)); break;
    case 9: o = new OWrapper(t.bytes(32)); break;
    case 10: case 11: o = new ORcprf(t, t.bytes(32)); break;
    case 12: o = new OSet(t); break;
    case 13: o = new OKey(t.bytes(32)); break;
    default: o = new OTdp(t); break;
    }
    return std::unique_ptr<Obj>(o);
}
static void locked(const char* when)
{
    std::string e = track::errors();
    CHECK(e.empty(), when, ": ", e);
#ifdef ENABLE_MEMORY_LOCK
    e = track::all_locked();
    CHECK(e.empty(), when, ": ", e);
#endif
}
void pbt::prop_case(Tape& t, Ctx& c)
{
    rng_seed(t.raw(4));
    track::reset();
    unsigned rejections = 0;
    bool after = false;
    {
        std::vector<std::unique_ptr<Obj>> w;
        unsigned n = 1 + t.pick(3);
        for (unsigned i = 0; i < n; i++) { unsigned kd = t.pick(32); w.push_back(make(t, kd < 16 ? kd % 15 : kd < 29 ? kd - 15 : 14)); }
        size_t regions = track::live_count();
        unsigned steps = 3 + t.pick(14);
        std::vector<unsigned> seen(n, 0);
        for (unsigned i = 0; i < steps; i++) {
            unsigned j = t.pick(n);
            if (t.pick(3)) {
                std::string what = w[j]->bad(t);
                if (what.empty()) continue;
                locked(what.c_str());
                CHECK(track::live_count() == regions, "after ", what, ": ", track::live_count(), " secure regions instead of ", regions);
                c.label(std::string(w[j]->name()) + ": " + what);
                if (c.desc.size() < 300) c.note(what);
                rejections++;
                seen[j]++;
            } else {
                w[j]->good(t);
                after = after || seen[j];
                if (c.desc.size() < 300) c.note("use ", w[j]->name());
            }
        }
        for (unsigned j = 0; j < n; j++) { w[j]->good(t); after = after || seen[j]; }
        locked("at the end");
    }
    CHECK(track::live_count() == 0, track::live_count(), " secure regions outlive every object");
    c.nontrivial(rejections >= 2 && after);
}
