#include "prog.hpp"
#include "lib.hpp"
#include "tdpkit.hpp"
#include "rc.hpp"
#include <sse/crypto/cipher.hpp>
#include <sse/crypto/hash.hpp>
#include <sse/crypto/hmac.hpp>
#include <sse/crypto/prf.hpp>
#include <sse/crypto/prg.hpp>
#include <sse/crypto/prp.hpp>
#include <sse/crypto/rcprf.hpp>
#include <sse/crypto/set_hash.hpp>
#include <sse/crypto/wrapper.hpp>
#include <hash/sha512.hpp>
#include <hash/blake2b.hpp>
extern "C" {
#include <mbedtls/asn1.h>
#include <mbedtls/asn1write.h>
#include <mbedtls/base64.h>
#include <mbedtls/bignum.h>
#include <mbedtls/pem.h>
}
namespace pbt {
namespace {
struct Run {
    Tape& t;
    Program& p;
    std::ostringstream o;
    Run(Tape& tape, Program& prog) : t(tape), p(prog) {}
    void bytes(const void* d, size_t n)
    {
        static const char* X = "0123456789abcdef";
        const uint8_t* b = static_cast<const uint8_t*>(d);
        std::string s;
        for (size_t i = 0; i < n; i++) { s += X[b[i] >> 4]; s += X[b[i] & 15]; }
        o << " " << n << ":" << s;
    }
    void put(const std::string& s) { bytes(s.data(), s.size()); }
    void put(const Bytes& s) { bytes(s.data(), s.size()); }
    template <size_t N> void put(const std::array<uint8_t, N>& a) { bytes(a.data(), N); }
    template <size_t N> void put(const Key<N>& k) { Bytes b = key_content(k); put(b); }
    void put(long long v) { o << " " << v; }
    void num(uint64_t v) { o << " " << v; }
    // one call: records its name, the outcome, and whatever f put
    template <class F> bool call(const std::string& name, F&& f)
    {
        p.ops.push_back(name);
        o << name;
        Outcome r = attempt(std::forward<F>(f));
        o << " " << outcome_name(r) << "\n";
        if (p.between) p.between();
        return r == OK;
    }
    void rnd(const std::string& s) { if (s.size() >= 16) p.randoms.push_back(s.substr(0, 64)); }
};

void do_hash(Run& r)
{
    Tape& t = r.t;
    Bytes in = t.bytes(t.len(0, 600, 9000));
    size_t n = t.pick(4) ? t.range(0, 64) : t.range(60, 70);
    r.call("hash", [&] { r.put(Hash::hash(S(in))); });
    r.call("hash-n", [&] { r.put(Hash::hash(S(in), n)); });
    uint8_t b[80];
    memset(b, 0xC7, sizeof b);
    r.call("hash-raw", [&] { Hash::hash(t.pick(8) ? in.data() : nullptr, in.size(), n, b); });
    r.bytes(b, sizeof b);
    uint8_t d[64];
    r.call("sha512", [&] { hash::sha512::hash(in.data() ? in.data() : b, in.size(), d); r.bytes(d, 64); });
}
template <uint16_t N> void mac(Run& r, const Bytes& k, const Bytes& in)
{
    HMac<Hash, N> m(mk<N>(k));
    r.call("hmac", [&] { r.put(m.hmac(S(in))); });
    uint8_t b[80];
    memset(b, 0xC7, sizeof b);
    size_t n = r.t.range(0, 70);
    r.call("hmac-n", [&] { m.hmac(r.t.pick(8) ? reinterpret_cast<const uint8_t*>(S(in).data()) : nullptr, in.size() ? in.size() : 0, b, n); });
    r.bytes(b, sizeof b);
    HMac<hash::sha512, N> s(mk<N>(k));
    r.call("hmac-sha", [&] { r.put(s.hmac(S(in))); });
}
void do_mac(Run& r)
{
    Bytes k = r.t.bytes(128), in = r.t.bytes(r.t.len(0, 400, 9000));
    switch (r.t.pick(4)) {
    case 0: mac<16>(r, k, in); break;
    case 1: mac<32>(r, k, in); break;
    case 2: mac<127>(r, k, in); break;
    default: mac<128>(r, k, in); break;
    }
}
template <uint16_t N> void prf(Run& r, const Bytes& k, const Bytes& in)
{
    Prf<N> p(mk<32>(k));
    r.call("prf", [&] { r.put(p.prf(S(in))); });
    r.call("prf-key", [&] { r.put(p.derive_key(S(in))); });
    r.call("prf-null", [&] { r.put(p.prf(static_cast<const unsigned char*>(nullptr), r.t.pick(3))); });
}
void do_prf(Run& r)
{
    Bytes k = r.t.bytes(32), in = r.t.bytes(r.t.len(0, 400, 9000));
    switch (r.t.pick(6)) {
    case 0: prf<1>(r, k, in); break;
    case 1: prf<20>(r, k, in); break;
    case 2: prf<64>(r, k, in); break;
    case 3: prf<65>(r, k, in); break;
    case 4: prf<150>(r, k, in); break;
    default: prf<264>(r, k, in); break;
    }
}
void do_prg(Run& r)
{
    Tape& t = r.t;
    Bytes k = t.bytes(32);
    Prg p(mk<32>(k));
    size_t off = t.pick(4) ? t.length(0, 70000) : size_t(1) << t.range(20, 62);
    if (off > 70000) off -= t.range(0, 200);
    size_t len = t.len(0, 700, 9000);
    uint16_t ko = t.pick(3) ? uint16_t(t.length(0, 65535)) : uint16_t(65535 - t.pick(3));
    r.call("prg", [&] { r.put(p.derive(off, len)); });
    r.call("prg-key", [&] { r.put(p.derive_key<16>(ko)); });
    r.call("prg-key48", [&] { r.put(p.derive_key<48>(ko)); });
    r.call("prg-keys", [&] { auto v = p.derive_keys<32>(uint16_t(t.pick(6)), ko); r.num(v.size()); for (auto& x : v) r.put(x); });
    Key<32> a = mk<32>(k);
    r.call("prg-once", [&] { r.put(Prg::derive(std::move(a), off, len)); });
    r.num(key_empty(a));
    r.call("prg-again", [&] { r.put(Prg::derive(std::move(a), off, len)); });
    Key<32> b = mk<32>(k);
    r.call("prg-once-keys", [&] { auto v = Prg::derive_keys<16>(std::move(b), uint16_t(t.pick(6)), ko); r.num(v.size()); for (auto& x : v) r.put(x); });
    r.call("prg-null", [&] { p.derive(off, len, static_cast<unsigned char*>(nullptr)); });
    r.call("prg-after", [&] { r.put(p.derive(40)); });
}
void do_prp(Run& r)
{
    Tape& t = r.t;
    Prp p(mk<48>(t.bytes(48)));
    for (unsigned i = 0; i < 2; i++) {
        std::string in = t.str(t.len(1, 600, 9000));
        r.call("prp", [&] { std::string x = p.encrypt(in); r.put(x); r.put(p.decrypt(in)); r.num(p.decrypt(x) == in); });
    }
    uint32_t a = uint32_t(t.raw(4));
    uint64_t b = t.u64();
    r.call("prp-int", [&] { r.num(p.encrypt(a)); r.num(p.decrypt(a)); r.num(p.encrypt_64(b)); r.num(p.decrypt_64(b)); });
    Prp q(std::move(p));
    r.call("prp-moved", [&] { r.put(p.encrypt("abcdef")); });
    r.call("prp-new", [&] { r.put(q.encrypt("abcdef")); });
}
void do_cipher(Run& r)
{
    Tape& t = r.t;
    Bytes k = t.bytes(32), n = t.bytes(16), pt = t.bytes(t.len(0, 400, 9000));
    Cipher c(mk<32>(k));
    Bytes ct = ref::cipher_encrypt(k, n.data(), pt);
    if (t.pick(3) == 0) { size_t at = t.below(ct.size()); ct[at] ^= uint8_t(1 << t.pick(8)); }
    if (t.pick(8) == 0) ct.resize(t.range(0, ct.size()));
    std::string out = "kept";
    r.call("decrypt", [&] { c.decrypt(S(ct), out); });
    r.put(out);
    r.call("encrypt", [&] { std::string x; c.encrypt(S(pt), x); Bytes back; r.num(x.size()); r.num(ref::cipher_decrypt(k, B(x), back) && back == pt); r.rnd(x); });
    std::array<uint8_t, 40> a = arr<40>(pt);
    std::array<uint8_t, 72> e;
    std::array<uint8_t, 40> d;
    r.call("cipher-array", [&] { c.encrypt<40>(a, e); Bytes back; r.num(ref::cipher_decrypt(k, B(e), back) && eq(back, a)); c.decrypt<40>(e, d); r.put(d); e[t.pick(72)] ^= 1; });
    r.call("cipher-array-bad", [&] { c.decrypt<40>(e, d); });
}
template <class C> void unwrap(Run& r, const char* name, const Wrapper& w, const Bytes& master, uint8_t type, const Bytes& ctx, const Bytes& ser, const std::function<void(C&)>& use)
{
    Tape& t = r.t;
    Bytes iv = t.bytes(16);
    Bytes b = ref::wrap(master, iv.data(), type, ctx, ser);
    unsigned how = t.pick(6);
    if (how == 0) { size_t at = t.below(b.size()); b[at] ^= uint8_t(1 << t.pick(8)); }
    else if (how == 1) b.resize(t.range(0, b.size()));
    std::vector<uint8_t> blob = b;
    r.call(std::string("unwrap-") + name, [&] {
        C o = w.unwrap<C>(blob);
        use(o);
        std::vector<uint8_t> again = w.wrap(o);
        Bytes s;
        r.num(ref::unwrap(master, type, ctx, again, s));
        r.put(s);
    });
    r.put(blob);
}
void do_wrap(Run& r)
{
    Tape& t = r.t;
    Bytes m = t.bytes(32), k = t.bytes(112);
    Wrapper w(mk<32>(m));
    Bytes k32(k.begin(), k.begin() + 32), k48(k.begin(), k.begin() + 48);
    switch (t.pick(7)) {
    case 0: unwrap<Cipher>(r, "cipher", w, m, 1, {}, k32, [&](Cipher& c) { std::string x; Bytes n(16, 3), ct = ref::cipher_encrypt(k32, n.data(), Bytes(20, 5)); c.decrypt(S(ct), x); r.put(x); }); break;
    case 1: unwrap<Prf<20>>(r, "prf", w, m, 2, Bytes{0, 20}, k32, [&](Prf<20>& p) { r.put(p.prf("abc")); }); break;
    case 2: unwrap<Prf<300>>(r, "prf300", w, m, 2, Bytes{1, 44}, k32, [&](Prf<300>& p) { r.put(p.prf("abc")); }); break;
    case 3: unwrap<Prg>(r, "prg", w, m, 3, {}, k32, [&](Prg& p) { r.put(p.derive(30)); }); break;
    case 4: unwrap<Prp>(r, "prp", w, m, 4, {}, ref::aez_context(k48), [&](Prp& p) { r.put(p.encrypt("abcdefgh")); }); break;
    case 5: {
        RCPrf<16> rc(mk<32>(k32), uint8_t(2 + t.pick(60)));
        r.call("wrap-rcprf", [&] { std::vector<uint8_t> b = w.wrap(rc); r.num(b.size()); RCPrf<16> x = w.unwrap<RCPrf<16>>(b); r.put(x.eval(1)); r.num(x.tree_height()); r.put(b); });
        r.call("wrap-wrong", [&] { std::vector<uint8_t> b = w.wrap(rc); (void)w.unwrap<RCPrf<17>>(b); });
        break; }
    default: {
        const TestKey& K = test_key(t.pick(4));
        unwrap<TdpInverse>(r, "tdp", w, m, 7, {}, B(K.sk), [&](TdpInverse& x) { r.put(x.public_key()); });
    } }
}
template <uint16_t N> void rcprf(Run& r)
{
    Tape& t = r.t;
    Bytes k = t.bytes(32);
    unsigned h = t.pick(12) == 0 ? unsigned(t.u8()) : gen_height(t);
    std::unique_ptr<RCPrf<N>> p;
    r.call("rcprf", [&] { p.reset(new RCPrf<N>(mk<32>(k), uint8_t(h))); });
    if (!p) return;
    h = p->tree_height();
    uint64_t top = h >= 65 ? ~0ull : (uint64_t(1) << (h - 1)) - 1;
    auto leaf = [&]() { return t.pick(10) ? gen_leaf(t, 0, top) : t.u64(); };
    uint64_t l = leaf();
    r.call("rcprf-eval", [&] { r.put(p->eval(l)); });
    uint64_t a = leaf(), b = t.pick(4) ? a + t.pick(40) : leaf();
    if (b - a < 300 || b < a || b > top) r.call("rcprf-range", [&] { p->eval_range(a, b, [&](uint64_t x, const std::array<uint8_t, N>& v) { r.num(x); r.put(v); }); });
    std::unique_ptr<ConstrainedRCPrf<N>> c;
    uint64_t x = leaf(), y = t.pick(6) ? std::max(x, leaf()) : leaf();
    r.call("rcprf-constrain", [&] { c.reset(new ConstrainedRCPrf<N>(p->constrain(x, y))); r.num(c->min_leaf()); r.num(c->max_leaf()); r.num(c->is_empty()); });
    if (!c) return;
    for (unsigned i = 0; i < 3; i++) {
        uint64_t q = t.pick(4) ? gen_leaf(t, x, y) : leaf();
        r.call("crcprf-eval", [&] { r.put(c->eval(q)); });
    }
    uint64_t u = t.pick(5) ? gen_leaf(t, x, y) : leaf(), v = t.pick(5) ? u + t.pick(30) : leaf();
    if (v - u < 300 || v < u || v > y) r.call("crcprf-range", [&] { c->eval_range(u, v, [&](uint64_t z, const std::array<uint8_t, N>& w) { r.num(z); r.put(w); }); });
    r.call("crcprf-constrain", [&] { ConstrainedRCPrf<N> d = c->constrain(u, v); r.num(d.min_leaf()); r.num(d.max_leaf()); r.put(d.eval(u)); });
    r.call("crcprf-pieces", [&] { std::vector<std::unique_ptr<ConstrainedRCPrfElement<N>>> e; c->generate_constrained_subkeys(u, v, e); for (auto& z : e) { r.num(z->subtree_height()); r.num(z->min_leaf()); r.num(z->max_leaf()); } });
    r.call("crcprf-wrap", [&] {
        Bytes mk_ = t.bytes(32), ser;
        Wrapper w(mk<32>(mk_));
        std::vector<uint8_t> blob = w.wrap(*c);
        Bytes ctx{uint8_t(N >> 8), uint8_t(N)};
        if (ref::unwrap(mk_, 6, ctx, blob, ser)) r.put(ser);
        ConstrainedRCPrf<N> d = w.unwrap<ConstrainedRCPrf<N>>(blob);
        r.put(d.eval(x));
    });
}
void do_rcprf(Run& r)
{
    switch (r.t.pick(3)) {
    case 0: rcprf<16>(r); break;
    case 1: rcprf<32>(r); break;
    default: rcprf<77>(r); break;
    }
}
void do_set(Run& r)
{
    Tape& t = r.t;
    SetHash a, b(std::vector<std::string>{t.str(t.length(0, 40)), "x"});
    for (unsigned i = 0; i < 4; i++) {
        std::string e = t.pick(3) ? t.str(t.length(0, 60)) : "x";
        r.call("set", [&] {
            switch (t.pick(5)) {
            case 0: case 1: a.add_element(e); break;
            case 2: a.remove_element(e); break;
            case 3: a.add_set(b); break;
            default: a.remove_set(b); break;
            }
            r.put(a.data());
            r.num(a == b);
            std::ostringstream s;
            s << a;
            r.put(s.str());
        });
    }
    std::array<uint8_t, 32> p = t.pick(2) ? arr<32>(t.bytes(32)) : a.data();
    if (t.pick(2)) { size_t at = t.pick(32); p[at] ^= uint8_t(1 << t.pick(8)); }
    r.call("set-bytes", [&] { SetHash s(p); r.put(s.data()); });
}
void do_search(Run& r)
{
    Tape& t = r.t;
    Bytes hay = t.bytes(t.length(0, 60)), nee = t.pick(2) && hay.size() > 3 ? Bytes(hay.begin() + long(t.pick(unsigned(hay.size() - 2))), hay.end()) : t.bytes(t.length(0, 10));
    if (t.pick(2) && nee.size() > 3) nee.resize(1 + t.pick(3));
    Exact h(hay), n(nee);
    r.call("search", [&] { const uint8_t* p = strstrn_uint8(h.data(), h.n, n.data(), n.n); r.put((long long)(p ? p - h.data() : -1)); });
}
void do_tdp(Run& r)
{
    Tape& t = r.t;
    const TestKey& K = test_key(t.pick(unsigned(TEST_SK.size())));
    std::string kind;
    Bytes x = gen_element(t, K.k, true, kind);
    std::string in = S(x);
    if (t.pick(12) == 0) in.resize(t.range(0, 300));
    auto array = [&] { return in.size() == 256 ? arr<256>(B(in)) : arr<256>(x); };
    switch (t.pick(11)) {
    case 0: r.call("tdp-eval", [&] { Tdp p(K.pk); r.put(p.eval(in)); r.put(p.public_key()); }); break;
    case 1: r.call("tdp-invert", [&] { TdpInverse s(K.sk); r.put(s.invert(in)); r.put(s.private_key()); }); break;
    case 2: r.call("tdp-generate", [&] { Tdp p(K.pk); Bytes k = t.bytes(32); std::string seed = t.str(t.len(0, 60, 9000)); r.put(p.generate(mk<32>(k), seed)); Prf<Tdp::kRSAPrfSize> f(mk<32>(k)); r.put(p.generate_array(f, seed)); }); break;
    case 3: {
        uint8_t size = uint8_t(t.pick(5) ? t.pick(6) : t.u8());
        r.call("tdp-pool", [&] { TdpMultPool p(K.pk, size); r.num(p.maximum_order()); r.put(p.eval(in, uint8_t(t.pick(8)))); TdpMultPool q(p); r.put(q.eval(in)); });
        break; }
    case 4: r.call("tdp-invert-mult", [&] { TdpInverse s(K.sk); r.put(s.invert_mult(in, t.pick(3) ? uint32_t(t.pick(6)) : uint32_t(t.raw(4)))); }); break;
    case 5: r.call("tdp-sample", [&] {
        if (t.pick(2)) { TdpInverse s(K.sk); auto a = s.sample_array(); r.num(below_n(K.k, Bytes(a.begin(), a.end()))); r.rnd(S(Bytes(a.begin(), a.end()))); return; }
        TdpInverse s(K.sk); std::string a = s.sample(); r.num(a.size()); r.num(below_n(K.k, B(a))); r.rnd(a); });
        break;
    case 6: r.call("tdp-copies", [&] { // copies and assignments compute the same function
        Tdp p(K.pk), q(p), z(test_key(t.pick(unsigned(TEST_SK.size()))).pk);
        z = q;
        std::string out;
        z.eval(in, out);
        r.put(out);
        r.put(q.eval(array()));
        r.put(z.public_key()); });
        break;
    case 7: r.call("tdp-inverse-all", [&] {
        TdpInverse s(K.sk);
        std::string out;
        switch (t.pick(5)) {
        case 0: s.eval(in, out); r.put(out); r.put(s.eval(in)); break;
        case 1: r.put(s.eval(array())); break;
        case 2: s.invert(in, out); r.put(out); break;
        case 3: r.put(s.invert(array())); break;
        default: { uint32_t k = t.pick(4); s.invert_mult(in, out, k); r.put(out); r.put(s.invert_mult(array(), k)); }
        } });
        break;
    case 8: r.call("tdp-generate-all", [&] {
        Bytes k = t.bytes(32);
        std::string seed = t.str(t.len(0, 60, 9000));
        Prf<Tdp::kRSAPrfSize> f(mk<32>(k));
        switch (t.pick(3)) {
        case 0: { Tdp p(K.pk); r.put(p.generate_array(mk<32>(k), seed)); r.put(p.generate(f, seed)); break; }
        case 1: { TdpInverse s(K.sk); r.put(s.generate(mk<32>(k), seed)); r.put(s.generate_array(mk<32>(k), seed)); r.put(s.generate(f, seed)); r.put(s.generate_array(f, seed)); break; }
        default: { TdpMultPool s(K.pk, 2); r.put(s.generate(mk<32>(k), seed)); r.put(s.generate_array(mk<32>(k), seed)); r.put(s.generate(f, seed)); r.put(s.generate_array(f, seed)); }
        } });
        break;
    case 9: r.call("tdp-pool-all", [&] {
        uint8_t n = uint8_t(1 + t.pick(4)), m = uint8_t(1 + t.pick(4));
        TdpMultPool p(K.pk, n), z(test_key(t.pick(unsigned(TEST_SK.size()))).pk, m);
        z = p;
        std::string out;
        uint8_t k = uint8_t(1 + t.pick(4));
        z.eval(in, out, k); r.put(out);
        r.put(z.eval(array(), k));
        z.eval(in, out); r.put(out);
        r.put(z.eval(array()));
        r.put(z.public_key()); });
        break;
    default: r.call("tdp-sample-all", [&] {
        Bytes b;
        switch (t.pick(4)) {
        case 0: { Tdp p(K.pk); b = B(p.sample()); break; }
        case 1: { Tdp p(K.pk); auto a = p.sample_array(); b.assign(a.begin(), a.end()); break; }
        case 2: { TdpMultPool p(K.pk, 1); b = B(p.sample()); break; }
        default: { TdpMultPool p(K.pk, 1); auto a = p.sample_array(); b.assign(a.begin(), a.end()); }
        }
        r.num(b.size()); r.num(below_n(K.k, b)); r.rnd(S(b)); });
    }
}
void do_import(Run& r)
{
    Tape& t = r.t;
    const TestKey& K = test_key(t.pick(unsigned(TEST_SK.size())));
    bool priv = t.pick(2);
    std::string in;
    switch (t.pick(5)) {
    case 0: in = priv ? K.sk : K.pk; break;
    case 1: { const std::string& o = OTHER_SIZE_SK[t.pick(unsigned(OTHER_SIZE_SK.size()))]; in = priv ? o : ref_public_pem(o); break; }
    default: {
        Bytes d = priv ? ref_private_der(K.k) : ref_spki_der(K.k);
        unsigned n = 1 + t.pick(3);
        for (unsigned i = 0; i < n && !d.empty(); i++) {
            size_t p = t.pick(2) ? t.below(d.size()) : t.below(std::min<size_t>(d.size(), 40));
            switch (t.pick(5)) {
            case 0: d[p] ^= uint8_t(1 << t.pick(8)); break;
            case 1: d[p] = t.u8(); break;
            case 2: d.resize(p); break;
            case 3: d.insert(d.begin() + long(p), t.u8()); break;
            default: d.erase(d.begin() + long(p)); break;
            }
        }
        in = ref_pem(priv ? "RSA PRIVATE KEY" : "PUBLIC KEY", d);
        if (t.pick(4) == 0) { size_t at = t.below(in.size()); in[at] = char(t.u8()); }
    } }
    if (priv) r.call("import-private", [&] { TdpInverse s(in); r.put(s.public_key()); r.put(s.private_key()); });
    else r.call("import-public", [&] { Tdp p(in); r.put(p.public_key()); });
}
struct Mpi { mbedtls_mpi m; Mpi() { mbedtls_mpi_init(&m); } ~Mpi() { mbedtls_mpi_free(&m); } operator mbedtls_mpi*() { return &m; } };
void mpi_put(Run& r, mbedtls_mpi* m)
{
    size_t n = mbedtls_mpi_size(m);
    Bytes b(n);
    mbedtls_mpi_write_binary(m, b.data(), n);
    r.put(b);
    r.put((long long)(n ? m->s : 1)); // zero has no sign
}
void mpi_gen(Run& r, mbedtls_mpi* m)
{
    Tape& t = r.t;
    size_t n = t.pick(3) ? 1 + t.pick(40) : 1 + t.range(0, 280);
    Bytes b = t.bytes(n);
    if (t.pick(2)) for (auto& x : b) if (t.pick(3) == 0) x = t.pick(2) ? 0xff : 0;
    mbedtls_mpi_read_binary(m, b.data(), b.size());
    if (t.pick(4) == 0) m->s = -1;
}
void do_mpi(Run& r)
{
    Tape& t = r.t;
    Mpi a, b, n, q, x;
    mpi_gen(r, a); mpi_gen(r, b); mpi_gen(r, n);
    auto done = [&](const char* name, int ret, mbedtls_mpi* m) { r.call(name, [&] { r.put((long long)ret); if (ret == 0) mpi_put(r, m); }); };
    for (unsigned i = 0; i < 4; i++) {
        mbedtls_mpi_lset(x, 0);
        switch (t.pick(19)) {
        case 14: { unsigned pos = unsigned(t.range(0, 400)); mbedtls_mpi_copy(x, a); int e = mbedtls_mpi_set_bit(x, pos, t.pick(2)); done("mpi-set-bit", e, x); r.put((long long)mbedtls_mpi_get_bit(x, pos / 2)); break; }
        case 15: done("mpi-mul-int", mbedtls_mpi_mul_int(x, a, mbedtls_mpi_uint(t.raw(4))), x); break;
        case 16: { long v = long(t.raw(3)) - 100; done("mpi-add-int", t.pick(2) ? mbedtls_mpi_add_int(x, a, v) : mbedtls_mpi_sub_int(x, a, v), x); break; }
        case 17: { int e = t.pick(2) ? mbedtls_mpi_add_abs(x, a, b) : mbedtls_mpi_sub_abs(x, a, b); done("mpi-abs", e, x); break; }
        case 18: { // primes and composites of moderate size; the answer does not depend on the random bases
            static const char* P[] = {"FFFFFFFFFFFFFFC5", "7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", "3", "2", "10001", "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFF61"};
            mbedtls_mpi_read_string(x, 16, P[t.pick(6)]);
            if (t.pick(2)) mbedtls_mpi_mul_mpi(x, x, x);
            int e = mbedtls_mpi_is_prime(x, [](void*, unsigned char* o, size_t n) { random_bytes(n, o); return 0; }, nullptr);
            r.call("mpi-prime", [&] { r.put((long long)e); });
            break; }
        case 0: done("mpi-add", mbedtls_mpi_add_mpi(x, a, b), x); break;
        case 1: done("mpi-sub", mbedtls_mpi_sub_mpi(x, a, b), x); break;
        case 2: done("mpi-mul", mbedtls_mpi_mul_mpi(x, a, b), x); break;
        case 3: { int e = mbedtls_mpi_div_mpi(q, x, a, b); done("mpi-div", e, x); if (!e) mpi_put(r, q); break; }
        case 4: done("mpi-mod", mbedtls_mpi_mod_mpi(x, a, n), x); break;
        case 5: { Mpi e; mbedtls_mpi_lset(e, (long)t.raw(3)); done("mpi-exp", mbedtls_mpi_exp_mod(x, a, e, n, nullptr), x); break; }
        case 6: done("mpi-inv", mbedtls_mpi_inv_mod(x, a, n), x); break;
        case 7: done("mpi-gcd", mbedtls_mpi_gcd(x, a, b), x); break;
        case 8: { mbedtls_mpi_copy(x, a); done("mpi-shl", mbedtls_mpi_shift_l(x, t.range(0, 300)), x); break; }
        case 9: { mbedtls_mpi_copy(x, a); done("mpi-shr", mbedtls_mpi_shift_r(x, t.range(0, 300)), x); break; }
        case 10: { mbedtls_mpi_uint w = 0; int e = mbedtls_mpi_mod_int(&w, a, mbedtls_mpi_sint(t.raw(3)) - 100); r.call("mpi-mod-int", [&] { r.put((long long)e); if (!e) r.num(w); }); break; }
        case 11: r.call("mpi-cmp", [&] { r.put((long long)mbedtls_mpi_cmp_mpi(a, b)); r.put((long long)mbedtls_mpi_cmp_abs(a, b)); r.num(mbedtls_mpi_bitlen(a)); r.num(mbedtls_mpi_lsb(b)); }); break;
        case 12: { char s[1500]; size_t l = 0; int rad = 2 + int(t.pick(15)); int e = mbedtls_mpi_write_string(a, rad, s, sizeof s, &l); r.call("mpi-string", [&] { r.put((long long)e); if (!e) { r.put(std::string(s)); Mpi y; r.put((long long)mbedtls_mpi_read_string(y, rad, s)); mpi_put(r, y); } }); break; }
        default: { std::string s = t.str(t.pick(20)); int rad = 2 + int(t.pick(16)); Mpi y; int e = mbedtls_mpi_read_string(y, rad, s.c_str()); done("mpi-parse", e, y); break; }
        }
        if (x.m.p == nullptr) continue; // numbers used later have been given a value
        if (t.pick(2)) mbedtls_mpi_swap(a, x); else mbedtls_mpi_swap(b, x);
    }
}
void do_codec(Run& r)
{
    Tape& t = r.t;
    Bytes in = t.bytes(t.len(0, 200, 9000));
    switch (t.pick(5)) {
    case 3: {
        if (in.empty()) in.push_back(1);
        Exact dst(t.range(0, 500)), src(in);
        size_t ol = 0;
        int e = mbedtls_pem_write_buffer("-----BEGIN X-----\n", "-----END X-----\n", src.data(), src.n, dst.data(), dst.n, &ol);
        r.call("pem-write", [&] { r.put((long long)e); r.num(ol); if (!e) r.bytes(dst.data(), ol); });
        break; }
    case 4: {
        std::string pem = ref_pem("X", in.empty() ? Bytes(1, 2) : in, 64, t.pick(2) ? "\n" : "\r\n");
        if (t.pick(2)) { size_t at = t.below(pem.size()); pem[at] = char(t.u8() | 1); }
        mbedtls_pem_context c;
        mbedtls_pem_init(&c);
        size_t used = 0;
        int e = mbedtls_pem_read_buffer(&c, "-----BEGIN X-----", "-----END X-----", reinterpret_cast<const unsigned char*>(pem.c_str()), nullptr, 0, &used);
        r.call("pem-read", [&] { r.put((long long)e); if (!e) { r.bytes(c.buf, c.buflen); r.num(used); } });
        mbedtls_pem_free(&c);
        break; }
    case 0: {
        Exact dst(t.range(0, 300)), src(in);
        size_t ol = 0;
        int e = mbedtls_base64_encode(dst.data(), dst.n, &ol, src.data(), src.n);
        r.call("b64-encode", [&] { r.put((long long)e); r.num(ol); if (!e) r.bytes(dst.data(), ol); });
        break; }
    case 1: {
        for (auto& c : in) if (t.pick(8)) c = uint8_t("ABCDwxyz0189+/=\n\r "[c % 18]);
        Exact dst(t.range(0, 300)), src(in);
        size_t ol = 0;
        int e = mbedtls_base64_decode(dst.data(), dst.n, &ol, src.data(), src.n);
        r.call("b64-decode", [&] { r.put((long long)e); if (!e) r.bytes(dst.data(), ol); });
        break; }
    default: {
        Bytes d = t.pick(2) ? der_tlv(2, in) : in;
        if (!d.empty() && t.pick(2)) { size_t at = t.below(std::min<size_t>(d.size(), 5)); d[at] = t.u8(); }
        Exact src(d);
        unsigned char* p = src.data();
        Mpi m;
        int e = mbedtls_asn1_get_mpi(&p, src.data() + src.n, m);
        r.call("asn1-mpi", [&] { r.put((long long)e); if (!e) mpi_put(r, m); r.put((long long)(p - src.data())); });
    } }
}
void do_random(Run& r)
{
    Tape& t = r.t;
    switch (t.pick(r.p.light ? 4 : 5)) {
    case 0: r.call("random-string", [&] { std::string s = random_string(16 + t.pick(64)); r.num(s.size()); r.rnd(s); }); break;
    case 1: r.call("random-key", [&] { Key<32> k; r.rnd(S(key_content(k))); }); break;
    case 2: r.call("random-prp", [&] { Prp p; r.rnd(p.encrypt(std::string(32, 'a'))); }); break;
    case 3: r.call("random-prf", [&] { Prf<32> p; auto a = p.prf("abc"); r.rnd(std::string(a.begin(), a.end())); }); break;
    default: r.call("random-element", [&] { Tdp p(test_key(t.pick(4)).pk); r.rnd(p.sample()); }); break;
    }
}
}
void warm_up()
{
    for (unsigned i = 0; i < TEST_SK.size(); i++) (void)test_key(i);
    for (auto& s : OTHER_SIZE_SK) (void)ref_public_pem(s);
    (void)ref::aez_context(Bytes(48, 1));
}
void run_program(Tape& t, Program& p)
{
    Run r(t, p);
    unsigned n = 1 + t.pick(p.light ? 6 : 5);
    for (unsigned i = 0; i < n; i++) {
        switch (t.pick(p.collect_randoms ? 24 : 19)) {
        case 0: do_hash(r); break;
        case 1: do_mac(r); break;
        case 2: do_prf(r); break;
        case 3: do_prg(r); break;
        case 4: do_prp(r); break;
        case 5: case 6: do_cipher(r); break;
        case 7: do_wrap(r); break;
        case 8: case 9: case 10: do_rcprf(r); break;
        case 11: do_set(r); break;
        case 12: do_search(r); break;
        case 13: case 18: case 22: case 23: do_tdp(r); break;
        case 14: do_import(r); break;
        case 15: case 16: do_mpi(r); break;
        case 17: do_codec(r); break;
        default: do_random(r); break;
        }
    }
    p.transcript = r.o.str();
}
}
