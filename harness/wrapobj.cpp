#include "wrapobj.hpp"
namespace pbt {
template <class C> struct Obj;
static uint64_t top_leaf(unsigned h) { return (uint64_t(1) << (h - 1)) - 1; }
static uint64_t some_leaf(Tape& t, uint64_t lo, uint64_t hi)
{
    switch (t.pick(4)) {
    case 0: return lo;
    case 1: return hi;
    case 2: return lo + t.range(0, std::min<uint64_t>(hi - lo, 8));
    default: return t.range(lo, hi);
    }
}
static Bytes ctx_of(uint16_t n) { return Bytes{uint8_t(n >> 8), uint8_t(n)}; }

static void behave(Cipher& c, Tape& t, const Model& m)
{
    Bytes pt = t.bytes(t.len(1, 400, 9000)), got;
    std::string ct;
    c.encrypt(S(pt), ct);
    CHECK(ref::cipher_decrypt(m.key, B(ct), got) && got == pt, "the cipher's ciphertext does not decrypt under the key");
    std::string back;
    Bytes n = t.bytes(16);
    c.decrypt(S(ref::cipher_encrypt(m.key, n.data(), pt)), back);
    CHECK(eq(pt, back), "the cipher does not decrypt a ciphertext of its key");
}
template <uint16_t N> static void behave(Prf<N>& p, Tape& t, const Model& m)
{
    Bytes in = t.bytes(t.len(0, 300, 9000));
    CHECK(eq(ref::prf(m.key, in, N), p.prf(S(in))), "PRF differs on an input of ", in.size(), " bytes, width ", N);
}
static void behave(Prg& p, Tape& t, const Model& m)
{
    size_t off = t.len(0, 500, 9000), len = t.len(1, 300, 9000);
    std::string out;
    p.derive(off, len, out);
    CHECK(eq(ref::prg(m.key, off, len), out), "PRG differs on [", off, ",+", len, ")");
}
static void behave(Prp& p, Tape& t, const Model& m)
{

    Bytes in = t.bytes(t.len(1, 300, 9000));
    CHECK(eq(ref::aez(m.key, in, false), p.encrypt(S(in))) && eq(ref::aez(m.key, in, true), p.decrypt(S(in))), "PRP differs on ", in.size(), " bytes");
}
template <uint16_t N> static void behave(RCPrf<N>& p, Tape& t, const Model& m)
{
    CHECK(p.tree_height() == m.height, "tree height");
    uint64_t l = some_leaf(t, 0, top_leaf(m.height));
    CHECK(eq(ref::rcprf_leaf(m.key, m.height, l, N), p.eval(l)), "leaf ", l, " differs, height ", m.height);
    if (m.height < 64) CHECK(attempt([&] { (void)p.eval(top_leaf(m.height) + 1); }) == OUT_OF_RANGE, "a leaf outside the tree was evaluated");
}
template <uint16_t N> static void behave(ConstrainedRCPrf<N>& p, Tape& t, const Model& m)
{
    CHECK(p.is_empty() == m.empty, "emptiness");
    if (m.empty) {
        CHECK(p.min_leaf() == UINT64_MAX && p.max_leaf() == 0, "bounds of an empty object");
        uint64_t l = t.pick(3);
        CHECK(attempt([&] { (void)p.eval(l); }) == OUT_OF_RANGE, "an empty object evaluated ", l);
        return;
    }
    CHECK(p.tree_height() == m.height && p.min_leaf() == m.lo && p.max_leaf() == m.hi, "range [", p.min_leaf(), ",", p.max_leaf(), "] instead of [", m.lo, ",", m.hi, "]");
    for (unsigned k = 0; k < 2; k++) {
        uint64_t l = some_leaf(t, m.lo, m.hi);
        CHECK(eq(ref::rcprf_leaf(m.key, m.height, l, N), p.eval(l)), "leaf ", l, " differs, height ", m.height);
    }
    if (m.lo) CHECK(attempt([&] { (void)p.eval(m.lo - 1); }) == OUT_OF_RANGE, "leaf before the range");
    CHECK(m.hi == ~0ull || attempt([&] { (void)p.eval(m.hi + 1); }) == OUT_OF_RANGE, "leaf after the range");
    uint64_t a = some_leaf(t, m.lo, m.hi), b = a + std::min<uint64_t>(m.hi - a, t.pick(6)), next = a;
    p.eval_range(a, b, [&](uint64_t l, const std::array<uint8_t, N>& v) {
        CHECK(l == next, "range order");
        CHECK(eq(ref::rcprf_leaf(m.key, m.height, l, N), v), "range leaf ", l);
        next++;
    });
    CHECK(next == b + 1, "range stopped at ", next);
}
static void behave(TdpInverse& p, Tape& t, const Model& m)
{
    Bytes x = t.bytes(256);
    x[0] &= 0x3f;
    CHECK(eq(rsa_priv(*m.rsa, x), p.invert(S(x))), "inversion differs");
    CHECK(eq(rsa_pub(*m.rsa, x), p.eval(arr<256>(x))), "evaluation differs");
    if (t.pick(3) == 0) { unsigned k = t.pick(5); CHECK(eq(rsa_priv(*m.rsa, x, k), p.invert_mult(S(x), k)), "inversion of order ", k, " differs"); }
    RsaKey k;
    CHECK(ref_parse_private(p.private_key(), k) && mpz_cmp(k.n, m.rsa->n) == 0 && mpz_cmp(k.d, m.rsa->d) == 0, "exported key differs");
}
template <class C> struct Obj : IObj {
    C c;
    explicit Obj(C&& o) : c(std::move(o)) {}
    Bytes wrap(const Wrapper& w) const override { return w.wrap(c); }
    void check(Tape& t, const Model& m) const override { behave(const_cast<C&>(c), t, m); }
    std::unique_ptr<IObj> moved() override { return std::unique_ptr<IObj>(new Obj(std::move(c))); }
};
template <class C> std::unique_ptr<IObj> unw(const Wrapper& w, std::vector<uint8_t>& b) { return std::unique_ptr<IObj>(new Obj<C>(w.unwrap<C>(b))); }
template <class C> std::unique_ptr<IObj> own(C&& c) { return std::unique_ptr<IObj>(new Obj<C>(std::move(c))); }
static std::string is_key(const Model& m, const Bytes& s) { return s == m.key ? "" : "serialisation is not the key"; }

template <class C, size_t K> std::unique_ptr<IObj> mk_keyed(Tape& t, Model& m) { m.key = t.bytes(K); return own(C(mk<K>(m.key))); }
template <uint16_t N> std::unique_ptr<IObj> mk_rc(Tape& t, Model& m)
{
    m.key = t.bytes(32);
    m.height = t.pick(3) ? 2 + t.pick(8) : unsigned(t.range(2, 64));
    return own(RCPrf<N>(mk<32>(m.key), uint8_t(m.height)));
}
template <uint16_t N> std::unique_ptr<IObj> mk_con(Tape& t, Model& m)
{
    if (t.pick(12) == 0) {
        m.empty = true;
        return own(ConstrainedRCPrf<N>(std::vector<std::unique_ptr<ConstrainedRCPrfElement<N>>>()));
    }
    m.key = t.bytes(32);
    m.height = t.pick(3) ? 2 + t.pick(8) : unsigned(t.range(2, 64));
    uint64_t top = top_leaf(m.height);
    if (t.pick(4) == 0) {
        // pieces put together by the caller, not the smallest cover: many leaves or small subtrees
        unsigned np = t.pick(4) ? 1 + t.pick(12) : 1 + t.pick(200), maxh = t.pick(3) ? 1 + t.pick(m.height - 1) : 1;
        std::vector<std::unique_ptr<ConstrainedRCPrfElement<N>>> v;
        uint64_t next = m.lo = some_leaf(t, 0, top);
        for (unsigned i = 0; i < np && next <= top; i++) {
            unsigned h = 1 + t.pick(maxh);
            while ((next & top_leaf(h)) != 0 || (v.empty() && h == m.height)) h--;
            if (h == 1) v.emplace_back(new ConstrainedRCPrfLeafElement<N>(arr<N>(ref::rcprf_leaf(m.key, m.height, next, N)), uint8_t(m.height), next));
            else v.emplace_back(new ConstrainedRCPrfInnerElement<N>(mk<32>(ref::rcprf_node_key(m.key, m.height, m.height - h, next >> (h - 1))), uint8_t(m.height), uint8_t(h), next, next + top_leaf(h)));
            m.hi = next + top_leaf(h);
            next = m.hi + 1;
        }
        return own(ConstrainedRCPrf<N>(std::move(v)));
    }
    RCPrf<N> r(mk<32>(m.key), uint8_t(m.height));
    m.lo = some_leaf(t, 0, top);
    m.hi = some_leaf(t, 0, top);
    if (m.lo > m.hi) std::swap(m.lo, m.hi);
    if (m.lo == 0 && m.hi == top) { if (t.pick(2)) m.lo = 1; else m.hi--; }
    ConstrainedRCPrf<N> c = r.constrain(m.lo, m.hi);
    if (m.hi > m.lo && t.pick(3) == 0) {
        uint64_t a = some_leaf(t, m.lo, m.hi), b = some_leaf(t, m.lo, m.hi);
        m.lo = std::min(a, b); m.hi = std::max(a, b);
        return own(c.constrain(m.lo, m.hi));
    }
    return own(std::move(c));
}
static std::string rc_ser(const Model& m, const Bytes& s)
{
    if (s.size() != 33 || s[0] != m.height || !std::equal(m.key.begin(), m.key.end(), s.begin() + 1)) return "serialisation is not height and key";
    return "";
}
template <uint16_t N> std::string con_ser(const Model& m, const Bytes& s)
{
    if (s.size() < 5) return "short serialisation";
    if (s[0] != m.height) return "serialised height";
    uint32_t n;
    memcpy(&n, &s[1], 4);
    if (m.empty) return n == 0 && s.size() == 5 ? "" : "serialisation of an empty object";
    size_t at = 5;
    uint64_t next = m.lo;
    for (uint32_t i = 0; i < n; i++) {
        if (s.size() < at + 17) return "truncated piece";
        unsigned h = s[at];
        uint64_t lo, hi;
        memcpy(&lo, &s[at + 1], 8);
        memcpy(&hi, &s[at + 9], 8);
        at += 17;
        if (h < 1 || h >= m.height || lo != next || hi != lo + top_leaf(h) || hi > m.hi) return "piece out of place";
        Bytes want = h == 1 ? ref::rcprf_leaf(m.key, m.height, lo, N) : ref::rcprf_node_key(m.key, m.height, m.height - h, lo >> (h - 1));
        if (s.size() < at + want.size() || !std::equal(want.begin(), want.end(), s.begin() + at)) return "piece content";
        at += want.size();
        next = hi + 1;
    }
    return next == m.hi + 1 && at == s.size() ? "" : "pieces do not cover the range exactly";
}
static std::unique_ptr<IObj> mk_tdp(Tape& t, Model& m)
{
    static std::vector<std::shared_ptr<RsaKey>> K(TEST_SK.size());
    unsigned i = t.pick(unsigned(TEST_SK.size()));
    if (!K[i]) { K[i].reset(new RsaKey); CHECK(ref_parse_private(TEST_SK[i], *K[i]), "test key"); }
    m.rsa = K[i];
    m.rsa_pem = TEST_SK[i];
    return own(TdpInverse(TEST_SK[i]));
}
static std::string tdp_ser(const Model& m, const Bytes& s)
{
    RsaKey k;
    std::string pem = S(s);
    if (!ref_parse_private(pem, k)) return "serialisation is not an RSA private key";
    return mpz_cmp(k.n, m.rsa->n) == 0 && mpz_cmp(k.e, m.rsa->e) == 0 && mpz_cmp(k.d, m.rsa->d) == 0 ? "" : "serialised RSA key differs";
}
static std::string prp_ser(const Model& m, const Bytes& s) { return s == ref::aez_context(m.key) ? "" : "serialisation is not the AEZ context of the key"; }
template <uint16_t N> WClass w_prf() { return WClass{"Prf", 2, ctx_of(N), N, mk_keyed<Prf<N>, 32>, unw<Prf<N>>, is_key}; }
template <uint16_t N> WClass w_rc() { return WClass{"RCPrf", 5, ctx_of(N), N, mk_rc<N>, unw<RCPrf<N>>, rc_ser}; }
template <uint16_t N> WClass w_con() { return WClass{"ConstrainedRCPrf", 6, ctx_of(N), N, mk_con<N>, unw<ConstrainedRCPrf<N>>, con_ser<N>}; }
const std::vector<WClass> WCLASSES = {
    WClass{"Cipher", 1, {}, 0, mk_keyed<Cipher, 32>, unw<Cipher>, is_key},
    WClass{"Prg", 3, {}, 0, mk_keyed<Prg, 32>, unw<Prg>, is_key},
    WClass{"Prp", 4, {}, 0, mk_keyed<Prp, 48>, unw<Prp>, prp_ser},
    w_prf<1>(), w_prf<12>(), w_prf<32>(), w_prf<64>(), w_prf<65>(), w_prf<256>(), w_prf<257>(), w_prf<264>(), w_prf<288>(), w_prf<768>(), w_prf<1024>(),
    w_rc<1>(), w_rc<16>(), w_rc<32>(), w_rc<33>(), w_rc<257>(), w_rc<288>(),
    w_con<1>(), w_con<16>(), w_con<32>(), w_con<33>(), w_con<257>(), w_con<288>(),
    WClass{"TdpInverse", 7, {}, 0, mk_tdp, unw<TdpInverse>, tdp_ser},
};
}
