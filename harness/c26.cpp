#include "heap.hpp"
#include "tdpkit.hpp"
#include "wrapobj.hpp"
#include "rc.hpp"
#include <sse/crypto/hash.hpp>
#include <sse/crypto/hmac.hpp>
#include <sse/crypto/set_hash.hpp>
extern "C" {
#include <mbedtls/asn1write.h>
#include <mbedtls/base64.h>
#include <mbedtls/bignum.h>
#include <mbedtls/pem.h>
#include <mbedtls/rsa.h>
#include <mbedtls/rsa_io.h>
}
using namespace pbt;
const char* pbt::PROP_ID = "C26";
const char* pbt::PROP_RULE = "a case in which at least one injected allocation failure fired inside a library call";
size_t pbt::prop_tape_len() { return 220; }
void pbt::prop_setup() { lib_init_tape_rng(); (void)test_key(0); for (unsigned i = 0; i < 10; i++) test_key(i); }

// One execution of an operation. The body sets objects up, runs the call of
// interest in window(), and reports what the objects answer afterwards.
struct Run {
    Tape t;
    uint64_t seed;
    long fault;
    bool mprot;
    bool did = false, failed = false;
    uint64_t allocs = 0;
    bool fired = false;
    Outcome outcome = OK;
    Bytes result, later;
    Run(const Tape& tp, uint64_t s, long f, bool m) : t(tp), seed(s), fault(f), mprot(m) {}
    template <class F> void window(F&& f)
    {
        CHECK(!did, "one window per operation");
        did = true;
        Bytes r;
        rng_seed(seed);
        uint64_t m0 = track::mprotect_calls();
        heap::fail_at(mprot ? -1 : fault);
        if (mprot && fault >= 0) track::fail_mprotect_at(fault);
        heap::count(true);
        outcome = attempt([&] { f(r); });
        heap::count(false);
        fired = mprot ? track::fault_fired() : heap::fired();
        heap::fail_at(-1);
        track::fail_mprotect_at(-1);
        allocs = mprot ? track::mprotect_calls() - m0 : heap::counted();
        result = r;
        rng_seed(seed + 1);
        CHECK(outcome != NON_STD, "a failed allocation raised a non-standard exception");
#ifdef ENABLE_MEMORY_LOCK
        if (!mprot) { std::string e = track::all_locked(); CHECK(e.empty(), "after the call ", e); }
#endif
    }
    bool ok() const { return outcome == OK; }
    void after(const Bytes& b) { later.insert(later.end(), b.begin(), b.end()); }
    void after(const std::string& s) { after(B(s)); }
    template <size_t N> void after(const std::array<uint8_t, N>& a) { after(B(a)); }
};
// the harness's own copies are not part of the call
template <class T> static void put(Bytes& r, const T& v) { heap::pause(1); r = B(v); heap::pause(-1); }
struct Op { const char* name; unsigned weight; std::function<void(Run&)> body; };

// ---- C-level helpers
struct Mpi {
    mbedtls_mpi m;
    Mpi() { mbedtls_mpi_init(&m); }
    ~Mpi() { mbedtls_mpi_free(&m); }
    operator mbedtls_mpi*() { return &m; }
};
struct CError : std::runtime_error { CError() : std::runtime_error("error code") {} };
static void must(int r) { if (r != 0) throw CError(); }
static void load(mbedtls_mpi* m, const Bytes& b, bool neg) { if (mbedtls_mpi_read_binary(m, b.data(), b.size())) fail("setup"); if (neg && mbedtls_mpi_cmp_int(m, 0)) m->s = -1; }
static Bytes dump(mbedtls_mpi* m)
{
    Bytes b(mbedtls_mpi_size(m) + 1);
    b[0] = m->s < 0;
    if (mbedtls_mpi_write_binary(m, b.data() + 1, b.size() - 1)) fail("dump");
    return b;
}
static void alias(Mpi& X, Mpi& A) { heap::pause(1); int r = mbedtls_mpi_copy(X, A); heap::pause(-1); if (r) fail("setup"); }
static Bytes mpi_op(Tape& t, Mpi& X, Mpi& Y, Mpi& A, Mpi& Bn, Mpi& N)
{
    switch (t.pick(28)) {
    case 0: must(mbedtls_mpi_add_mpi(X, A, Bn)); return dump(X);
    case 1: must(mbedtls_mpi_sub_mpi(X, A, Bn)); return dump(X);
    case 2: must(mbedtls_mpi_mul_mpi(X, A, Bn)); return dump(X);
    case 3: must(mbedtls_mpi_div_mpi(X, Y, A, N)); { Bytes r = dump(X), s = dump(Y); r.insert(r.end(), s.begin(), s.end()); return r; }
    case 4: must(mbedtls_mpi_mod_mpi(X, A, N)); return dump(X);
    case 5: must(mbedtls_mpi_exp_mod(X, A, Bn, N, nullptr)); return dump(X);
    case 6: must(mbedtls_mpi_inv_mod(X, A, N)); return dump(X);
    case 7: must(mbedtls_mpi_gcd(X, A, Bn)); return dump(X);
    case 8: must(mbedtls_mpi_copy(X, A)); must(mbedtls_mpi_shift_l(X, t.pick(200))); return dump(X);
    case 9: must(mbedtls_mpi_mul_int(X, A, t.u8())); return dump(X);
    case 10: must(mbedtls_mpi_sub_int(X, A, t.u8())); return dump(X);
    case 11: { char buf[3000]; size_t n = 0; must(mbedtls_mpi_write_string(A, t.pick(2) ? 10 : 16, buf, sizeof buf, &n)); return Bytes(buf, buf + n); }
    case 12: { char buf[3000]; size_t n = 0; unsigned radix = t.pick(2) ? 10 : 16; { heap::pause(1); int r = mbedtls_mpi_write_string(A, int(radix), buf, sizeof buf, &n); heap::pause(-1); if (r) fail("setup"); } must(mbedtls_mpi_read_string(X, int(radix), buf)); return dump(X); }
    // results in place of an operand: copies of the operands are made outside the call
    case 13: alias(X, A); must(mbedtls_mpi_add_mpi(X, X, Bn)); return dump(X);
    case 14: alias(X, A); must(mbedtls_mpi_mul_mpi(X, Bn, X)); return dump(X);
    case 15: alias(X, A); must(mbedtls_mpi_div_mpi(X, nullptr, X, N)); return dump(X);
    case 16: alias(X, A); must(mbedtls_mpi_mod_mpi(X, X, N)); return dump(X);
    case 17: alias(X, A); must(mbedtls_mpi_exp_mod(X, X, Bn, N, Y)); must(mbedtls_mpi_exp_mod(X, X, Bn, N, Y)); return dump(X);
    case 18: alias(X, Bn); must(mbedtls_mpi_inv_mod(X, X, N)); return dump(X);
    case 19: alias(X, A); { unsigned at = t.u8() * 8; unsigned char v = t.u8() & 1; must(mbedtls_mpi_set_bit(X, at, v)); } return dump(X);
    case 20: alias(X, A); { unsigned char v = t.u8() & 1; must(mbedtls_mpi_safe_cond_assign(X, Bn, v)); } return dump(X);
    case 21: alias(X, A); alias(Y, Bn); { unsigned char v = t.u8() & 1; must(mbedtls_mpi_safe_cond_swap(X, Y, v)); } { Bytes r = dump(X), s = dump(Y); r.insert(r.end(), s.begin(), s.end()); return r; }
    case 22: alias(X, A); must(mbedtls_mpi_shrink(X, t.u8() & 7)); return dump(X);
    case 23: must(mbedtls_mpi_add_int(X, A, -int(t.u8()))); return dump(X);
    case 24: must(mbedtls_mpi_sub_abs(X, A, A)); must(mbedtls_mpi_add_abs(X, Bn, A)); return dump(X);
    case 25: { uint8_t b[400]; uint8_t* p = b + sizeof b; alias(X, A); X.m.s = 1; int r = mbedtls_asn1_write_mpi(&p, b, X); if (r < 0) throw CError(); heap::pause(1); Bytes o(p, b + sizeof b); heap::pause(-1); return o; }
    case 26: { unsigned n = 40 + t.pick(30); int dh = int(t.pick(2)); must(mbedtls_mpi_gen_prime(X, n, dh, mbedTLS_rng_wrap, nullptr)); return dump(X); }
    default: { int r = mbedtls_mpi_is_prime(Bn, mbedTLS_rng_wrap, nullptr); if (r != 0 && r != MBEDTLS_ERR_MPI_NOT_ACCEPTABLE) throw CError(); return Bytes(1, r == 0); }
    }
}
static Bytes B(const std::vector<Key<16>>& v) { Bytes r; for (auto& k : v) { Bytes c = key_content(k); r.insert(r.end(), c.begin(), c.end()); } return r; }

static std::vector<Op> ops()
{
    std::vector<Op> o;
    o.push_back({"Key()", 1, [](Run& R) { std::unique_ptr<Key<32>> k; R.window([&](Bytes&) { k.reset(new Key<32>()); }); if (R.ok()) R.result = key_content(*k); }});
    o.push_back({"Key(bytes)", 1, [](Run& R) {
        Bytes b = R.t.bytes(48), c = b;
        std::unique_ptr<Key<48>> k;
        R.window([&](Bytes&) { k.reset(new Key<48>(c.data())); });
        if (R.ok()) { R.result = key_content(*k); CHECK(c == Bytes(48), "the caller's bytes were not erased"); }
        else if (!R.mprot) CHECK(c == b || c == Bytes(48), "the caller's bytes are half erased");
    }});
    o.push_back({"random keys", 1, [](Run& R) {
        unsigned how = R.t.pick(4);
        std::string m = R.t.str(20);
        R.window([&](Bytes& r) {
            switch (how) {
            case 0: { HMac<Hash, 40> h; put(r, h.hmac(m)); break; }
            case 1: { Prf<24> f; put(r, f.prf(m)); break; }
            case 2: { Prg g((Key<32>())); put(r, g.derive(30)); break; }
            default: { Cipher c((Key<32>())); std::string e, d; c.encrypt(m, e); c.decrypt(e, d); put(r, d); break; }
            }
        });
    }});
    o.push_back({"Cipher arrays", 1, [](Run& R) {
        Bytes k = R.t.bytes(32), n = R.t.bytes(16), m = R.t.bytes(37);
        Cipher c(mk<32>(k));
        std::array<uint8_t, 37> a = arr<37>(m);
        std::array<uint8_t, Cipher::ciphertext_length(37)> e = arr<Cipher::ciphertext_length(37)>(ref::cipher_encrypt(k, n.data(), m));
        bool enc = R.t.pick(2);
        std::array<uint8_t, 37> d = arr<37>(Bytes(37, 0x55));
        std::array<uint8_t, Cipher::ciphertext_length(37)> g = e;
        R.window([&](Bytes& r) { if (enc) { c.encrypt<37>(a, g); put(r, g); } else { c.decrypt<37>(e, d); put(r, d); } });
        if (!R.ok()) CHECK(d == arr<37>(Bytes(37, 0x55)) || d == arr<37>(Bytes(37)), "a failed decryption changed its output");
        c.encrypt<37>(a, g);
        R.after(g);
        c.decrypt<37>(g, d);
        R.after(d);
    }});
    o.push_back({"Cipher::encrypt", 2, [](Run& R) {
        Cipher c(mk<32>(R.t.bytes(32)));
        std::string m = R.t.str(R.t.len(1, 600, 9000)), x = R.t.pick(2) ? m : "previous";
        R.window([&](Bytes& r) { c.encrypt(m, x); put(r, x); });
        std::string y, z;
        c.encrypt(m, y);
        R.after(y);
        c.decrypt(y, z);
        R.after(z);
    }});
    o.push_back({"Cipher::decrypt", 2, [](Run& R) {
        Bytes k = R.t.bytes(32), n = R.t.bytes(16), m = R.t.bytes(R.t.len(1, 600, 9000));
        Cipher c(mk<32>(k));
        Bytes ct = ref::cipher_encrypt(k, n.data(), m);
        bool bad = R.t.pick(3) == 0;
        if (bad) ct[R.t.range(0, ct.size() - 1)] ^= 1;
        std::string in = S(ct), x = "previous";
        R.window([&](Bytes& r) { c.decrypt(in, x); put(r, x); });
        if (!R.ok()) CHECK(x == "previous" || x == std::string(x.size(), 0), "a failed decryption changed its output");
        CHECK(!bad || !R.ok(), "an altered ciphertext was accepted after an allocation failure");
        std::string z;
        R.after(Bytes(1, attempt([&] { c.decrypt(in, z); }) == OK));
        R.after(z);
    }});
    o.push_back({"Hash::hash", 1, [](Run& R) {
        std::string m = R.t.str(R.t.len(0, 600, 9000));
        size_t n = 1 + R.t.pick(64);
        unsigned how = R.t.pick(4);
        R.window([&](Bytes& r) { std::string x; if (how == 0) Hash::hash(m, x); else if (how == 1) Hash::hash(m, n, x); else if (how == 2) x = Hash::hash(m); else x = Hash::hash(m, n); put(r, x); });
        R.after(Hash::hash(m));
    }});
    o.push_back({"HMac::hmac", 1, [](Run& R) {
        HMac<Hash, 32> h(mk<32>(R.t.bytes(32)));
        std::string m = R.t.str(R.t.len(0, 600, 9000));
        R.window([&](Bytes& r) { put(r, h.hmac(m)); });
        R.after(h.hmac(m));
    }});
    o.push_back({"Prf::prf", 2, [](Run& R) {
        Bytes k = R.t.bytes(32);
        Prf<32> a(mk<32>(k));
        Prf<200> b(mk<32>(k));
        std::string m = R.t.str(R.t.len(0, 300, 9000));
        unsigned how = R.t.pick(4);
        R.window([&](Bytes& r) {
            if (how == 0) put(r, a.prf(m));
            else if (how == 1) put(r, b.prf(m));
            else if (how == 2) { Key<32> d = a.derive_key(m); heap::pause(1); r = key_content(d); heap::pause(-1); }
            else { Key<200> d = b.derive_key(m); heap::pause(1); r = key_content(d); heap::pause(-1); }
        });
        R.after(a.prf(m));
        R.after(b.prf(m));
    }});
    o.push_back({"Prg::derive", 2, [](Run& R) {
        Bytes k = R.t.bytes(32);
        Prg g(mk<32>(k));
        Key<32> kk = mk<32>(k);
        size_t off = R.t.len(0, 300, 9000), len = R.t.len(1, 300, 9000);
        unsigned how = R.t.pick(6);
        std::string x = "previous";
        R.window([&](Bytes& r) {
            switch (how) {
            case 0: g.derive(off, len, x); put(r, x); break;
            case 1: put(r, g.derive(off, len)); break;
            case 2: Prg::derive(std::move(kk), len, x); put(r, x); break;
            case 3: Prg::derive(std::move(kk), off, len, x); put(r, x); break;
            case 4: put(r, Prg::derive(std::move(kk), off, len)); break;
            default: { Key<16> d = g.derive_key<16>(uint16_t(off)); heap::pause(1); r = key_content(d); heap::pause(-1); }
            }
        });
        R.after(g.derive(off, len));
    }});
    o.push_back({"Prg::derive_keys", 2, [](Run& R) {
        Bytes k = R.t.bytes(32);
        Prg g(mk<32>(k));
        Key<32> kk = mk<32>(k);
        uint16_t off = uint16_t(R.t.pick(20)), n = uint16_t(1 + R.t.pick(12));
        unsigned how = R.t.pick(3);
        std::vector<Key<16>> v;
        R.window([&](Bytes& r) {
            if (how == 0) v = g.derive_keys<16>(n, off);
            else if (how == 1) v = Prg::derive_keys<16>(std::move(kk), n, off);
            else { Key<16> d = Prg::derive_key<16>(std::move(kk), off); heap::pause(1); r = key_content(d); heap::pause(-1); }
        });
        if (R.ok() && how < 2) R.result = B(v);
        R.after(g.derive(0, 100));
    }});
    o.push_back({"Prp()", 1, [](Run& R) {
        std::unique_ptr<Prp> p;
        bool own = R.t.pick(2);
        Key<48> k = mk<48>(R.t.bytes(48));
        R.window([&](Bytes&) { p.reset(own ? new Prp(std::move(k)) : new Prp()); });
        if (R.ok()) R.result = B(p->encrypt(std::string("some input")));
    }});
    o.push_back({"Prp::encrypt", 1, [](Run& R) {
        Prp p(mk<48>(R.t.bytes(48)));
        std::string m = R.t.str(R.t.len(1, 400, 9000)), x = "previous";
        unsigned how = R.t.pick(4);
        R.window([&](Bytes& r) { if (how == 0) p.encrypt(m, x); else if (how == 1) p.decrypt(m, x); else x = how == 2 ? p.encrypt(m) : p.decrypt(m); put(r, x); });
        R.after(p.encrypt(m));
        R.after(p.decrypt(m));
    }});
    o.push_back({"SetHash", 1, [](Run& R) {
        std::vector<std::string> v(1 + R.t.pick(4));
        for (auto& s : v) s = R.t.str(R.t.length(0, 50));
        SetHash h(v), g(h);
        unsigned how = R.t.pick(4);
        R.window([&](Bytes& r) {
            if (how == 0) { SetHash q(v); put(r, q.data()); }
            else if (how == 1) { g.add_element(v[0]); put(r, g.data()); }
            else if (how == 2) { g.remove_element(v[0]); put(r, g.data()); }
            else { g.add_set(h); put(r, g.data()); }
        });
        R.after(h.data());
        if (!R.ok()) { CHECK(g == h, "a failed update changed the set hash"); }
    }});
    o.push_back({"RCPrf", 4, [](Run& R) {
        Bytes k = R.t.bytes(32);
        unsigned h = R.t.pick(2) ? 2 + R.t.pick(6) : gen_height(R.t);
        Kind K = R.t.pick(2) ? kind<16>() : kind<33>();
        std::unique_ptr<IRc> rc = K.make(k, h), made;
        uint64_t top = max_leaf(h), a = gen_leaf(R.t, 0, top), b = a + std::min<uint64_t>(top - a, R.t.pick(12));
        if (a == 0 && b == top) { if (b) b--; }
        unsigned how = R.t.pick(4);
        std::unique_ptr<ICon> con;
        R.window([&](Bytes& r) {
            if (how == 0) r = rc->eval(a);
            else if (how == 1) rc->range(a, b, [&](uint64_t, const Bytes& v) { r.insert(r.end(), v.begin(), v.end()); });
            else if (how == 2) con = rc->constrain(a, b);
            else made = K.make(k, h);
        });
        if (R.ok() && con) { CHECK(con->min_leaf() == a && con->max_leaf() == b, "range of the constrained object"); R.result = con->eval(a); Bytes x = con->eval(b); R.result.insert(R.result.end(), x.begin(), x.end()); }
        if (R.ok() && made) R.result = made->eval(b);
        R.after(rc->eval(a));
        R.after(rc->eval(b));
    }});
    o.push_back({"ConstrainedRCPrf", 4, [](Run& R) {
        Bytes k = R.t.bytes(32);
        unsigned h = R.t.pick(2) ? 3 + R.t.pick(6) : 3 + gen_height(R.t) % 62;
        Kind K = R.t.pick(2) ? kind<16>() : kind<33>();
        uint64_t top = max_leaf(h), a = gen_leaf(R.t, 0, top), b = gen_leaf(R.t, 0, top);
        if (a > b) std::swap(a, b);
        if (a == 0 && b == top) b--;
        std::unique_ptr<ICon> c = K.make(k, h)->constrain(a, b), d;
        uint64_t x = gen_leaf(R.t, a, b), y = x + std::min<uint64_t>(b - x, R.t.pick(12));
        unsigned how = R.t.pick(3);
        bool full = x == a && y == b;
        R.window([&](Bytes& r) {
            if (how == 0) r = c->eval(x);
            else if (how == 1 || full) c->range(x, y, [&](uint64_t, const Bytes& v) { r.insert(r.end(), v.begin(), v.end()); });
            else d = c->constrain(x, y);
        });
        if (R.ok() && d) { CHECK(d->min_leaf() == x && d->max_leaf() == y, "range of the constrained object"); R.result = d->eval(x); Bytes q = d->eval(y); R.result.insert(R.result.end(), q.begin(), q.end()); }
        R.after(c->eval(a));
        R.after(c->eval(b));
        CHECK(c->min_leaf() == a && c->max_leaf() == b, "the range changed");
    }});
    o.push_back({"Wrapper::wrap", 3, [](Run& R) {
        const WClass& W = WCLASSES[R.t.pick(unsigned(WCLASSES.size()))];
        Bytes wk = R.t.bytes(32);
        Wrapper w(mk<32>(wk));
        Model m;
        std::unique_ptr<IObj> ob = W.make(R.t, m);
        R.window([&](Bytes& r) { r = ob->wrap(w); });
        ob->check(R.t, m);
        R.after(ob->wrap(w));
    }});
    o.push_back({"Wrapper::unwrap", 4, [](Run& R) {
        const WClass& W = WCLASSES[R.t.pick(unsigned(WCLASSES.size()))];
        Bytes wk = R.t.bytes(32);
        Wrapper w(mk<32>(wk));
        Model m;
        std::unique_ptr<IObj> ob = W.make(R.t, m), un;
        Bytes blob = ob->wrap(w), keep = blob;
        bool bad = R.t.pick(4) == 0;
        if (bad) { blob[R.t.range(0, blob.size() - 1)] ^= 4; keep = blob; }
        R.window([&](Bytes&) { un = W.unwrap(w, blob); });
        if (R.ok()) { CHECK(!bad, "an altered blob was unwrapped"); un->check(R.t, m); }
        else {
            // either untouched, or (if the failure came after the unwrapping proper) wiped
            bool wiped = blob == Bytes(blob.size());
            CHECK(blob == keep || wiped, "a failed unwrapping left a half-changed blob");
            if (!bad && !wiped && R.fired) { un = W.unwrap(w, blob); un->check(R.t, m); }
        }
    }});
    o.push_back({"Wrapper()", 1, [](Run& R) {
        Bytes wk = R.t.bytes(32);
        Key<32> k = mk<32>(wk);
        std::unique_ptr<Wrapper> w;
        R.window([&](Bytes&) { w.reset(new Wrapper(std::move(k))); });
        Prg g(mk<32>(wk));
        if (R.ok()) R.result = w->wrap(g);
    }});
    o.push_back({"random_string", 1, [](Run& R) { size_t n = R.t.len(0, 300, 9000); R.window([&](Bytes& r) { put(r, random_string(n)); }); }});
    o.push_back({"Tdp(import)", 4, [](Run& R) {
        const TestKey& K = test_key(R.t.pick(10));
        unsigned how = R.t.pick(6), sz = 1 + R.t.pick(4);
        std::string sk = K.sk, pk = K.pk;
        if (how == 4) { Bytes d = ref_private_der(K.k); sk = S(d); }
        if (how == 5) { sk[R.t.range(0, sk.size() - 1)] ^= 1; }
        std::unique_ptr<Tdp> a;
        std::unique_ptr<TdpInverse> b;
        std::unique_ptr<TdpMultPool> p;
        R.window([&](Bytes&) { if (how == 0) a.reset(new Tdp(pk)); else if (how == 1 || how >= 4) b.reset(new TdpInverse(sk)); else p.reset(new TdpMultPool(pk, uint8_t(sz))); });
        if (R.ok()) {
            std::string kind;
            Bytes x = gen_element(R.t, K.k, false, kind);
            Bytes want = rsa_pub(K.k, x);
            if (a) { CHECK(eq(want, a->eval(S(x))), "imported public key evaluates wrongly"); R.result = B(a->public_key()); }
            if (b) { CHECK(eq(want, b->eval(S(x))) && eq(rsa_priv(K.k, x), b->invert(S(x))) && eq(rsa_priv(K.k, x, 2), b->invert_mult(S(x), 2)), "imported private key computes wrongly"); R.result = B(b->private_key()); }
            if (p) { CHECK(eq(rsa_pub(K.k, x, sz), p->eval(S(x), uint8_t(sz))) && p->maximum_order() == sz, "imported pool evaluates wrongly"); }
        }
    }});
    o.push_back({"Tdp copy", 3, [](Run& R) {
        const TestKey &K = test_key(R.t.pick(10)), &L = test_key(R.t.pick(10));
        unsigned how = R.t.pick(4), s1 = 1 + R.t.pick(4), s2 = 1 + R.t.pick(4);
        Tdp a(K.pk), b(L.pk);
        TdpMultPool p(K.pk, uint8_t(s1)), q(L.pk, uint8_t(s2));
        std::unique_ptr<Tdp> c;
        std::unique_ptr<TdpMultPool> r2;
        R.window([&](Bytes&) { if (how == 0) c.reset(new Tdp(a)); else if (how == 1) b = a; else if (how == 2) r2.reset(new TdpMultPool(p)); else q = p; });
        std::string kind;
        Bytes x = gen_element(R.t, K.k, false, kind);
        x[0] &= 0x7f; x[0] &= 0x3f;
        if (R.ok()) {
            if (how == 0) CHECK(eq(rsa_pub(K.k, x), c->eval(S(x))), "copy evaluates wrongly");
            if (how == 1) CHECK(eq(rsa_pub(K.k, x), b.eval(S(x))), "assigned object evaluates wrongly");
            if (how == 2) CHECK(eq(rsa_pub(K.k, x, s1), r2->eval(S(x), uint8_t(s1))) && r2->maximum_order() == s1, "copied pool evaluates wrongly");
            if (how == 3) CHECK(eq(rsa_pub(K.k, x, s1), q.eval(S(x), uint8_t(s1))) && q.maximum_order() == s1, "assigned pool evaluates wrongly");
        } else if (how == 1 || how == 3) {
            // the target may be in any valid state: one of the two keys, or refuse
            Bytes got;
            Outcome e = attempt([&] { got = how == 1 ? B(b.eval(S(x))) : B(q.eval(S(x))); });
            CHECK(e != OK || got == rsa_pub(K.k, x) || got == rsa_pub(L.k, x), "after a failed assignment the target computes something else");
            if (how == 3) {
                unsigned top = q.maximum_order();
                e = attempt([&] { got = B(q.eval(S(x), uint8_t(top))); });
                CHECK(e != OK || got == rsa_pub(K.k, x, top) || got == rsa_pub(L.k, x, top), "after a failed assignment the pool computes something else");
                q = p;
                CHECK(eq(rsa_pub(K.k, x, s1), q.eval(S(x), uint8_t(s1))), "a pool cannot be assigned after a failed assignment");
            } else { b = a; CHECK(eq(rsa_pub(K.k, x), b.eval(S(x))), "cannot be assigned after a failed assignment"); }
        }
        R.after(a.eval(S(x)));
        R.after(p.eval(S(x), uint8_t(s1)));
    }});
    o.push_back({"Tdp operations", 4, [](Run& R) {
        const TestKey& K = test_key(R.t.pick(10));
        unsigned how = R.t.pick(26), sz = 1 + R.t.pick(4);
        Tdp a(K.pk);
        TdpInverse b(K.sk);
        TdpMultPool p(K.pk, uint8_t(sz));
        std::string kind;
        Bytes xb = gen_element(R.t, K.k, false, kind);
        std::string x = S(xb), out = "previous";
        Bytes kb = R.t.bytes(32);
        Key<32> k = mk<32>(kb);
        Prf<Tdp::kRSAPrfSize> f(mk<32>(kb));
        if (R.t.pick(2)) { (void)a.eval(x); (void)b.eval(x); (void)b.invert(x); } // caches filled or not
        R.window([&](Bytes& r) {
            switch (how) {
            case 0: a.eval(x, out); put(r, out); break;
            case 1: put(r, a.eval(arr<256>(xb))); break;
            case 2: b.invert(x, out); put(r, out); break;
            case 3: put(r, b.invert_mult(x, 3)); break;
            case 4: put(r, p.eval(x, uint8_t(sz))); break;
            case 5: put(r, a.generate(std::move(k), x)); break;
            case 6: put(r, b.sample()); break;
            case 7: put(r, b.private_key()); break;
            case 8: put(r, b.public_key()); break;
            case 9: put(r, p.eval(arr<256>(xb), uint8_t(sz))); break;
            case 10: put(r, b.invert(arr<256>(xb))); break;
            case 11: put(r, b.invert_mult(arr<256>(xb), 2)); break;
            case 12: b.invert_mult(x, out, 2); put(r, out); break;
            case 13: put(r, b.eval(x)); break;
            case 14: p.eval(x, out, uint8_t(sz)); put(r, out); break;
            case 15: put(r, p.sample_array()); break;
            case 16: put(r, a.sample()); break;
            case 17: put(r, a.generate_array(std::move(k), x)); break;
            case 18: put(r, b.generate(std::move(k), x)); break;
            case 19: put(r, p.generate_array(std::move(k), x)); break;
            case 20: put(r, a.generate(f, x)); break;
            case 21: put(r, b.generate_array(f, x)); break;
            case 22: put(r, p.generate(f, x)); break;
            case 23: put(r, a.public_key()); break;
            case 24: put(r, p.public_key()); break;
            default: put(r, b.eval(arr<256>(xb))); break;
            }
        });
        if (!R.ok()) CHECK(out == "previous", "a failed operation changed its output");
        CHECK(eq(rsa_pub(K.k, xb), a.eval(x)) && eq(rsa_pub(K.k, xb), b.eval(x)), "evaluation is wrong after an allocation failure");
        CHECK(eq(rsa_priv(K.k, xb), b.invert(x)) && eq(rsa_priv(K.k, xb, 2), b.invert_mult(x, 2)), "inversion is wrong after an allocation failure");
        CHECK(eq(rsa_pub(K.k, xb, sz), p.eval(x, uint8_t(sz))), "the pool is wrong after an allocation failure");
    }});
    o.push_back({"big integers", 3, [](Run& R) {
        Mpi X, Y, A, Bn, N;
        load(A, R.t.bytes(R.t.length(0, 120)), R.t.pick(3) == 0);
        load(Bn, R.t.bytes(R.t.length(0, 40)), false);
        Bytes n = R.t.bytes(1 + R.t.length(0, 60));
        n.back() |= 1;
        load(N, n, false);
        Bytes a0 = dump(A), b0 = dump(Bn), n0 = dump(N);
        R.window([&](Bytes& r) { r = mpi_op(R.t, X, Y, A, Bn, N); });
        CHECK(dump(A) == a0 && dump(Bn) == b0 && dump(N) == n0, "an operand changed");
    }});
    o.push_back({"RSA import and export (C)", 2, [](Run& R) {
        const TestKey& K = test_key(R.t.pick(10));
        unsigned how = R.t.pick(5);
        mbedtls_rsa_context c;
        mbedtls_rsa_init(&c, 0, 0);
        struct Free { mbedtls_rsa_context* c; ~Free() { mbedtls_rsa_free(c); } } f{&c};
        std::string in = how == 0 ? K.pk : how == 1 ? S(ref_private_der(K.k)) : K.sk;
        if (how >= 3 && mbedtls_rsa_parse_key(&c, reinterpret_cast<const uint8_t*>(in.c_str()), in.size() + 1, nullptr, 0)) fail("setup");
        Bytes buf(5000);
        R.window([&](Bytes&) {
            if (how == 0) must(mbedtls_rsa_parse_public_key(&c, reinterpret_cast<const uint8_t*>(in.c_str()), in.size() + 1));
            else if (how <= 2) must(mbedtls_rsa_parse_key(&c, reinterpret_cast<const uint8_t*>(in.c_str()), in.size() + (how == 2), nullptr, 0));
            else if (how == 3) must(mbedtls_rsa_write_key_pem(&c, buf.data(), buf.size()));
            else must(mbedtls_rsa_write_pubkey_pem(&c, buf.data(), buf.size()));
        });
        if (R.ok()) {
            R.result = dump(&c.N);
            for (mbedtls_mpi* m : {&c.E, &c.D, &c.P, &c.Q, &c.DP, &c.DQ, &c.QP}) { Bytes d = dump(m); R.result.insert(R.result.end(), d.begin(), d.end()); }
            if (how >= 3) R.result.insert(R.result.end(), buf.begin(), buf.end());
        }
    }});
    o.push_back({"RSA private operation (C)", 1, [](Run& R) {
        const TestKey& K = test_key(R.t.pick(10));
        mbedtls_rsa_context c;
        mbedtls_rsa_init(&c, 0, 0);
        struct Free { mbedtls_rsa_context* c; ~Free() { mbedtls_rsa_free(c); } } f{&c};
        if (mbedtls_rsa_parse_key(&c, reinterpret_cast<const uint8_t*>(K.sk.c_str()), K.sk.size() + 1, nullptr, 0)) fail("setup");
        std::string kind;
        Bytes x = gen_element(R.t, K.k, false, kind), y(256);
        bool priv = R.t.pick(2);
        R.window([&](Bytes& r) { must(priv ? mbedtls_rsa_private(&c, mbedTLS_rng_wrap, nullptr, x.data(), y.data()) : mbedtls_rsa_public(&c, x.data(), y.data())); r = y; });
        if (R.ok()) CHECK(y == (priv ? rsa_priv(K.k, x) : rsa_pub(K.k, x)), "wrong RSA result");
        must(mbedtls_rsa_private(&c, mbedTLS_rng_wrap, nullptr, x.data(), y.data()));
        CHECK(y == rsa_priv(K.k, x), "wrong RSA result after an allocation failure");
    }});
    o.push_back({"RSA key generation (C)", 1, [](Run& R) {
        mbedtls_rsa_context c;
        mbedtls_rsa_init(&c, 0, 0);
        struct Free { mbedtls_rsa_context* c; ~Free() { mbedtls_rsa_free(c); } } f{&c};
        R.window([&](Bytes&) { must(mbedtls_rsa_gen_key(&c, mbedTLS_rng_wrap, nullptr, 192, 65537)); });
        if (R.ok()) { R.result = dump(&c.N); Bytes d = dump(&c.D); R.result.insert(R.result.end(), d.begin(), d.end()); CHECK(mbedtls_rsa_check_privkey(&c) == 0, "generated key is inconsistent"); }
    }});
    o.push_back({"PEM reading (C)", 1, [](Run& R) {
        Bytes d = R.t.bytes(R.t.len(1, 300, 9000));
        std::string s = ref_pem("X Y", d, 64, "\n");
        mbedtls_pem_context pem;
        mbedtls_pem_init(&pem);
        struct Free { mbedtls_pem_context* c; ~Free() { mbedtls_pem_free(c); } } f{&pem};
        size_t used = 0;
        R.window([&](Bytes&) { must(mbedtls_pem_read_buffer(&pem, "-----BEGIN X Y-----", "-----END X Y-----", reinterpret_cast<const uint8_t*>(s.c_str()), nullptr, 0, &used)); });
        if (R.ok()) { R.result.assign(pem.buf, pem.buf + pem.buflen); CHECK(R.result == d, "PEM content"); }
    }});
    return o;
}

void pbt::prop_case(Tape& t, Ctx& c)
{
    static std::vector<Op> O = ops();
    static std::vector<unsigned> pickable;
    if (pickable.empty()) for (unsigned i = 0; i < O.size(); i++) for (unsigned k = 0; k < O[i].weight; k++) pickable.push_back(i);
    const Op& op = O[pickable[t.pick(unsigned(pickable.size()))]];
    bool mprot = false;
#ifdef ENABLE_MEMORY_LOCK
    mprot = t.pick(6) == 0;
#endif
    uint64_t seed = t.raw(4);
    uint64_t where = t.u64();
    auto run = [&](long fault, bool warm = false) {
        Run* R = new Run(t, seed, fault, mprot);
        std::unique_ptr<Run> own(R);
        size_t secure0 = track::live_count();
        rng_seed(seed + 2);
        heap::watch(true);
        op.body(*R);
        heap::watch(false);
        // what the run keeps for itself
        size_t mine = (R->result.capacity() ? 1 : 0) + (R->later.capacity() ? 1 : 0);
        size_t out = heap::outstanding();
        CHECK(track::errors().empty(), op.name, ": ", track::errors());
        CHECK(track::live_count() == secure0, op.name, ": ", track::live_count() - secure0, " secure allocation(s) leaked", fault < 0 ? std::string() : " after a failure of request " + std::to_string(fault));
        CHECK(warm || out <= mine, op.name, ": ", out - mine, " heap block(s) (", heap::outstanding_bytes(), " bytes in all) leaked", fault < 0 ? std::string() : " after a failure of request " + std::to_string(fault));
        return own;
    };
    run(-1, true); // fills one-time caches
    std::unique_ptr<Run> base = run(-1);
    uint64_t n = base->allocs;
    c.label(std::string(op.name) + (mprot ? " (protection)" : ""));
    if (n == 0) { c.note(op.name, ": nothing to fail"); return; }
    // all points when few, otherwise a sample
    std::vector<uint64_t> pts;
    unsigned limit = 12;
    if (n <= limit) for (uint64_t i = 0; i < n; i++) pts.push_back(i);
    else {
        uint64_t s = where;
        pts.push_back(0);
        pts.push_back(n - 1);
        for (unsigned i = 2; i < limit; i++) { uint64_t r = splitmix(s); pts.push_back(i < 6 ? r % std::min<uint64_t>(n, 40) : r % n); }
    }
    unsigned fired = 0, failed = 0;
    for (uint64_t p : pts) {
        std::unique_ptr<Run> r = run(long(p));
        if (!r->fired) continue;
        fired++;
        if (r->outcome != OK) failed++;
        if (r->outcome == OK) {
            CHECK(base->outcome == OK, op.name, ": succeeds when request ", p, " fails, but not otherwise");
            CHECK(r->result == base->result, op.name, ": a different result when request ", p, " of ", n, " fails");
        }
        CHECK(r->later == base->later, op.name, ": the objects answer differently after a failure of request ", p, " of ", n);
    }
    c.note(op.name, ": ", n, mprot ? " protection changes, " : " allocations, ", fired, " failures injected, ", failed, " reported");
    c.nontrivial(fired > 0);
}
