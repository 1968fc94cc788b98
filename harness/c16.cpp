#include "tdpkit.hpp"
using namespace pbt;
const char* pbt::PROP_ID = "C16";
const char* pbt::PROP_RULE = "a history with at least one copy, assignment, move or export/import followed by a comparison with the model of the key";
size_t pbt::prop_tape_len() { return 260; }
void pbt::prop_setup() { lib_init_tape_rng(); }

struct Slot { // one of the three, and the key it must be
    std::unique_ptr<Tdp> pub;
    std::unique_ptr<TdpInverse> inv;
    std::unique_ptr<TdpMultPool> pool;
    unsigned psize = 0;
    const TestKey* k = nullptr;
    const char* name() const { return pub ? "Tdp" : inv ? "TdpInverse" : "TdpMultPool"; }
    std::string public_key() const { return pub ? pub->public_key() : inv ? inv->public_key() : pool->public_key(); }
    Bytes eval(const Bytes& x) const { return B(pub ? pub->eval(S(x)) : inv ? inv->eval(S(x)) : pool->eval(S(x))); }
    Bytes sample(bool a) const { return a ? B(pub ? pub->sample_array() : inv ? inv->sample_array() : pool->sample_array()) : B(pub ? pub->sample() : inv ? inv->sample() : pool->sample()); }
    template <class T> Bytes gen(const T& o, unsigned how, const Bytes& key, const std::string& seed) const
    {
        if (how == 0) return B(o.generate(mk<32>(key), seed));
        if (how == 1) return B(o.generate_array(mk<32>(key), seed));
        Prf<Tdp::kRSAPrfSize> p(mk<32>(key));
        return how == 2 ? B(o.generate(p, seed)) : B(o.generate_array(p, seed));
    }
    Bytes generate(unsigned how, const Bytes& key, const std::string& seed) const
    {
        return pub ? gen(*pub, how, key, seed) : inv ? gen(*inv, how, key, seed) : gen(*pool, how, key, seed);
    }
};
static void same_public(const Slot& s)
{
    RsaKey r;
    std::string p = s.public_key();
    CHECK(ref_parse_public(p, r), s.name(), ": the exported public key is not a SubjectPublicKeyInfo PEM: ", p);
    CHECK(mpz_cmp(r.n, s.k->k.n) == 0 && mpz_cmp(r.e, s.k->k.e) == 0, s.name(), ": another public key is exported");
}
static void same_private(const Slot& s)
{
    if (!s.inv) return;
    RsaKey r;
    const RsaKey& k = s.k->k;
    CHECK(ref_parse_private(s.inv->private_key(), r), "the exported private key does not parse");
    CHECK(mpz_cmp(r.n, k.n) == 0 && mpz_cmp(r.e, k.e) == 0 && mpz_cmp(r.d, k.d) == 0 && mpz_cmp(r.p, k.p) == 0 && mpz_cmp(r.q, k.q) == 0
              && mpz_cmp(r.dp, k.dp) == 0 && mpz_cmp(r.dq, k.dq) == 0 && mpz_cmp(r.qinv, k.qinv) == 0, "the exported private key differs");
}
static void same_function(const Slot& s, Tape& t)
{
    std::string kind;
    Bytes x = gen_element(t, s.k->k, false, kind);
    CHECK(s.eval(x) == rsa_pub(s.k->k, x), s.name(), ": evaluates another function");
    if (s.inv) CHECK(eq(rsa_priv(s.k->k, x), s.inv->invert(S(x))), "inverts another function");
    if (s.pool) { unsigned k = 1 + t.pick(s.psize); CHECK(eq(rsa_pub(s.k->k, x, k), s.pool->eval(S(x), uint8_t(k))) && s.pool->maximum_order() == s.psize, "the pool evaluates another function at order ", k); }
}
static void long_case(Tape& t, Ctx& c)
{
    Stream g(t);
    rng_seed(t.raw(4));
    const TestKey& K = test_key(unsigned(g.below(10)));
    Tdp pub(K.pk);
    std::unique_ptr<TdpInverse> inv(import_private(K.sk));
    Bytes key = g.bytes(32);
    Prf<Tdp::kRSAPrfSize> prf(mk<32>(key));
    mpz_t v;
    mpz_init(v);
    std::string pk = pub.public_key(), sk = inv->private_key();
    for (unsigned i = 0; i < LONG_OPS; i++) {
        std::string seed = std::to_string(i);
        bytes_mpz(v, ref::prf(key, B(seed), Tdp::kRSAPrfSize));
        mpz_mod(v, v, K.k.n);
        CHECK(eq(mpz_bytes(v, 256), i % 2 ? pub.generate(prf, seed) : inv->generate(prf, seed)), "generated element ", i, " of one object");
        bytes_mpz(v, B(pub.sample()));
        CHECK(mpz_cmp(v, K.k.n) < 0, "sample ", i, " of one object is not below the modulus");
        if (i % 64 == 0) CHECK(pub.public_key() == pk && inv->private_key() == sk, "export ", i, " of one object differs");
    }
    for (unsigned i = 0; i < 300; i++) { // copies of copies
        Tdp nx(pub);
        pub = nx;
        std::string s = inv->private_key();
        inv.reset(new TdpInverse(s));
    }
    mpz_clear(v);
    CHECK(pub.public_key() == pk && inv->private_key() == sk, "the key after 300 generations of copies");
    c.note("long history of one key");
    c.label("more than 65536 operations");
    c.nontrivial();
}
void pbt::prop_case(Tape& t, Ctx& c)
{
    if (t.longrun()) return long_case(t, c);
    rng_seed(t.raw(4));
    rng_bias(t.pick(6) == 0 ? 1 + t.pick(2) : 0);
    std::vector<Slot> v;
    v.reserve(64); // slots are referred to while others are added
    std::vector<std::unique_ptr<TestKey>> fresh;
    unsigned base = t.pick(10);
    unsigned nk = 1 + t.pick(2);
    for (unsigned i = 0; i < nk; i++) {
        Slot s;
        const TestKey& K = test_key(base + i);
        s.k = &K;
        switch (t.pick(3)) {
        case 0: s.pub.reset(new Tdp(K.pk)); break;
        case 1: s.inv.reset(import_private(K.sk)); break;
        default: s.psize = 1 + t.pick(4); s.pool.reset(new TdpMultPool(K.pk, uint8_t(s.psize))); break;
        }
        v.push_back(std::move(s));
    }
    if (t.pick(40) == 0) { // a generated key
        rng_bias(0);
        Slot s;
        s.inv.reset(new TdpInverse());
        std::unique_ptr<TestKey> n(new TestKey);
        n->sk = s.inv->private_key();
        CHECK(ref_parse_private(n->sk, n->k), "a generated key does not parse");
        const RsaKey& k = n->k;
        CHECK(mpz_sizeinbase(k.n, 2) == 2048, "a generated modulus has ", mpz_sizeinbase(k.n, 2), " bits");
        CHECK(mpz_cmp_ui(k.e, 65537) == 0, "a generated exponent is not 65537");
        mpz_t a, b, l;
        mpz_inits(a, b, l, nullptr);
        mpz_mul(a, k.p, k.q);
        bool ok = mpz_cmp(a, k.n) == 0 && mpz_probab_prime_p(k.p, 20) && mpz_probab_prime_p(k.q, 20) && mpz_cmp(k.p, k.q) != 0;
        mpz_sub_ui(a, k.p, 1);
        mpz_sub_ui(b, k.q, 1);
        mpz_lcm(l, a, b);
        mpz_mul(a, k.d, k.e);
        mpz_mod(a, a, l);
        ok = ok && mpz_cmp_ui(a, 1) == 0;
        mpz_clears(a, b, l, nullptr);
        CHECK(ok, "a generated key is not a consistent RSA key");
        n->pk = ref_public_pem(n->sk);
        s.k = n.get();
        fresh.push_back(std::move(n));
        same_function(s, t);
        v.push_back(std::move(s));
        c.label("generated key");
    }
    unsigned steps = 2 + t.pick(6);
    for (unsigned i = 0; i < steps; i++) {
        size_t a = t.pick(unsigned(v.size())), b = t.pick(unsigned(v.size()));
        Slot& s = v[a];
        std::string what;
        switch (t.pick(10)) {
        case 0: { Slot n; n.k = s.k; n.pub.reset(new Tdp(s.public_key())); v.push_back(std::move(n)); what = "import public"; break; }
        case 1: if (s.inv) { Slot n; n.k = s.k; n.inv.reset(import_private(s.inv->private_key())); v.push_back(std::move(n)); what = "import private"; } break;
        case 2: { Slot n; n.k = s.k; n.psize = 1 + t.pick(5); n.pool.reset(new TdpMultPool(s.public_key(), uint8_t(n.psize))); v.push_back(std::move(n)); what = "import into a pool"; break; }
        case 3: case 4: { // copies
            Slot n;
            n.k = s.k;
            if (s.pub) n.pub.reset(new Tdp(*s.pub));
            else if (s.inv) { n.inv.reset(new TdpInverse(std::move(*s.inv))); s.inv.reset(); s.inv.reset(import_private(n.inv->private_key())); }
            else { n.psize = s.psize; n.pool.reset(new TdpMultPool(*s.pool)); }
            v.push_back(std::move(n));
            what = s.inv ? "move" : "copy";
            break; }
        case 5: case 6: { // assignment, possibly from itself or from another key
            Slot& d = v[b];
            if (s.pub && d.pub) { *d.pub = *s.pub; d.k = s.k; what = a == b ? "self assignment" : "assignment"; }
            else if (s.pool && d.pool) { *d.pool = *s.pool; d.k = s.k; d.psize = s.psize; what = a == b ? "pool self assignment" : "pool assignment"; }
            break; }
        case 7: { // generation
            Bytes key = t.bytes(32);
            std::string seed = t.str(t.len(0, 200, 70000));
            mpz_t g;
            mpz_init(g);
            bytes_mpz(g, ref::prf(key, B(seed), 264));
            mpz_mod(g, g, s.k->k.n);
            Bytes want = mpz_bytes(g, 256);
            mpz_clear(g);
            for (unsigned how = 0; how < 4; how++) CHECK(s.generate(how, key, seed) == want, s.name(), ": generate overload ", how, " does not give the PRF output modulo N, seed of ", seed.size(), " bytes");
            what = "generate";
            break; }
        case 8: { // samples
            Bytes x = s.sample(t.pick(2)), y = s.sample(t.pick(2));
            CHECK(x.size() == 256 && y.size() == 256 && below_n(s.k->k, x) && below_n(s.k->k, y), s.name(), ": a sample is not a 256-byte value below the modulus");
            what = "sample";
            break; }
        default: // drop an object; the others live on
            if (v.size() > 1) { v.erase(v.begin() + long(a)); what = "destroy"; }
        }
        if (what.empty()) continue;
        c.label(what);
        c.note(what);
        if (what != "sample" && what != "generate") c.nontrivial();
        const Slot& q = t.pick(2) ? v.back() : v[t.pick(unsigned(v.size()))];
        same_public(q);
        if (t.pick(2)) same_private(q);
        if (t.pick(3)) same_function(q, t);
    }
    for (auto& s : v) { same_public(s); same_private(s); }
    same_function(v.back(), t);
    same_function(v.front(), t);
    c.note("key ", base, ", ", v.size(), " objects at the end");
}
