#include "tdpkit.hpp"
using namespace pbt;
const char* pbt::PROP_ID = "C17";
const char* pbt::PROP_RULE = "a case offering a string that is not an unmodified valid 2048-bit key and checking that it is refused or gives a consistent object";
size_t pbt::prop_tape_len() { return 160; }
void pbt::prop_setup() { lib_init_tape_rng(); }

static void ins(Bytes& d, size_t at, const Bytes& x) { d.insert(d.begin() + long(at), x.begin(), x.end()); }
// offsets of the TLV headers in a DER blob
static void tlvs(const Bytes& d, size_t a, size_t b, std::vector<std::array<size_t, 3>>& out, int depth = 0)
{
    while (a + 2 <= b && depth < 6) {
        size_t h = a, len = d[a + 1], p = a + 2;
        if (len & 0x80) {
            unsigned n = len & 0x7f;
            if (n == 0 || n > 4 || p + n > b) return;
            len = 0;
            for (unsigned i = 0; i < n; i++) len = len << 8 | d[p++];
        }
        if (len > b - p) return;
        out.push_back({{h, p, len}});
        if (d[h] == 0x30) tlvs(d, p, p + len, out, depth + 1);
        else if (d[h] == 0x04) tlvs(d, p, p + len, out, depth + 1);
        else if (d[h] == 0x03 && len > 1) tlvs(d, p + 1, p + len, out, depth + 1);
        a = p + len;
    }
}
static Bytes mutate_der(Tape& t, Bytes d, std::string& what)
{
    std::vector<std::array<size_t, 3>> v;
    tlvs(d, 0, d.size(), v);
    unsigned n = 1 + t.pick(3);
    for (unsigned i = 0; i < n && !d.empty(); i++) {
        const std::array<size_t, 3> h = v.empty() ? std::array<size_t, 3>{{0, 0, 0}} : v[t.pick(unsigned(v.size()))];
        size_t at = std::min(h[0], d.size() - 1);
        switch (t.pick(11)) {
        case 0: d[at] = t.u8(); what += " tag"; break;
        case 1: if (at + 1 < d.size()) d[at + 1] = t.pick(2) ? uint8_t(0x80 | t.pick(10)) : t.u8(); what += " length"; break;
        case 2: if (at + 2 < d.size()) d[at + 2] ^= uint8_t(1 << t.pick(8)); what += " length2"; break;
        case 3: d[t.range(0, d.size() - 1)] ^= uint8_t(1 << t.pick(8)); what += " bit"; break;
        case 4: d.resize(t.range(0, d.size())); what += " cut"; break;
        case 5: ins(d, std::min(h[0], d.size()), t.bytes(1 + t.pick(8))); what += " insert"; break;
        case 6: { size_t e = std::min(d.size(), h[1] + h[2]); if (h[0] < e) d.erase(d.begin() + long(h[0]), d.begin() + long(e)); what += " drop element"; break; }
        case 7: { size_t e = std::min(d.size(), h[1] + h[2]); if (h[0] < e) { Bytes x(d.begin() + long(h[0]), d.begin() + long(e)); ins(d, e, x); } what += " repeat element"; break; }
        case 8: ins(d, d.size(), t.bytes(1 + t.pick(20))); what += " trailing"; break;
        case 9: if (at + 1 < d.size()) { static const char* const L[] = {"84ffffffff", "8480000000", "847fffffff", "88ffffffffffffffff", "80", "8100", "830fffff", "82ffff", "83ffffff"}; Bytes x = unhex(L[t.pick(9)]); d.erase(d.begin() + long(at) + 1); ins(d, at + 1, x); } what += " huge length"; break;
        default: if (h[1] < d.size()) { size_t e = std::min(d.size(), h[1] + h[2]); for (size_t q = h[1]; q < e; q++) d[q] = 0; } what += " zero value"; break;
        }
    }
    return d;
}
static std::string mutate_text(Tape& t, std::string s, std::string& what)
{
    unsigned n = 1 + t.pick(3);
    for (unsigned i = 0; i < n && !s.empty(); i++) {
        size_t p = t.range(0, s.size() - 1);
        switch (t.pick(10)) {
        case 0: s[p] = char(t.u8()); what += " byte"; break;
        case 1: s[p] = char(s[p] ^ (1 << t.pick(8))); what += " bit"; break;
        case 2: s.resize(p); what += " cut"; break;
        case 3: s.erase(0, p); what += " cut head"; break;
        case 4: s.erase(p, 1 + t.pick(5)); what += " delete"; break;
        case 5: s.insert(p, t.str(1 + t.pick(5))); what += " insert"; break;
        case 6: s.insert(p, t.pick(2) ? "\n" : t.pick(2) ? "\r\n" : t.pick(2) ? " " : "="); what += " whitespace"; break;
        case 7: { size_t q = s.find("-----", t.pick(2) ? 30 : 0); if (q != std::string::npos) s.insert(q, t.pick(2) ? s.substr(0, t.range(0, s.size() - 1)) : "Proc-Type: 4,ENCRYPTED\nDEK-Info: AES-128-CBC,00\n\n"); what += " header"; break; }
        case 8: s[p] = 0; what += " NUL"; break;
        default: { std::string c = s; s += c; what += " doubled"; break; }
        }
    }
    return s;
}
// pkcs8 form of a private key
static Bytes pkcs8(const Bytes& pkcs1)
{
    Bytes body = unhex("020100"), alg = der_tlv(0x30, unhex("06092a864886f70d0101010500")), key = der_tlv(4, pkcs1);
    ins(body, body.size(), alg);
    ins(body, body.size(), key);
    return der_tlv(0x30, body);
}
void pbt::prop_case(Tape& t, Ctx& c)
{
    rng_seed(t.raw(4));
    bool priv = t.pick(3) != 0;
    const TestKey& K = test_key(t.pick(10));
    RsaKey k;
    mpz_set(k.n, K.k.n); mpz_set(k.e, K.k.e); mpz_set(k.d, K.k.d); mpz_set(k.p, K.k.p); mpz_set(k.q, K.k.q);
    mpz_set(k.dp, K.k.dp); mpz_set(k.dq, K.k.dq); mpz_set(k.qinv, K.k.qinv);
    std::string in, what;
    enum { ANY, ACCEPT, REFUSE } expect = ANY;
    bool same = false; // if accepted, it must be key K
    unsigned mode = t.pick(11);
    const char* PRIV = "RSA PRIVATE KEY";
    auto encode = [&](const Bytes& d) { return ref_pem(priv ? PRIV : "PUBLIC KEY", d, 64, "\n"); };
    if (mode == 0) { // valid encodings
        same = true;
        switch (t.pick(6)) {
        case 0: in = priv ? K.sk : K.pk; what = "valid"; expect = ACCEPT; break;
        case 1: in = ref_pem(priv ? PRIV : "PUBLIC KEY", priv ? ref_private_der(k) : ref_spki_der(k), 64, "\r\n"); what = "CRLF lines"; expect = ACCEPT; break;
        case 2: in = priv ? ref_pem("PRIVATE KEY", pkcs8(ref_private_der(k)), 64, "\n") : K.pk; what = "PKCS#8"; expect = ACCEPT; break;
        case 3: in = ref_pem(priv ? PRIV : "PUBLIC KEY", priv ? ref_private_der(k) : ref_spki_der(k), 4 * (1 + t.pick(19)), "\n"); what = "short lines"; break;
        case 4: { Bytes d = priv ? (t.pick(2) ? ref_private_der(k) : pkcs8(ref_private_der(k))) : ref_spki_der(k); in = S(d); what = "DER"; break; }
        default: in = "text before\n" + (priv ? K.sk : K.pk) + "text after\n"; what = "surrounded by text"; break;
        }
    } else if (mode == 1) { // other sizes
        const std::string& sk = OTHER_SIZE_SK[t.pick(unsigned(OTHER_SIZE_SK.size()))];
        in = priv ? sk : ref_public_pem(sk);
        RsaKey o;
        ref_parse_private(sk, o);
        what = "size " + std::to_string(mpz_sizeinbase(o.n, 2));
        // 2041 to 2048 bits are 256-byte elements
        expect = mpz_sizeinbase(o.n, 2) > 2040 && mpz_sizeinbase(o.n, 2) <= 2048 ? ANY : REFUSE;
    } else if (mode <= 4) { // numbers that do not belong together
        RsaKey o;
        const RsaKey& K2 = test_key(1 + t.pick(9)).k;
        mpz_t* f[] = {&k.n, &k.e, &k.d, &k.p, &k.q, &k.dp, &k.dq, &k.qinv};
        static const char* const NAMES[] = {"n", "e", "d", "p", "q", "dp", "dq", "qinv"};
        unsigned i = priv ? t.pick(8) : t.pick(2);
        mpz_t old;
        mpz_init_set(old, *f[i]);
        switch (t.pick(9)) {
        case 0: mpz_add_ui(*f[i], *f[i], 1 + t.pick(4)); what = "plus small"; break;
        case 1: mpz_sub_ui(*f[i], *f[i], 1 + t.pick(2)); what = "minus small"; break;
        case 2: mpz_combit(*f[i], t.range(0, mpz_sizeinbase(*f[i], 2) - 1)); what = "bit of"; break;
        case 3: mpz_set_ui(*f[i], t.pick(4)); what = "tiny"; break;
        case 4: { const mpz_t* g[] = {&K2.n, &K2.e, &K2.d, &K2.p, &K2.q, &K2.dp, &K2.dq, &K2.qinv}; mpz_set(*f[i], *g[i]); what = "foreign"; break; }
        case 5: if (priv) { i = 3; mpz_set(old, k.p); mpz_swap(k.p, k.q); what = "swapped p and q"; } else { mpz_mul_2exp(*f[i], *f[i], 1); what = "doubled"; } break;
        case 6: if (priv) { i = 5; mpz_set(old, k.dp); mpz_swap(k.dp, k.dq); what = "swapped dp and dq"; } else { mpz_setbit(*f[i], mpz_sizeinbase(*f[i], 2) + t.pick(9)); what = "longer"; } break;
        case 7: { Bytes r = t.bytes((mpz_sizeinbase(*f[i], 2) + 7) / 8); bytes_mpz(*f[i], r); what = "random"; break; }
        default: { mpz_t l, a; mpz_inits(l, a, nullptr); mpz_sub_ui(l, k.p, 1); mpz_sub_ui(a, k.q, 1); if (t.pick(2)) { i = 2; mpz_set(old, k.d); mpz_lcm(l, l, a); mpz_add(k.d, k.d, l); } else { i = 5; mpz_set(old, k.dp); mpz_add(k.dp, k.dp, l); } mpz_clears(l, a, nullptr); what = "equivalent but unreduced"; break; }
        }
        if (mpz_sgn(*f[i]) < 0) mpz_neg(*f[i], *f[i]);
        bool changed = mpz_cmp(old, *f[i]) != 0;
        mpz_clear(old);
        what = what + " " + NAMES[i];
        in = encode(priv ? ref_private_der(k) : ref_spki_der(k));
        if (what.compare(0, 10, "equivalent") == 0) expect = ANY;
        else if (!changed) { expect = ANY; }
        else if (priv) expect = REFUSE;
        else { // a public key: only malformed numbers can be told
            bool bad = mpz_even_p(k.n) || mpz_even_p(k.e) || mpz_cmp_ui(k.e, 1) <= 0 || mpz_cmp(k.e, k.n) >= 0 || mpz_sizeinbase(k.n, 2) > 2048 || mpz_sizeinbase(k.n, 2) <= 2040;
            expect = bad ? REFUSE : ANY;
        }
    } else if (mode == 10) { // numbers that belong together, on factors that are not primes
        priv = true;
        mpz_t a, b;
        mpz_inits(a, b, nullptr);
        auto composite = [&](mpz_t f) {
            unsigned how = t.pick(6);
            if (how >= 3) { // chosen to pass every round of a primality test with probability 1/4
                static const struct { unsigned bits; const char* hex; } Q[] = {
#include "pseudoprimes.inc"
                };
                std::vector<const char*> q;
                for (auto& x : Q) if (x.bits == 1024) q.push_back(x.hex);
                mpz_set_str(f, q[t.pick(unsigned(q.size()))], 16);
            } else if (how == 0) { bytes_mpz(f, t.bytes(128)); mpz_setbit(f, 1023); mpz_setbit(f, 1022); mpz_setbit(f, 0); }
            else { // a product of two primes
                unsigned bits = how == 1 ? 512 : unsigned(t.range(2, 500));
                bytes_mpz(a, t.bytes(128)); mpz_fdiv_r_2exp(a, a, bits); mpz_setbit(a, bits - 1); mpz_nextprime(a, a);
                bytes_mpz(b, t.bytes(128)); mpz_fdiv_r_2exp(b, b, 1024 - bits); mpz_setbit(b, 1023 - bits); mpz_setbit(b, 1022 - bits); mpz_nextprime(b, b);
                mpz_mul(f, a, b);
            }
            for (;;) { // the exponent stays invertible
                mpz_sub_ui(a, f, 1);
                mpz_gcd(a, a, k.e);
                if (mpz_cmp_ui(a, 1) == 0 && !mpz_probab_prime_p(f, 20)) break;
                mpz_add_ui(f, f, 2);
            }
        };
        switch (t.pick(4)) {
        case 0: composite(k.p); what = "composite p"; break;
        case 1: composite(k.q); what = "composite q"; break;
        case 2: composite(k.p); composite(k.q); what = "composite p and q"; break;
        default: mpz_set(k.q, k.p); what = "equal factors"; break;
        }
        mpz_mul(k.n, k.p, k.q);
        mpz_sub_ui(a, k.p, 1); mpz_sub_ui(b, k.q, 1);
        if (t.pick(2)) mpz_lcm(k.d, a, b); else mpz_mul(k.d, a, b);
        bool ok = mpz_invert(k.d, k.e, k.d) != 0;
        mpz_mod(k.dp, k.d, a); mpz_mod(k.dq, k.d, b);
        ok = mpz_invert(k.qinv, k.q, k.p) != 0 && ok;
        mpz_clears(a, b, nullptr);
        in = encode(ref_private_der(k));
        expect = REFUSE;
        c.label(ok ? "consistent numbers, factors not prime" : "factors not prime");
    } else if (mode <= 6) { // mutated DER
        Bytes d = priv ? (t.pick(3) ? ref_private_der(k) : pkcs8(ref_private_der(k))) : ref_spki_der(k);
        what = "DER:";
        bool p8 = priv && d[4 + 3 + 0] == 0x30;
        d = mutate_der(t, d, what);
        in = t.pick(5) == 0 ? S(d) : p8 ? ref_pem("PRIVATE KEY", d, 64, "\n") : encode(d);
    } else if (mode <= 8) {
        in = priv ? (t.pick(4) ? K.sk : ref_pem("PRIVATE KEY", pkcs8(ref_private_der(k)), 64, "\n")) : K.pk;
        what = "text:";
        in = mutate_text(t, in, what);
    } else {
        switch (t.pick(5)) {
        case 0: in = t.str(t.len(0, 3000, 70000)); what = "arbitrary"; break;
        case 1: in = encode(t.bytes(t.len(0, 1500, 70000))); what = "PEM of arbitrary bytes"; break;
        case 2: in = priv ? K.pk : K.sk; what = "the other kind of key"; expect = priv ? REFUSE : ANY; break;
        case 3: in = std::string("-----BEGIN ") + (priv ? "RSA PRIVATE" : "PUBLIC") + " KEY-----" + (t.pick(2) ? "\n" : "") + t.str(t.pick(40)) + (t.pick(2) ? "-----END RSA PRIVATE KEY-----" : "-----END PUBLIC KEY-----"); what = "header and noise"; break;
        default: { Bytes d; unsigned deep = t.pick(200); for (unsigned i = 0; i < deep; i++) { d.push_back(0x30); d.push_back(t.pick(3) ? 0x80 : 0x7f); } in = t.pick(2) ? S(d) : encode(d); what = "nested sequences"; }
        }
    }
    c.note(priv ? "private, " : "public, ", what, ", ", in.size(), " bytes");
    std::string kind;
    std::unique_ptr<TdpInverse> inv;
    std::unique_ptr<Tdp> pub;
    std::unique_ptr<TdpMultPool> pool;
    Outcome o = attempt([&] { if (priv) inv.reset(new TdpInverse(in)); else pub.reset(new Tdp(in)); });
    CHECK(o != NON_STD && o != BAD_ALLOC, "import raised ", outcome_name(o));
    CHECK(!(expect == ACCEPT && o != OK), "a valid key was refused (", what, "): ", outcome_name(o));
    CHECK(!(expect == REFUSE && o == OK), "a key was accepted (", what, ")");
    if (!priv) {
        Outcome op = attempt([&] { pool.reset(new TdpMultPool(in, 1)); });
        CHECK((op == OK) == (o == OK), "the pool ", op == OK ? "accepts" : "refuses", " a key that the public object ", o == OK ? "accepts" : "refuses");
    }
    if (o == OK) {
        RsaKey r;
        std::string pem = priv ? inv->private_key() : pub->public_key();
        CHECK(priv ? ref_parse_private(pem, r) : ref_parse_public(pem, r), "an imported key exports something that does not parse (", what, ")");
        CHECK(mpz_sizeinbase(r.n, 2) > 2040 && mpz_sizeinbase(r.n, 2) <= 2048, "accepted a modulus of ", mpz_sizeinbase(r.n, 2), " bits");
        if (same) CHECK(mpz_cmp(r.n, K.k.n) == 0 && mpz_cmp(r.e, K.k.e) == 0 && (!priv || mpz_cmp(r.d, K.k.d) == 0), "imported as another key (", what, ")");
        Bytes x = gen_element(t, r, false, kind);
        if (priv) {
            std::string y = inv->invert(S(x)), z = inv->eval(S(x));
            CHECK(y.size() == 256 && z.size() == 256, "sizes");
            CHECK(eq(x, inv->eval(y)) && eq(x, inv->invert(z)), "an accepted private key does not invert (", what, ")");
            CHECK(inv->invert(y) == inv->invert_mult(S(x), 2), "an accepted private key is inconsistent at order 2 (", what, ")");
            Tdp p2(inv->public_key());
            CHECK(p2.eval(S(x)) == z, "public export of an accepted private key differs (", what, ")");
        } else {
            CHECK(eq(rsa_pub(r, x), pub->eval(S(x))), "an accepted public key does not evaluate its own numbers (", what, ")");
            CHECK(eq(rsa_pub(r, x), pool->eval(S(x), 1)), "a pool on an accepted public key differs (", what, ")");
        }
    }
    c.label(std::string(priv ? "private " : "public ") + what.substr(0, what.find(':')) + (o == OK ? " accepted" : " refused"));
    if (mode != 0 || t.pick(1)) c.nontrivial();
    if (t.pick(8) == 0) { // genuine imports still work
        TdpInverse g(K.sk);
        Bytes x = gen_element(t, K.k, false, kind);
        CHECK(eq(rsa_pub(K.k, x), g.eval(S(x))), "a genuine import after a refusal misbehaves");
    }
}
