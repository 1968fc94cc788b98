// Puncturable encryption, over the stand-in for RELIC (harness/relic): discrete logarithms
// are in the clear there, so the oracle computes every element a key share or a ciphertext
// is made of from the master key with GMP.
#include "lib.hpp"
#include "ppke/GMPpke.hpp"
#include <sse/crypto/puncturable_enc.hpp>
#include <gmpxx.h>
#include <iomanip>
#include <thread>
using namespace pbt;
using namespace relicxx;
using sse::crypto::Gmppke;
using sse::crypto::GmppkePrivateKey;
using sse::crypto::GmppkePrivateKeyShare;
using sse::crypto::GmppkePublicKey;
using sse::crypto::GmppkeSecretParameters;
using sse::crypto::GmmppkeCT;
using sse::crypto::PuncturableDecryption;
using sse::crypto::PuncturableEncryption;
namespace punct = sse::crypto::punct;
typedef std::array<uint8_t, 16> Tag;
typedef mpz_class Z;
const char* pbt::PROP_ID = "C24";
const char* pbt::PROP_RULE = "a history that punctures at least once and decrypts both a ciphertext on a punctured tag and one on another tag, or an arithmetic, serialisation or refusal case on elements other than the identity";
size_t pbt::prop_tape_len() { return 700; }
void pbt::prop_setup() { lib_init_tape_rng(); }

// ---- the oracle ----
static const Tag NULLT = {{0, 1, 2, 3, 4, 5, 6, 7, 8, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0}};
static const Z& ord() { static const Z n("2523648240000001BA344D8000000007FF9F800000000010A10000000000000D", 16); return n; }
static Z md(const Z& a) { Z r; mpz_fdiv_r(r.get_mpz_t(), a.get_mpz_t(), ord().get_mpz_t()); return r; }
static Z inv(const Z& a) { Z r; mpz_invert(r.get_mpz_t(), a.get_mpz_t(), ord().get_mpz_t()); return r; }
static Z pw(const Z& a, const Z& e) { Z r; mpz_powm(r.get_mpz_t(), a.get_mpz_t(), e.get_mpz_t(), ord().get_mpz_t()); return r; }
static Z zof(const uint8_t* p, size_t n) { Z z; mpz_import(z.get_mpz_t(), n, 1, 1, 0, 0, p); return z; }
static Bytes bytes_of(const Z& z, size_t n)
{
    Bytes b(n + 64, 0), r(n, 0);
    size_t k = 0;
    mpz_export(b.data(), &k, 1, 1, 0, 0, z.get_mpz_t());
    std::copy(b.begin(), b.begin() + long(k), r.end() - long(k));
    return r;
}
static Z sha_zr(const Bytes& m)
{
    Bytes d(1, 1);
    d.insert(d.end(), m.begin(), m.end());
    uint8_t h[32];
    crypto_hash_sha256(h, d.data(), d.size());
    return md(zof(h, 32));
}
static Z tag_zr(const Tag& t) { return sha_zr(Bytes(t.begin(), t.end())); }
static ZR zr(const Z& z) { Bytes b = bytes_of(z, 32); return ZR(b.data(), b.size()); }
static Z val(const ZR& x)
{
    Z z;
    mpz_import(z.get_mpz_t(), size_t(x.z->used), -1, 8, 0, 0, x.z->dp);
    return x.z->sign == RLC_NEG ? Z(-z) : z;
}
template <class G> static Z lg(const G& g) { Z z; mpz_import(z.get_mpz_t(), 4, -1, 8, 0, 0, g.g[0].e); return z; }
static Bytes g1b(const Z& e) { g1_t g; ZR k = zr(md(e)); g1_mul_gen(g, k.z); Bytes b(33); g1_write_bin(b.data(), 33, g, 1); return b; }
static Bytes g2b(const Z& e) { g2_t g; ZR k = zr(md(e)); g2_mul_gen(g, k.z); Bytes b(65); g2_write_bin(b.data(), 65, g, 1); return b; }
static Bytes gtb(const Z& e) { gt_t g; ZR k = zr(md(e)); {gt_exp_gen(g, k.z)} Bytes b(384); gt_write_bin(b.data(), 384, g, 0); return b; }
static void cat(Bytes& a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); }
struct Model {
    Bytes key;
    Z alpha, beta, ry;
    explicit Model(const Bytes& k) : key(k), alpha(par("param_alpha")), beta(par("param_beta")), ry(par("param_ry")) {}
    Z par(const std::string& s) const { Bytes o = ref::prf(key, pbt::B(s), 36); return md(zof(o.data(), 36)); }
    Z num(const char* what, size_t d) const { return par("param_" + std::string(what) + "_" + std::to_string(d)); }
    Bytes share(const Z& e1, const Z& r, const Tag& t) const
    {
        Bytes b = g2b(e1);
        cat(b, g2b(r * (beta + tag_zr(t) * ry)));
        cat(b, g2b(r));
        cat(b, Bytes(t.begin(), t.end()));
        return b;
    }
    Bytes initial(size_t d) const
    {
        Z rho = num("rho", d);
        return share(beta * (d == 0 ? Z(rho + alpha) : Z(rho - num("l", d))), rho, NULLT);
    }
    Bytes punct(size_t d, const Tag& t) const
    {
        Z r = num("r1", d), prev = d > 1 ? num("l", d - 1) : Z(-alpha);
        return share(beta * (num("l", d) - prev + r), r, t);
    }
    static uint64_t mask(const Z& e, const Tag& t)
    {
        Bytes h = ref::hmac(false, Bytes(t.begin(), t.end()), gtb(e));
        uint64_t m;
        memcpy(&m, h.data(), 8);
        return m;
    }
};
static void judge_ct(const Z& alpha, const Z& beta, const Z& ry, const uint8_t* ct, uint64_t m, const Tag& t, const char* what)
{
    Z s = zof(ct + 9, 32); // the stand-in keeps the logarithm of ct2 there
    Bytes want;
    uint64_t c1 = m ^ Model::mask(alpha * beta * s, t);
    want.resize(8);
    memcpy(want.data(), &c1, 8);
    cat(want, g1b(s));
    cat(want, g1b(s * (beta + tag_zr(t) * ry)));
    cat(want, Bytes(t.begin(), t.end()));
    CHECK(s != 0 && s < ord(), what, ": no blinding");
    CHECK(Bytes(ct, ct + 90) == want, what, ": ciphertext of ", m, " on tag ", hex(t), " is ", hex(ct, 90, 90), " and not ", hex(want.data(), 90, 90));
}
// ---- generators ----
static Tag gen_tag(Tape& t, const std::vector<Tag>& pool)
{
    Tag x;
    switch (t.pick(9)) {
    case 0: case 6: case 7: if (!pool.empty()) { x = pool[t.pick(unsigned(pool.size()))]; break; } // fall through
    case 1: if (!pool.empty()) { x = pool[t.pick(unsigned(pool.size()))]; x[t.pick(16)] ^= uint8_t(1u << t.pick(8)); break; } // fall through
    case 2: x = NULLT; x[t.pick(16)] ^= uint8_t(1u << t.pick(8)); break;
    case 3: x.fill(0); x[15] = uint8_t(t.pick(4)); x[8] = uint8_t(t.pick(2) ? 0xff : 0); break;
    default: { Bytes b = t.bytes(16); std::copy(b.begin(), b.end(), x.begin()); }
    }
    if (x == NULLT) x[0] ^= 0x80;
    return x;
}
static uint64_t gen_msg(Tape& t) { switch (t.pick(4)) { case 0: return t.pick(3); case 1: return ~0ull - t.pick(3); default: return t.u64(); } }
static Z gen_z(Tape& t)
{
    switch (t.pick(6)) {
    case 0: return t.pick(4);
    case 1: return ord() - 1 - t.pick(4);
    case 2: { Z z = 1; z <<= t.pick(254); Z r = z - t.pick(2); return md(r); }
    case 3: return Z((unsigned long)t.u64());
    default: { Bytes b = t.bytes(32); return md(zof(b.data(), 32)); }
    }
}
static size_t gen_d(Tape& t) { switch (t.pick(4)) { case 0: return t.pick(12); case 1: return 1 + size_t(t.range(0, 2000)); case 2: return ~size_t(0) - t.pick(3); default: return (size_t(1) << t.pick(64)) - t.pick(2); } }

struct Sent { punct::ciphertext_type ct; uint64_t m; Tag tag; };
static bool has(const std::vector<Tag>& v, const Tag& t) { return std::find(v.begin(), v.end(), t) != v.end(); }

// decrypts everything and compares with what the punctured tags allow
static void check_key(const punct::punctured_key_type& key, const std::vector<Sent>& sent, const std::vector<Tag>& dead, Tape& t, bool& refused, bool& opened)
{
    PuncturableDecryption dec(key);
    for (auto& s : sent) {
        uint64_t junk = t.u64(), m = junk;
        bool r = dec.decrypt(s.ct, m);
        bool want = !has(dead, s.tag);
        CHECK(r == want, "decryption of a ciphertext on tag ", hex(s.tag), " with ", dead.size(), " punctures returned ", r);
        if (want) CHECK(m == s.m, "ciphertext of ", s.m, " on tag ", hex(s.tag), " decrypts to ", m, " after ", dead.size(), " punctures");
        else CHECK(m == junk, "a refused decryption wrote the message");
        (want ? opened : refused) = true;
    }
}
static void public_history(Tape& t, Ctx& c)
{
    Bytes mk_ = t.bytes(32);
    Model M(mk_);
    sse::crypto::Key<32> given = mk<32>(mk_);
    std::unique_ptr<PuncturableEncryption> e(new PuncturableEncryption(std::move(given)));
    CHECK(key_empty(given), "the constructor left the key in its argument");
    std::vector<Tag> dead, pool;
    std::vector<Bytes> shares;
    std::vector<Sent> sent;
    bool refused = false, opened = false;
    punct::punctured_key_type key(1);
    auto fresh0 = [&] {
        key[0] = e->initial_keyshare(dead.size());
        CHECK(pbt::B(key[0]) == M.initial(dead.size()), "initial key share for ", dead.size(), " punctures is ", hex(key[0].data(), 211, 211));
        CHECK(punct::extract_tag(key[0]) == NULLT, "the initial share's tag");
    };
    fresh0();
    unsigned steps = 3 + t.pick(14);
    for (unsigned k = 0; k < steps; k++) {
        switch (t.pick(12)) {
        case 0: case 1: case 2: { // puncture: a new share for the tag, and the initial share replaced
            Tag g = gen_tag(t, pool);
            pool.push_back(g);
            dead.push_back(g);
            key.push_back(e->inc_puncture(dead.size(), g));
            CHECK(pbt::B(key.back()) == M.punct(dead.size(), g), "key share ", dead.size(), " for tag ", hex(g), " is ", hex(key.back().data(), 211, 211));
            CHECK(punct::extract_tag(key.back()) == g, "the share's tag");
            fresh0();
            c.label("puncture");
            break; }
        case 3: case 4: case 5: {
            Sent s;
            s.tag = gen_tag(t, pool);
            s.m = gen_msg(t);
            pool.push_back(s.tag);
            s.ct = e->encrypt(s.m, s.tag);
            judge_ct(M.alpha, M.beta, M.ry, s.ct.data(), s.m, s.tag, "encrypt");
            CHECK(punct::extract_tag(s.ct) == s.tag, "the ciphertext's tag");
            for (auto& o : sent) CHECK(!std::equal(o.ct.begin() + 8, o.ct.begin() + 41, s.ct.begin() + 8), "two encryptions share their randomness");
            sent.push_back(s);
            break; }
        case 6: case 7:
            check_key(key, sent, dead, t, refused, opened);
            break;
        case 8: // the same master key again
            e.reset(new PuncturableEncryption(mk<32>(mk_)));
            c.label("object remade");
            break;
        case 9: { // any share number, in any order
            size_t d = gen_d(t);
            Tag g = gen_tag(t, pool);
            punct::key_share_type a = e->initial_keyshare(d);
            CHECK(pbt::B(a) == M.initial(d), "initial key share for ", d, " punctures");
            if (d == 0) break;
            punct::key_share_type b = e->inc_puncture(d, g);
            CHECK(pbt::B(b) == M.punct(d, g), "key share ", d, " for tag ", hex(g));
            break; }
        case 10: { // the reserved tag
            uint64_t m = gen_msg(t);
            size_t d = 1 + t.pick(5);
            Outcome o = attempt([&] { e->encrypt(m, NULLT); });
            CHECK(o == INVALID_ARGUMENT, "encryption on the reserved tag: ", outcome_name(o));
            o = attempt([&] { e->inc_puncture(d, NULLT); });
            CHECK(o == INVALID_ARGUMENT, "puncture on the reserved tag: ", outcome_name(o));
            c.label("reserved tag");
            break; }
        default: { // attempts to get around a puncture
            if (dead.empty()) break;
            size_t v = t.pick(unsigned(dead.size()));
            uint64_t m = gen_msg(t);
            Tag other = gen_tag(t, {});
            punct::ciphertext_type ct = e->encrypt(m, dead[v]);
            punct::punctured_key_type k2 = key;
            unsigned how = t.pick(5);
            if (how == 0) { // without the shares for the tag
                for (size_t i = k2.size(); i-- > 1;) if (punct::extract_tag(k2[i]) == dead[v]) k2.erase(k2.begin() + long(i));
            } else if (how == 1) { // that share renamed
                for (size_t i = 1; i < k2.size(); i++) if (punct::extract_tag(k2[i]) == dead[v]) std::copy(other.begin(), other.end(), k2[i].end() - 16);
            } else if (how == 2) { // the ciphertext renamed
                if (has(dead, other)) break;
                std::copy(other.begin(), other.end(), ct.end() - 16);
            } else if (how == 3) { // only the initial share
                k2.resize(1);
            } else { // the key of another master key
                Bytes mk2 = mk_;
                mk2[t.pick(32)] ^= uint8_t(1u << t.pick(8));
                PuncturableEncryption e2(mk<32>(mk2));
                k2.assign(1, e2.initial_keyshare(0));
            }
            uint64_t got = ~m;
            Outcome o = attempt([&] { PuncturableDecryption dec(k2); dec.decrypt(ct, got); });
            (void)o; // garbage, a refusal and an exception are all fine
            CHECK(got != m, "a ciphertext on the punctured tag ", hex(dead[v]), " was opened, way ", how);
            c.label("way around a puncture");
        } }
    }
    check_key(key, sent, dead, t, refused, opened);
    // share randomness is never shared between shares
    for (size_t i = 0; i < key.size(); i++)
        for (size_t j = 0; j < i; j++)
            CHECK(!std::equal(key[i].begin() + 130, key[i].begin() + 195, key[j].begin() + 130), "shares ", i, " and ", j, " have the same randomness");
    c.note("punctures=", dead.size(), " ciphertexts=", sent.size(), " opened=", opened, " refused=", refused);
    c.label("public history");
    c.nontrivial(refused && opened);
}
template <class T> static void gm_history_t(Tape& t, Ctx& c)
{
    Gmppke P;
    Bytes kb = t.bytes(32);
    Model M(kb);
    GmppkePublicKey pk;
    GmppkePrivateKey sk;
    GmppkeSecretParameters sp;
    unsigned kind = t.pick(3);
    sse::crypto::Prf<sse::crypto::kPPKEPrfOutputSize> prf(mk<32>(kb));
    if (kind == 0) P.keygen(pk, sk, sp);
    else if (kind == 1) P.keygen(prf, pk, sk, sp);
    else { sse::crypto::Key<32> k = mk<32>(kb); P.keygen(std::move(k), pk, sk, sp); CHECK(key_empty(k), "keygen kept its key"); }
    if (kind) {
        GmppkePublicKey pk2;
        GmppkePrivateKey sk2;
        GmppkeSecretParameters sp2, sp3;
        P.keygen(prf, pk2, sk2, sp2);
        P.paramgen(prf, sp3);
        CHECK(pk == pk2 && !(pk != pk2), "key generation from a PRF: public keys differ");
        CHECK(sk == sk2 && !(sk != sk2), "key generation from a PRF: private keys differ");
        CHECK(sp == sp2 && sp == sp3 && !(sp != sp2), "key generation from a PRF: parameters differ");
        CHECK(lg(pk.gG1) == 1 && lg(pk.gG2) == 1 && lg(pk.g2G1) == M.beta && lg(pk.g2G2) == M.beta, "public key elements");
    } else {
        GmppkePublicKey pk2;
        GmppkePrivateKey sk2;
        GmppkeSecretParameters sp2;
        P.keygen(pk2, sk2, sp2);
        CHECK(pk != pk2 && sk != sk2 && sp != sp2, "two random key generations agree");
    }
    GmppkePrivateKey sk0 = sk;
    CHECK(!sk.punctured(), "a new key is punctured");
    std::vector<Tag> dead, pool;
    struct C { GmmppkeCT<T> ct; T m; Tag tag; };
    std::vector<C> sent;
    bool refused = false, opened = false;
    unsigned steps = 2 + t.pick(12);
    for (unsigned k = 0; k < steps; k++) {
        switch (t.pick(7)) {
        case 0: case 1: {
            Tag g = gen_tag(t, pool);
            pool.push_back(g);
            CHECK(sk.isPuncturedOnTag(g) == has(dead, g), "isPuncturedOnTag before");
            P.puncture(pk, sk, g);
            dead.push_back(g);
            CHECK(sk.isPuncturedOnTag(g), "isPuncturedOnTag after");
            CHECK(sk.punctured(), "punctured()");
            c.label("puncture");
            break; }
        case 2: case 3: {
            Tag g = gen_tag(t, pool);
            pool.push_back(g);
            T m = T(gen_msg(t));
            bool pub = t.pick(2);
            C x{pub ? P.encrypt<T>(pk, m, g) : P.encrypt<T>(sp, m, g), m, g};
            std::array<uint8_t, GmmppkeCT<T>::kCTByteSize> b;
            x.ct.writeBytes(b.data());
            GmmppkeCT<T> y(b.data());
            CHECK(y == x.ct && !(y != x.ct), "a ciphertext does not survive its serialisation");
            if (kind && sizeof(T) == 8) judge_ct(M.alpha, M.beta, M.ry, b.data(), uint64_t(m), g, pub ? "public encryption" : "secret encryption");
            if (!sent.empty() && t.pick(2)) { // equal when all components are, and only then
                std::array<uint8_t, GmmppkeCT<T>::kCTByteSize> z = b, q;
                sent.back().ct.writeBytes(q.data());
                static const size_t S = sizeof(T), CUT[] = {0, S, S + 33, S + 66, S + 82};
                unsigned part = t.pick(4);
                std::copy(q.begin() + long(CUT[part]), q.begin() + long(CUT[part + 1]), z.begin() + long(CUT[part]));
                GmmppkeCT<T> w(z.data());
                CHECK((w == x.ct) == (z == b) && (w != x.ct) == (z != b), "comparing ciphertexts that differ in component ", part);
            }
            if (t.pick(2)) x.ct = y;
            sent.push_back(x);
            c.label(pub ? "public encryption" : "secret encryption");
            break; }
        case 4: { // the reserved tag
            Outcome o = attempt([&] { P.encrypt<T>(pk, T(1), NULLT); });
            CHECK(o == INVALID_ARGUMENT, "public encryption on the reserved tag: ", outcome_name(o));
            o = attempt([&] { P.encrypt<T>(sp, T(1), NULLT); });
            CHECK(o == INVALID_ARGUMENT, "secret encryption on the reserved tag: ", outcome_name(o));
            GmppkePrivateKey before = sk;
            o = attempt([&] { P.puncture(pk, sk, NULLT); });
            CHECK(o == INVALID_ARGUMENT && sk == before, "puncture on the reserved tag: ", outcome_name(o));
            c.label("reserved tag");
            break; }
        default:
            for (auto& s : sent) {
                T junk = T(t.u64()), m = junk;
                bool want = !has(dead, s.tag);
                CHECK(P.decrypt(sk, s.ct, m) == want, "decrypt on tag ", hex(s.tag), " after ", dead.size(), " punctures");
                CHECK(m == (want ? s.m : junk), "decrypt on tag ", hex(s.tag), " gave ", uint64_t(m), " for ", uint64_t(s.m));
                bool bad = false;
                try { T r = P.decrypt(sk, s.ct); CHECK(r == s.m, "decrypt() on tag ", hex(s.tag), " gave ", uint64_t(r), " for ", uint64_t(s.m)); }
                catch (const sse::crypto::PuncturedCiphertext&) { bad = true; }
                CHECK(bad == !want, "decrypt() on tag ", hex(s.tag), " threw ", bad);
                T u = T(~s.m);
                attempt([&] { u = P.decrypt_unchecked(sk, s.ct); });
                if (sizeof(T) == 8) CHECK((u == s.m) == want, "decrypt_unchecked on tag ", hex(s.tag), " opened=", u == s.m);
                T v = P.decrypt_unchecked(sk0, s.ct);
                CHECK(v == s.m, "the unpunctured key does not decrypt");
                (want ? opened : refused) = true;
            }
        }
    }
    if (kind) { // incremental shares are the same key in other randomness
        size_t n = t.pick(5);
        std::vector<GmppkePrivateKeyShare> sh(1, P.sk0Gen(prf, sp, n));
        std::vector<Tag> d2;
        for (size_t i = 1; i <= n; i++) { Tag g = gen_tag(t, pool); d2.push_back(g); sh.push_back(P.skShareGen(prf, sp, i, g)); }
        for (auto& s : sh) {
            std::array<uint8_t, GmppkePrivateKeyShare::kByteSize> b;
            s.writeBytes(b.data());
            GmppkePrivateKeyShare y(b.data());
            CHECK(y == s && !(y != s) && y.get_tag() == s.get_tag(), "a key share does not survive its serialisation");
            std::array<uint8_t, GmppkePrivateKeyShare::kByteSize> z = b, q;
            sh[t.pick(unsigned(sh.size()))].writeBytes(q.data());
            static const size_t CUT[] = {0, 65, 130, 195, 211};
            unsigned part = t.pick(4);
            std::copy(q.begin() + long(CUT[part]), q.begin() + long(CUT[part + 1]), z.begin() + long(CUT[part]));
            GmppkePrivateKeyShare w(z.data());
            CHECK((w == s) == (z == b) && (w != s) == (z != b), "comparing key shares that differ in component ", part);
            s = y;
        }
        for (unsigned part = 0; part < 4; part++) {
            GmppkePublicKey o = pk;
            if (part == 0) o.gG1 = o.gG1 + o.gG1; else if (part == 1) o.gG2 = o.gG2 + o.gG2; else if (part == 2) o.g2G1 = o.g2G1 + o.gG1; else o.g2G2 = o.g2G2 + o.gG2;
            CHECK(o != pk && !(o == pk), "public keys that differ in element ", part, " compare equal");
        }
        GmppkePrivateKey k2(sh);
        for (auto& s : sent) {
            T m = T(0);
            bool r = P.decrypt(k2, s.ct, m);
            CHECK(r == !has(d2, s.tag) && (!r || m == s.m), "a key made of incremental shares on tag ", hex(s.tag), ": ", r);
        }
    }
    c.note("width=", sizeof(T), " keygen=", kind, " punctures=", dead.size(), " ciphertexts=", sent.size());
    c.label("internal history");
    c.nontrivial(refused && opened);
}
static void arithmetic(Tape& t, Ctx& c)
{
    PairingGroup G;
    Z x = gen_z(t), y = gen_z(t);
    ZR a = zr(x), b = zr(y);
    int i = int(t.raw(4) & 0x7fffffff) >> t.pick(31);
    CHECK(val(a) == x && val(b) == y, "ZR from bytes");
    CHECK(val(a + b) == md(x + y) && G.add(a, b) == a + b, "ZR +");
    CHECK(val(a - b) == md(x - y) && G.sub(a, b) == a - b, "ZR -: ", x, " - ", y, " gave ", val(a - b));
    CHECK(val(-a) == md(-x) && G.neg(a) == -a, "ZR unary -");
    CHECK(val(a * b) == md(x * y) && G.mul(a, b) == a * b, "ZR *");
    if (y != 0) {
        CHECK(val(a / b) == md(x * inv(y)) && G.div(a, b) == a / b, "ZR /");
        CHECK(val(b.inverse()) == inv(y) && G.inv(b) == b.inverse(), "ZR inverse of ", y);
        CHECK(G.div(i, b) == ZR(i) / b, "int / ZR");
    } else {
        bool threw = false;
        try { a / b; } catch (const RelicDividByZero&) { threw = true; }
        CHECK(threw, "division by zero");
    }
    CHECK(val(power(a, b)) == pw(x, y) && G.exp(a, b) == power(a, b), "ZR power");
    CHECK(val(G.exp(a, i)) == pw(x, i) && power(a, i) == G.exp(a, i), "ZR power int");
    unsigned sh = t.pick(128);
    CHECK(val(a << int(sh)) == md(Z(x << sh)), "ZR <<", sh);
    CHECK(val(a >> int(sh)) == Z(x >> sh), "ZR >>", sh);
    CHECK((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a > b) == (x > y), "ZR comparisons");
    CHECK(a.ismember() && G.ismember(a), "ZR membership");
    ZR big = zr(Z(ord() + t.pick(3)));
    CHECK(!big.ismember(), "membership of a number above the order");
    CHECK(val(ZR(i)) == i && val(ZR(x.get_str())) == x, "ZR construction");
    CHECK(a.getBytes() == bytes_of(x, 32), "ZR bytes");
    Bytes w(32, 0xA5);
    a.writeBytes(w.data());
    CHECK(w == bytes_of(x, 32), "ZR writeBytes");
    CHECK(a.byte_size() == (x == 0 ? 0 : (mpz_sizeinbase(x.get_mpz_t(), 2) + 7) / 8), "ZR byte size");
    { std::ostringstream o; o << a; CHECK(std::string(o.str().c_str()) == x.get_str(), "ZR printed as ", o.str()); }
    CHECK(val(G.order()) == ord(), "order");
    CHECK(val(G.randomZR()) < ord(), "random ZR");
    Bytes m = t.bytes(t.length(0, 100));
    CHECK(val(G.hashListToZR(m)) == sha_zr(m) && val(G.hashListToZR(S(m))) == sha_zr(m), "hash to ZR");
    G1 p = G.exp(G.generatorG1(), a), q = G.exp(G.generatorG1(), b);
    G2 r = G.exp(G.generatorG2(), a), s = G.exp(G.generatorG2(), b);
    GT u = G.exp(G.generatorGT(), a), v = G.exp(G.generatorGT(), b);
    CHECK(lg(p) == x && lg(r) == x && lg(u) == x, "powers of the generators");
    CHECK(lg(p + q) == md(x + y) && G.mul(p, q) == p + q, "G1 +");
    CHECK(lg(p - q) == md(x - y) && G.div(p, q) == p - q, "G1 -");
    CHECK(lg(-p) == md(-x) && G.inv(p) == -p, "G1 unary -");
    CHECK(lg(r + s) == md(x + y) && G.mul(r, s) == r + s, "G2 +");
    CHECK(lg(r - s) == md(x - y) && G.div(r, s) == r - s, "G2 -");
    CHECK(lg(-r) == md(-x) && G.inv(r) == -r, "G2 unary -");
    CHECK(lg(u * v) == md(x + y) && G.mul(u, v) == u * v, "GT *");
    CHECK(lg(u / v) == md(x - y) && G.div(u, v) == u / v, "GT /");
    CHECK(lg(-u) == md(-x) && G.inv(u) == -u, "GT inverse");
    CHECK(lg(power(u, b)) == md(x * y) && lg(power(p, b)) == md(x * y) && lg(power(r, b)) == md(x * y), "powers");
    CHECK(lg(G.exp(p, i)) == md(x * i) && lg(G.exp(r, i)) == md(x * i) && lg(G.exp(u, i)) == md(x * i), "powers by an int");
    CHECK(lg(G.pair(p, s)) == md(x * y) && G.pair(p, s) == G.pair(s, p), "pairing");
    CHECK((p == q) == (x == y) && (p != q) == (x != y) && (r == s) == (x == y) && (r != s) == (x != y) && (u == v) == (x == y) && (u != v) == (x != y), "comparisons");
    CHECK(G.ismember(p) && G.ismember(r) && G.ismember(u), "membership");
    CHECK(lg(G.hashListToG1(m)) == lg(G.hashListToG1(m)) && G.hashListToG1(S(m)) == G.hashListToG1(m) && G.hashListToG2(m) == G.hashListToG2(m), "hashes to groups");
    { Bytes m2 = m; m2.push_back(0); CHECK(G.hashListToG1(m) != G.hashListToG1(m2) && G.hashListToG2(m) != G.hashListToG2(m2) && G.hashListToZR(m) != G.hashListToZR(m2), "a trailing zero byte does not change a hash"); }
    CHECK(G.randomG1() != G.randomG1() && G.randomG2() != G.randomG2() && G.randomGT() != G.randomGT(), "random elements");
    for (int comp = 0; comp < 2; comp++) {
        if (x != 0) {
            Bytes b1(comp ? 33 : 65), b2(comp ? 65 : 129);
            p.writeBytes(b1.data(), comp);
            r.writeBytes(b2.data(), comp);
            CHECK(b1 == p.getBytes(comp) && G1(b1.data(), comp) == p, "G1 bytes, compress=", comp);
            CHECK(b2 == r.getBytes(comp) && G2(b2.data(), comp) == r, "G2 bytes, compress=", comp);
        }
        Bytes b3(comp ? 256 : 384);
        u.writeBytes(b3.data(), comp);
        CHECK(b3 == u.getBytes(comp) && GT(b3.data(), comp) == u, "GT bytes, compress=", comp);
        size_t extra = t.pick(40);
        Bytes b4(b3.size() + extra, 0xA5);
        u.getBytes(comp, b4.size(), b4.data());
        Bytes want = b3;
        want.resize(b4.size(), 0);
        CHECK(b4 == want, "GT getBytes into a longer buffer");
    }
    { // printing: the bytes in hexadecimal, and the stream's format left alone
        std::ostringstream o;
        o << std::setfill('*') << p << r << u;
        std::string want;
        for (const Bytes& e : {p.getBytes(), r.getBytes(), u.getBytes()}) {
            std::ostringstream h;
            h << "0x";
            for (uint8_t k : e) h << std::hex << unsigned(k);
            want += h.str() + "\n";
        }
        CHECK(o.str() == want, "printed as ", o.str(), " and not ", want);
        o << 255;
        CHECK(o.str() == want + "255", "the stream's format changed");
    }
    c.note("x=", x, " y=", y, " i=", i);
    c.label("arithmetic");
    c.nontrivial(x != 0 && y != 0);
}
static void threads(Tape& t, Ctx& c)
{
    Bytes kb = t.bytes(32);
    Model M(kb);
    uint64_t m = gen_msg(t);
    Tag g = gen_tag(t, {}), h = gen_tag(t, {g});
    std::string err;
    std::thread th([&] {
        try {
            Outcome o = attempt([&] { PuncturableEncryption e(mk<32>(kb)); });
            CHECK(o == RUNTIME_ERROR, "a thread without RELIC: ", outcome_name(o));
            relicResourceHandle handle;
            CHECK(handle.isInitalized(), "handle");
            relicResourceHandle second(true);
            CHECK(!second.isInitalized(), "second handle");
            o = attempt([&] { relicResourceHandle third(false); });
            CHECK(o == RUNTIME_ERROR, "a second exclusive handle: ", outcome_name(o));
            PuncturableEncryption e(mk<32>(kb));
            punct::punctured_key_type key;
            key.push_back(e.initial_keyshare(1));
            key.push_back(e.inc_puncture(1, g));
            CHECK(pbt::B(key[0]) == M.initial(1) && pbt::B(key[1]) == M.punct(1, g), "shares made in a thread");
            PuncturableDecryption dec(key);
            uint64_t r = ~m;
            bool ok = dec.decrypt(e.encrypt(m, h), r);
            CHECK(ok == (g != h) && (!ok || r == m), "decryption in a thread");
        } catch (const std::exception& x) { err = x.what(); }
    });
    th.join();
    CHECK(err.empty(), err);
    c.note("thread");
    c.label("thread");
    c.nontrivial();
}
void pbt::prop_case(Tape& t, Ctx& c)
{
    rng_seed(t.u64());
    switch (t.pick(16)) {
    case 0: case 1: case 2: case 3: arithmetic(t, c); break;
    case 4: case 5: case 6: gm_history_t<uint64_t>(t, c); break;
    case 7: { if (t.pick(2)) gm_history_t<uint32_t>(t, c); else gm_history_t<uint8_t>(t, c); break; }
    case 8: if (t.pick(4) == 0) { threads(t, c); break; } // fall through
    default: public_history(t, c);
    }
}
