#include "tdpkit.hpp"
using namespace pbt;
const char* pbt::PROP_ID = "C15";
const char* pbt::PROP_RULE = "a case performing at least one evaluation or inversion compared with an independent RSA (GMP)";
size_t pbt::prop_tape_len() { return 200; }
void pbt::prop_setup() { lib_init_tape_rng(); }
static void long_case(Tape& t, Ctx& c)
{
    Stream g(t);
    rng_seed(t.raw(4));
    const TestKey& K = test_key(unsigned(g.below(10)));
    std::unique_ptr<TdpInverse> inv(import_private(K.sk));
    Tdp pub(K.pk);
    std::vector<Bytes> xs, ys;
    for (int i = 0; i < 8; i++) { Bytes x = g.bytes(256); x[0] = 0; xs.push_back(x); ys.push_back(rsa_priv(K.k, x)); }
    for (unsigned i = 0; i < 3000; i++) {
        unsigned k = unsigned(g.below(8));
        CHECK(eq(ys[k], inv->invert(S(xs[k]))), "inversion ", i, " of one object");
        if (i % 100 == 0) CHECK(eq(ys[k], inv->invert_mult(S(xs[k]), 1)), "iterated inversion after ", i, " inversions of one object");
    }
    for (unsigned i = 0; i < LONG_OPS; i++) {
        unsigned k = unsigned(g.below(8));
        CHECK(eq(xs[k], i % 2 ? pub.eval(S(ys[k])) : inv->eval(S(ys[k]))), "evaluation ", i, " of one object");
    }
    c.note("long history of one key");
    c.label("more than 65536 operations");
    c.nontrivial();
}
void pbt::prop_case(Tape& t, Ctx& c)
{
    if (t.longrun()) return long_case(t, c);
    rng_seed(t.raw(4));
    rng_bias(t.pick(8) == 0 ? 1 + t.pick(2) : 0);
    unsigned ki = t.pick(10);
    const TestKey& K = test_key(ki);
    std::unique_ptr<TdpInverse> inv(import_private(K.sk));
    Tdp pub(K.pk);
    unsigned n = 1 + t.pick(4);
    std::unique_ptr<TdpMultPool> pool;
    unsigned psize = 0;
    for (unsigned i = 0; i < n; i++) {
        std::string kind;
        unsigned op = t.pick(8);
        bool big = op <= 1 || op == 5;
        Bytes x = gen_element(t, K.k, big, kind);
        std::string s = S(x), out = t.pick(2) ? "previous content" : "";
        std::array<uint8_t, 256> a = arr<256>(x);
        std::ostringstream d;
        d << "key " << ki << ", " << kind << " element " << hex(x.data(), 256, 8);
        if (op <= 1) { // evaluation
            Bytes y = rsa_pub(K.k, x);
            if (op == 0) pub.eval(s, out); else inv->eval(s, out);
            CHECK(out.size() == 256 && eq(y, out), "evaluation (string) is not the RSA public operation, ", d.str());
            CHECK(eq(y, op == 0 ? pub.eval(a) : inv->eval(a)), "evaluation (array) differs, ", d.str());
            CHECK(eq(y, op == 0 ? inv->eval(s) : pub.eval(s)), "public and private object differ, ", d.str());
            CHECK(s == S(x) && a == arr<256>(x), "evaluation changed its input");
            if (t.pick(3) == 0) { std::string al = s; pub.eval(al, al); CHECK(eq(y, al), "evaluation in place differs, ", d.str()); }
            c.label("eval " + kind);
        } else if (op == 2 || op == 3) { // inversion
            Bytes y = rsa_priv(K.k, x);
            unsigned rep = 1 + t.pick(3); // the blinding values change from call to call
            for (unsigned r = 0; r < rep; r++) {
                if (op == 2) { inv->invert(s, out); CHECK(eq(y, out), "inversion (string) is not the RSA private operation, ", d.str(), ", call ", r); }
                else CHECK(eq(y, inv->invert(a)), "inversion (array) differs, ", d.str(), ", call ", r);
            }
            CHECK(eq(y, inv->invert(s)), "inversion (returned string) differs, ", d.str());
            CHECK(eq(x, pub.eval(S(y))) && eq(x, inv->eval(arr<256>(y))), "evaluation does not undo inversion, ", d.str());
            CHECK(eq(x, inv->invert(S(rsa_pub(K.k, x)))), "inversion does not undo evaluation, ", d.str());
            if (t.pick(3) == 0) { std::string al = s; inv->invert(al, al); CHECK(eq(y, al), "inversion in place differs, ", d.str()); }
            c.label("invert " + kind);
        } else if (op == 4 || op == 5) { // iterated inversion
            if (!below_n(K.k, x)) { mpz_t v; mpz_init(v); bytes_mpz(v, x); mpz_mod(v, v, K.k.n); x = mpz_bytes(v, 256); mpz_clear(v); s = S(x); a = arr<256>(x); }
            uint32_t k;
            switch (t.pick(6)) { case 0: k = 0; break; case 1: k = 1; break; case 2: k = 2 + t.pick(4); break; case 3: k = uint32_t(t.range(0, 300)); break; case 4: k = uint32_t(1u << t.pick(32)) - t.pick(2); break; default: k = uint32_t(t.raw(4)); }
            Bytes y = rsa_priv(K.k, x, k);
            if (t.pick(2)) { inv->invert_mult(s, out, k); CHECK(eq(y, out), "inversion of order ", k, " (string) differs, ", d.str()); }
            else CHECK(eq(y, inv->invert_mult(s, k)), "inversion of order ", k, " (returned string) differs, ", d.str());
            CHECK(eq(y, inv->invert_mult(a, k)), "inversion of order ", k, " (array) differs, ", d.str());
            if (k && k <= 4) { std::string z = s; for (uint32_t q = 0; q < k; q++) z = inv->invert(z); CHECK(eq(y, z), k, " inversions differ from one of order ", k, ", ", d.str()); }
            d << ", order " << k;
            c.label(k == 0 ? "invert_mult order 0" : k < 8 ? "invert_mult small order" : "invert_mult large order");
        } else { // pool
            if (!pool || t.pick(4) == 0) {
                unsigned lim = pool_limit(K.k);
                psize = t.pick(3) == 0 ? 1 + t.pick(2) : t.pick(4) == 0 ? lim : 1 + t.pick(std::min(lim, 20u));
                if (t.pick(12) == 0 && lim < 255) { // one more than supported: refused
                    CHECK(attempt([&] { TdpMultPool p(K.pk, uint8_t(lim + 1)); }) != OK, "a pool whose largest exponent exceeds the modulus was created, size ", lim + 1);
                    c.label("oversized pool");
                }
                pool.reset(new TdpMultPool(K.pk, uint8_t(psize)));
                CHECK(pool->maximum_order() == psize, "maximum order ", unsigned(pool->maximum_order()), " of a pool of size ", psize);
            }
            if (t.pick(4) == 0) { std::unique_ptr<TdpMultPool> q(new TdpMultPool(*pool)); pool = std::move(q); c.label("pool copied"); }
            else if (t.pick(4) == 0) { std::unique_ptr<TdpMultPool> q(new TdpMultPool(test_key(ki + 1).pk, uint8_t(1 + t.pick(4)))); *q = *pool; pool = std::move(q); c.label("pool assigned"); }
            CHECK(pool->maximum_order() == psize, "maximum order after a copy");
            unsigned k = t.pick(3) == 0 ? psize : 1 + t.pick(psize);
            Bytes y = rsa_pub(K.k, x, k);
            if (t.pick(2)) { pool->eval(s, out, uint8_t(k)); CHECK(eq(y, out), "pool evaluation of order ", k, " (size ", psize, ") differs, ", d.str()); }
            else CHECK(eq(y, pool->eval(s, uint8_t(k))), "pool evaluation of order ", k, " (size ", psize, ", returned string) differs, ", d.str());
            CHECK(eq(y, pool->eval(a, uint8_t(k))), "pool evaluation of order ", k, " (array) differs, ", d.str());
            CHECK(eq(rsa_pub(K.k, x), pool->eval(s)) && eq(rsa_pub(K.k, x), pool->eval(a)), "pool evaluation without order differs, ", d.str());
            Outcome o = attempt([&] { pool->eval(s, out, uint8_t(t.pick(2) || psize == 255 ? 0 : psize + 1)); });
            CHECK(o == INVALID_ARGUMENT, "an order outside the pool: ", outcome_name(o));
            if (k <= 3) CHECK(eq(x, inv->invert_mult(S(y), k)), "iterated inversion does not undo pool evaluation of order ", k);
            d << ", pool size " << psize << " order " << k;
            c.label(psize == 1 ? "pool of size 1" : k == psize ? "pool, maximum order" : "pool");
        }
        if (t.pick(6) == 0) { std::unique_ptr<TdpInverse> m(new TdpInverse(std::move(*inv))); inv = std::move(m); c.label("moved"); }
        if (t.pick(8) == 0) { Bytes bigx(256, 0xff); Outcome o = attempt([&] { inv->invert(S(bigx)); }); CHECK(o == INVALID_ARGUMENT, "inversion of a value above the modulus: ", outcome_name(o)); c.label("value above the modulus refused"); }
        static const char* const OPS[] = {"eval", "eval", "invert", "invert", "invert_mult", "invert_mult", "pool", "pool"};
        c.note(OPS[op], " ", d.str());
        c.nontrivial();
    }
}
