// Shared pieces of the trapdoor-permutation checks.
#pragma once
#include "lib.hpp"
#include "testkeys.hpp"
#include <sse/crypto/prf.hpp>
#include <sse/crypto/tdp.hpp>
#include <tdp_impl/tdp_impl.hpp>
namespace pbt {
struct TestKey { std::string sk, pk; RsaKey k; };
// the i-th fixed 2048-bit key, parsed by OpenSSL
inline const TestKey& test_key(unsigned i)
{
    static std::vector<std::unique_ptr<TestKey>> K(TEST_SK.size());
    i %= unsigned(K.size());
    if (!K[i]) {
        std::unique_ptr<TestKey> n(new TestKey);
        n->sk = TEST_SK[i];
        n->pk = ref_public_pem(TEST_SK[i]);
        if (!ref_parse_private(n->sk, n->k)) fail("test key ", i);
        K[i] = std::move(n);
    }
    return *K[i];
}
// a private key imported with a fair generator (its primality test may give up with an unfair one)
inline TdpInverse* import_private(const std::string& sk)
{
    struct Fair { unsigned m = rng_bias_now(); Fair() { rng_bias(0); } ~Fair() { rng_bias(m); } } fair;
    return new TdpInverse(sk);
}
// an element of Z_N; may be a special one. big: may also be >= N
inline Bytes gen_element(Tape& t, const RsaKey& k, bool big, std::string& kind)
{
    Bytes x(256, 0);
    mpz_t v, w;
    mpz_inits(v, w, nullptr);
    bool reduce = true;
    switch (t.pick(big ? 12 : 9)) {
    case 0: kind = "small"; mpz_set_ui(v, t.pick(4)); break;
    case 1: kind = "N-small"; mpz_sub_ui(v, k.n, 1 + t.pick(3)); break;
    case 2: kind = "multiple of p"; bytes_mpz(w, t.bytes(100)); mpz_mul(v, k.p, w); break;
    case 3: kind = "multiple of q"; bytes_mpz(w, t.bytes(100)); mpz_mul(v, k.q, w); break;
    case 4: kind = "leading zeros"; bytes_mpz(v, t.bytes(t.range(1, 250))); break;
    case 5: kind = "power of two"; mpz_setbit(v, t.range(0, 2046)); if (t.pick(2)) mpz_sub_ui(v, v, 1); break;
    case 6: kind = "near p or q"; mpz_set(v, t.pick(2) ? k.p : k.q); if (t.pick(2)) mpz_add_ui(v, v, t.pick(3)); else mpz_sub_ui(v, v, t.pick(3)); break;
    case 9: kind = ">=N"; mpz_add_ui(v, k.n, t.pick(3)); reduce = false; break;
    case 10: kind = ">=N"; for (int i = 0; i < 2048; i++) mpz_setbit(v, i); reduce = false; break;
    case 11: kind = ">=N"; { mpz_set_ui(w, 0); mpz_setbit(w, 2048); mpz_sub(w, w, k.n); Bytes r = t.bytes(256); bytes_mpz(v, r); mpz_mod(v, v, w); mpz_add(v, v, k.n); } reduce = false; break;
    default: kind = "random"; bytes_mpz(v, t.bytes(256)); break;
    }
    if (reduce) mpz_mod(v, v, k.n);
    x = mpz_bytes(v, 256);
    mpz_clears(v, w, nullptr);
    return x;
}
inline bool below_n(const RsaKey& k, const Bytes& x)
{
    mpz_t v;
    mpz_init(v);
    bytes_mpz(v, x);
    bool r = mpz_cmp(v, k.n) < 0;
    mpz_clear(v);
    return r;
}
// largest pool a key supports: e^size < N
inline unsigned pool_limit(const RsaKey& k)
{
    mpz_t v;
    mpz_init_set(v, k.e);
    unsigned n = 1;
    for (; n < 255; n++) { mpz_mul(v, v, k.e); if (mpz_cmp(v, k.n) >= 0) break; }
    mpz_clear(v);
    return n;
}
}
