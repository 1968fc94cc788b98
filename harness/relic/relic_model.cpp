// The stand-in for RELIC described in relic/relic.h, on GMP.
#include <gmpxx.h>
#include <sodium.h>
#include <cstring>
#include <string>
#include <vector>
extern "C" {
#include "relic/relic.h"
#include "relic/relic_conf.h"
}
namespace {
typedef mpz_class Z;
const Z& order() { static const Z n("2523648240000001BA344D8000000007FF9F800000000010A10000000000000D", 16); return n; }
Z get(const bn_st* a)
{
    Z z;
    mpz_import(z.get_mpz_t(), size_t(a->used < 1 ? 0 : a->used), -1, 8, 0, 0, a->dp);
    return a->sign == RLC_NEG ? Z(-z) : z;
}
void put(bn_st* a, const Z& z)
{
    size_t n = 0;
    dig_t d[RLC_BN_SIZE * 4] = {0};
    if (mpz_sizeinbase(z.get_mpz_t(), 2) > RLC_BN_SIZE * 64) abort(); // RELIC reports ERR_NO_PRECI
    mpz_export(d, &n, -1, 8, 0, 0, z.get_mpz_t());
    memset(a->dp, 0, sizeof a->dp);
    memcpy(a->dp, d, n * 8);
    a->alloc = RLC_BN_SIZE;
    a->used = n ? int(n) : 1;
    a->sign = sgn(z) < 0 ? RLC_NEG : RLC_POS;
}
Z mod(const Z& a, const Z& m) { Z r; mpz_fdiv_r(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t()); return r; }
Z from(const uint8_t* b, size_t n) { Z z; mpz_import(z.get_mpz_t(), n, 1, 1, 0, 0, b); return z; }
void to(uint8_t* b, size_t n, const Z& z)
{
    std::vector<uint8_t> v(n + 1024, 0);
    size_t k = 0;
    mpz_export(v.data(), &k, 1, 1, 0, 0, z.get_mpz_t());
    if (k > n) abort(); // RELIC reports ERR_NO_BUFFER
    memset(b, 0, n);
    memcpy(b + n - k, v.data(), k);
}
Z lg(const dig_t* e) { Z z; mpz_import(z.get_mpz_t(), 4, -1, 8, 0, 0, e); return z; }
void setlg(dig_t* e, const Z& z) { Z r = mod(z, order()); size_t n = 0; memset(e, 0, 32); mpz_export(e, &n, -1, 8, 0, 0, r.get_mpz_t()); }
Z random_below(const Z& n)
{
    uint8_t b[64];
    randombytes_buf(b, sizeof b);
    return mod(from(b, 64), n);
}
thread_local ctx_t* g_ctx = nullptr;
thread_local ctx_t g_one;
}
extern "C" {
int core_init(void) { g_ctx = &g_one; return RLC_OK; }
int core_clean(void) { g_ctx = nullptr; return RLC_OK; }
ctx_t* core_get(void) { return g_ctx; }
int pc_param_set_any(void) { return RLC_OK; }
void md_map_sh256(uint8_t* h, const uint8_t* m, int n) { crypto_hash_sha256(h, m, size_t(n)); }

void bn_make(bn_st* a) { put(a, 0); }
void bn_copy(bn_st* c, const bn_st* a) { if (c != a) put(c, get(a)); }
void bn_abs(bn_st* c, const bn_st* a) { put(c, abs(get(a))); }
void bn_neg(bn_st* c, const bn_st* a) { put(c, -get(a)); }
void bn_zero(bn_st* a) { put(a, 0); }
int bn_is_zero(const bn_st* a) { return get(a) == 0; }
int bn_is_even(const bn_st* a) { return mpz_even_p(get(a).get_mpz_t()) != 0; }
int bn_sign(const bn_st* a) { return a->sign; }
int bn_bits(const bn_st* a) { Z z = get(a); return z == 0 ? 0 : int(mpz_sizeinbase(z.get_mpz_t(), 2)); }
int bn_get_bit(const bn_st* a, int bit) { Z z = abs(get(a)); return mpz_tstbit(z.get_mpz_t(), mp_bitcnt_t(bit)); }
void bn_set_bit(bn_st* a, int bit, int v) { Z z = get(a); if (v) mpz_setbit(z.get_mpz_t(), mp_bitcnt_t(bit)); else mpz_clrbit(z.get_mpz_t(), mp_bitcnt_t(bit)); put(a, z); }
void bn_set_dig(bn_st* a, dig_t d) { put(a, Z((unsigned long)d)); }
void bn_get_dig(dig_t* d, const bn_st* a) { *d = a->dp[0]; }
void bn_rand(bn_st* a, int sign, int bits)
{
    Z n = 1;
    n <<= bits;
    Z z = random_below(n);
    put(a, sign == RLC_NEG ? Z(-z) : z);
}
void bn_rand_mod(bn_st* a, const bn_st* b) { put(a, random_below(get(b))); }
int bn_size_str(const bn_st* a, int radix) { return int(get(a).get_str(radix).size()) + 1; }
void bn_read_str(bn_st* a, const char* s, int len, int radix) { put(a, Z(std::string(s, strnlen(s, size_t(len))), radix)); }
void bn_write_str(char* s, int len, const bn_st* a, int radix)
{
    std::string t = get(a).get_str(radix);
    if (len < int(t.size()) + 1) abort(); // ERR_NO_BUFFER
    memcpy(s, t.c_str(), t.size() + 1);
}
int bn_size_bin(const bn_st* a) { return (bn_bits(a) + 7) / 8; }
void bn_read_bin(bn_st* a, const uint8_t* b, int n) { put(a, from(b, size_t(n))); }
void bn_write_bin(uint8_t* b, int n, const bn_st* a) { to(b, size_t(n), abs(get(a))); }
static int sg(int c) { return c < 0 ? RLC_LT : c > 0 ? RLC_GT : RLC_EQ; }
int bn_cmp(const bn_st* a, const bn_st* b) { return sg(cmp(get(a), get(b))); }
int bn_cmp_abs(const bn_st* a, const bn_st* b) { return sg(cmp(Z(abs(get(a))), Z(abs(get(b))))); }
int bn_cmp_dig(const bn_st* a, dig_t b) { return sg(cmp(get(a), Z((unsigned long)b))); }
void bn_add(bn_st* c, const bn_st* a, const bn_st* b) { put(c, get(a) + get(b)); }
void bn_add_dig(bn_st* c, const bn_st* a, dig_t b) { put(c, get(a) + Z((unsigned long)b)); }
void bn_sub(bn_st* c, const bn_st* a, const bn_st* b) { put(c, get(a) - get(b)); }
void bn_sub_dig(bn_st* c, const bn_st* a, dig_t b) { put(c, get(a) - Z((unsigned long)b)); }
void bn_mul(bn_st* c, const bn_st* a, const bn_st* b) { put(c, get(a) * get(b)); }
void bn_mul_dig(bn_st* c, const bn_st* a, dig_t b) { put(c, get(a) * Z((unsigned long)b)); }
void bn_sqr(bn_st* c, const bn_st* a) { put(c, get(a) * get(a)); }
void bn_dbl(bn_st* c, const bn_st* a) { put(c, get(a) * 2); }
void bn_hlv(bn_st* c, const bn_st* a) { put(c, get(a) / 2); }
void bn_lsh(bn_st* c, const bn_st* a, int n) { put(c, get(a) << n); }
void bn_rsh(bn_st* c, const bn_st* a, int n) { put(c, get(a) >> n); }
void bn_div(bn_st* c, const bn_st* a, const bn_st* b) { Z q; mpz_fdiv_q(q.get_mpz_t(), get(a).get_mpz_t(), get(b).get_mpz_t()); put(c, q); }
void bn_div_rem(bn_st* c, bn_st* d, const bn_st* a, const bn_st* b) { Z x = get(a), y = get(b), q, r; mpz_fdiv_qr(q.get_mpz_t(), r.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()); put(c, q); put(d, r); }
void bn_mod(bn_st* c, const bn_st* a, const bn_st* m) { put(c, mod(get(a), get(m))); }
void bn_mxp(bn_st* c, const bn_st* a, const bn_st* b, const bn_st* m)
{
    Z r, x = get(a), e = get(b), n = get(m);
    mpz_powm(r.get_mpz_t(), x.get_mpz_t(), e.get_mpz_t(), n.get_mpz_t());
    put(c, r);
}
void bn_gcd(bn_st* c, const bn_st* a, const bn_st* b) { put(c, gcd(get(a), get(b))); }
void bn_gcd_ext(bn_st* c, bn_st* d, bn_st* e, const bn_st* a, const bn_st* b)
{
    Z g, s, t, x = get(a), y = get(b);
    mpz_gcdext(g.get_mpz_t(), s.get_mpz_t(), t.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t());
    put(c, g);
    if (d) put(d, s);
    if (e) put(e, t);
}
void bn_mod_inv(bn_st* c, const bn_st* a, const bn_st* m) { Z r, x = get(a), n = get(m); mpz_invert(r.get_mpz_t(), x.get_mpz_t(), n.get_mpz_t()); put(c, r); }
void bn_trim(bn_st* a) { while (a->used > 1 && a->dp[a->used - 1] == 0) a->used--; if (a->used == 1 && a->dp[0] == 0) a->sign = RLC_POS; }

// the second coordinate of an uncompressed point, and the rest of a GT element: bytes that
// depend on the whole element and on the group
static void rest(uint8_t* out, size_t n, uint8_t group, const Z& z)
{
    uint8_t k[33];
    k[0] = group;
    to(k + 1, 32, z);
    crypto_generichash_blake2b_state st;
    for (size_t i = 0, c = 0; i < n; i += 32, c++) {
        uint8_t h[32], i8 = uint8_t(c);
        crypto_generichash_blake2b_init(&st, nullptr, 0, 32);
        crypto_generichash_blake2b_update(&st, k, 33);
        crypto_generichash_blake2b_update(&st, &i8, 1);
        crypto_generichash_blake2b_final(&st, h, 32);
        memcpy(out + i, h, n - i < 32 ? n - i : 32);
    }
}
#define GROUP(G, T, ID, COMPACT, FULL) \
    void G##_make_(T* a) { memset(a, 0, sizeof *a); } \
    void G##_copy_(T* r, const T* a) { if (r != a) *r = *a; } \
    int G##_cmp_(const T* a, const T* b) { return memcmp(a, b, sizeof *a) == 0 ? RLC_EQ : RLC_NE; } \
    void G##_id_(T* a) { setlg(a->e, 0); } \
    int G##_is_id_(const T* a) { return lg(a->e) == 0; } \
    void G##_rand_(T* a) { setlg(a->e, random_below(order())); } \
    void G##_gen_(T* a) { setlg(a->e, 1); } \
    void G##_ord_(bn_st* n) { put(n, order()); } \
    void G##_op_(T* r, const T* a, const T* b) { setlg(r->e, lg(a->e) + lg(b->e)); } \
    void G##_div_(T* r, const T* a, const T* b) { setlg(r->e, lg(a->e) - lg(b->e)); } \
    void G##_inv_(T* r, const T* a) { setlg(r->e, -lg(a->e)); } \
    void G##_dbl_(T* r, const T* a) { setlg(r->e, 2 * lg(a->e)); } \
    void G##_pow_(T* r, const T* a, const bn_st* k) { setlg(r->e, lg(a->e) * get(k)); } \
    void G##_powgen_(T* r, const bn_st* k) { setlg(r->e, get(k)); } \
    void G##_map_(T* r, const uint8_t* m, int n) { uint8_t h[64]; crypto_generichash(h, 64, m, size_t(n), (const uint8_t*)#G "-standin-map-key", 17); setlg(r->e, from(h, 64)); } \
    int G##_valid_(const T* a) { return lg(a->e) < order(); } \
    int G##_size_(const T* a, int pack) { return ID != 3 && lg(a->e) == 0 ? 1 : pack ? COMPACT : FULL; } \
    void G##_write_(uint8_t* b, int n, const T* a, int pack) \
    { \
        Z z = lg(a->e); \
        int w = G##_size_(a, pack); \
        if (n < w) abort(); /* ERR_NO_BUFFER */ \
        memset(b, 0, size_t(n)); \
        if (w == 1) return; \
        size_t o = ID == 3 ? 0 : 1; \
        if (o) b[0] = pack ? 2 : 4; \
        to(b + o, 32, z); \
        rest(b + o + 32, size_t(w) - o - 32, ID, z); \
    } \
    void G##_read_(T* a, const uint8_t* b, int n) \
    { \
        size_t o = ID == 3 ? 0 : 1; \
        if (n == 1 && b[0] == 0) { setlg(a->e, 0); return; } \
        if (n != COMPACT && n != FULL) { setlg(a->e, 0); return; } /* ERR_NO_BUFFER */ \
        if (o && !(n == COMPACT ? b[0] == 2 || b[0] == 3 : b[0] == 4)) { setlg(a->e, 0); return; } /* ERR_NO_VALID */ \
        setlg(a->e, from(b + o, 32)); \
    }
GROUP(g1, ep_st, 1, 33, 65)
GROUP(g2, ep2_st, 2, 65, 129)
GROUP(gt, fp12_st, 3, 256, 384)
void standin_pair(fp12_st* r, const ep_st* p, const ep2_st* q) { setlg(r->e, lg(p->e) * lg(q->e)); }
}
