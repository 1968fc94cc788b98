/* A stand-in for RELIC 0.5 (not installed here), with the calls the library uses and
 * their neighbours. The three groups of the pairing are represented by discrete
 * logarithms modulo the group order of BN-P254: bilinear, of the right order and with
 * the right sizes on the wire, and of no security whatever. */
#pragma once
#include <stddef.h>
#include <stdint.h>
#define RLC_OK 0
#define RLC_ERR 1
#define STS_OK 0
#define RLC_LT -1
#define RLC_EQ 0
#define RLC_GT 1
#define RLC_NE 2
#define RLC_POS 0
#define RLC_NEG 1
#define RLC_MIN(A, B) ((A) < (B) ? (A) : (B))
#define RLC_MAX(A, B) ((A) > (B) ? (A) : (B))
#define RLC_CEIL(A, B) (((A)-1) / (B) + 1)
#define RLC_BN_BITS 256
#define RLC_FP_BITS 254
#define RLC_FP_BYTES 32
#define RLC_MD_LEN 32
#define RLC_DIG 64
#define RLC_BN_SIZE 34
typedef uint64_t dig_t;
typedef struct { int alloc, used, sign; dig_t dp[RLC_BN_SIZE]; } bn_st;
typedef bn_st bn_t[1];
typedef struct { dig_t e[4]; } ep_st;   /* a discrete logarithm below the order */
typedef struct { dig_t e[4]; } ep2_st;
typedef struct { dig_t e[4]; } fp12_st;
typedef ep_st ep_t[1];
typedef ep2_st ep2_t[1];
typedef fp12_st fp12_t[1];
typedef ep_t g1_t;
typedef ep2_t g2_t;
typedef fp12_t gt_t;
typedef struct { int code; } ctx_t;

int core_init(void);
int core_clean(void);
ctx_t* core_get(void);
int pc_param_set_any(void);
void md_map_sh256(uint8_t* hash, const uint8_t* msg, int len);

#define bn_null(A) { }
#define bn_new(A) { bn_make(A); }
#define bn_free(A) { }
void bn_make(bn_st* a);
void bn_copy(bn_st* c, const bn_st* a);
void bn_abs(bn_st* c, const bn_st* a);
void bn_neg(bn_st* c, const bn_st* a);
void bn_zero(bn_st* a);
int bn_is_zero(const bn_st* a);
int bn_is_even(const bn_st* a);
int bn_sign(const bn_st* a);
int bn_bits(const bn_st* a);
int bn_get_bit(const bn_st* a, int bit);
void bn_set_bit(bn_st* a, int bit, int value);
void bn_set_dig(bn_st* a, dig_t d);
void bn_get_dig(dig_t* d, const bn_st* a);
void bn_rand(bn_st* a, int sign, int bits);
void bn_rand_mod(bn_st* a, const bn_st* b);
int bn_size_str(const bn_st* a, int radix);
void bn_read_str(bn_st* a, const char* str, int len, int radix);
void bn_write_str(char* str, int len, const bn_st* a, int radix);
int bn_size_bin(const bn_st* a);
void bn_read_bin(bn_st* a, const uint8_t* bin, int len);
void bn_write_bin(uint8_t* bin, int len, const bn_st* a);
int bn_cmp(const bn_st* a, const bn_st* b);
int bn_cmp_abs(const bn_st* a, const bn_st* b);
int bn_cmp_dig(const bn_st* a, dig_t b);
void bn_add(bn_st* c, const bn_st* a, const bn_st* b);
void bn_add_dig(bn_st* c, const bn_st* a, dig_t b);
void bn_sub(bn_st* c, const bn_st* a, const bn_st* b);
void bn_sub_dig(bn_st* c, const bn_st* a, dig_t b);
void bn_mul(bn_st* c, const bn_st* a, const bn_st* b);
void bn_mul_dig(bn_st* c, const bn_st* a, dig_t b);
void bn_sqr(bn_st* c, const bn_st* a);
void bn_dbl(bn_st* c, const bn_st* a);
void bn_hlv(bn_st* c, const bn_st* a);
void bn_lsh(bn_st* c, const bn_st* a, int bits);
void bn_rsh(bn_st* c, const bn_st* a, int bits);
void bn_div(bn_st* c, const bn_st* a, const bn_st* b);
void bn_div_rem(bn_st* c, bn_st* d, const bn_st* a, const bn_st* b);
void bn_mod(bn_st* c, const bn_st* a, const bn_st* m);
void bn_mxp(bn_st* c, const bn_st* a, const bn_st* b, const bn_st* m);
void bn_gcd(bn_st* c, const bn_st* a, const bn_st* b);
void bn_gcd_ext(bn_st* c, bn_st* d, bn_st* e, const bn_st* a, const bn_st* b);
void bn_mod_inv(bn_st* c, const bn_st* a, const bn_st* m);
void bn_trim(bn_st* a);

#define STANDIN_GROUP(G, T) \
    void G##_make_(T* a); \
    void G##_copy_(T* r, const T* a); \
    int G##_cmp_(const T* a, const T* b); \
    void G##_id_(T* a); \
    int G##_is_id_(const T* a); \
    void G##_rand_(T* a); \
    void G##_gen_(T* a); \
    void G##_ord_(bn_st* n); \
    void G##_op_(T* r, const T* a, const T* b); \
    void G##_div_(T* r, const T* a, const T* b); \
    void G##_inv_(T* r, const T* a); \
    void G##_dbl_(T* r, const T* a); \
    void G##_pow_(T* r, const T* a, const bn_st* k); \
    void G##_powgen_(T* r, const bn_st* k); \
    void G##_map_(T* r, const uint8_t* msg, int len); \
    int G##_valid_(const T* a); \
    int G##_size_(const T* a, int pack); \
    void G##_read_(T* a, const uint8_t* bin, int len); \
    void G##_write_(uint8_t* bin, int len, const T* a, int pack);
STANDIN_GROUP(g1, ep_st)
STANDIN_GROUP(g2, ep2_st)
STANDIN_GROUP(gt, fp12_st)
/* in RELIC these end with semicolons, and the library relies on it in places */
#define g1_null(A) { }
#define g1_new(A) g1_make_(A);
#define g1_free(A) { }
#define g1_copy(R, P) g1_copy_(R, P)
#define g1_cmp(P, Q) g1_cmp_(P, Q)
#define g1_set_infty(P) g1_id_(P)
#define g1_is_infty(P) g1_is_id_(P)
#define g1_is_valid(P) g1_valid_(P)
#define g1_rand(P) g1_rand_(P)
#define g1_get_gen(G) g1_gen_(G)
#define g1_get_ord(N) g1_ord_(N)
#define g1_add(R, P, Q) g1_op_(R, P, Q);
#define g1_sub(R, P, Q) g1_div_(R, P, Q);
#define g1_dbl(R, P) g1_dbl_(R, P);
#define g1_neg(R, P) g1_inv_(R, P)
#define g1_norm(R, P) g1_copy_(R, P);
#define g1_mul(R, P, K) g1_pow_(R, P, K)
#define g1_mul_gen(R, K) g1_powgen_(R, K)
#define g1_map(P, M, L) g1_map_(P, M, L);
#define g1_size_bin(P, C) g1_size_(P, C)
#define g1_read_bin(P, B, L) g1_read_(P, B, L)
#define g1_write_bin(B, L, P, C) g1_write_(B, L, P, C)
#define g2_null(A) { }
#define g2_new(A) g2_make_(A);
#define g2_free(A) { }
#define g2_copy(R, P) g2_copy_(R, P)
#define g2_cmp(P, Q) g2_cmp_(P, Q)
#define g2_set_infty(P) g2_id_(P)
#define g2_is_infty(P) g2_is_id_(P)
#define g2_is_valid(P) g2_valid_(P)
#define g2_rand(P) g2_rand_(P)
#define g2_get_gen(G) g2_gen_(G)
#define g2_get_ord(N) g2_ord_(N)
#define g2_add(R, P, Q) g2_op_(R, P, Q);
#define g2_sub(R, P, Q) g2_div_(R, P, Q);
#define g2_dbl(R, P) g2_dbl_(R, P);
#define g2_neg(R, P) g2_inv_(R, P)
#define g2_norm(R, P) g2_copy_(R, P);
#define g2_mul(R, P, K) g2_pow_(R, P, K)
#define g2_mul_gen(R, K) g2_powgen_(R, K)
#define g2_map(P, M, L) g2_map_(P, M, L);
#define g2_size_bin(P, C) g2_size_(P, C)
#define g2_read_bin(P, B, L) g2_read_(P, B, L)
#define g2_write_bin(B, L, P, C) g2_write_(B, L, P, C)
#define gt_null(A) { }
#define gt_new(A) gt_make_(A);
#define gt_free(A) { }
#define gt_copy(R, P) gt_copy_(R, P)
#define gt_cmp(P, Q) gt_cmp_(P, Q)
#define gt_set_unity(P) gt_id_(P)
#define gt_is_unity(P) gt_is_id_(P)
#define gt_is_valid(P) gt_valid_(P)
#define gt_rand(P) gt_rand_(P)
#define gt_get_gen(G) gt_gen_(G)
#define gt_get_ord(N) gt_ord_(N)
#define gt_mul(R, P, Q) gt_op_(R, P, Q)
#define gt_sqr(R, P) gt_dbl_(R, P)
#define gt_inv(R, P) gt_inv_(R, P)
#define gt_exp(R, P, K) gt_pow_(R, P, K);
#define gt_exp_gen(R, K) gt_powgen_(R, K);
#define gt_size_bin(P, C) gt_size_(P, C)
#define gt_read_bin(P, B, L) gt_read_(P, B, L)
#define gt_write_bin(B, L, P, C) gt_write_(B, L, P, C)
void standin_pair(fp12_st* r, const ep_st* p, const ep2_st* q);
#define pp_map_oatep_k12(R, P, Q) standin_pair(R, P, Q)
#define pp_map_tatep_k12(R, P, Q) standin_pair(R, P, Q)
#define pp_map_k12(R, P, Q) standin_pair(R, P, Q)
#define pc_map(R, P, Q) standin_pair(R, P, Q)
