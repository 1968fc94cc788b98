#include "lib.hpp"
#include <gmp.h>
extern "C" {
#include <mbedtls/bignum.h>
}
using namespace pbt;
const char* pbt::PROP_ID = "C20";
const char* pbt::PROP_RULE = "a history in which at least one operation had two operands of at least one full limb each, or reported a documented error";
size_t pbt::prop_tape_len() { return 500; }
void pbt::prop_setup() { lib_init_tape_rng(); }

struct Z { // GMP value
    mpz_t v;
    Z() { mpz_init(v); }
    Z(const Z& o) { mpz_init_set(v, o.v); }
    Z(long x) { mpz_init_set_si(v, x); }
    Z& operator=(const Z& o) { mpz_set(v, o.v); return *this; }
    ~Z() { mpz_clear(v); }
    operator mpz_ptr() { return v; }
    operator mpz_srcptr() const { return v; }
    std::string str() const { char* s = mpz_get_str(nullptr, 16, v); std::string r(s); free(s); return r.size() > 80 ? r.substr(0, 40) + ".." + std::to_string(mpz_sizeinbase(v, 2)) + " bits" : r; }
    size_t bits() const { return mpz_sgn(v) == 0 ? 0 : mpz_sizeinbase(v, 2); }
};
struct Reg { // the library's object and what it must hold
    mbedtls_mpi m;
    Z z;
    bool defined = true;
    Reg() { mbedtls_mpi_init(&m); }
    ~Reg() { mbedtls_mpi_free(&m); }
    Reg(const Reg&) = delete;
};
static Z value(const mbedtls_mpi& m)
{
    CHECK(m.s == 1 || m.s == -1, "sign field ", m.s);
    Z r;
    if (m.n) mpz_import(r, m.n, -1, sizeof(mbedtls_mpi_uint), 0, 0, m.p);
    if (m.s < 0) mpz_neg(r, r);
    return r;
}
// sets the object, possibly with superfluous leading zero limbs
static void store(Reg& r, const Z& z, unsigned extra)
{
    const size_t L = sizeof(mbedtls_mpi_uint);
    size_t n = (z.bits() + 8 * L - 1) / (8 * L);
    if (n == 0) n = 1;
    mbedtls_mpi_free(&r.m);
    if (mbedtls_mpi_grow(&r.m, n + extra)) fail("grow");
    size_t cnt = 0;
    mpz_export(r.m.p, &cnt, -1, L, 0, 0, z);
    r.m.s = mpz_sgn(z.v) < 0 ? -1 : 1;
    r.z = z;
}
static Z gen(Tape& t, const Z* near, size_t maxlimbs)
{
    Z z;
    unsigned how = t.pick(12);
    if (how == 0) { mpz_set_ui(z, t.u8()); }
    else if (how == 1) { // 2^k + d
        mpz_set_ui(z, 1);
        mpz_mul_2exp(z, z, t.range(0, 64 * maxlimbs - 1));
        long d = long(t.u8()) - 128;
        Z dd(d);
        if (t.pick(2)) mpz_add(z, z, dd);
    } else if (how == 2 && near) { // close to another operand
        z = *near;
        Z dd(long(t.u8()) - 128);
        mpz_add(z, z, dd);
    } else if (how == 3 && near) { // a multiple of another operand, nearly
        Z k(long(t.raw(3)));
        mpz_mul(z, *near, k);
        if (t.pick(2)) mpz_mul_2exp(z, z, 64 * t.pick(4));
        Z dd(long(t.u8()) - 128);
        mpz_add(z, z, dd);
    } else if (how <= 8) { // limbs out of extreme patterns
        size_t n = 1 + t.range(0, maxlimbs - 1);
        if (t.pick(2)) n = 1 + n % 5;
        std::vector<uint64_t> l(n);
        for (size_t i = 0; i < n; i++) {
            switch (t.pick(10)) {
            case 0: case 1: l[i] = 0; break;
            case 2: case 3: l[i] = ~0ull; break;
            case 4: l[i] = 1ull << 63; break;
            case 5: l[i] = t.pick(4); break;
            case 6: l[i] = ~0ull - t.pick(4); break;
            case 7: l[i] = (1ull << 32) - t.pick(3); break;
            case 8: l[i] = (1ull << 63) - 1 + t.pick(3); break;
            default: l[i] = t.u64();
            }
        }
        mpz_import(z, n, -1, 8, 0, 0, l.data());
    } else {
        Bytes b = t.bytes(1 + t.range(0, 8 * maxlimbs - 1));
        mpz_import(z, b.size(), 1, 1, 1, 0, b.data());
    }
    if (mpz_sgn(z.v) < 0 || t.pick(3) == 0) mpz_neg(z, z);
    return z;
}
static const int NR = 5;
struct World {
    Reg r[NR];
    void verify(const char* what)
    {
        for (int i = 0; i < NR; i++) {
            Z v = value(r[i].m);
            CHECK(mpz_cmp(v, r[i].z) == 0, what, ": register ", i, " holds ", v.str(), " instead of ", r[i].z.str());
        }
    }
};
static void must(int ret, const char* what) { CHECK(ret == 0, what, " returned ", ret); }
static mbedtls_mpi_sint small_int(Tape& t)
{
    switch (t.pick(8)) {
    case 7: return INT64_MIN;
    case 0: return 0;
    case 1: return t.pick(20);
    case 2: return -long(t.pick(20));
    case 3: return INT64_MAX - t.pick(3);
    case 4: return -INT64_MAX + t.pick(3);
    case 5: return long(t.u64() >> 1) * (t.pick(2) ? 1 : -1);
    default: return long(t.raw(4));
    }
}

void pbt::prop_case(Tape& t, Ctx& c)
{
    rng_seed(t.raw(4));
    World w;
    size_t maxlimbs = t.pick(4) == 0 ? 40 : 9;
    for (int i = 0; i < NR; i++) {
        Z z = gen(t, i ? &w.r[i - 1].z : nullptr, maxlimbs);
        store(w.r[i], z, t.pick(3) == 0 ? t.pick(4) : 0);
    }
    w.verify("initial values");
    unsigned steps = 1 + t.pick(14);
    for (unsigned k = 0; k < steps; k++) {
        unsigned xi = t.pick(NR), ai = t.pick(NR), bi = t.pick(NR), ci = t.pick(NR);
        Reg &X = w.r[xi], &A = w.r[ai], &Bq = w.r[bi], &C = w.r[ci];
        if (A.z.bits() > 64 * 60) { Z z; mpz_tdiv_q_2exp(z, A.z, A.z.bits() - 64 * 9); store(A, z, 0); }
        if (Bq.z.bits() > 64 * 60) { Z z; mpz_tdiv_q_2exp(z, Bq.z, Bq.z.bits() - 64 * 9); store(Bq, z, 0); }
        if (t.pick(4) == 0) store(Bq, gen(t, &A.z, maxlimbs), t.pick(3));
        Z za = A.z, zb = Bq.z, want;
        bool big = za.bits() > 64 && zb.bits() > 64;
        unsigned op = t.pick(27);
        std::string lab;
        switch (op) {
        case 0: lab = "add"; must(mbedtls_mpi_add_mpi(&X.m, &A.m, &Bq.m), "add_mpi"); mpz_add(want, za, zb); X.z = want; c.nontrivial(big); break;
        case 1: lab = "sub"; must(mbedtls_mpi_sub_mpi(&X.m, &A.m, &Bq.m), "sub_mpi"); mpz_sub(want, za, zb); X.z = want; c.nontrivial(big); break;
        case 2: lab = "add_abs"; must(mbedtls_mpi_add_abs(&X.m, &A.m, &Bq.m), "add_abs"); mpz_abs(za, za); mpz_abs(zb, zb); mpz_add(want, za, zb); X.z = want; c.nontrivial(big); break;
        case 3: {
            lab = "sub_abs";
            int ret = mbedtls_mpi_sub_abs(&X.m, &A.m, &Bq.m);
            if (mpz_cmpabs(za, zb) < 0) { CHECK(ret == MBEDTLS_ERR_MPI_NEGATIVE_VALUE, "sub_abs with a negative result returned ", ret); c.nontrivial(); }
            else { must(ret, "sub_abs"); mpz_abs(za, za); mpz_abs(zb, zb); mpz_sub(want, za, zb); X.z = want; c.nontrivial(big); }
            break; }
        case 4: case 5: case 6: lab = "mul"; must(mbedtls_mpi_mul_mpi(&X.m, &A.m, &Bq.m), "mul_mpi"); mpz_mul(want, za, zb); X.z = want; c.nontrivial(big); break;
        case 7: case 8: case 9: { // division: quotient and remainder are other objects or the dividend itself
            lab = "div";
            bool wq = t.pick(4) != 0, wr = t.pick(4) != 0;
            Reg *Q = &X, *R = &C;
            if (Q == &Bq && t.pick(2)) Q = &A;
            if (Q == R) wr = false;
            int ret = mbedtls_mpi_div_mpi(wq ? &Q->m : nullptr, wr ? &R->m : nullptr, &A.m, &Bq.m);
            if (mpz_sgn(zb.v) == 0) { CHECK(ret == MBEDTLS_ERR_MPI_DIVISION_BY_ZERO, "division by zero returned ", ret); c.nontrivial(); break; }
            must(ret, "div_mpi");
            Z q, r;
            mpz_tdiv_qr(q, r, za, zb);
            if (wq) Q->z = q;
            if (wr) R->z = r;
            c.nontrivial(big);
            break; }
        case 10: case 11: { // reduction
            lab = "mod";
            Reg* R = &X == &Bq ? &A : &X;
            if (R == &Bq) break;
            int ret = mbedtls_mpi_mod_mpi(&R->m, &A.m, &Bq.m);
            if (mpz_sgn(zb.v) <= 0) { CHECK(ret == (mpz_sgn(zb.v) < 0 ? MBEDTLS_ERR_MPI_NEGATIVE_VALUE : MBEDTLS_ERR_MPI_DIVISION_BY_ZERO), "reduction by a modulus <= 0 returned ", ret); c.nontrivial(); break; }
            must(ret, "mod_mpi");
            mpz_mod(want, za, zb);
            R->z = want;
            c.nontrivial(big);
            break; }
        case 12: { // small integers
            mbedtls_mpi_sint b = small_int(t);
            Z zi(b);
            switch (t.pick(6)) {
            case 0: lab = "add_int"; must(mbedtls_mpi_add_int(&X.m, &A.m, b), "add_int"); mpz_add(want, za, zi); X.z = want; break;
            case 1: lab = "sub_int"; must(mbedtls_mpi_sub_int(&X.m, &A.m, b), "sub_int"); mpz_sub(want, za, zi); X.z = want; break;
            case 2: { lab = "mul_int"; mbedtls_mpi_uint u = mbedtls_mpi_uint(b); must(mbedtls_mpi_mul_int(&X.m, &A.m, u), "mul_int"); mpz_mul_ui(want, za, u); X.z = want; break; }
            case 3: {
                lab = "div_int";
                bool wr = &C != &X && t.pick(2);
                int ret = mbedtls_mpi_div_int(&X.m, wr ? &C.m : nullptr, &A.m, b);
                if (b == 0) { CHECK(ret == MBEDTLS_ERR_MPI_DIVISION_BY_ZERO, "division by zero returned ", ret); c.nontrivial(); break; }
                must(ret, "div_int");
                Z q, r;
                mpz_tdiv_qr(q, r, za, zi);
                X.z = q;
                if (wr) C.z = r;
                break; }
            case 4: {
                lab = "mod_int";
                mbedtls_mpi_uint r = 77;
                int ret = mbedtls_mpi_mod_int(&r, &A.m, b);
                if (b <= 0) { CHECK(ret == (b < 0 ? MBEDTLS_ERR_MPI_NEGATIVE_VALUE : MBEDTLS_ERR_MPI_DIVISION_BY_ZERO), "mod_int by ", b, " returned ", ret); c.nontrivial(); break; }
                must(ret, "mod_int");
                mpz_mod(want, za, zi);
                CHECK(mpz_cmp_ui(want.v, r) == 0, "mod_int: ", za.str(), " mod ", b, " = ", r, " instead of ", want.str());
                break; }
            default:
                lab = "lset/cmp_int";
                if (t.pick(2)) { must(mbedtls_mpi_lset(&X.m, b), "lset"); X.z = zi; }
                if (t.pick(2)) { must(mbedtls_mpi_lset(&A.m, b), "lset"); A.z = zi; za = zi; }
                za = A.z;
                int want_c = mpz_cmp(za, zi), got = mbedtls_mpi_cmp_int(&A.m, b);
                CHECK((want_c > 0) == (got > 0) && (want_c < 0) == (got < 0), "cmp_int(", za.str(), ", ", b, ") = ", got);
            }
            break; }
        case 13: case 14: { // modular exponentiation
            lab = "exp_mod";
            Z n = zb, e = C.z;
            Reg N, E, RR;
            size_t bits = t.pick(8) == 0 ? 2100 : 320;
            if (n.bits() > bits) mpz_tdiv_r_2exp(n, n, bits);
            if (e.bits() > bits) mpz_tdiv_r_2exp(e, e, bits / 2);
            if (t.pick(6)) mpz_abs(n, n);
            if (t.pick(6)) mpz_abs(e, e);
            if (t.pick(6)) mpz_setbit(n, 0);
            store(N, n, t.pick(3) == 0 ? t.pick(3) : 0);
            store(E, e, t.pick(3) == 0 ? t.pick(3) : 0);
            bool cache = t.pick(2);
            Reg* R = &X;
            int ret = mbedtls_mpi_exp_mod(&R->m, &A.m, &E.m, &N.m, cache ? &RR.m : nullptr);
            if (mpz_sgn(n.v) < 0 || !mpz_tstbit(n, 0) || mpz_sgn(e.v) < 0) { CHECK(ret == MBEDTLS_ERR_MPI_BAD_INPUT_DATA, "exp_mod with an invalid modulus or exponent returned ", ret); c.nontrivial(); }
            else {
                must(ret, "exp_mod");
                mpz_powm(want, za, e, n);
                R->z = want;
                w.verify("exp_mod");
                CHECK(mpz_cmp(value(N.m), n) == 0 && mpz_cmp(value(E.m), e) == 0, "exp_mod changed its modulus or exponent");
                if (cache) { // the cached value must serve other bases and exponents
                    must(mbedtls_mpi_exp_mod(&C.m, &A.m, &N.m, &N.m, &RR.m), "exp_mod with a cached value");
                    Z base = A.z;
                    mpz_powm(want, base, n, n);
                    C.z = want;
                }
                c.nontrivial(big);
            }
            break; }
        case 15: case 16: { // inverse
            lab = "inv_mod";
            Z n = zb;
            if (n.bits() > 700) mpz_tdiv_r_2exp(n, n, 700);
            if (t.pick(6)) mpz_abs(n, n);
            Reg N;
            store(N, n, t.pick(3));
            int ret = mbedtls_mpi_inv_mod(&X.m, &A.m, &N.m);
            if (mpz_cmp_ui(n.v, 1) <= 0) { CHECK(ret == MBEDTLS_ERR_MPI_BAD_INPUT_DATA, "inverse modulo ", n.str(), " returned ", ret); c.nontrivial(); }
            else if (!mpz_invert(want, za, n)) { CHECK(ret == MBEDTLS_ERR_MPI_NOT_ACCEPTABLE, "inverse of a non-invertible number returned ", ret); c.nontrivial(); }
            else { must(ret, "inv_mod"); mpz_mod(want, want, n); X.z = want; c.nontrivial(big); }
            CHECK(mpz_cmp(value(N.m), n) == 0, "inv_mod changed its modulus");
            break; }
        case 17: {
            lab = "gcd";
            if (A.z.bits() > 1500 || Bq.z.bits() > 1500) break;
            must(mbedtls_mpi_gcd(&X.m, &A.m, &Bq.m), "gcd");
            mpz_gcd(want, za, zb);
            X.z = want;
            c.nontrivial(big);
            break; }
        case 18: {
            size_t n = t.pick(3) ? t.pick(140) : 64 * t.pick(12);
            if (t.pick(2)) { lab = "shift_l"; must(mbedtls_mpi_shift_l(&X.m, n), "shift_l"); mpz_mul_2exp(X.z, X.z, n); }
            else { lab = "shift_r"; if (t.pick(8) == 0) n = 8 * sizeof(mbedtls_mpi_uint) * X.m.n + t.pick(3) - (X.m.n ? 1 : 0); must(mbedtls_mpi_shift_r(&X.m, n), "shift_r"); mpz_tdiv_q_2exp(X.z, X.z, n); }
            c.nontrivial(X.z.bits() > 64);
            break; }
        case 19: {
            lab = "cmp";
            int x = mbedtls_mpi_cmp_mpi(&A.m, &Bq.m), y = mpz_cmp(za, zb), u = mbedtls_mpi_cmp_abs(&A.m, &Bq.m), v = mpz_cmpabs(za, zb);
            CHECK(x == (y > 0) - (y < 0), "cmp_mpi(", za.str(), ", ", zb.str(), ") = ", x);
            CHECK(u == (v > 0) - (v < 0), "cmp_abs(", za.str(), ", ", zb.str(), ") = ", u);
            break; }
        case 20: {
            lab = "bits";
            Z p;
            mpz_abs(p, za);
            CHECK(mbedtls_mpi_bitlen(&A.m) == za.bits() && mbedtls_mpi_size(&A.m) == (za.bits() + 7) / 8, "bit length of ", za.str(), ": ", mbedtls_mpi_bitlen(&A.m));
            CHECK(mbedtls_mpi_lsb(&A.m) == (za.bits() ? mpz_scan1(p, 0) : 0), "trailing zeros of ", za.str());
            size_t pos = t.range(0, za.bits() + 130);
            CHECK(mbedtls_mpi_get_bit(&A.m, pos) == mpz_tstbit(p, pos), "bit ", pos, " of ", za.str());
            unsigned char val = t.pick(8) == 0 ? t.u8() : t.pick(2);
            int ret = mbedtls_mpi_set_bit(&A.m, pos, val);
            if (val > 1) { CHECK(ret == MBEDTLS_ERR_MPI_BAD_INPUT_DATA, "set_bit to ", int(val), " returned ", ret); c.nontrivial(); }
            else { must(ret, "set_bit"); if (val) mpz_setbit(p, pos); else mpz_clrbit(p, pos); if (A.m.s < 0) mpz_neg(p, p); A.z = p; }
            break; }
        case 21: { // binary import and export
            lab = "binary";
            size_t need = (za.bits() + 7) / 8, len = t.pick(3) == 0 && need ? need - 1 - t.range(0, need - 1) : need + t.pick(20);
            Exact out(len);
            int ret = mbedtls_mpi_write_binary(&A.m, out.data(), len);
            if (len < need) { CHECK(ret == MBEDTLS_ERR_MPI_BUFFER_TOO_SMALL, "export to a short buffer returned ", ret); c.nontrivial(); }
            else {
                must(ret, "write_binary");
                Z v;
                mpz_import(v, len, 1, 1, 1, 0, out.data());
                CHECK(mpz_cmpabs(v, za) == 0, "exported bytes");
            }
            Bytes in = t.bytes(t.length(0, 300));
            Exact ein(in);
            must(mbedtls_mpi_read_binary(&X.m, ein.data(), in.size()), "read_binary");
            mpz_import(X.z, in.size(), 1, 1, 1, 0, in.data());
            if (in.empty()) mpz_set_ui(X.z, 0);
            c.nontrivial(in.size() > 8);
            break; }
        case 22: { // text
            lab = "text";
            int radix = 2 + t.pick(15);
            if (t.pick(12) == 0) radix = t.pick(2) ? 17 : 1;
            size_t olen = 0;
            int ret = mbedtls_mpi_write_string(&A.m, radix, nullptr, 0, &olen);
            if (radix < 2 || radix > 16) { CHECK(ret == MBEDTLS_ERR_MPI_BAD_INPUT_DATA, "invalid radix returned ", ret); c.nontrivial(); break; }
            CHECK(ret == MBEDTLS_ERR_MPI_BUFFER_TOO_SMALL, "writing to an empty buffer returned ", ret);
            Exact out(olen);
            size_t used = 0;
            must(mbedtls_mpi_write_string(&A.m, radix, reinterpret_cast<char*>(out.data()), olen, &used), "write_string with the announced size");
            CHECK(used <= olen && used >= 2 && out.data()[used - 1] == 0, "length of the text");
            std::string txt(reinterpret_cast<char*>(out.data()));
            CHECK(txt.size() + 1 == used, "length of the text");
            Z back;
            CHECK(mpz_set_str(back, txt.c_str(), radix) == 0 && mpz_cmp(back, za) == 0, "text of ", za.str(), " in radix ", radix, ": ", txt.substr(0, 100));
            // reading text written by GMP
            char* g = mpz_get_str(nullptr, t.pick(2) ? -radix : radix, zb);
            std::string gs(g);
            free(g);
            bool bad = t.pick(6) == 0;
            if (bad) gs.insert(t.range(gs[0] == '-' ? 1 : 0, gs.size()), 1, "gG. z-"[t.pick(6)]);
            // a '-' in front of everything is a sign; elsewhere it is an error
            std::string probe = gs;
            ret = mbedtls_mpi_read_string(&X.m, radix, probe.c_str());
            Z vz;
            bool dash_first = bad && gs[0] == '-' && mpz_sgn(zb.v) >= 0;
            if (bad && !dash_first) { CHECK(ret == MBEDTLS_ERR_MPI_INVALID_CHARACTER, "invalid digit returned ", ret, " for ", gs.substr(0, 60)); X.z = value(X.m); c.nontrivial(); }
            else { must(ret, "read_string"); if (dash_first) { Z m; mpz_neg(m, zb); X.z = m; } else X.z = zb; }
            break; }
        case 23: {
            lab = "copies";
            switch (t.pick(5)) {
            case 0: must(mbedtls_mpi_copy(&X.m, &A.m), "copy"); X.z = za; break;
            case 1: { mbedtls_mpi_swap(&X.m, &A.m); Z s = X.z; X.z = A.z; A.z = s; break; }
            case 2: { unsigned char f = t.pick(2) ? 0 : (t.pick(2) ? 1 : t.u8()); must(mbedtls_mpi_safe_cond_assign(&X.m, &A.m, f), "cond_assign"); if (f) X.z = za; break; }
            case 3: { unsigned char f = t.pick(2) ? 0 : (t.pick(2) ? 1 : t.u8()); must(mbedtls_mpi_safe_cond_swap(&X.m, &A.m, f), "cond_swap"); if (f) { Z s = X.z; X.z = A.z; A.z = s; } break; }
            default: must(t.pick(2) ? mbedtls_mpi_shrink(&X.m, t.pick(5)) : mbedtls_mpi_grow(&X.m, t.pick(20)), "shrink/grow");
            }
            c.nontrivial(za.bits() > 64);
            break; }
        case 24: { // primality
            lab = "is_prime";
            Z p = za;
            if (p.bits() > 260) mpz_tdiv_r_2exp(p, p, t.pick(2) ? 260 : 70);
            mpz_abs(p, p);
            unsigned how = t.pick(8);
            if (how <= 1) mpz_nextprime(p, p);
            else if (how == 2) { Z q; mpz_nextprime(p, p); mpz_nextprime(q, p); mpz_mul(p, p, q); lab = "is_prime (product)"; }
            else if (how == 3) { // just above or below a power of two
                mpz_set_ui(p, 1);
                mpz_mul_2exp(p, p, 3 + t.range(0, 200));
                if (t.pick(2)) mpz_nextprime(p, p);
                else { do mpz_sub_ui(p, p, 1); while (!mpz_probab_prime_p(p, 20)); }
                lab = "is_prime (power of two)";
            } else if (how == 4) { // Carmichael numbers and strong pseudoprimes to small bases
                static const char* P[] = {"561", "1105", "1729", "2465", "2821", "6601", "8911", "10585", "15841", "29341", "252601", "410041", "512461", "530881", "552721", "3215031751", "2152302898747", "3474749660383", "341550071728321", "3825123056546413051", "318665857834031151167461", "2047", "1373653", "25326001", "1009027027", "1022117", "1000036000099", "9746347772161", "7156857700403137441", "1791562810662585767521", "87674969936234821377601"};
                mpz_set_str(p, P[t.pick(sizeof P / sizeof *P)], 10);
                lab = "is_prime (pseudoprime)";
            } else if (how == 5) mpz_set_ui(p, t.raw(2));
            else if (how == 6) { // chosen to pass every round with probability 1/4
                static const struct { unsigned bits; const char* hex; } Q[] = {
#include "pseudoprimes.inc"
                };
                mpz_set_str(p, Q[t.pick(sizeof Q / sizeof *Q)].hex, 16);
                lab = "is_prime (chosen composite)";
            }
            Reg P;
            if (t.pick(8) == 0) mpz_neg(p, p);
            store(P, p, t.pick(3) == 0 ? 1 : 0);
            int ret = mbedtls_mpi_is_prime(&P.m, mbedTLS_rng_wrap, nullptr);
            Z ap;
            mpz_abs(ap, p);
            bool prime = mpz_probab_prime_p(ap, 30) != 0;
            CHECK(ret == (prime ? 0 : MBEDTLS_ERR_MPI_NOT_ACCEPTABLE), "is_prime(", p.str(), ") = ", ret, " but it is ", prime ? "prime" : "not prime");
            CHECK(mpz_cmp(value(P.m), p) == 0, "is_prime changed its operand");
            c.nontrivial(ap.bits() > 10);
            break; }
        case 25: {
            if (t.pick(6)) { lab = "fill_random"; size_t n = t.range(0, 300); must(mbedtls_mpi_fill_random(&X.m, n, mbedTLS_rng_wrap, nullptr), "fill_random"); Z v = value(X.m); CHECK(mpz_sgn(v.v) >= 0 && v.bits() <= 8 * n && (n < 40 || v.bits() > 8 * n - 64), "random number of ", n, " bytes has ", v.bits(), " bits"); X.z = v; break; }
            lab = "gen_prime";
            size_t nb = 40 + t.range(0, t.pick(4) ? 120 : 300);
            int dh = nb < 90 && t.pick(4) == 0;
            must(mbedtls_mpi_gen_prime(&X.m, nb, dh, mbedTLS_rng_wrap, nullptr), "gen_prime");
            Z v = value(X.m), h;
            CHECK(v.bits() == nb && mpz_sgn(v.v) > 0 && mpz_probab_prime_p(v, 30), "generated prime ", v.str(), " of ", nb, " bits");
            if (dh) { mpz_tdiv_q_2exp(h, v, 1); CHECK(mpz_probab_prime_p(h, 30), "(p-1)/2 of a generated safe prime is not prime"); }
            X.z = v;
            c.nontrivial();
            break; }
        default: { // algebraic identity with fresh results: (a*b + c) divided by b
            lab = "mul-add-div";
            Reg P, Q, R;
            must(mbedtls_mpi_mul_mpi(&P.m, &A.m, &Bq.m), "mul");
            must(mbedtls_mpi_add_mpi(&P.m, &P.m, &C.m), "add");
            mpz_mul(want, za, zb);
            mpz_add(want, want, C.z);
            CHECK(mpz_cmp(value(P.m), want) == 0, "a*b+c");
            if (mpz_sgn(zb.v)) {
                must(mbedtls_mpi_div_mpi(&Q.m, &R.m, &P.m, &Bq.m), "div");
                Z q, r;
                mpz_tdiv_qr(q, r, want, zb);
                CHECK(mpz_cmp(value(Q.m), q) == 0 && mpz_cmp(value(R.m), r) == 0, "(a*b+c)/b: ", want.str(), " / ", zb.str());
            }
            c.nontrivial(big);
        } }
        w.verify(lab.c_str());
        c.label(lab);
        c.note(lab, " r", xi, "<-r", ai, ",r", bi, " (", za.bits(), ",", zb.bits(), " bits)");
    }
}
