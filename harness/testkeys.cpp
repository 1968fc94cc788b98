#include "testkeys.hpp"
#include <openssl/bn.h>
#include <openssl/core_names.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include "testkeys.inc"
namespace pbt {
template <size_t N> static std::vector<std::string> load(const char* const (&a)[N])
{
    std::vector<std::string> v;
    for (auto s : a) v.push_back(std::string(s + (*s == '\n' ? 1 : 0)));
    return v;
}
std::vector<std::string> TEST_SK = load(TEST_SK_RAW);
std::vector<std::string> OTHER_SIZE_SK = load(OTHER_SIZE_SK_RAW);

static bool get(EVP_PKEY* p, const char* name, mpz_t v)
{
    BIGNUM* b = nullptr;
    if (EVP_PKEY_get_bn_param(p, name, &b) != 1) return false;
    char* h = BN_bn2hex(b);
    mpz_set_str(v, h, 16);
    OPENSSL_free(h);
    BN_clear_free(b);
    return true;
}
static bool fill(EVP_PKEY* p, RsaKey& k, bool priv)
{
    bool ok = get(p, OSSL_PKEY_PARAM_RSA_N, k.n) && get(p, OSSL_PKEY_PARAM_RSA_E, k.e);
    if (ok && priv)
        ok = get(p, OSSL_PKEY_PARAM_RSA_D, k.d) && get(p, OSSL_PKEY_PARAM_RSA_FACTOR1, k.p) && get(p, OSSL_PKEY_PARAM_RSA_FACTOR2, k.q)
             && get(p, OSSL_PKEY_PARAM_RSA_EXPONENT1, k.dp) && get(p, OSSL_PKEY_PARAM_RSA_EXPONENT2, k.dq) && get(p, OSSL_PKEY_PARAM_RSA_COEFFICIENT1, k.qinv);
    k.priv = priv;
    return ok;
}
bool ref_parse_private(const std::string& pem, RsaKey& k)
{
    BIO* b = BIO_new_mem_buf(pem.data(), int(pem.size()));
    EVP_PKEY* p = PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr);
    BIO_free(b);
    if (!p) return false;
    bool ok = fill(p, k, true);
    EVP_PKEY_free(p);
    return ok;
}
bool ref_parse_public(const std::string& pem, RsaKey& k)
{
    BIO* b = BIO_new_mem_buf(pem.data(), int(pem.size()));
    EVP_PKEY* p = PEM_read_bio_PUBKEY(b, nullptr, nullptr, nullptr);
    BIO_free(b);
    if (!p) return false;
    bool ok = fill(p, k, false);
    EVP_PKEY_free(p);
    return ok;
}
Bytes mpz_bytes(const mpz_t v, size_t len)
{
    Bytes b(len, 0);
    size_t n = (mpz_sizeinbase(v, 2) + 7) / 8, cnt = 0;
    if (mpz_sgn(v) == 0) return b;
    Bytes raw(n);
    mpz_export(raw.data(), &cnt, 1, 1, 1, 0, v);
    if (cnt > len) return raw;
    std::copy(raw.begin(), raw.begin() + cnt, b.begin() + (len - cnt));
    return b;
}
void bytes_mpz(mpz_t v, const Bytes& b) { if (b.empty()) mpz_set_ui(v, 0); else mpz_import(v, b.size(), 1, 1, 1, 0, b.data()); }
Bytes rsa_pub(const RsaKey& k, const Bytes& x, unsigned times)
{
    mpz_t v;
    mpz_init(v);
    bytes_mpz(v, x);
    mpz_mod(v, v, k.n);
    for (unsigned i = 0; i < times; i++) mpz_powm(v, v, k.e, k.n);
    Bytes r = mpz_bytes(v, 256);
    mpz_clear(v);
    return r;
}
Bytes rsa_priv(const RsaKey& k, const Bytes& x, uint32_t times)
{
    // x -> x^(d^times) with the exponent reduced modulo lcm(p-1, q-1)
    mpz_t v, p1, q1, l, e;
    mpz_inits(v, p1, q1, l, e, nullptr);
    mpz_sub_ui(p1, k.p, 1);
    mpz_sub_ui(q1, k.q, 1);
    mpz_lcm(l, p1, q1);
    mpz_invert(e, k.e, l);
    mpz_powm_ui(e, e, times, l);
    bytes_mpz(v, x);
    mpz_mod(v, v, k.n);
    if (times) mpz_powm(v, v, e, k.n);
    Bytes r = mpz_bytes(v, 256);
    mpz_clears(v, p1, q1, l, e, nullptr);
    return r;
}
Bytes der_tlv(uint8_t tag, const Bytes& body)
{
    Bytes o{tag};
    size_t n = body.size();
    if (n < 128) o.push_back(uint8_t(n));
    else {
        Bytes l;
        for (size_t m = n; m; m >>= 8) l.insert(l.begin(), uint8_t(m));
        o.push_back(uint8_t(0x80 | l.size()));
        o.insert(o.end(), l.begin(), l.end());
    }
    o.insert(o.end(), body.begin(), body.end());
    return o;
}
Bytes der_int(const mpz_t v)
{
    size_t n = mpz_sgn(v) == 0 ? 1 : (mpz_sizeinbase(v, 2) + 7) / 8;
    Bytes b = mpz_bytes(v, n);
    if (b[0] & 0x80) b.insert(b.begin(), 0);
    return der_tlv(2, b);
}
static void app(Bytes& a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); }
Bytes ref_private_der(const RsaKey& k, long version)
{
    Bytes body = der_tlv(2, Bytes{uint8_t(version)});
    for (auto v : {&k.n, &k.e, &k.d, &k.p, &k.q, &k.dp, &k.dq, &k.qinv}) app(body, der_int(*v));
    return der_tlv(0x30, body);
}
Bytes ref_public_pkcs1_der(const RsaKey& k)
{
    Bytes body = der_int(k.n);
    app(body, der_int(k.e));
    return der_tlv(0x30, body);
}
Bytes ref_spki_der(const RsaKey& k)
{
    Bytes alg = unhex("06092a864886f70d0101010500"), bits{0};
    app(bits, ref_public_pkcs1_der(k));
    Bytes body = der_tlv(0x30, alg);
    app(body, der_tlv(3, bits));
    return der_tlv(0x30, body);
}
std::string ref_pem(const std::string& name, const Bytes& der, size_t line, const char* eol)
{
    std::string b(4 * ((der.size() + 2) / 3) + 1, 0);
    int n = EVP_EncodeBlock(reinterpret_cast<unsigned char*>(&b[0]), der.data(), int(der.size()));
    b.resize(n);
    std::string o = "-----BEGIN " + name + "-----" + eol;
    for (size_t i = 0; i < b.size(); i += line) o += b.substr(i, line) + eol;
    return o + "-----END " + name + "-----" + eol;
}
std::string ref_public_pem(const std::string& sk)
{
    RsaKey k;
    if (!ref_parse_private(sk, k)) return "";
    return ref_pem("PUBLIC KEY", ref_spki_der(k));
}
}
