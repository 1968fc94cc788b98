// Fixed RSA keys and an independent RSA (OpenSSL for parsing, GMP for numbers).
#pragma once
#include "core.hpp"
#include <gmp.h>
#include <memory>
namespace pbt {
extern std::vector<std::string> TEST_SK;       // 2048-bit private keys (PKCS#1 PEM), several public exponents
extern std::vector<std::string> OTHER_SIZE_SK; // 512..4096-bit private keys
struct RsaKey {
    mpz_t n, e, d, p, q, dp, dq, qinv;
    bool priv = false;
    RsaKey() { mpz_inits(n, e, d, p, q, dp, dq, qinv, nullptr); }
    ~RsaKey() { mpz_clears(n, e, d, p, q, dp, dq, qinv, nullptr); }
    RsaKey(const RsaKey&) = delete;
    RsaKey& operator=(const RsaKey&) = delete;
};
bool ref_parse_private(const std::string& pem, RsaKey& k);
bool ref_parse_public(const std::string& pem, RsaKey& k);
std::string ref_public_pem(const std::string& private_pem); // SubjectPublicKeyInfo, made by OpenSSL
// private / public keys from numbers, PKCS#1 (DER)
Bytes ref_private_der(const RsaKey& k, long version = 0);
Bytes ref_public_pkcs1_der(const RsaKey& k);
Bytes ref_spki_der(const RsaKey& k);
std::string ref_pem(const std::string& name, const Bytes& der, size_t line = 64, const char* eol = "\n");
Bytes der_int(const mpz_t v);
Bytes der_tlv(uint8_t tag, const Bytes& body);
Bytes mpz_bytes(const mpz_t v, size_t len); // big endian, left padded
void bytes_mpz(mpz_t v, const Bytes& b);
// x^(e^k) mod n ; x^(d^k) mod n
Bytes rsa_pub(const RsaKey& k, const Bytes& x, unsigned times = 1);
Bytes rsa_priv(const RsaKey& k, const Bytes& x, uint32_t times = 1);
}
