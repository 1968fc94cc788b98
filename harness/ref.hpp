// Independent reference models (oracles). Nothing here uses the library under
// test. Hashes, MACs and stream ciphers come from OpenSSL's libcrypto, integers
// from GMP; the rest is written out.
#pragma once
#include "core.hpp"
#include <array>
namespace ref {
using pbt::Bytes;
Bytes sha512(const Bytes&);
Bytes blake2b512(const Bytes&);          // OpenSSL
// full BLAKE2b with key / salt / personalisation (own code)
Bytes blake2b(size_t outlen, const Bytes& in, const Bytes& key, const uint8_t* salt16, const uint8_t* personal16);
Bytes hash_parts(bool sha, const Bytes& head, const uint8_t* p, size_t n); // hash of head || p[0..n)
Bytes hmac_big(bool sha, const Bytes& key, const uint8_t* p, size_t n);   // key at most one block
Bytes hmac(bool sha, const Bytes& key, const Bytes& msg); // BLAKE2b-512 (128-byte block) or SHA-512, RFC 2104
// ChaCha20 keystream XOR, RFC 8439 (12-byte nonce) and original (8-byte nonce, 64-bit counter)
Bytes chacha20_ietf(const Bytes& key, const uint8_t* nonce12, uint32_t counter, const Bytes& in);
Bytes chacha20_orig_stream(const Bytes& key, uint64_t offset, size_t len); // zero nonce
Bytes aead_seal(const Bytes& key, const uint8_t* nonce12, const Bytes& pt);        // ct || tag
bool aead_open(const Bytes& key, const uint8_t* nonce12, const Bytes& ct, Bytes& pt);
// crypto-tk formats
Bytes cipher_subkey(const Bytes& key, const uint8_t* salt16);
Bytes cipher_encrypt(const Bytes& key, const uint8_t* nonce16, const Bytes& pt);
bool cipher_decrypt(const Bytes& key, const Bytes& ct, Bytes& pt);
Bytes prf(const Bytes& key, const Bytes& in, size_t nbytes);
inline Bytes prg(const Bytes& key, uint64_t off, size_t len) { return chacha20_orig_stream(key, off, len); }
// RC-PRF
Bytes rcprf_node_key(const Bytes& root, unsigned height, unsigned depth, uint64_t prefix); // key of the node at depth (0 = root), prefix = leftmost bits
Bytes rcprf_leaf(const Bytes& root, unsigned height, uint64_t leaf, size_t nbytes);
// AEZ (zero 16-byte nonce, no authenticator)
Bytes aez(const Bytes& key48, const Bytes& in, bool decrypt);
Bytes aez_context(const Bytes& key48); // 112 bytes: I,2I,4I,J,2J,4J,L
Bytes aez_from_context(const Bytes& ctx, const Bytes& in, bool decrypt);
// wrapper
struct WrapKeys { Bytes tag, enc; };
WrapKeys wrap_keys(const Bytes& master);
Bytes wrap(const Bytes& master, const uint8_t* iv16, uint8_t type, const Bytes& ctx, const Bytes& ser);
bool unwrap(const Bytes& master, uint8_t type, const Bytes& ctx, const Bytes& blob, Bytes& ser);
}
