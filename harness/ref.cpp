#include "ref.hpp"
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <cstring>
#include <stdexcept>
namespace ref {
static Bytes evp(const EVP_MD* md, const Bytes& in)
{
    Bytes out(64);
    unsigned n = 0;
    if (EVP_Digest(in.data(), in.size(), out.data(), &n, md, nullptr) != 1 || n != 64) throw std::logic_error("ref digest");
    return out;
}
Bytes sha512(const Bytes& b) { return evp(EVP_sha512(), b); }
Bytes blake2b512(const Bytes& b) { return evp(EVP_blake2b512(), b); }

Bytes hash_parts(bool sha, const Bytes& head, const uint8_t* p, size_t n)
{
    EVP_MD_CTX* c = EVP_MD_CTX_new();
    EVP_DigestInit_ex(c, sha ? EVP_sha512() : EVP_blake2b512(), nullptr);
    EVP_DigestUpdate(c, head.data(), head.size());
    for (size_t i = 0; i < n;) {
        size_t k = std::min<size_t>(n - i, 1 << 20);
        EVP_DigestUpdate(c, p + i, k);
        i += k;
    }
    Bytes r(64);
    unsigned l = 64;
    EVP_DigestFinal_ex(c, r.data(), &l);
    EVP_MD_CTX_free(c);
    return r;
}
Bytes hmac_big(bool sha, const Bytes& key, const uint8_t* p, size_t n)
{
    Bytes i(128, 0x36), o(128, 0x5c);
    for (size_t k = 0; k < key.size(); k++) { i[k] ^= key[k]; o[k] ^= key[k]; }
    Bytes h = hash_parts(sha, i, p, n);
    return hash_parts(sha, o, h.data(), h.size());
}
Bytes hmac(bool sha, const Bytes& key, const Bytes& msg)
{
    Bytes k(128, 0);
    if (key.size() > 128) { Bytes h = sha ? sha512(key) : blake2b512(key); std::copy(h.begin(), h.end(), k.begin()); }
    else std::copy(key.begin(), key.end(), k.begin());
    Bytes i(k), o(k);
    for (auto& x : i) x ^= 0x36;
    for (auto& x : o) x ^= 0x5c;
    i.insert(i.end(), msg.begin(), msg.end());
    Bytes ih = sha ? sha512(i) : blake2b512(i);
    o.insert(o.end(), ih.begin(), ih.end());
    return sha ? sha512(o) : blake2b512(o);
}

// ---- BLAKE2b (RFC 7693 + salt/personal)
static const uint64_t IV[8] = {0x6a09e667f3bcc908ull, 0xbb67ae8584caa73bull, 0x3c6ef372fe94f82bull, 0xa54ff53a5f1d36f1ull, 0x510e527fade682d1ull, 0x9b05688c2b3e6c1full, 0x1f83d9abfb41bd6bull, 0x5be0cd19137e2179ull};
static const uint8_t SG[12][16] = {{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}, {14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3}, {11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4}, {7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8}, {9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13}, {2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9}, {12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11}, {13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10}, {6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5}, {10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0}, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}, {14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3}};
static uint64_t rotr(uint64_t x, int n) { return (x >> n) | (x << (64 - n)); }
static void compress(uint64_t h[8], const uint8_t* blk, uint64_t t, bool last)
{
    uint64_t m[16], v[16];
    for (int i = 0; i < 16; i++) { m[i] = 0; for (int j = 0; j < 8; j++) m[i] |= uint64_t(blk[8 * i + j]) << (8 * j); }
    for (int i = 0; i < 8; i++) { v[i] = h[i]; v[i + 8] = IV[i]; }
    v[12] ^= t;
    if (last) v[14] = ~v[14];
    auto G = [&](int a, int b, int c, int d, uint64_t x, uint64_t y) {
        v[a] = v[a] + v[b] + x; v[d] = rotr(v[d] ^ v[a], 32); v[c] += v[d]; v[b] = rotr(v[b] ^ v[c], 24);
        v[a] = v[a] + v[b] + y; v[d] = rotr(v[d] ^ v[a], 16); v[c] += v[d]; v[b] = rotr(v[b] ^ v[c], 63);
    };
    for (int r = 0; r < 12; r++) {
        const uint8_t* s = SG[r];
        G(0, 4, 8, 12, m[s[0]], m[s[1]]); G(1, 5, 9, 13, m[s[2]], m[s[3]]); G(2, 6, 10, 14, m[s[4]], m[s[5]]); G(3, 7, 11, 15, m[s[6]], m[s[7]]);
        G(0, 5, 10, 15, m[s[8]], m[s[9]]); G(1, 6, 11, 12, m[s[10]], m[s[11]]); G(2, 7, 8, 13, m[s[12]], m[s[13]]); G(3, 4, 9, 14, m[s[14]], m[s[15]]);
    }
    for (int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[i + 8];
}
Bytes blake2b(size_t outlen, const Bytes& in, const Bytes& key, const uint8_t* salt, const uint8_t* personal)
{
    uint8_t P[64] = {0};
    P[0] = uint8_t(outlen); P[1] = uint8_t(key.size()); P[2] = 1; P[3] = 1;
    if (salt) memcpy(P + 32, salt, 16);
    if (personal) memcpy(P + 48, personal, 16);
    uint64_t h[8];
    for (int i = 0; i < 8; i++) { uint64_t w = 0; for (int j = 0; j < 8; j++) w |= uint64_t(P[8 * i + j]) << (8 * j); h[i] = IV[i] ^ w; }
    Bytes data;
    if (!key.empty()) { data = key; data.resize(128, 0); }
    data.insert(data.end(), in.begin(), in.end());
    size_t n = data.size(), off = 0;
    while (n - off > 128) { compress(h, data.data() + off, off + 128, false); off += 128; }
    uint8_t blk[128] = {0};
    if (n > off) memcpy(blk, data.data() + off, n - off);
    compress(h, blk, n, true);
    Bytes out(outlen);
    for (size_t i = 0; i < outlen; i++) out[i] = uint8_t(h[i / 8] >> (8 * (i % 8)));
    return out;
}

// ---- ChaCha20 through OpenSSL: 16-byte IV = 32-bit LE counter || 12 bytes
static Bytes chacha_raw(const Bytes& key, const uint8_t iv[16], const Bytes& in)
{
    Bytes out(in.size() + 64);
    EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
    int n = 0;
    if (!c || EVP_EncryptInit_ex(c, EVP_chacha20(), nullptr, key.data(), iv) != 1 || EVP_EncryptUpdate(c, out.data(), &n, in.data(), int(in.size())) != 1) throw std::logic_error("ref chacha");
    EVP_CIPHER_CTX_free(c);
    out.resize(in.size());
    return out;
}
Bytes chacha20_ietf(const Bytes& key, const uint8_t* nonce12, uint32_t counter, const Bytes& in)
{
    uint8_t iv[16];
    for (int i = 0; i < 4; i++) iv[i] = uint8_t(counter >> (8 * i));
    memcpy(iv + 4, nonce12, 12);
    return in.empty() ? Bytes() : chacha_raw(key, iv, in);
}
Bytes chacha20_orig_stream(const Bytes& key, uint64_t offset, size_t len)
{
    // 64-bit counter occupies words 12..13; process per 2^32-block segment
    Bytes out;
    uint64_t blk = offset / 64;
    size_t skip = offset % 64;
    size_t need = len + skip;
    while (need > 0) {
        uint64_t left_in_segment = ((blk | 0xffffffffull) - blk + 1);
        size_t take = need;
        if (uint64_t(take) > left_in_segment * 64) take = size_t(left_in_segment * 64);
        uint8_t iv[16] = {0};
        for (int i = 0; i < 8; i++) iv[i] = uint8_t(blk >> (8 * i));
        Bytes z(take, 0), s = chacha_raw(key, iv, z);
        out.insert(out.end(), s.begin(), s.end());
        blk += (take + 63) / 64;
        need -= take;
    }
    out.erase(out.begin(), out.begin() + skip);
    return out;
}
Bytes aead_seal(const Bytes& key, const uint8_t* nonce12, const Bytes& pt)
{
    Bytes out(pt.size() + 16);
    EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
    int n = 0, m = 0;
    if (EVP_EncryptInit_ex(c, EVP_chacha20_poly1305(), nullptr, key.data(), nonce12) != 1) throw std::logic_error("ref aead");
    if (!pt.empty()) EVP_EncryptUpdate(c, out.data(), &n, pt.data(), int(pt.size()));
    EVP_EncryptFinal_ex(c, out.data() + n, &m);
    EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_GET_TAG, 16, out.data() + pt.size());
    EVP_CIPHER_CTX_free(c);
    return out;
}
bool aead_open(const Bytes& key, const uint8_t* nonce12, const Bytes& ct, Bytes& pt)
{
    if (ct.size() < 16) return false;
    pt.assign(ct.size() - 16 + 1, 0);
    EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
    int n = 0, m = 0;
    Bytes tag(ct.end() - 16, ct.end());
    EVP_DecryptInit_ex(c, EVP_chacha20_poly1305(), nullptr, key.data(), nonce12);
    EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_SET_TAG, 16, tag.data());
    if (ct.size() > 16) EVP_DecryptUpdate(c, pt.data(), &n, ct.data(), int(ct.size() - 16));
    int ok = EVP_DecryptFinal_ex(c, pt.data() + n, &m);
    EVP_CIPHER_CTX_free(c);
    pt.resize(ct.size() - 16);
    return ok == 1;
}
Bytes cipher_subkey(const Bytes& key, const uint8_t* salt16)
{
    uint8_t personal[16] = {0};
    memcpy(personal, "encryption_key", 14);
    return blake2b(32, Bytes(), key, salt16, personal);
}
Bytes cipher_encrypt(const Bytes& key, const uint8_t* nonce16, const Bytes& pt)
{
    Bytes out(nonce16, nonce16 + 16), b = aead_seal(cipher_subkey(key, nonce16), nonce16, pt);
    out.insert(out.end(), b.begin(), b.end());
    return out;
}
bool cipher_decrypt(const Bytes& key, const Bytes& ct, Bytes& pt)
{
    if (ct.size() < 32) return false;
    return aead_open(cipher_subkey(key, ct.data()), ct.data(), Bytes(ct.begin() + 16, ct.end()), pt);
}
Bytes prf(const Bytes& key, const Bytes& in, size_t nbytes)
{
    if (nbytes <= 64) { Bytes h = hmac(false, key, in); h.resize(nbytes); return h; }
    Bytes out;
    for (unsigned i = 0; out.size() < nbytes; i++) {
        Bytes m = in;
        m.push_back(uint8_t(i));
        if (i > 255) m.push_back(uint8_t(i >> 8));
        Bytes h = hmac(false, key, m);
        out.insert(out.end(), h.begin(), h.end());
    }
    out.resize(nbytes);
    return out;
}
Bytes rcprf_node_key(const Bytes& root, unsigned height, unsigned depth, uint64_t prefix)
{
    (void)height;
    Bytes k = root;
    for (unsigned i = 0; i < depth; i++) {
        unsigned bit = unsigned((prefix >> (depth - 1 - i)) & 1);
        k = prg(k, bit * 32, 32);
    }
    return k;
}
Bytes rcprf_leaf(const Bytes& root, unsigned height, uint64_t leaf, size_t nbytes)
{
    unsigned levels = height - 1; // number of edges
    Bytes k = rcprf_node_key(root, height, levels - 1, leaf >> 1);
    return prg(k, (leaf & 1) * nbytes, nbytes);
}

// ---- AEZ
typedef std::array<uint8_t, 16> Blk;
static uint8_t SBOX[256];
static uint8_t xt(uint8_t a) { return uint8_t((a << 1) ^ ((a & 0x80) ? 0x1b : 0)); }
static uint8_t gmul(uint8_t a, uint8_t b) { uint8_t r = 0; while (b) { if (b & 1) r ^= a; a = xt(a); b >>= 1; } return r; }
static bool init_sbox()
{
    for (int i = 0; i < 256; i++) {
        uint8_t inv = 0;
        for (int j = 1; j < 256 && i; j++) if (gmul(uint8_t(i), uint8_t(j)) == 1) { inv = uint8_t(j); break; }
        uint8_t x = inv, r = inv;
        for (int k = 0; k < 4; k++) { x = uint8_t((x << 1) | (x >> 7)); r ^= x; }
        SBOX[i] = r ^ 0x63;
    }
    return true;
}
static bool sbox_ready = init_sbox();
static Blk X(const Blk& a, const Blk& b) { Blk r; for (int i = 0; i < 16; i++) r[i] = a[i] ^ b[i]; return r; }
static Blk aesenc(const Blk& in, const Blk& k)
{
    Blk s, o;
    for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) s[4 * c + r] = SBOX[in[4 * ((c + r) % 4) + r]];
    for (int c = 0; c < 4; c++) {
        uint8_t *a = &s[4 * c], t = a[0] ^ a[1] ^ a[2] ^ a[3];
        for (int r = 0; r < 4; r++) o[4 * c + r] = uint8_t(a[r] ^ t ^ xt(a[r] ^ a[(r + 1) % 4]));
    }
    return X(o, k);
}
static Blk dbl(const Blk& b)
{
    Blk r;
    for (int i = 0; i < 16; i++) r[i] = uint8_t((b[i] << 1) | (i < 15 ? b[i + 1] >> 7 : 0));
    if (b[0] & 0x80) r[15] ^= 0x87;
    return r;
}
static const Blk ZERO = {{0}};
struct Aez {
    Blk I[3], J[3], L;
    Blk a4(const Blk& in, const Blk& last) const { return X(aesenc(aesenc(aesenc(aesenc(in, J[0]), I[0]), L), ZERO), last); }
    Blk s4(const Blk& in) const { return aesenc(aesenc(aesenc(aesenc(in, L), I[0]), J[0]), L); }
    Blk a10(const Blk& in, const Blk& first) const
    {
        Blk x = X(in, first);
        for (int i = 0; i < 10; i++) x = aesenc(x, i % 3 == 0 ? I[0] : i % 3 == 1 ? J[0] : L);
        return x;
    }
    Blk tweak() const
    {
        Blk J8 = dbl(J[2]), L2 = dbl(L), L4 = dbl(L2);
        Blk o = X(L, J8), sum = a4(o, o);
        o = X(L2, J8);
        sum = X(sum, a4(o, o));
        Blk p = ZERO;
        p[0] = 0x80;
        return X(sum, a4(X(L4, p), L4));
    }
    Blk off(size_t i) const
    {
        Blk o = dbl(I[2]);
        for (size_t k = 0; k < i / 8; k++) o = dbl(o);
        if (i & 1) o = X(o, I[0]);
        if (i & 2) o = X(o, I[1]);
        if (i & 4) o = X(o, I[2]);
        return o;
    }
};
static Blk get(const Bytes& b, size_t p, size_t n = 16) { Blk r = ZERO; for (size_t i = 0; i < n; i++) r[i] = b[p + i]; return r; }
static Blk pad10(Blk b, size_t n) { if (n < 16) { b[n] = 0x80; for (size_t i = n + 1; i < 16; i++) b[i] = 0; } return b; }
static Bytes aez_core(const Aez& K, const Bytes& in, int d)
{
    size_t n = in.size(), frag = n % 32, init = n - frag - 32;
    Bytes out(n);
    Blk t = K.tweak(), x = ZERO, f0 = ZERO, f1 = ZERO;
    size_t m = init / 32;
    std::vector<Blk> W(m), Z(m);
    Blk off = ZERO;
    std::vector<Blk> offs(m);
    for (size_t i = 0; i < m; i++) {
        // incremental version of off(i)
        if (i % 8 == 0) off = i == 0 ? dbl(K.I[2]) : dbl(off);
        Blk o = off;
        if (i & 1) o = X(o, K.I[0]);
        if (i & 2) o = X(o, K.I[1]);
        if (i & 4) o = X(o, K.I[2]);
        offs[i] = o;
        Blk a = get(in, 32 * i), b = get(in, 32 * i + 16);
        W[i] = K.a4(X(b, o), a);
        Z[i] = K.a4(W[i], b);
        x = X(x, Z[i]);
    }
    Blk I4 = K.I[2], I5 = X(K.I[2], K.I[0]);
    if (frag >= 16) {
        f0 = get(in, init);
        f1 = pad10(get(in, init + 16, frag - 16), frag - 16);
        x = X(x, K.a4(X(f0, I4), ZERO));
        x = X(x, K.a4(X(f1, I5), ZERO));
    } else if (frag) {
        f0 = pad10(get(in, init, frag), frag);
        x = X(x, K.a4(X(f0, I4), ZERO));
    }
    Blk p = X(X(get(in, n - 32), x), t), q = get(in, n - 16);
    p = K.a4(X(q, K.I[d]), p);
    q = X(q, K.a10(p, K.J[d]));
    Blk s = X(p, q);
    p = X(p, K.a10(q, K.J[d ^ 1]));
    q = K.a4(X(p, K.I[d ^ 1]), q);
    Blk y = ZERO;
    for (size_t i = 0; i < m; i++) {
        Blk o = offs[i], fs = K.s4(X(s, o));
        Blk tmp = X(W[i], fs);
        y = X(y, tmp);
        Blk a = X(Z[i], fs);
        Blk b = K.a4(a, tmp);
        a = K.a4(X(b, o), a);
        std::copy(a.begin(), a.end(), out.begin() + 32 * i);
        std::copy(b.begin(), b.end(), out.begin() + 32 * i + 16);
    }
    if (frag >= 16) {
        f0 = X(f0, K.a10(s, K.J[2]));
        f1 = pad10(X(f1, K.a10(s, X(K.J[2], K.J[0]))), frag - 16);
        y = X(y, K.a4(X(f0, I4), ZERO));
        y = X(y, K.a4(X(f1, I5), ZERO));
        std::copy(f0.begin(), f0.end(), out.begin() + init);
        std::copy(f1.begin(), f1.begin() + (frag - 16), out.begin() + init + 16);
    } else if (frag) {
        f0 = pad10(X(f0, K.a10(s, K.J[2])), frag);
        y = X(y, K.a4(X(f0, I4), ZERO));
        std::copy(f0.begin(), f0.begin() + frag, out.begin() + init);
    }
    Blk c0 = X(X(q, y), t);
    std::copy(c0.begin(), c0.end(), out.begin() + n - 32);
    std::copy(p.begin(), p.end(), out.begin() + n - 16);
    return out;
}
// Tiny messages: a Feistel network over two halves of 4n nibbles.
static Bytes aez_tiny(const Aez& K, const Bytes& in, int d)
{
    size_t n = in.size(), nib = n; // nibbles per half
    auto getn = [](const Bytes& b, size_t i) { return i % 2 == 0 ? b[i / 2] >> 4 : b[i / 2] & 15; };
    Blk l = ZERO, r = ZERO;
    auto setn = [](Blk& b, size_t i, unsigned v) { if (i % 2 == 0) b[i / 2] = uint8_t((b[i / 2] & 0x0f) | (v << 4)); else b[i / 2] = uint8_t((b[i / 2] & 0xf0) | v); };
    auto fix = [&](Blk& b) { // keep nib nibbles, append 1000...
        for (size_t i = nib; i < 32; i++) setn(b, i, i == nib ? 8 : 0);
    };
    Blk t0 = K.tweak(), t;
    // the first half only passes through the round function after its first
    // update, and holds the whole message bytes before (masked there)
    Bytes buf = in;
    unsigned rnds;
    if (n >= 16) { t = X(X(t0, K.I[1]), K.I[2]); rnds = 8; }
    else {
        t = X(X(X(t0, K.I[0]), K.I[1]), K.I[2]);
        rnds = n >= 3 ? 10 : n == 2 ? 16 : 24;
    }
    auto flip = [&](Bytes& m) { // the top bit correction of short messages
        Blk v = ZERO;
        for (size_t i = 0; i < m.size(); i++) v[i] = m[i];
        v[0] |= 0x80;
        v = K.a4(X(X(X(v, t0), K.I[0]), K.I[1]), ZERO);
        m[0] ^= v[0] & 0x80;
    };
    if (d && n < 16) flip(buf);
    for (size_t i = 0; i < nib; i++) { setn(l, i, getn(buf, i)); setn(r, i, getn(buf, nib + i)); }
    fix(r);
    int rc = d ? int(rnds) - 1 : 0, step = d ? -1 : 1;
    for (unsigned i = 0; i < rnds; i += 2) {
        Blk v = X(t, r);
        v[15] ^= uint8_t(rc);
        l = K.a4(v, l);
        fix(l);
        rc += step;
        v = X(t, l);
        v[15] ^= uint8_t(rc);
        r = K.a4(v, r);
        fix(r);
        rc += step;
    }
    Bytes out(n, 0);
    for (size_t i = 0; i < 2 * nib; i++) {
        const Blk& h = i < nib ? r : l;
        size_t k = i < nib ? i : i - nib;
        unsigned v = k % 2 == 0 ? h[k / 2] >> 4 : h[k / 2] & 15;
        if (i % 2 == 0) out[i / 2] |= uint8_t(v << 4); else out[i / 2] |= uint8_t(v);
    }
    if (!d && n < 16) flip(out);
    return out;
}
static Aez load_ctx(const Bytes& c)
{
    Aez k;
    for (int i = 0; i < 3; i++) { k.I[i] = get(c, 16 * i); k.J[i] = get(c, 48 + 16 * i); }
    k.L = get(c, 96);
    return k;
}
Bytes aez_context(const Bytes& key)
{
    Blk I = get(key, 0), J = get(key, 16), L = get(key, 32);
    Bytes o;
    for (Blk b : {I, dbl(I), dbl(dbl(I)), J, dbl(J), dbl(dbl(J)), L}) o.insert(o.end(), b.begin(), b.end());
    return o;
}
Bytes aez_from_context(const Bytes& ctx, const Bytes& in, bool decrypt)
{
    if (in.empty()) return Bytes();
    Aez k = load_ctx(ctx);
    return in.size() < 32 ? aez_tiny(k, in, decrypt) : aez_core(k, in, decrypt);
}
Bytes aez(const Bytes& key, const Bytes& in, bool decrypt) { return aez_from_context(aez_context(key), in, decrypt); }

WrapKeys wrap_keys(const Bytes& m)
{
    WrapKeys w;
    w.tag = prf(m, Bytes{1}, 32);
    w.enc = prf(m, Bytes{2}, 32);
    return w;
}
static Bytes wrap_tag(const WrapKeys& w, const uint8_t* iv, uint8_t type, const Bytes& ctx, const Bytes& ser)
{
    Bytes b(iv, iv + 16);
    b.push_back(type);
    b.insert(b.end(), ctx.begin(), ctx.end());
    b.insert(b.end(), ser.begin(), ser.end());
    return prf(w.tag, b, 12);
}
Bytes wrap(const Bytes& master, const uint8_t* iv, uint8_t type, const Bytes& ctx, const Bytes& ser)
{
    WrapKeys w = wrap_keys(master);
    Bytes tag = wrap_tag(w, iv, type, ctx, ser), out(iv, iv + 16), e = chacha20_ietf(w.enc, tag.data(), 0, ser);
    out.insert(out.end(), e.begin(), e.end());
    out.insert(out.end(), tag.begin(), tag.end());
    return out;
}
bool unwrap(const Bytes& master, uint8_t type, const Bytes& ctx, const Bytes& blob, Bytes& ser)
{
    if (blob.size() < 28) return false;
    WrapKeys w = wrap_keys(master);
    Bytes tag(blob.end() - 12, blob.end());
    ser = chacha20_ietf(w.enc, tag.data(), 0, Bytes(blob.begin() + 16, blob.end() - 12));
    return wrap_tag(w, blob.data(), type, ctx, ser) == tag;
}
}
