#include "lib.hpp"
#include <sse/crypto/cipher.hpp>
#include "giant.hpp"
using namespace pbt;
const char* pbt::PROP_ID = "C01";
const char* pbt::PROP_RULE = "a case that performs at least one encryption and one decryption of a message of 2 or more bytes, cross-checked with the reference AEAD";
size_t pbt::prop_tape_len() { return 160; }
void pbt::prop_setup() { lib_init_tape_rng(); }

// array interface at compile-time lengths
template <size_t N> struct ArrOps {
    static Bytes enc(const Cipher& c, const Bytes& m)
    {
        std::unique_ptr<std::array<uint8_t, N>> in(new std::array<uint8_t, N>(arr<N>(m)));
        std::unique_ptr<std::array<uint8_t, Cipher::ciphertext_length(N)>> out(new std::array<uint8_t, Cipher::ciphertext_length(N)>);
        out->fill(0x5a);
        c.encrypt<N>(*in, *out);
        CHECK(eq(m, *in), "array encryption modified its input");
        return B(*out);
    }
    static Bytes dec(const Cipher& c, const Bytes& ct)
    {
        std::unique_ptr<std::array<uint8_t, Cipher::ciphertext_length(N)>> in(new std::array<uint8_t, Cipher::ciphertext_length(N)>(arr<Cipher::ciphertext_length(N)>(ct)));
        std::unique_ptr<std::array<uint8_t, N>> out(new std::array<uint8_t, N>);
        out->fill(0xa5);
        c.decrypt<N>(*in, *out);
        CHECK(eq(ct, *in), "array decryption modified its input");
        return B(*out);
    }
};
typedef Bytes (*op_t)(const Cipher&, const Bytes&);
struct Entry { size_t n; op_t enc, dec; };
#define E(N) {N, ArrOps<N>::enc, ArrOps<N>::dec}
static const Entry TAB[] = {E(1), E(2), E(3), E(5), E(7), E(8), E(12), E(13), E(15), E(16), E(17), E(24), E(31), E(32), E(33), E(47), E(48), E(63), E(64), E(65), E(96), E(100), E(127), E(128), E(129), E(191), E(200), E(255), E(256), E(257), E(500), E(512), E(1000), E(1024), E(2048), E(4096)};

static void giant_case(Tape& t, Ctx& c)
{
    if (mem_available_gb() < 20) { c.label("giant case skipped: not enough memory"); return; }
    size_t n = giant_size(t);
    Bytes key = t.bytes(32);
    Cipher x(mk<32>(key));
    uint8_t a = t.u8();
    auto byte = [&](size_t i) { return char(uint8_t(i * 167 + (i >> 13) + a)); };
    std::string ct;
    {
        std::string pt(n, 0);
        for (size_t i = 0; i < n; i++) pt[i] = byte(i);
        x.encrypt(pt, ct);
    }
    CHECK(ct.size() == n + 32, "ciphertext of ", n, " bytes is ", ct.size(), " bytes long");
    Bytes head(ct.begin(), ct.begin() + 16), sub = ref::cipher_subkey(key, head.data());
    for (size_t blk : {size_t(0), (size_t(1) << 25) - 2, (size_t(1) << 26) - 2, n / 64 - 2}) { // the key stream, 64-byte blocks, first counter 1
        Bytes in;
        for (size_t i = blk * 64; i < blk * 64 + 128; i++) in.push_back(uint8_t(byte(i)));
        Bytes want = ref::chacha20_ietf(sub, head.data(), uint32_t(blk + 1), in);
        CHECK(std::equal(want.begin(), want.end(), reinterpret_cast<const uint8_t*>(ct.data()) + 16 + blk * 64), "ciphertext of ", n, " bytes around byte ", blk * 64);
    }
    std::string back;
    x.decrypt(ct, back);
    CHECK(back.size() == n, "decrypting gives ", back.size(), " bytes instead of ", n);
    for (size_t i = 0; i < n; i++) if (back[i] != byte(i)) CHECK(false, "decrypting differs at byte ", i, " of ", n);
    c.note("giant len=", n);
    c.label("more than 2^32 bytes");
    c.nontrivial();
}
static void long_case(Tape& t, Ctx& c)
{
    Stream g(t);
    Bytes key = g.bytes(32);
    Cipher x(mk<32>(key));
    std::array<uint8_t, 16> am;
    std::array<uint8_t, 48> ac;
    for (unsigned i = 0; i < LONG_OPS; i++) {
        Bytes m = g.bytes(16), ct;
        std::string s;
        if (i & 1) { am = arr<16>(m); x.encrypt<16>(am, ac); ct = B(ac); }
        else { x.encrypt(S(m), s); ct = B(s); }
        CHECK(ct.size() == 48 && ct == ref::cipher_encrypt(key, ct.data(), m), "encryption ", i, " of one object is not the documented format");
        if (i & 2) { x.decrypt(S(ct), s); CHECK(eq(m, s), "decryption ", i, " of one object"); }
        else { ac = arr<48>(ct); x.decrypt<16>(ac, am); CHECK(eq(m, am), "decryption ", i, " of one object (array)"); }
    }
    c.note("long history of one object");
    c.label("more than 65536 operations");
    c.nontrivial();
}
void pbt::prop_case(Tape& t, Ctx& c)
{
    if (t.longrun()) return long_case(t, c);
    if (t.giant()) return giant_case(t, c);
    unsigned nobj = 1 + t.pick(2);
    std::vector<Bytes> keys;
    std::vector<std::unique_ptr<Cipher>> ciphers;
    for (unsigned i = 0; i < nobj; i++) {
        keys.push_back(t.bytes(32));
        ciphers.emplace_back(new Cipher(mk<32>(keys[i])));
    }
    rng_bias(t.pick(8) >= 6 ? 1 + t.pick(2) : 0);
    unsigned nmsg = 1 + t.pick(4);
    bool history = t.range(0, 499) == 499; // many messages through the same objects
    if (history) { nmsg = 300 + unsigned(t.range(0, 1500)); c.label("long history"); }
    for (unsigned k = 0; k < nmsg; k++) {
        unsigned o = t.pick(nobj);
        bool use_arr = t.pick(3) == 2;
        unsigned ti = 0;
        size_t len;
        if (use_arr) { ti = t.pick(sizeof(TAB) / sizeof(TAB[0])); len = TAB[ti].n; }
        else if (history) len = 1 + t.pick(40);
        else len = t.len(1, 5000, t.pick(20) == 0 ? 3000000 : 200000);
        Bytes m = t.bytes(len);
        if (t.pick(6) == 5) { // move the object between operations
            std::unique_ptr<Cipher> moved(new Cipher(std::move(*ciphers[o])));
            ciphers[o] = std::move(moved);
            c.label("moved object");
        }
        Bytes ct;
        unsigned src = t.pick(3); // who encrypts: library (string), library (array) or reference
        if (src == 2) {
            Bytes nonce = t.bytes(16);
            ct = ref::cipher_encrypt(keys[o], nonce.data(), m);
            c.label("reference ciphertext");
        } else if (use_arr && src == 1) {
            ct = TAB[ti].enc(*ciphers[o], m);
            c.label("array encryption");
        } else {
            std::string in = S(m), out = t.pick(2) ? "old content" : "";
            ciphers[o]->encrypt(in, out);
            CHECK(eq(m, in), "encryption modified its input");
            ct = B(out);
            c.label("string encryption");
        }
        CHECK(ct.size() == m.size() + 32, "ciphertext of ", m.size(), " bytes has length ", ct.size());
        CHECK(Cipher::ciphertext_length(m.size()) == ct.size() && Cipher::plaintext_length(ct.size()) == m.size(), "length helpers disagree");
        Bytes rp;
        CHECK(ref::cipher_decrypt(keys[o], ct, rp), "the reference implementation rejects a library ciphertext, len=", len, " ct=", hex(ct));
        CHECK(rp == m, "the reference implementation decrypts to something else, len=", len);
        CHECK(ct == ref::cipher_encrypt(keys[o], ct.data(), m), "ciphertext differs from the reference for its nonce, len=", len);
        // decrypt through every applicable interface
        {
            std::string in = S(ct), out = t.pick(2) ? std::string(len + 7, 'x') : "";
            ciphers[o]->decrypt(in, out);
            CHECK(eq(m, out), "string decryption returned a different message, len=", len);
            CHECK(eq(ct, in), "decryption modified its input");
        }
        if (use_arr) {
            CHECK(TAB[ti].dec(*ciphers[o], ct) == m, "array decryption returned a different message, len=", len);
            c.label("array decryption");
        }
        c.label(len >= 4096 ? "len>=4096" : len >= 64 ? "len 64..4095" : len >= 16 ? "len 16..63" : "len<16");
        c.note("key=", hex(keys[o].data(), 32, 4), " len=", len, " msg=", hex(m.data(), m.size(), 8), " via=", src == 2 ? "ref" : (use_arr && src == 1) ? "array" : "string", " ct=", hex(ct.data(), ct.size(), 20));
        c.nontrivial(len >= 2);
    }
}
