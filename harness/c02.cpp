#include "lib.hpp"
#include <sse/crypto/cipher.hpp>
using namespace pbt;
const char* pbt::PROP_ID = "C02";
const char* pbt::PROP_RULE = "a case with at least one altered or foreign ciphertext (different from every genuine one under the key) offered for decryption";
size_t pbt::prop_tape_len() { return 260; }
void pbt::prop_setup() { lib_init_tape_rng(); }

template <size_t N> struct ArrDec {
    // returns 0 if thrown with clean output, 1 if accepted, 2 dirty output
    static int dec(const Cipher& c, const Bytes& ct, const Bytes& prev, Bytes& out)
    {
        auto in = arr<Cipher::ciphertext_length(N)>(ct);
        std::unique_ptr<std::array<uint8_t, N>> o(new std::array<uint8_t, N>(arr<N>(prev)));
        Outcome r = attempt([&] { c.decrypt<N>(in, *o); });
        out = B(*o);
        return r;
    }
};
typedef int (*dec_t)(const Cipher&, const Bytes&, const Bytes&, Bytes&);
struct Entry { size_t n; dec_t f; };
#define E(N) {N, ArrDec<N>::dec}
static const Entry TAB[] = {E(1), E(2), E(4), E(8), E(15), E(16), E(17), E(31), E(32), E(33), E(48), E(64), E(65), E(100), E(128), E(256)};

static bool zeros(const Bytes& b) { return std::all_of(b.begin(), b.end(), [](uint8_t x) { return x == 0; }); }

static void long_case(Tape& t, Ctx& c)
{
    Stream g(t);
    Bytes key = g.bytes(32);
    Cipher x(mk<32>(key));
    Bytes m = g.bytes(33);
    std::string good, out;
    x.encrypt(S(m), good);
    for (unsigned i = 0; i < LONG_OPS; i++) {
        std::string bad = good;
        bad[g.below(bad.size())] ^= char(1u << g.below(8));
        out = "kept";
        CHECK(attempt([&] { x.decrypt(bad, out); }) != OK, "forgery ", i, " accepted by one object");
        CHECK(out == "kept" || std::all_of(out.begin(), out.end(), [](char ch) { return ch == 0; }), "forgery ", i, " released bytes");
        if (i % 1000 == 999) { x.decrypt(good, out); CHECK(eq(m, out), "the genuine ciphertext after ", i, " forgeries"); }
    }
    c.note("long history of refusals by one object");
    c.label("more than 65536 operations");
    c.nontrivial();
}
void pbt::prop_case(Tape& t, Ctx& c)
{
    if (t.longrun()) return long_case(t, c);
    Bytes key = t.bytes(32), key2 = t.bytes(32);
    if (key2 == key) key2[t.pick(32)] ^= uint8_t(1u << t.pick(8));
    Cipher cip(mk<32>(key)), other(mk<32>(key2));
    std::vector<Bytes> msgs, cts;
    unsigned n = 1 + t.pick(3);
    for (unsigned i = 0; i < n; i++) {
        size_t len = t.pick(2) ? TAB[t.pick(16)].n : t.len(1, 700, 70000);
        msgs.push_back(t.bytes(len));
        std::string o;
        cip.encrypt(S(msgs[i]), o);
        cts.push_back(B(o));
    }
    std::string o2;
    other.encrypt(S(msgs[0]), o2);
    Bytes foreign = B(o2);
    unsigned tries = 1 + t.pick(12);
    if (t.range(0, 399) == 399) { tries = 300 + t.pick(200); c.label("hundreds of rejections"); }
    for (unsigned k = 0; k < tries; k++) {
        unsigned i = t.pick(n), kind = t.pick(16);
        Bytes x = cts[i];
        std::string what;
        switch (kind) {
        case 0: { size_t b = t.range(0, x.size() * 8 - 1); x[b / 8] ^= uint8_t(1u << (b % 8)); what = "bit flip"; break; }
        case 1: { size_t p = t.range(0, 15); uint8_t v = t.u8(); x[p] ^= v ? v : 1; what = "nonce byte"; break; }
        case 2: { size_t p = x.size() - 1 - t.range(0, 15); uint8_t v = t.u8(); x[p] ^= v ? v : 1; what = "tag byte"; break; }
        case 3: { size_t p = 16 + t.range(0, x.size() - 33); uint8_t v = t.u8(); x[p] ^= v ? v : 1; what = "body byte"; break; }
        case 4: x.resize(t.range(0, x.size() - 1)); what = "truncated at the end"; break;
        case 5: { size_t d = t.range(1, x.size()); x.erase(x.begin(), x.begin() + d); what = "truncated at the start"; break; }
        case 6: { Bytes e = t.bytes(1 + t.pick(40)); x.insert(x.end(), e.begin(), e.end()); what = "extended"; break; }
        case 7: { size_t p = t.range(0, x.size()); x.insert(x.begin() + p, t.u8()); what = "byte inserted"; break; }
        case 8: x = foreign; what = "other key"; break;
        case 9: { const Bytes& y = cts[t.pick(n)]; // splice
            unsigned w = t.pick(3);
            if (w == 0) std::copy(y.begin(), y.begin() + 16, x.begin());
            else if (w == 1) std::copy(y.end() - 16, y.end(), x.end() - 16);
            else { size_t m = std::min(x.size(), y.size()); std::copy(y.begin() + 16, y.begin() + m - 16, x.begin() + 16); }
            what = "splice"; break; }
        case 10: x = t.bytes(t.len(0, 400, 70000)); what = "arbitrary bytes"; break;
        case 11: { // second half of the tag, or nonce halves
            unsigned w = t.pick(4);
            if (w == 0) std::fill(x.end() - 16, x.end(), 0); else if (w == 1) std::fill(x.begin(), x.begin() + 16, 0);
            else if (w == 2) std::rotate(x.begin(), x.begin() + 1, x.begin() + 16); else std::swap(x[12 + t.pick(4)], x[12 + t.pick(4)]);
            what = "zero/rotate fields"; break; }
        case 12: { size_t p = t.range(0, x.size() - 1); x.erase(x.begin() + p); what = "byte deleted"; break; }
        case 13: { // two changes that cancel in a sum or an exclusive or
            size_t lo = t.pick(3) == 0 ? 0 : x.size() - 16, hi = lo + 15, p = t.range(lo, hi), q = t.range(lo, hi);
            uint8_t v = uint8_t(1 + t.pick(255));
            if (t.pick(2)) { x[p] ^= v; x[q] ^= v; } else { x[p] = uint8_t(x[p] + v); x[q] = uint8_t(x[q] - v); }
            what = "two cancelling changes"; break; }
        case 14: { // keep only some bytes of the tag
            size_t from = t.range(0, 15), to = t.range(from, 15);
            for (size_t p = from; p <= to; p++) x[x.size() - 16 + p] = t.u8();
            what = "part of the tag replaced"; break; }
        default: { // the scheme without key derivation, or with a wrong tag computation
            Bytes m = t.bytes(1 + t.pick(60)), nonce = t.bytes(16), b = ref::aead_seal(t.pick(2) ? key : key2, nonce.data(), m);
            x = nonce; x.insert(x.end(), b.begin(), b.end());
            what = "sealed under a related key"; break; }
        }
        bool genuine = std::find(cts.begin(), cts.end(), x) != cts.end();
        if (genuine) { c.label("mutation was the identity"); continue; }
        // a ciphertext is genuine if the reference opens it (probability negligible otherwise)
        Bytes dummy;
        if (x.size() > 32 && ref::cipher_decrypt(key, x, dummy)) { c.label("reference accepts"); continue; }
        c.label(what);
        c.nontrivial();
        // string interface
        std::string out = t.pick(2) ? "previous value" : std::string(x.size() + 3, '\x7e');
        const std::string before = out;
        std::string in = S(x);
        Outcome r = attempt([&] { cip.decrypt(in, out); });
        c.note(what, " on len=", msgs[i].size(), " x.len=", x.size(), " -> ", outcome_name(r));
        CHECK(r != OK, "an altered ciphertext was accepted: ", what, " len=", x.size(), " x=", hex(x));
        CHECK(r == INVALID_ARGUMENT || r == RUNTIME_ERROR, "unexpected exception kind ", outcome_name(r), " for ", what);
        CHECK(out == before || zeros(B(out)), "plaintext released after a rejected decryption (string), ", what, ": ", hex(out));
        CHECK(in == S(x), "rejected decryption modified its input");
        // array interface when the size fits
        for (auto& e : TAB)
            if (e.n + 32 == x.size()) {
                Bytes prev = t.bytes(e.n), o;
                int ar = e.f(cip, x, prev, o);
                CHECK(ar != OK, "an altered ciphertext was accepted by the array interface: ", what);
                CHECK(o == prev || zeros(o), "plaintext released after a rejected decryption (array), ", what, ": ", hex(o));
                c.label("array interface");
            }
        // still usable
        if (t.pick(3) == 0) {
            std::string p;
            cip.decrypt(S(cts[i]), p);
            CHECK(eq(msgs[i], p), "after a rejection a genuine ciphertext decrypts to something else");
            std::string e2, p2;
            cip.encrypt(S(msgs[i]), e2);
            cip.decrypt(e2, p2);
            CHECK(eq(msgs[i], p2), "after a rejection encryption no longer round-trips");
            c.label("used after rejection");
        }
    }
    for (unsigned i = 0; i < n; i++) {
        std::string p;
        cip.decrypt(S(cts[i]), p);
        CHECK(eq(msgs[i], p), "genuine ciphertext no longer decrypts");
    }
}
