#include "lib.hpp"
#include <sse/crypto/prp.hpp>
#include <set>
#include "giant.hpp"
using namespace pbt;
const char* pbt::PROP_ID = "C08";
const char* pbt::PROP_RULE = "a case enciphering at least one input compared with a software AEZ and inverted, or enumerating all one-byte inputs of a key";
size_t pbt::prop_tape_len() { return 200; }
void pbt::prop_setup() { lib_init_tape_rng(); CHECK(Prp::is_available(), "no AES-NI"); }

// the largest inputs: up to UINT_MAX bytes a permutation, refused beyond
static void giant_case(Tape& t, Ctx& c)
{
    if (mem_available_gb() < 20) { c.label("giant case skipped: not enough memory"); return; }
    Prp p(mk<48>(t.bytes(48)));
    uint8_t a = t.u8();
    auto byte = [&](size_t i) { return char(uint8_t(i * 167 + (i >> 13) + a)); };
    size_t n = t.pick(3) == 0 ? (size_t(1) << 31) + t.range(0, 300) : (size_t(1) << 32) - 1 - (t.pick(2) ? t.range(0, 300) : 0);
    std::string s(n, 0), e;
    for (size_t i = 0; i < n; i++) s[i] = byte(i);
    p.encrypt(s, e);
    CHECK(e.size() == n, "encrypting ", n, " bytes gives ", e.size());
    for (size_t at : {size_t(0), n / 2, size_t(1) << 31, n - 4096}) if (at + 4096 <= n) CHECK(memcmp(&e[at], &s[at], 4096) != 0, "4096 bytes at ", at, " of ", n, " were left in clear");
    s = std::string();
    p.decrypt(e, s);
    CHECK(s.size() == n, "decrypting ", n, " bytes gives ", s.size());
    for (size_t i = 0; i < n; i++) if (s[i] != byte(i)) CHECK(false, "decrypting differs at byte ", i, " of ", n);
    e = std::string("kept");
    s.resize((size_t(1) << 32) + t.range(0, 40));
    CHECK(attempt([&] { p.encrypt(s, e); }) == RUNTIME_ERROR && e == "kept", "encrypt accepted ", s.size(), " bytes");
    CHECK(attempt([&] { p.decrypt(s, e); }) == RUNTIME_ERROR && e == "kept", "decrypt accepted ", s.size(), " bytes");
    c.note("giant len=", n);
    c.label("around 2^32 bytes");
    c.nontrivial();
}
static void long_case(Tape& t, Ctx& c)
{
    Stream g(t);
    Bytes key = g.bytes(48);
    Prp p(mk<48>(key));
    for (unsigned i = 0; i < LONG_OPS; i++) {
        Bytes in = g.bytes(1 + g.below(70));
        std::string e = p.encrypt(S(in)), d = p.decrypt(S(in));
        CHECK(eq(ref::aez(key, in, false), e), "encryption ", i, " of one object");
        CHECK(eq(ref::aez(key, in, true), d), "decryption ", i, " of one object");
        uint32_t v = uint32_t(g.next());
        CHECK(p.decrypt(p.encrypt(v)) == v && p.decrypt_64(p.encrypt_64(v)) == v, "integer ", i, " of one object");
    }
    c.note("long history of one object");
    c.label("more than 65536 operations");
    c.nontrivial();
}
void pbt::prop_case(Tape& t, Ctx& c)
{
    if (t.longrun()) return long_case(t, c);
    if (t.giant()) return giant_case(t, c);
    Bytes key = t.bytes(48);
    std::unique_ptr<Prp> p(new Prp(mk<48>(key)));
    if (t.pick(24) == 0) { // a whole small domain
        std::set<std::string> img;
        size_t len = 1 + t.pick(2);
        unsigned step = len == 1 ? 1 : 257 - 2 * t.pick(64);
        unsigned lim = len == 1 ? 256 : 65536, cnt = 0;
        for (unsigned v = len == 1 ? 0 : t.pick(200); v < lim; v += step, cnt++) {
            std::string in(1, char(v));
            if (len == 2) in += char(v >> 8);
            std::string out = p->encrypt(in);
            CHECK(out.size() == len, "length changed");
            CHECK(img.insert(out).second, "two inputs of ", len, " byte(s) collide");
            CHECK(p->decrypt(out) == in, "decryption does not invert, value ", v);
        }
        if (len == 1) CHECK(img.size() == 256, "not a permutation of the bytes");
        c.note("whole domain of ", len, " byte(s), ", cnt, " points, key=", hex(key.data(), 48, 6));
        c.label("whole domain");
        c.nontrivial();
        return;
    }
    unsigned n = 1 + t.pick(4);
    bool history = t.range(0, 499) == 499;
    if (history) { n = 150 + t.pick(100); c.label("long history"); }
    std::map<std::string, std::string> table;
    for (unsigned k = 0; k < n; k++) {
        if (t.pick(5) == 0) { std::unique_ptr<Prp> m(new Prp(std::move(*p))); p = std::move(m); c.label("moved"); }
        size_t len = history ? 1 + t.pick(60) : t.len(1, 1200, 100000);
        Bytes in = t.bytes(len);
        if (k && t.pick(3) == 0) { in = B(table.begin()->first); in[t.range(0, in.size() - 1)] ^= uint8_t(1 + t.pick(255)); len = in.size(); c.label("neighbouring input"); }
        Bytes enc = ref::aez(key, in, false), dec = ref::aez(key, in, true);
        std::string s = S(in), o = t.pick(2) ? "old" : "";
        p->encrypt(s, o);
        CHECK(o.size() == len, "encryption changed the length ", len, " to ", o.size());
        std::string back = "old";
        p->decrypt(o, back);
        CHECK(back == s, "decryption does not invert encryption, length ", len);
        std::string d2;
        p->decrypt(s, d2);
        CHECK(d2.size() == len, "decryption changed the length");
        CHECK(p->encrypt(d2) == s, "encryption does not invert decryption, length ", len);
        CHECK(eq(enc, o), "encryption is not AEZ, length ", len, " key ", hex(key));
        CHECK(eq(dec, d2), "decryption is not AEZ, length ", len, " key ", hex(key));
        CHECK(p->encrypt(s) == o && p->decrypt(s) == d2, "the returning overloads differ, length ", len);
        {
            Exact bi(in), bo(len);
            p->encrypt(bi.data(), unsigned(len), bo.data());
            CHECK(bo.bytes() == enc && bi.bytes() == in, "buffer encryption differs, length ", len);
            p->decrypt(bo.data(), unsigned(len), bi.data());
            CHECK(bi.bytes() == in && bo.bytes() == enc, "buffer decryption differs, length ", len);
        }
        for (auto& e : table) if (e.first.size() == s.size() && e.first != s) CHECK(e.second != o, "two inputs collide, length ", len);
        for (auto& e : table) CHECK(p->encrypt(e.first) == e.second, "the permutation changed over time");
        table[s] = o;
        uint64_t v = t.u64();
        {
            Bytes le(8);
            memcpy(le.data(), &v, 8);
            uint64_t e = p->encrypt_64(v), d = p->decrypt_64(v);
            Bytes re = ref::aez(key, le, false), rd = ref::aez(key, le, true);
            CHECK(memcmp(&e, re.data(), 8) == 0 && memcmp(&d, rd.data(), 8) == 0, "64-bit interface differs from the 8-byte string interface, value ", v);
            CHECK(p->decrypt_64(e) == v && p->encrypt_64(d) == v, "64-bit interface is not inverted, value ", v);
            uint32_t w = uint32_t(v);
            Bytes l4(4);
            memcpy(l4.data(), &w, 4);
            uint32_t e4 = p->encrypt(w), d4 = p->decrypt(w);
            re = ref::aez(key, l4, false), rd = ref::aez(key, l4, true);
            CHECK(memcmp(&e4, re.data(), 4) == 0 && memcmp(&d4, rd.data(), 4) == 0, "32-bit interface differs from the 4-byte string interface, value ", w);
            CHECK(p->decrypt(e4) == w && p->encrypt(d4) == w, "32-bit interface is not inverted, value ", w);
        }
        c.note("key=", hex(key.data(), 48, 4), " len=", len, " in=", hex(in.data(), len, 6), " out=", hex(enc.data(), len, 6), " v=", v);
        c.label(len < 16 ? "len<16" : len < 32 ? "len 16..31" : len < 128 ? "len 32..127" : len < 256 ? "len 128..255" : "len>=256");
        c.nontrivial();
    }
}
