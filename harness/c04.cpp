#include "lib.hpp"
#include <sse/crypto/hash.hpp>
#include <hash/blake2b.hpp>
#include <hash/sha512.hpp>
#include "giant.hpp"
using namespace pbt;
const char* pbt::PROP_ID = "C04";
const char* pbt::PROP_RULE = "a case hashing at least one input of 1 or more bytes through every overload against OpenSSL's digest";
size_t pbt::prop_tape_len() { return 120; }
void pbt::prop_setup() { lib_init_tape_rng(); }
typedef void (*raw_t)(const unsigned char*, const size_t, unsigned char*);

static void raw_one(raw_t f, const char* name, const Bytes& m, const Bytes& want, unsigned how)
{
    if (how == 0) {
        Exact in(m), out(64);
        f(in.data(), m.size(), out.data());
        CHECK(out.bytes() == want, name, " differs from the reference, len=", m.size());
        CHECK(in.bytes() == m, name, " modified its input");
    } else if (how == 1) { // in place
        Bytes b = m;
        if (b.size() < 64) b.resize(64);
        Exact io(b);
        f(io.data(), m.size(), io.data());
        CHECK(Bytes(io.data(), io.data() + 64) == want, name, " in place differs, len=", m.size());
        Bytes tail(io.data() + 64, io.data() + io.n), t0(b.begin() + 64, b.end());
        CHECK(tail == t0, name, " in place wrote after the digest");
    } else { // unaligned buffers
        Bytes shifted(m.size() + how, 0x11);
        std::copy(m.begin(), m.end(), shifted.begin() + how);
        Exact in(shifted), out(64 + how);
        f(in.data() + how, m.size(), out.data() + how);
        CHECK(Bytes(out.data() + how, out.data() + out.n) == want, name, " on unaligned buffers differs, len=", m.size());
        for (unsigned i = 0; i < how; i++) CHECK(out.data()[i] == 0xA5, name, " wrote before its output");
    }
}

static void giant_case(Tape& t, Ctx& c)
{
    if (mem_available_gb() < 4) { c.label("giant case skipped: not enough memory"); return; }
    size_t n = giant_size(t);
    Big b(t, n);
    if (!b.p) return;
    Exact out(size_t(64));
    bool sha = t.pick(3) == 2;
    if (sha) hash::sha512::hash(b.p, n, out.data());
    else Hash::hash(b.p, n, out.data());
    CHECK(out.bytes() == ref::hash_parts(sha, Bytes(), b.p, n), "hash of ", n, " bytes");
    c.note("giant len=", n);
    c.label("more than 2^32 bytes");
    c.nontrivial();
}
void pbt::prop_case(Tape& t, Ctx& c)
{
    if (t.giant()) return giant_case(t, c);
    unsigned n = 1 + t.pick(3);
    for (unsigned k = 0; k < n; k++) {
        unsigned big = t.pick(60);
        size_t len = t.len(0, big < 4 ? 50000 : 3000, big == 0 ? 3000000 : 200000);
        Bytes m = t.bytes(len);
        if (len && t.pick(3) == 0) m[len - 1] ^= t.u8();
        Bytes b2 = ref::blake2b512(m), s5 = ref::sha512(m);
        unsigned how = t.pick(4);
        raw_one(&hash::sha512::hash, "sha512", m, s5, how);
        raw_one(&hash::blake2b::hash, "blake2b", m, b2, how);
        raw_one(static_cast<raw_t>(&Hash::hash), "Hash::hash", m, b2, how);
        // string overloads
        std::string in = S(m), out = t.pick(2) ? "previous" : "";
        Hash::hash(in, out);
        CHECK(eq(b2, out), "Hash::hash(string, string&) differs, len=", len);
        CHECK(eq(b2, Hash::hash(in)), "Hash::hash(string) differs, len=", len);
        CHECK(eq(m, in), "Hash::hash modified its input string");
        // prefixes
        for (int q = 0; q < 3; q++) {
            size_t ol = q == 0 ? t.range(0, 64) : q == 1 ? t.range(0, 80) : (t.pick(4) ? 64 : t.u64());
            if (ol <= 64) {
                Bytes want(b2.begin(), b2.begin() + ol);
                Exact i2(m), o2(ol);
                Hash::hash(i2.data(), len, ol, o2.data());
                CHECK(o2.bytes() == want, "Hash::hash with output length ", ol, " is not the prefix, len=", len);
                std::string so = "old content that is longer than the digest so that a leftover would be visible ..........";
                Hash::hash(in, ol, so);
                CHECK(eq(want, so), "Hash::hash(string, ", ol, ", string&) differs, len=", len);
                CHECK(eq(want, Hash::hash(in, ol)), "Hash::hash(string, ", ol, ") differs, len=", len);
                if (len >= ol) {
                    Exact io(m);
                    Hash::hash(io.data(), len, ol, io.data());
                    CHECK(Bytes(io.data(), io.data() + ol) == want, "in-place prefix hash differs, len=", len, " out_len=", ol);
                    CHECK(Bytes(io.data() + ol, io.data() + len) == Bytes(m.begin() + ol, m.end()), "in-place prefix hash wrote more than out_len=", ol);
                }
                c.label("prefix");
            } else {
                std::string so = "unchanged";
                Exact i2(m), o2(8);
                CHECK(attempt([&] { Hash::hash(in, ol, so); }) == INVALID_ARGUMENT && so == "unchanged", "output length ", ol, " accepted or output touched (string)");
                CHECK(attempt([&] { Hash::hash(i2.data(), len, ol, o2.data()); }) == INVALID_ARGUMENT, "output length ", ol, " accepted (raw)");
                CHECK(attempt([&] { (void)Hash::hash(in, ol); }) == INVALID_ARGUMENT, "output length ", ol, " accepted (returned string)");
                c.label("oversized output length refused");
            }
        }
        c.label(len == 0 ? "empty" : len >= 65536 ? "len>=64k" : len >= 128 ? "len 128..64k" : "len<128");
        c.note("len=", len, " in=", hex(m.data(), len, 8), " how=", how, " blake2b=", hex(b2.data(), 64, 8), " sha512=", hex(s5.data(), 64, 8));
        c.nontrivial(len >= 1);
    }
}
