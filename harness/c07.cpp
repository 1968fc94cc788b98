#include "lib.hpp"
#include <sse/crypto/prg.hpp>
#include "giant.hpp"
using namespace pbt;
const char* pbt::PROP_ID = "C07";
const char* pbt::PROP_RULE = "a case deriving at least one slice of 1 or more bytes, or one derived key, compared with an independent ChaCha20 stream";
size_t pbt::prop_tape_len() { return 200; }
void pbt::prop_setup() { lib_init_tape_rng(); }

struct IKeys {
    size_t K;
    Bytes (*one)(const Prg&, uint16_t);
    std::vector<Bytes> (*many)(Prg&, uint16_t, uint16_t);
    Bytes (*sone)(Key<32>&&, uint16_t);
    std::vector<Bytes> (*smany)(Key<32>&&, uint16_t, uint16_t);
    std::vector<Bytes> (*many0)(Prg&, uint16_t);
    std::vector<Bytes> (*smany0)(Key<32>&&, uint16_t);
    void (*arr)(Key<32>&&, size_t, Bytes&);
};
template <size_t K> std::vector<Bytes> conv(std::vector<Key<K>> v)
{
    std::vector<Bytes> r;
    for (auto& k : v) r.push_back(key_content(k));
    return r;
}
template <size_t K> IKeys ops()
{
    return IKeys{K,
        [](const Prg& p, uint16_t o) { return key_content(p.derive_key<K>(o)); },
        [](Prg& p, uint16_t n, uint16_t o) { return conv<K>(p.derive_keys<K>(n, o)); },
        [](Key<32>&& k, uint16_t o) { return key_content(Prg::derive_key<K>(std::move(k), o)); },
        [](Key<32>&& k, uint16_t n, uint16_t o) { return conv<K>(Prg::derive_keys<K>(std::move(k), n, o)); },
        [](Prg& p, uint16_t n) { return conv<K>(p.derive_keys<K>(n)); },
        [](Key<32>&& k, uint16_t n) { return conv<K>(Prg::derive_keys<K>(std::move(k), n)); },
        [](Key<32>&& k, size_t off, Bytes& out) { std::unique_ptr<std::array<uint8_t, K>> a(new std::array<uint8_t, K>); a->fill(0xEE); Prg::derive<K>(std::move(k), off, *a); out = B(*a); }};
}
static const IKeys OPS[] = {ops<1>(), ops<2>(), ops<7>(), ops<8>(), ops<10>(), ops<15>(), ops<16>(), ops<18>(), ops<24>(), ops<31>(), ops<32>(), ops<33>(), ops<48>(), ops<63>(), ops<64>(), ops<65>(), ops<100>(), ops<112>(), ops<128>(), ops<200>(), ops<257>(), ops<1000>()};

static size_t gen_offset(Tape& t)
{
    switch (t.pick(8)) {
    case 0: return 0;
    case 1: return t.range(1, 63);
    case 2: return 64 * t.range(0, 300);
    case 3: return 64 * t.range(1, 300) - 1 + t.pick(3);
    case 4: return t.range(0, 1000000);
    case 5: return (size_t(1) << t.range(7, 40)) + t.range(0, 130) - 65;          // far offsets
    case 6: return (size_t(1) << 38) + t.range(0, 400) - 200;                      // around 2^32 blocks: 64-bit counter
    default: return t.range(0, 2000);
    }
}
static void giant_case(Tape& t, Ctx& c)
{
    if (mem_available_gb() < 14) { c.label("giant case skipped: not enough memory"); return; }
    size_t n = giant_size(t);
    size_t off = gen_offset(t);
    Bytes key = t.bytes(32);
    Prg p(mk<32>(key));
    std::unique_ptr<uint8_t[]> out(new uint8_t[n]);
    p.derive(off, n, out.get());
    for (size_t at : {size_t(0), (size_t(1) << 31) - 100, (size_t(1) << 32) - 100, n - 1000}) {
        size_t l = std::min<size_t>(1000, n - at);
        CHECK(Bytes(out.get() + at, out.get() + at + l) == ref::prg(key, off + at, l), "derive(", off, ", ", n, ") differs from the stream around byte ", at);
    }
    c.note("giant offset=", off, " len=", n);
    c.label("more than 2^32 bytes");
    c.nontrivial();
}
static void long_case(Tape& t, Ctx& c)
{
    Stream g(t);
    Bytes key = g.bytes(32);
    Prg p(mk<32>(key));
    for (unsigned i = 0; i < LONG_OPS; i++) {
        size_t off = size_t(g.next() >> (8 + g.below(56))), len = 1 + g.below(90);
        CHECK(eq(ref::prg(key, off, len), p.derive(off, len)), "derivation ", i, " of one object: derive(", off, ", ", len, ")");
        if (i % 4 == 0) { uint16_t k = uint16_t(g.next()); CHECK(key_content<32>(p.derive_key<32>(k)) == ref::prg(key, uint64_t(k) * 32, 32), "derived key ", i, " of one object"); }
    }
    c.note("long history of one object");
    c.label("more than 65536 operations");
    c.nontrivial();
}
void pbt::prop_case(Tape& t, Ctx& c)
{
    if (t.longrun()) return long_case(t, c);
    if (t.giant()) return giant_case(t, c);
    Bytes key = t.bytes(32);
    std::unique_ptr<Prg> p(new Prg(mk<32>(key)));
    unsigned n = 1 + t.pick(4);
    bool history = t.range(0, 799) == 799;
    if (history) { n = 200 + t.pick(200); c.label("long history"); }
    for (unsigned q = 0; q < n; q++) {
        if (t.pick(5) == 0) { std::unique_ptr<Prg> m(new Prg(std::move(*p))); p = std::move(m); c.label("moved"); }
        if (t.pick(3) == 0) { // derived keys
            const IKeys& o = OPS[t.pick(sizeof(OPS) / sizeof(OPS[0]))];
            uint16_t off = t.pick(2) ? uint16_t(t.range(0, 20)) : uint16_t(t.range(0, 65535));
            uint16_t cnt = t.pick(10) == 9 ? uint16_t(t.range(0, 300)) : uint16_t(t.range(0, 12));
            if (o.K <= 18 && t.range(0, 399) == 399) { // every key holds guarded pages: the kernel bounds their number
                cnt = uint16_t(t.range(300, 4000));
                c.label("thousands of keys"); }
            Bytes all = ref::prg(key, uint64_t(off) * o.K, size_t(cnt) * o.K);
            auto slice = [&](size_t i) { return Bytes(all.begin() + i * o.K, all.begin() + (i + 1) * o.K); };
            auto same = [&](const std::vector<Bytes>& v, const char* who) {
                CHECK(v.size() == cnt, who, " returned ", v.size(), " keys instead of ", cnt);
                for (size_t i = 0; i < cnt; i++) CHECK(v[i] == slice(i), who, ": key ", i, " of ", cnt, " at key offset ", off, " size ", o.K, " is not its slice");
            };
            CHECK(o.one(*p, off) == ref::prg(key, uint64_t(off) * o.K, o.K), "derive_key<", o.K, ">(", off, ")");
            same(o.many(*p, cnt, off), "derive_keys");
            unsigned w = t.pick(3);
            Key<32> k1 = mk<32>(key);
            if (w == 0) { CHECK(o.sone(std::move(k1), off) == ref::prg(key, uint64_t(off) * o.K, o.K), "one-shot derive_key<", o.K, ">(", off, ")"); }
            else if (w == 1) same(o.smany(std::move(k1), cnt, off), "one-shot derive_keys");
            else {
                Bytes a;
                o.arr(std::move(k1), off, a);
                CHECK(a == ref::prg(key, off, o.K), "one-shot derive into array<", o.K, "> at offset ", off);
            }
            if (!(w == 1 && cnt == 0)) CHECK(key_empty(k1), "the consumed seed is not empty after one-shot derivation");
            if (off == 0 || t.pick(3) == 0) {
                Bytes all0 = ref::prg(key, 0, size_t(cnt) * o.K);
                auto v = o.many0(*p, cnt);
                CHECK(v.size() == cnt, "derive_keys(n) count");
                for (size_t i = 0; i < cnt; i++) CHECK(v[i] == Bytes(all0.begin() + i * o.K, all0.begin() + (i + 1) * o.K), "derive_keys(n) without offset: key ", i);
                Key<32> k2 = mk<32>(key);
                v = o.smany0(std::move(k2), cnt);
                CHECK(v.size() == cnt, "one-shot derive_keys(n) count");
                for (size_t i = 0; i < cnt; i++) CHECK(v[i] == Bytes(all0.begin() + i * o.K, all0.begin() + (i + 1) * o.K), "one-shot derive_keys(n) without offset: key ", i);
            }
            c.note("keys K=", o.K, " offset=", off, " count=", cnt);
            c.label(cnt > 12 ? "many keys" : "keys");
            c.nontrivial();
            continue;
        }
        size_t off = gen_offset(t);
        size_t len = history ? t.pick(200) : t.len(0, 2000, 300000);
        Bytes want = ref::prg(key, off, len);
        {
            Exact out(len);
            p->derive(off, len, out.data());
            CHECK(out.bytes() == want, "derive(", off, ", ", len, ", buffer) is not the slice of the stream");
        }
        std::string s = t.pick(2) ? "old" : "";
        p->derive(off, len, s);
        CHECK(eq(want, s), "derive(", off, ", ", len, ", string)");
        CHECK(eq(want, p->derive(off, len)), "string derive(", off, ", ", len, ")");
        unsigned w = t.pick(6);
        Key<32> k = mk<32>(key);
        if (w == 0) { Exact out(len); Prg::derive(std::move(k), off, len, out.data()); CHECK(out.bytes() == want, "one-shot derive into buffer at ", off, " length ", len); }
        else if (w == 1) { std::string o = "old"; Prg::derive(std::move(k), off, len, o); CHECK(eq(want, o), "one-shot derive into string at ", off, " length ", len); }
        else if (w == 2) { CHECK(eq(want, Prg::derive(std::move(k), off, len)), "one-shot derive returning string at ", off, " length ", len); }
        else {
            // zero-offset shorthands
            Bytes w0 = ref::prg(key, 0, len);
            std::string o = "old";
            p->derive(len, o);
            CHECK(eq(w0, o), "derive(", len, ", string)");
            CHECK(eq(w0, p->derive(len)), "derive(", len, ")");
            if (w == 3) { Prg::derive(std::move(k), len, o); CHECK(eq(w0, o), "one-shot derive(", len, ", string)"); }
            else CHECK(eq(w0, Prg::derive(std::move(k), len)), "one-shot derive(", len, ")");
        }
        CHECK(key_empty(k), "the consumed seed is not empty after one-shot derivation");
        // splitting law
        if (len >= 2) {
            std::string parts;
            size_t pos = 0;
            unsigned np = 1 + t.pick(4);
            for (unsigned i = 0; i < np && pos < len; i++) {
                size_t l = i + 1 == np ? len - pos : t.range(0, len - pos);
                parts += p->derive(off + pos, l);
                pos += l;
            }
            CHECK(parts == std::string(want.begin(), want.begin() + parts.size()), "the pieces of [", off, ", ", off + len, ") do not concatenate to the whole");
        }
        c.note("offset=", off, " len=", len, " key=", hex(key.data(), 32, 4), " out=", hex(want.data(), len, 8));
        c.label(off >= (1ull << 32) ? "offset >= 2^32" : off % 64 ? "unaligned offset" : "aligned offset");
        c.nontrivial(len > 0);
    }
}
