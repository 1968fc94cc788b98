#include "lib.hpp"
#include <sse/crypto/cipher.hpp>
#include <sse/crypto/hash.hpp>
#include <sse/crypto/hmac.hpp>
#include <sse/crypto/prf.hpp>
#include <sse/crypto/prg.hpp>
#include <sse/crypto/prp.hpp>
#include <sse/crypto/rcprf.hpp>
#include <sse/crypto/tdp.hpp>
#include <sse/crypto/wrapper.hpp>
#include <gmp.h>
#include <atomic>
#include <set>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include "testkeys.hpp"
using namespace pbt;
const char* pbt::PROP_ID = "C03";
const char* pbt::PROP_RULE = "a case that drew at least 64 fresh values of one kind and passed them through the repetition, byte-coverage and byte-dependence tests";
size_t pbt::prop_tape_len() { return 48; }
void pbt::prop_setup() { lib_init_real_rng(); }

// how many bytes the library takes from libsodium's generator
static std::atomic<uint64_t> g_taken{0};
extern "C" {
void __real_randombytes(unsigned char*, unsigned long long);
void __real_randombytes_buf(void*, size_t);
uint32_t __real_randombytes_random(void);
uint32_t __real_randombytes_uniform(uint32_t);
void __wrap_randombytes(unsigned char* b, unsigned long long n) { g_taken += n; __real_randombytes(b, n); }
void __wrap_randombytes_buf(void* b, size_t n) { g_taken += n; __real_randombytes_buf(b, n); }
uint32_t __wrap_randombytes_random(void) { g_taken += 4; return __real_randombytes_random(); }
uint32_t __wrap_randombytes_uniform(uint32_t m) { g_taken += 4; return __real_randombytes_uniform(m); }
}
// every 16-byte window ever drawn in this process
static std::unordered_map<std::string, std::string> g_windows;
static uint64_t g_drawn = 0;
static void fresh(const Bytes& v, const std::string& kind)
{
    g_drawn++;
    for (size_t p = 0; p + 16 <= v.size(); p += 16) {
        if (g_windows.size() > 3000000) g_windows.clear();
        auto r = g_windows.insert({std::string(v.begin() + p, v.begin() + p + 16), kind});
        CHECK(r.second, "16 bytes of a value of kind '", kind, "' were already drawn as '", r.first->second, "': ", hex(&v[p], 16), " at offset ", p);
    }
}
static void stats(const std::vector<Bytes>& v, const std::string& kind)
{
    size_t n = v.size(), len = v[0].size();
    for (size_t i = 0; i < len; i++) {
        std::set<uint8_t> seen;
        unsigned o = 0, a = 255;
        for (auto& x : v) { seen.insert(x[i]); o |= x[i]; a &= x[i]; }
        CHECK(seen.size() >= 22, "byte ", i, " of ", len, " of '", kind, "' takes only ", seen.size(), " values in ", n, " draws");
        CHECK(o == 255 && a == 0, "a bit of byte ", i, " of '", kind, "' is constant in ", n, " draws");
    }
    for (size_t i = 0; i < len && i < 300; i++)
        for (size_t j = i + 1; j < len && j < i + 70; j++) {
            std::set<uint8_t> x, d;
            for (auto& s : v) { x.insert(uint8_t(s[i] ^ s[j])); d.insert(uint8_t(s[i] - s[j])); if (x.size() >= 12 && d.size() >= 12) break; }
            CHECK(x.size() >= 12 && d.size() >= 12, "bytes ", i, " and ", j, " of '", kind, "' depend on each other");
        }
    for (size_t i = 0; i < len; i++) { // successive draws
        std::set<uint8_t> x;
        for (size_t k = 1; k < n; k++) x.insert(uint8_t(v[k][i] - v[k - 1][i]));
        CHECK(x.size() >= 20, "byte ", i, " of '", kind, "' advances in few steps between draws");
    }
}

template <size_t N> static Bytes rkey() { Key<N> k; return key_content(k); }
static Bytes rb(size_t n) { Bytes b(n + 1, 0x77); random_bytes(n, b.data()); CHECK(b[n] == 0x77, "random_bytes wrote beyond the buffer"); b.pop_back(); return b; }
static const std::string MSG = "the same message every time";
static Cipher& cipher() { static Cipher c((Key<32>())); return c; }
static Wrapper& wrapper() { static Wrapper w((Key<32>())); return w; }
static Prg& prg() { static Prg p((Key<32>())); return p; }
static TdpInverse& inv() { static TdpInverse t(TEST_SK[0]); return t; }
static Tdp& tdp() { static Tdp t(inv().public_key()); return t; }
static TdpMultPool& pool() { static TdpMultPool t(inv().public_key(), 2); return t; }
static Bytes head(const Bytes& b, size_t n) { return Bytes(b.begin(), b.begin() + n); }

struct Kind { const char* name; Bytes (*draw)(size_t); };
static const Kind KINDS[] = {
    {"Key<32>", [](size_t) { return rkey<32>(); }},
    {"Key<16>", [](size_t) { return rkey<16>(); }},
    {"Key<48>", [](size_t) { return rkey<48>(); }},
    {"Key<112>", [](size_t) { return rkey<112>(); }},
    {"Key<17>", [](size_t) { return rkey<17>(); }},
    {"Key<200>", [](size_t) { return rkey<200>(); }},
    {"Key<5>", [](size_t) { return rkey<5>(); }},
    {"nonce of string encryption", [](size_t) { std::string o; cipher().encrypt(MSG, o); return head(B(o), 16); }},
    {"nonce of array encryption", [](size_t) { std::array<uint8_t, 20> m; m.fill(7); std::array<uint8_t, 52> o; cipher().encrypt<20>(m, o); return head(B(o), 16); }},
    {"string ciphertext of one message", [](size_t) { std::string o; cipher().encrypt(MSG, o); return B(o); }},
    {"ciphertext under fresh keys", [](size_t) { Cipher c((Key<32>())); std::string o; c.encrypt(MSG, o); return B(o); }},
    {"wrapping IV", [](size_t) { return head(wrapper().wrap(prg()), 16); }},
    {"wrapping of one object", [](size_t) { return wrapper().wrap(prg()); }},
    {"wrapping under fresh keys", [](size_t) { Wrapper w((Key<32>())); return w.wrap(prg()); }},
    {"random_string", [](size_t n) { std::string s = random_string(n); CHECK(s.size() == n, "random_string(", n, ") has ", s.size(), " bytes"); return B(s); }},
    {"random_bytes(n, out)", [](size_t n) { return rb(n); }},
    {"random_bytes(array<u8,33>)", [](size_t) { std::array<uint8_t, 33> a; a.fill(0); random_bytes(a); return B(a); }},
    {"random_bytes(array<u16,20>)", [](size_t) { std::array<uint16_t, 20> a; a.fill(0); random_bytes(a); const uint8_t* p = reinterpret_cast<const uint8_t*>(a.data()); return Bytes(p, p + 40); }},
    {"random_bytes(array<u64,9>)", [](size_t) { std::array<uint64_t, 9> a; a.fill(0); random_bytes(a); const uint8_t* p = reinterpret_cast<const uint8_t*>(a.data()); return Bytes(p, p + 72); }},
    {"random_bytes<u8,31>()", [](size_t) { auto a = random_bytes<uint8_t, 31>(); return B(a); }},
    {"random_bytes<u32,11>()", [](size_t) { auto a = random_bytes<uint32_t, 11>(); const uint8_t* p = reinterpret_cast<const uint8_t*>(a.data()); return Bytes(p, p + 44); }},
    {"random_bytes<u64,3>()", [](size_t) { auto a = random_bytes<uint64_t, 3>(); const uint8_t* p = reinterpret_cast<const uint8_t*>(a.data()); return Bytes(p, p + 24); }},
    {"mbedTLS_rng_wrap", [](size_t n) { Bytes b(n); CHECK(mbedTLS_rng_wrap(nullptr, b.data(), n) == 0, "generator failed"); return b; }},
    {"PRF with a default key", [](size_t) { Prf<48> p; return B(p.prf(MSG)); }},
    {"MAC with a default key", [](size_t) { HMac<Hash, 32> p; return B(p.hmac(MSG)); }},
    {"MAC with a default 100-byte key", [](size_t) { HMac<Hash, 100> p; return B(p.hmac(MSG)); }},
    {"PRG of a fresh key", [](size_t) { return B(Prg::derive(Key<32>(), 40)); }},
    {"PRP with a default key", [](size_t) { Prp p; return B(p.encrypt(MSG)); }},
    {"RCPrf of a fresh key", [](size_t) { RCPrf<32> p((Key<32>()), 8); return B(p.eval(3)); }},
    {"Tdp::sample", [](size_t) { return B(tdp().sample()); }},
    {"Tdp::sample_array", [](size_t) { return B(tdp().sample_array()); }},
    {"TdpInverse::sample", [](size_t) { return B(inv().sample()); }},
    {"TdpInverse::sample_array", [](size_t) { return B(inv().sample_array()); }},
    {"TdpMultPool::sample", [](size_t) { return B(pool().sample()); }},
    {"TdpMultPool::sample_array", [](size_t) { return B(pool().sample_array()); }},
};
static const size_t NK = sizeof(KINDS) / sizeof(KINDS[0]);

static std::vector<std::string> g_moduli;
static std::vector<Bytes> g_primes;
static void keypair(Ctx& c)
{
    uint64_t before = g_taken;
    TdpInverse a;
    CHECK(g_taken == before || g_taken - before >= 64, "a key pair is made from ", g_taken - before, " random bytes");
    std::string pem = a.private_key();
    RsaKey r;
    CHECK(ref_parse_private(pem, r), "the generated private key does not parse");
    CHECK(mpz_sizeinbase(r.n, 2) == 2048, "the generated modulus has ", mpz_sizeinbase(r.n, 2), " bits");
    char* s = mpz_get_str(nullptr, 16, r.n);
    std::string hexn = s;
    free(s);
    for (auto& o : g_moduli) {
        mpz_t m, g;
        mpz_init_set_str(m, o.c_str(), 16);
        mpz_init(g);
        mpz_gcd(g, m, r.n);
        CHECK(mpz_cmp_ui(g, 1) == 0, "two generated key pairs share a factor");
        mpz_clears(m, g, nullptr);
    }
    g_moduli.push_back(hexn);
    // the factors: no 8 bytes at one place are ever those of another factor
    for (auto* z : {&r.p, &r.q}) {
        Bytes b = mpz_bytes(*z, 128);
        for (auto& o : g_primes)
            for (size_t i = 0; i + 8 <= b.size(); i++)
                CHECK(memcmp(&b[i], &o[i], 8) != 0, "two factors of generated key pairs share bytes ", i, "..", i + 7);
        g_primes.push_back(b);
    }
    c.label("generated key pair");
}

// values drawn in two child processes and here must differ
static void across_processes(const Kind& k, size_t len, Ctx& c)
{
    std::map<Bytes, int> seen;
    for (int p = 0; p < 2; p++) {
        int fd[2];
        if (pipe(fd) != 0) return;
        pid_t pid = fork();
        if (pid == 0) {
            close(fd[0]);
            for (int i = 0; i < 4; i++) {
                Bytes v;
                try { v = k.draw(len); } catch (...) { _exit(9); }
                if (write(fd[1], v.data(), v.size()) != ssize_t(v.size())) _exit(8);
                if (i == 3) { uint32_t n = uint32_t(v.size()); (void)!write(fd[1], &n, 4); }
            }
            _exit(0);
        }
        close(fd[1]);
        Bytes all;
        uint8_t buf[4096];
        ssize_t r;
        while ((r = read(fd[0], buf, sizeof buf)) > 0) all.insert(all.end(), buf, buf + r);
        close(fd[0]);
        int st;
        while (waitpid(pid, &st, 0) < 0) {}
        CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "drawing in a child process failed for '", k.name, "'");
        CHECK(all.size() > 4, "no data");
        uint32_t n;
        memcpy(&n, &all[all.size() - 4], 4);
        for (int i = 0; i < 4; i++) {
            Bytes v(all.begin() + i * n, all.begin() + (i + 1) * n);
            auto it = seen.insert({v, p});
            if (n >= 12) CHECK(it.second, "two processes drew the same value of kind '", k.name, "'");
        }
    }
    c.label("across processes");
}

// chi-square against the uniform distribution, at thresholds no fair generator reaches in practice (p < 1e-15)
static double chi2(const std::vector<unsigned>& bins, double n)
{
    double e = n / double(bins.size()), s = 0;
    for (unsigned b : bins) s += (b - e) * (b - e) / e;
    return s;
}
static void distribution(const Kind& k, size_t len, bool element, Ctx& c)
{
    const unsigned n = 3000;
    size_t w = 0;
    std::vector<std::vector<unsigned>> pos;
    std::vector<unsigned> top(16, 0);
    mpz_t N, x;
    mpz_inits(N, x, nullptr);
    if (element) { RsaKey r; ref_parse_private(TEST_SK[0], r); mpz_set(N, r.n); }
    for (unsigned i = 0; i < n; i++) {
        Bytes v = k.draw(len);
        if (!w) { w = v.size(); pos.assign(std::min<size_t>(w, 300), std::vector<unsigned>(256, 0)); }
        for (size_t j = element ? 8 : 0; j < pos.size(); j++) pos[j][v[j]]++;
        if (element) {
            mpz_import(x, v.size(), 1, 1, 0, 0, v.data());
            mpz_mul_ui(x, x, 16);
            mpz_fdiv_q(x, x, N);
            unsigned long b = mpz_get_ui(x);
            if (b < 16) top[b]++;
        }
    }
    mpz_clears(N, x, nullptr);
    for (size_t j = element ? 8 : 0; j < pos.size(); j++) {
        double s = chi2(pos[j], n);
        CHECK(s < 520, "byte ", j, " of '", k.name, "' is not uniform: chi-square ", s, " (255 degrees of freedom) over ", n, " draws");
    }
    if (element) {
        double s = chi2(top, n);
        CHECK(s < 110, "'", k.name, "' is not uniform below the modulus: chi-square ", s, " (15 degrees of freedom) over ", n, " draws");
    }
    c.note("distribution of ", n, " draws of ", k.name);
    c.label("distribution");
    c.nontrivial();
}
// requests far longer than any buffer the generator might work through
static void long_request(Tape& t, Ctx& c)
{
    static const size_t W[] = {255, 256, 257, 4096, 8192, 32768, 65535, 65536, 100000, 262144, 1048576, 3000000};
    size_t n = W[t.pick(sizeof(W) / sizeof(W[0]))] + t.range(0, 70);
    unsigned how = t.pick(3);
    Bytes b(n);
    if (how == 0) b = B(random_string(n));
    else if (how == 1) b = rb(n);
    else { b.assign(n, 0); CHECK(mbedTLS_rng_wrap(nullptr, b.data(), n) == 0, "generator failed"); }
    CHECK(b.size() == n, "length ", b.size(), " instead of ", n);
    std::set<std::string> seen;
    for (size_t p = 0; p + 16 <= n; p += 16) CHECK(seen.insert(std::string(b.begin() + long(p), b.begin() + long(p) + 16)).second, "16 bytes repeat within one random value of ", n, " bytes at offset ", p);
    for (size_t p = 0; p + 64 <= n; p += 64) {
        std::set<uint8_t> s(b.begin() + long(p), b.begin() + long(p) + 64);
        CHECK(s.size() > 20, "64 bytes at offset ", p, " of a random value of ", n, " bytes take only ", s.size(), " values");
    }
    if (n >= 32) { // the tail too
        std::set<uint8_t> s(b.end() - 32, b.end());
        CHECK(s.size() > 8, "the last 32 bytes of a random value of ", n, " bytes take only ", s.size(), " values");
    }
    c.note("one value of ", n, " bytes");
    c.label("long request");
    c.nontrivial();
}
// tens of thousands of draws from one source
static void long_run(Tape& t, Ctx& c)
{
    const Kind* k;
    do k = &KINDS[t.pick(NK)]; while (!t.exhausted() && (strstr(k->name, "Tdp") || strstr(k->name, "Key<5>") || strstr(k->name, "RCPrf")));
    if (strstr(k->name, "Tdp") || strstr(k->name, "Key<5>")) return;
    size_t n = 3000 + t.range(0, t.pick(4) == 0 ? 70000 : 9000);
    std::set<Bytes> seen;
    for (size_t i = 0; i < n; i++) CHECK(seen.insert(head(k->draw(16), 16)).second, "draw ", i, " of '", k->name, "' repeats an earlier one");
    c.note("run of ", n, " draws of ", k->name);
    c.label("long run");
    c.nontrivial();
}
static void long_case(Tape& t, Ctx& c)
{
    Stream g(t);
    Cipher x((Key<32>()));
    Wrapper w((Key<32>()));
    Prg p((Key<32>()));
    std::unordered_map<std::string, unsigned> seen;
    seen.reserve(8 * LONG_OPS);
    auto once = [&](const std::string& v, const char* what, unsigned i) {
        auto r = seen.insert({v.substr(0, 16), i});
        CHECK(r.second, what, " number ", i, " repeats draw ", r.first->second, ": ", hex(v.data(), 16));
    };
    std::string o;
    for (unsigned i = 0; i < 2 * LONG_OPS; i++) {
        x.encrypt(MSG, o);
        once(o, "the nonce of encryption", i);
        if (i % 2) { std::vector<uint8_t> b = w.wrap(p); once(std::string(b.begin(), b.end()), "the IV of wrapping", i); }
        if (i % 2) once(random_string(16), "random string", i);
        if (i % 8 == 0) once(S(rkey<16>()), "random key", i);
        if (i % 8 == 1) once(tdp().sample().substr(16), "sampled element", i);
    }
    c.note("long history of one cipher, one wrapper and the generator");
    c.label("more than 65536 operations");
    c.nontrivial();
}
void pbt::prop_case(Tape& t, Ctx& c)
{
    if (t.longrun()) return long_case(t, c);
    unsigned sel = t.pick(16);
    if (sel == 15 && t.pick(8) == 7) { keypair(c); c.note("key pair ", g_moduli.size()); return; }
    if (sel == 15 && t.pick(12) == 0) { long_run(t, c); return; }
    if (sel == 15 && t.pick(3) == 0) { long_request(t, c); return; }
    const Kind& k = KINDS[t.pick(NK)];
    if (sel == 15) {
        bool el = strstr(k.name, "::sample");
        if (el || t.pick(3) == 0) { distribution(k, 16 + t.pick(20), el, c); return; }
    }
    size_t len = t.pick(4) ? t.range(1, 80) : t.len(1, 4000, 200000);
    if (sel == 14) { across_processes(k, std::max<size_t>(len, 16), c); c.note("processes kind=", k.name); return; }
    if (sel >= 12) { // interleaved kinds: a history of unrelated draws
        std::string h;
        std::vector<Bytes> first, second;
        unsigned n = 20 + t.pick(40);
        for (unsigned i = 0; i < n; i++) {
            const Kind& q = KINDS[t.pick(NK)];
            Bytes v = q.draw(16 + t.pick(64));
            fresh(v, q.name);
            if (h.size() < 120) h += std::string(q.name) + ",";
        }
        c.note("history of ", n, ": ", h);
        c.label("interleaved history");
        return;
    }
    unsigned n = 64, poor = 0;
    std::vector<Bytes> v;
    for (unsigned i = 0; i < n; i++) {
        uint64_t before = g_taken;
        Bytes x = k.draw(len);
        uint64_t took = g_taken - before;
        // a value may come out of a pool (nothing is taken) or of another source, but not, each time, from a few bytes
        if (took > 0 && took < std::min<size_t>(16, x.size())) poor++;
        CHECK(v.empty() || x.size() == v[0].size(), "width of '", k.name, "' varies");
        fresh(x, k.name);
        v.push_back(x);
    }
    CHECK(poor < n, "every value of kind '", k.name, "' (", v[0].size(), " bytes) is made from fewer than ", std::min<size_t>(16, v[0].size()), " random bytes");
    stats(v, k.name);
    c.note("kind=", k.name, " width=", v[0].size(), " first=", hex(v[0].data(), v[0].size(), 8), " last=", hex(v[n - 1].data(), v[n - 1].size(), 8));
    c.label(k.name);
    c.nontrivial();
}
