#include "heap.hpp"
#include "lib.hpp"
#include "tdpkit.hpp"
#include <sse/crypto/cipher.hpp>
#include <sse/crypto/hash.hpp>
#include <sse/crypto/hmac.hpp>
#include <sse/crypto/prf.hpp>
#include <sse/crypto/prg.hpp>
#include <sse/crypto/prp.hpp>
#include <sse/crypto/rcprf.hpp>
#include <sse/crypto/wrapper.hpp>
#include <fcntl.h>
#include <poll.h>
#include <set>
#include <sodium.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <ucontext.h>
#include <unistd.h>
using namespace pbt;
const char* pbt::PROP_ID = "C18";
const char* pbt::PROP_RULE = "a history with at least one ownership transfer (move, assignment or consumption of a key) and at least one use or refusal after it";
size_t pbt::prop_tape_len() { return 400; }

// ---- secrets that must not be left in ordinary memory the library releases
static std::vector<Bytes> g_secrets;
static std::vector<Bytes> g_wide; // in pieces of 32 bytes, which no register holds
static bool g_hit = false;
static void scan(const void* p, size_t n)
{
    for (auto& s : g_secrets)
        if (n >= s.size() && memmem(p, n, s.data(), s.size())) g_hit = true;
}
static void add_secret(const Bytes& k, bool stack = false)
{
    if (stack) for (size_t off = 0; off + 32 <= k.size() && off < 128; off += 32) {
        Bytes s(k.begin() + long(off), k.begin() + long(off) + 32);
        if (std::set<uint8_t>(s.begin(), s.end()).size() < 20) continue;
        for (uint8_t m : {0, 0x36, 0x5c}) { Bytes x = s; for (auto& b : x) b ^= m; g_wide.push_back(x); }
    }
    for (size_t off = 0; off + 16 <= k.size(); off += 16) {
        Bytes s(k.begin() + long(off), k.begin() + long(off) + 16);
        if (std::set<uint8_t>(s.begin(), s.end()).size() < 10) continue;
        g_secrets.push_back(s);
        for (uint8_t m : {0x36, 0x5c}) { Bytes x = s; for (auto& b : x) b ^= m; g_secrets.push_back(x); }
    }
}
// key bytes: mostly unlike any message of the case, so that finding them again means something
static unsigned g_serial = 0;
static std::vector<Bytes> g_plain; // keys of a pattern that messages share
static Bytes key_bytes(Tape& t, size_t n)
{
    if (t.pick(4) == 3) { g_plain.push_back(t.bytes(n)); return g_plain.back(); }
    Bytes seed = t.bytes(4);
    seed.push_back(uint8_t(++g_serial));
    Bytes h = ref::sha512(seed);
    h.resize(32);
    Bytes k = ref::prg(h, 0, n);
    add_secret(k, true);
    return k;
}
// ---- the stack of a call is memory that the call releases: it runs on a stack of its own, searched afterwards
#if defined(__SANITIZE_ADDRESS__)
template <class F> static Outcome on_own_stack(F&& f) { return attempt(std::forward<F>(f)); }
#else
static const size_t kStack = size_t(1) << 20;
static uint8_t* g_stack = nullptr;
static ucontext_t g_main, g_call;
static void (*g_fn)(void*) = nullptr;
static void* g_arg = nullptr;
static size_t g_low = kStack;
static void trampoline() { g_fn(g_arg); }
template <class F> struct Call { F* f; Outcome o; static void go(void* p) { auto* c = static_cast<Call*>(p); c->o = attempt(*c->f); } };
template <class F> static Outcome on_own_stack(F&& f)
{
    if (!g_stack) {
        g_stack = static_cast<uint8_t*>(mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        if (g_stack == MAP_FAILED) fail("mmap");
    }
    using G = typename std::remove_reference<F>::type;
    Call<G> c{&f, OK};
    memset(g_stack + g_low, 0, kStack - g_low);
    getcontext(&g_call);
    g_call.uc_stack.ss_sp = g_stack;
    g_call.uc_stack.ss_size = kStack;
    g_call.uc_link = &g_main;
    g_fn = &Call<G>::go;
    g_arg = &c;
    makecontext(&g_call, &trampoline, 0);
    swapcontext(&g_main, &g_call);
    g_low = 0; // the stack was zero: what lies above the first other byte was used
    while (g_low < kStack && *reinterpret_cast<uint64_t*>(g_stack + g_low) == 0) g_low += 8;
    return c.o;
}
#endif
// what libsodium leaves on its own part of the stack is not the library's affair (BLAKE2b leaves its digest, which
// may be a derived key): its frames are wiped when it returns
static __attribute__((noinline)) void wipe_below()
{
    uint8_t room[6000];
    memset(room, 0, sizeof(room));
    __asm__ volatile("" : : "r"(room) : "memory");
}
#define SODIUM(name, params, args) extern "C" { extern int __real_##name params; int __wrap_##name params { int r = __real_##name args; wipe_below(); return r; } }
typedef unsigned long long ull;
SODIUM(crypto_generichash_blake2b, (uint8_t* o, size_t ol, const uint8_t* i, ull il, const uint8_t* k, size_t kl), (o, ol, i, il, k, kl))
SODIUM(crypto_generichash_blake2b_salt_personal, (uint8_t* o, size_t ol, const uint8_t* i, ull il, const uint8_t* k, size_t kl, const uint8_t* s, const uint8_t* p), (o, ol, i, il, k, kl, s, p))
SODIUM(crypto_hash_sha512, (uint8_t* o, const uint8_t* i, ull il), (o, i, il))
SODIUM(crypto_stream_chacha20_xor_ic, (uint8_t* o, const uint8_t* i, ull il, const uint8_t* n, uint64_t ic, const uint8_t* k), (o, i, il, n, ic, k))
SODIUM(crypto_stream_chacha20_ietf_xor, (uint8_t* o, const uint8_t* i, ull il, const uint8_t* n, const uint8_t* k), (o, i, il, n, k))
SODIUM(crypto_aead_chacha20poly1305_ietf_encrypt, (uint8_t* c, ull* cl, const uint8_t* m, ull ml, const uint8_t* a, ull al, const uint8_t* ns, const uint8_t* n, const uint8_t* k), (c, cl, m, ml, a, al, ns, n, k))
SODIUM(crypto_generichash, (uint8_t* o, size_t ol, const uint8_t* i, ull il, const uint8_t* k, size_t kl), (o, ol, i, il, k, kl))
SODIUM(crypto_generichash_update, (crypto_generichash_state* s, const uint8_t* i, ull il), (s, i, il))
SODIUM(crypto_generichash_final, (crypto_generichash_state* s, uint8_t* o, size_t ol), (s, o, ol))
SODIUM(crypto_generichash_blake2b_update, (crypto_generichash_blake2b_state* s, const uint8_t* i, ull il), (s, i, il))
SODIUM(crypto_generichash_blake2b_final, (crypto_generichash_blake2b_state* s, uint8_t* o, size_t ol), (s, o, ol))
SODIUM(crypto_hash_sha512_update, (crypto_hash_sha512_state* s, const uint8_t* i, ull il), (s, i, il))
SODIUM(crypto_hash_sha512_final, (crypto_hash_sha512_state* s, uint8_t* o), (s, o))
SODIUM(crypto_stream_chacha20, (uint8_t* o, ull l, const uint8_t* n, const uint8_t* k), (o, l, n, k))
SODIUM(crypto_stream_chacha20_ietf, (uint8_t* o, ull l, const uint8_t* n, const uint8_t* k), (o, l, n, k))
SODIUM(crypto_stream_chacha20_xor, (uint8_t* o, const uint8_t* i, ull il, const uint8_t* n, const uint8_t* k), (o, i, il, n, k))
SODIUM(crypto_stream_chacha20_ietf_xor_ic, (uint8_t* o, const uint8_t* i, ull il, const uint8_t* n, uint32_t ic, const uint8_t* k), (o, i, il, n, ic, k))
SODIUM(crypto_aead_chacha20poly1305_ietf_decrypt, (uint8_t* m, ull* ml, uint8_t* ns, const uint8_t* c, ull cl, const uint8_t* a, ull al, const uint8_t* n, const uint8_t* k), (m, ml, ns, c, cl, a, al, n, k))
// libsodium must not leave the keys on the stack itself, or nothing could be said about the library
static bool g_judge_stack = true;
// is this on the stack that the last call left?
static bool left_on_stack(const Bytes& s)
{
#if defined(__SANITIZE_ADDRESS__)
    return false;
#else
    return g_judge_stack && g_low < kStack && memmem(g_stack + g_low, kStack - g_low, s.data(), s.size()) != nullptr;
#endif
}
// the library call of a step
template <class F> static Outcome lib(F&& f)
{
    heap::on_release(&scan);
    Outcome o = on_own_stack(std::forward<F>(f));
    heap::on_release(nullptr);
    for (auto& s : g_wide) CHECK(!left_on_stack(s), "a call left key bytes on its stack");
    return o;
}
// the same, while these are secrets as well: keys that the call derives, which may be ordinary output elsewhere
template <class F> static Outcome lib_deriving(const std::vector<Bytes>& keys, F&& f)
{
    heap::pause(1);
    size_t n = g_secrets.size(), w = g_wide.size();
    for (auto& k : keys) {
        add_secret(k, true);
        for (size_t o = 0; o + 16 <= k.size() && o < 64; o += 16) { // a key half wiped
            Bytes half(k.begin() + long(o), k.begin() + long(o) + 16);
            if (std::set<uint8_t>(half.begin(), half.end()).size() >= 10) g_wide.push_back(half);
        }
    }
    heap::pause(-1);
    Outcome o = lib(std::forward<F>(f));
    heap::pause(1);
    g_secrets.resize(n);
    g_wide.resize(w);
    heap::pause(-1);
    return o;
}
static bool halves_on_stack(const Bytes& k) { return left_on_stack(Bytes(k.begin(), k.begin() + 16)) || left_on_stack(Bytes(k.begin() + 16, k.end())); }
// the keys of the nodes above a leaf, those of the tree's parent nodes included
static std::vector<Bytes> path(const Bytes& root, unsigned h, uint64_t leaf)
{
    std::vector<Bytes> v;
    for (unsigned d = 1; d + 1 < h; d++) { // the last level holds values, which are not keys
        uint64_t p = leaf >> (h - 1 - d);
        v.push_back(ref::rcprf_node_key(root, h, d, p));
        v.push_back(ref::rcprf_node_key(root, h, d, p ^ 1));
    }
    return v;
}
// can this address be read? asked of the kernel, whatever the library believes
static int g_pipe[2] = {-1, -1};
static bool readable(const void* p)
{
    long r = syscall(SYS_write, g_pipe[1], p, 1);
    if (r != 1) return false;
    char c;
    (void)!read(g_pipe[0], &c, 1);
    return true;
}
void pbt::prop_setup()
{
    lib_init_tape_rng();
    if (pipe(g_pipe) != 0) fail("pipe");
    for (unsigned i = 0; i < TEST_SK.size(); i++) (void)test_key(i);
    Bytes k = ref::prg(Bytes(32, 9), 0, 160);
    auto clean = [&](size_t n) {
        for (size_t o = 0; o + 32 <= n; o++) if (left_on_stack(Bytes(k.begin() + long(o), k.begin() + long(o) + 32))) g_judge_stack = false;
    };
    uint8_t out[200], kb[160];
    memcpy(kb, k.data(), 160);
    for (unsigned r = 0; r < 2; r++) { // the second time nothing is resolved any more
        on_own_stack([&] { crypto_generichash_blake2b(out, 64, kb, 150, nullptr, 0); }); clean(150);
        on_own_stack([&] { crypto_hash_sha512(out, kb, 150); }); clean(150);
        uint8_t n[16] = {0};
        on_own_stack([&] { crypto_stream_chacha20_xor_ic(out, out, 150, n, 1, kb); }); clean(32);
        on_own_stack([&] { crypto_stream_chacha20_ietf(out, 150, n, kb); }); clean(32);
        on_own_stack([&] { crypto_generichash_blake2b_salt_personal(out, 32, nullptr, 0, kb, 32, n, n); }); clean(32);
        on_own_stack([&] { crypto_aead_chacha20poly1305_ietf_encrypt(out, nullptr, kb + 40, 100, nullptr, 0, nullptr, n, kb); }); clean(32);
        if (r == 0) g_judge_stack = true;
    }
}

// ---- key slots
struct IKey {
    bool has = false;
    Bytes m;          // content when has
    size_t regions = 0;
    virtual ~IKey() {}
    virtual size_t size() const = 0;
    virtual Bytes content() const = 0;
    virtual bool empty() const = 0;
    virtual const void* address() const = 0;
    virtual void erase() = 0;
    virtual std::unique_ptr<IKey> moved() = 0;
    virtual void assign(IKey& o) = 0;
};
template <size_t N> struct KeySlot : IKey {
    Key<N> k;
    explicit KeySlot(Key<N>&& o) : k(std::move(o)) {}
    size_t size() const override { return N; }
    Bytes content() const override { return key_content(k); }
    bool empty() const override { return key_empty(k); }
    const void* address() const override { return key_address(k); }
    void erase() override { k.erase(); }
    std::unique_ptr<IKey> moved() override { return std::unique_ptr<IKey>(new KeySlot(std::move(k))); }
    void assign(IKey& o) override { k = std::move(static_cast<KeySlot&>(o).k); }
};
template <size_t N> static std::unique_ptr<IKey> from_buffer(uint8_t* b) { return std::unique_ptr<IKey>(new KeySlot<N>(Key<N>(b))); }
template <size_t N> static std::unique_ptr<IKey> random_key() { return std::unique_ptr<IKey>(new KeySlot<N>(Key<N>())); }
struct KSize { size_t n; std::unique_ptr<IKey> (*from)(uint8_t*); std::unique_ptr<IKey> (*rnd)(); };
#define KS(n) {n, &from_buffer<n>, &random_key<n>}
static const KSize SIZES[] = {KS(32), KS(32), KS(32), KS(48), KS(16), KS(100), KS(1), KS(112), KS(4097)};

// ---- object slots
struct IObj {
    Bytes m;            // key material of the model
    unsigned h = 0;
    uint64_t lo = 0, hi = 0;
    bool dead = false;
    bool none = false;  // a constrained PRF without pieces
    size_t regions = 0;
    virtual ~IObj() {}
    virtual const char* name() const = 0;
    virtual void use(Tape& t) = 0;                 // compares with the model
    virtual Outcome abuse(Tape& t, std::string& what) = 0; // an invalid call
    virtual Outcome use_dead(Tape& t) = 0;
    virtual std::unique_ptr<IObj> moved() = 0;
    virtual bool assign(IObj& o) = 0;
    virtual int kind() const = 0;
};
static void copy_model(const IObj& a, IObj& b) { b.m = a.m; b.h = a.h; b.lo = a.lo; b.hi = a.hi; b.none = a.none; }

static void use(Cipher& c, const IObj& s, Tape& t)
{
    Bytes pt = t.bytes(t.len(1, 300, 9000)), got;
    std::string in = S(pt), ct, back;
    CHECK(lib([&] { c.encrypt(in, ct); }) == OK, "encryption refused");
    CHECK(ref::cipher_decrypt(s.m, B(ct), got) && got == pt, "the ciphertext is not one of the key");
    Bytes sub = ref::cipher_subkey(s.m, reinterpret_cast<const uint8_t*>(ct.data()));
    CHECK(!halves_on_stack(sub), "encryption left the message key on its stack");
    CHECK(lib_deriving({sub}, [&] { c.decrypt(ct, back); }) == OK && back == in, "decryption differs");
    if (t.pick(2)) {
        ct[16 + t.pick(unsigned(std::min<size_t>(ct.size() - 16, 200)))] ^= 8;
        CHECK(lib_deriving({sub}, [&] { c.decrypt(ct, back); }) == RUNTIME_ERROR, "a forged text was not refused");
    } else {
        std::array<uint8_t, 40> a, b;
        std::array<uint8_t, 40 + Cipher::kCiphertextExpansion> e;
        { Bytes ab = t.bytes(40); std::copy(ab.begin(), ab.end(), a.begin()); }
        CHECK(lib([&] { c.encrypt(a, e); }) == OK, "array encryption refused");
        sub = ref::cipher_subkey(s.m, e.data());
        CHECK(!halves_on_stack(sub), "array encryption left the message key on its stack");
        CHECK(lib_deriving({sub}, [&] { c.decrypt(e, b); }) == OK && b == a, "array decryption differs");
    }
}
static Outcome abuse(Cipher& c, Tape& t, std::string& what)
{
    std::string in, out = "kept";
    switch (t.pick(3)) {
    case 0: what = "encrypt nothing"; return lib([&] { c.encrypt(in, out); });
    case 1: what = "decrypt a short text"; in = t.str(t.range(0, 32)); return lib([&] { c.decrypt(in, out); });
    default: what = "decrypt a forged text"; in = t.str(t.range(33, 200)); return lib([&] { c.decrypt(in, out); });
    }
}
static Outcome use_dead(Cipher& c, Tape& t) { std::string in = "x", out; if (t.pick(2)) in = t.str(60); bool d = t.pick(2); return lib([&] { d ? c.decrypt(t.pick(1) ? in : (in.size() < 33 ? in = std::string(60, 'a') : in), out) : c.encrypt(in, out); }); }

template <uint16_t N> static void use(HMac<Hash, N>& p, const IObj& s, Tape& t)
{
    Bytes in = t.bytes(t.len(0, 300, 9000));
    std::string si = S(in);
    std::array<uint8_t, 64> o;
    CHECK(lib([&] { o = p.hmac(si); }) == OK && eq(ref::hmac(false, s.m, in), o), "MAC differs");
}
template <uint16_t N> static Outcome abuse(HMac<Hash, N>& p, Tape& t, std::string& what)
{
    uint8_t b[80] = {0};
    switch (t.pick(3)) {
    case 0: what = "MAC of null"; return lib([&] { p.hmac(nullptr, 3, b, 16); });
    case 1: what = "MAC to null"; return lib([&] { p.hmac(b, 3, nullptr, 16); });
    default: what = "MAC of 65 bytes"; return lib([&] { p.hmac(b, 3, b + 4, 65); });
    }
}
template <uint16_t N> static Outcome use_dead(HMac<Hash, N>& p, Tape& t) { std::string in = t.str(t.length(0, 40)); return lib([&] { (void)p.hmac(in); }); }

template <uint16_t N> static void use(Prf<N>& p, const IObj& s, Tape& t)
{
    Bytes in = t.bytes(t.len(0, 300, 9000));
    std::string si = S(in);
    Bytes want = ref::prf(s.m, in, N);
    if (t.pick(2)) { std::array<uint8_t, N> o; CHECK(lib([&] { o = p.prf(si); }) == OK && eq(want, o), "PRF differs"); }
    else {
        std::unique_ptr<Key<N>> k;
        CHECK(lib_deriving({want}, [&] { k.reset(new Key<N>(p.derive_key(si))); }) == OK && key_content(*k) == want, "derived key differs");
    }
}
template <uint16_t N> static Outcome abuse(Prf<N>& p, Tape& t, std::string& what)
{
    const unsigned char* z = nullptr;
    if (t.pick(2)) { what = "PRF of null"; return lib([&] { (void)p.prf(z, 0); }); }
    what = "key derived from null";
    return lib([&] { (void)p.derive_key(z, 5); });
}
template <uint16_t N> static Outcome use_dead(Prf<N>& p, Tape& t) { std::string in = t.str(t.length(0, 40)); bool k = t.pick(2); return lib([&] { if (k) (void)p.derive_key(in); else (void)p.prf(in); }); }

static void use(Prg& p, const IObj& s, Tape& t)
{
    size_t off = t.len(0, 400, 65000), len = t.len(1, 300, 9000);
    std::string o;
    switch (t.pick(3)) {
    case 0: CHECK(lib([&] { p.derive(off, len, o); }) == OK && eq(ref::prg(s.m, off, len), o), "PRG differs"); break;
    case 1: {
        std::unique_ptr<Key<16>> k;
        CHECK(lib_deriving({ref::prg(s.m, off * 16, 16)}, [&] { k.reset(new Key<16>(p.derive_key<16>(uint16_t(off)))); }) == OK && key_content(*k) == ref::prg(s.m, off * 16, 16), "derived key differs");
        break; }
    default: {
        std::vector<Key<32>> v;
        uint16_t n = uint16_t(t.pick(6));
        std::vector<Bytes> ks;
        for (unsigned i = 0; i < n; i++) ks.push_back(ref::prg(s.m, (off + i) * 32, 32));
        CHECK(lib_deriving(ks, [&] { v = p.derive_keys<32>(n, uint16_t(off)); }) == OK && v.size() == n, "batch of ", n, " keys");
        for (unsigned i = 0; i < n; i++) CHECK(key_content(v[i]) == ref::prg(s.m, (off + i) * 32, 32), "derived key ", i, " differs");
    } }
}
static Outcome abuse(Prg& p, Tape& t, std::string& what)
{
    unsigned char* z = nullptr;
    size_t off = t.len(0, 400, 70000);
    what = "PRG into null";
    return lib([&] { p.derive(off, 10, z); });
}
static Outcome use_dead(Prg& p, Tape& t)
{
    std::string o;
    unsigned how = t.pick(3);
    return lib([&] { if (how == 0) p.derive(0, 20, o); else if (how == 1) (void)p.derive_key<16>(2); else (void)p.derive_keys<32>(3, 1); });
}

static void use(Prp& p, const IObj& s, Tape& t)
{
    Bytes in = t.bytes(t.len(1, 200, 9000));
    std::string si = S(in), o, d;
    // AEZ works on the key in vector registers, and where the compiler keeps those is its affair
    bool judge = g_judge_stack;
    g_judge_stack = false;
    Outcome r = lib([&] { p.encrypt(si, o); p.decrypt(si, d); });
    g_judge_stack = judge;
    CHECK(r == OK && eq(ref::aez(s.m, in, false), o) && eq(ref::aez(s.m, in, true), d), "PRP differs");
}
static Outcome abuse(Prp&, Tape&, std::string& what) { what = ""; return INVALID_ARGUMENT; }
static Outcome use_dead(Prp& p, Tape& t) { std::string o; unsigned how = t.pick(3); return lib([&] { if (how == 0) p.encrypt("abc", o); else if (how == 1) (void)p.decrypt(uint32_t(7)); else (void)p.encrypt_64(9); }); }

static void use(Wrapper& w, const IObj& s, Tape& t)
{
    Bytes k = key_bytes(t, 32), ser;
    Prg p(mk<32>(k));
    std::vector<uint8_t> blob;
    CHECK(lib([&] { blob = w.wrap(p); }) == OK && ref::unwrap(s.m, 3, Bytes(), blob, ser) && ser == k, "wrapped form differs");
    std::unique_ptr<Prg> q;
    CHECK(lib([&] { q.reset(new Prg(w.unwrap<Prg>(blob))); }) == OK && eq(ref::prg(k, 0, 40), q->derive(40)), "unwrapped object differs");
}
static Outcome abuse(Wrapper& w, Tape& t, std::string& what)
{
    std::vector<uint8_t> b = t.bytes(t.range(0, 100));
    what = "unwrap a forged blob";
    return lib([&] { (void)w.unwrap<Prg>(b); });
}
static Outcome use_dead(Wrapper& w, Tape& t)
{
    Prg p((mk<32>(t.bytes(32))));
    std::vector<uint8_t> b = t.bytes(60);
    bool u = t.pick(2);
    return lib([&] { if (u) (void)w.unwrap<Prg>(b); else (void)w.wrap(p); });
}
static void use(RCPrf<16>& p, const IObj& s, Tape& t)
{
    uint64_t l = t.range(0, (uint64_t(1) << (s.h - 1)) - 1);
    std::array<uint8_t, 16> o;
    CHECK(lib_deriving(path(s.m, s.h, l), [&] { o = p.eval(l); }) == OK && eq(ref::rcprf_leaf(s.m, s.h, l, 16), o), "leaf differs");
}
static Outcome abuse(RCPrf<16>& p, Tape& t, std::string& what)
{
    unsigned h = p.tree_height();
    uint64_t top = (uint64_t(1) << (h - 1)) - 1;
    switch (t.pick(4)) {
    case 0: what = "leaf outside the tree"; return lib([&] { (void)p.eval(top + 1); });
    case 1: what = "inverted constraint"; return lib([&] { (void)p.constrain(1, 0); });
    case 2: what = "full constraint"; return lib([&] { (void)p.constrain(0, top); });
    default: what = "callback throws"; return lib([&] { p.eval_range(0, top > 5 ? 5 : top, [](uint64_t l, const std::array<uint8_t, 16>&) { if (l == 1) throw std::invalid_argument("from the callback"); }); });
    }
}
static Outcome use_dead(RCPrf<16>& p, Tape& t) { unsigned how = t.pick(2); return lib([&] { if (how) (void)p.eval(0); else (void)p.constrain(0, 0); }); }
static void use(ConstrainedRCPrf<16>& p, const IObj& s, Tape& t)
{
    CHECK(p.is_empty() == s.none, "emptiness");
    if (s.none) return;
    uint64_t l = t.range(s.lo, s.hi);
    std::array<uint8_t, 16> o;
    CHECK(lib_deriving(path(s.m, s.h, l), [&] { o = p.eval(l); }) == OK && eq(ref::rcprf_leaf(s.m, s.h, l, 16), o), "leaf differs");
}
static Outcome abuse(ConstrainedRCPrf<16>& p, Tape& t, std::string& what)
{
    uint64_t hi = p.max_leaf(), lo = p.min_leaf();
    if (p.is_empty()) { what = "evaluate an empty object"; return lib([&] { (void)p.eval(0); }); }
    switch (t.pick(4)) {
    case 0: what = "leaf after the range"; return lib([&] { (void)p.eval(hi + 1); });
    case 1: what = "constraint beyond the range"; return lib([&] { (void)p.constrain(lo, hi + 1); });
    case 2: what = "range beyond"; return lib([&] { p.eval_range(lo, hi + 1, [](uint64_t, const std::array<uint8_t, 16>&) {}); });
    default: what = "callback throws"; return lib([&] { p.eval_range(lo, lo + std::min<uint64_t>(hi - lo, 6), [](uint64_t, const std::array<uint8_t, 16>&) { throw std::invalid_argument("from the callback"); }); });
    }
}
static Outcome use_dead(ConstrainedRCPrf<16>& p, Tape& t) { unsigned how = t.pick(2); return lib([&] { if (how) (void)p.eval(0); else (void)p.constrain(0, 0); }); }

template <class C> struct KindOf;
#define KIND(C, n, s) template <> struct KindOf<C> { static constexpr int k = n; static const char* name() { return s; } };
typedef HMac<Hash, 32> Mac32;
typedef HMac<Hash, 100> Mac100;
KIND(Cipher, 0, "Cipher") KIND(Mac32, 1, "HMac<32>") KIND(Mac100, 2, "HMac<100>") KIND(Prf<20>, 3, "Prf<20>") KIND(Prf<150>, 4, "Prf<150>") KIND(Prg, 5, "Prg") KIND(Prp, 6, "Prp") KIND(Wrapper, 7, "Wrapper") KIND(RCPrf<16>, 8, "RCPrf") KIND(ConstrainedRCPrf<16>, 9, "ConstrainedRCPrf")
template <class C, bool = std::is_move_assignable<C>::value> struct Assign { static bool go(C& a, C& b) { a = std::move(b); return true; } };
template <class C> struct Assign<C, false> { static bool go(C&, C&) { return false; } };
template <class C> struct ObjSlot : IObj {
    C c;
    explicit ObjSlot(C&& o) : c(std::move(o)) {}
    const char* name() const override { return KindOf<C>::name(); }
    void use(Tape& t) override { ::use(c, *this, t); }
    Outcome abuse(Tape& t, std::string& w) override { return ::abuse(c, t, w); }
    Outcome use_dead(Tape& t) override { return ::use_dead(c, t); }
    std::unique_ptr<IObj> moved() override { return std::unique_ptr<IObj>(new ObjSlot(std::move(c))); }
    bool assign(IObj& o) override { return Assign<C>::go(c, static_cast<ObjSlot&>(o).c); }
    int kind() const override { return KindOf<C>::k; }
};
template <class C> static std::unique_ptr<IObj> slot(C&& c) { return std::unique_ptr<IObj>(new ObjSlot<C>(std::move(c))); }

struct World {
    std::vector<std::unique_ptr<IKey>> keys;
    std::vector<std::unique_ptr<IObj>> objs;
    std::string log;
    size_t model() const
    {
        size_t n = 0;
        for (auto& k : keys) n += k->regions;
        for (auto& o : objs) n += o->regions;
        return n;
    }
    // what must hold between two calls
    void invariants(const char* after)
    {
        heap::pause(1);
        std::string e = track::errors();
        CHECK(e.empty(), "after ", after, ": ", e);
        CHECK(track::live_count() == model(), "after ", after, ": ", track::live_count(), " secure regions are allocated, ", model(), " are accounted for");
#ifdef ENABLE_MEMORY_LOCK
        e = track::all_locked();
        CHECK(e.empty(), "after ", after, ": ", e);
        for (auto& r : track::live()) CHECK(!readable(r.p), "after ", after, ": a secure region of ", r.size, " bytes can be read");
#endif
        CHECK(!g_hit, "during ", after, ": ordinary memory holding a copy of key bytes was released");
        heap::pause(-1);
    }
    void check_key(IKey& k, const char* after)
    {
        CHECK(k.empty() == !k.has, "after ", after, ": a key of ", k.size(), " bytes is ", k.has ? "empty" : "not empty");
        if (!k.has) return;
        CHECK(k.content() == k.m, "after ", after, ": a key of ", k.size(), " bytes lost its content");
        heap::pause(1);
        const uint8_t* a = static_cast<const uint8_t*>(k.address());
        bool in = false;
        for (auto& r : track::live()) in = in || (a >= r.p && a + k.size() <= static_cast<uint8_t*>(r.p) + r.size);
        heap::pause(-1);
        CHECK(in, "after ", after, ": a key of ", k.size(), " bytes does not live in secure memory");
    }
};

// destroys slot a; the model's copy of the key goes first, out of sight of the scan
template <class V> static void drop(V& v, size_t a)
{
    Bytes().swap(v[a]->m);
    CHECK(lib([&] { v[a].reset(); }) == OK, "a destructor threw");
    v.erase(v.begin() + long(a));
}
static bool body(Tape& t, Ctx* c)
{
    World W;
    g_secrets.clear();
    g_wide.clear();
    g_hit = false;
    g_serial = 0;
    g_plain.clear();
    rng_seed(t.raw(4));
    unsigned steps = 4 + t.pick(22);
    bool transferred = false, later = false;
    auto say = [&](const std::string& s) { if (W.log.size() < 600) { if (!W.log.empty()) W.log += "; "; W.log += s; } if (c) { heap::pause(1); c->label(s.substr(0, s.find(' '))); heap::pause(-1); } };
    for (unsigned i = 0; i < steps; i++) {
        size_t before = track::live_count();
        std::string what;
        unsigned op = t.pick(18);
        size_t nk = W.keys.size(), no = W.objs.size();
        if (nk == 0 && (op >= 2 && op <= 8)) op = t.pick(2);
        if (no == 0 && op >= 9) op = nk ? 6 : 0;
        switch (op) {
        case 0: { // from the caller's bytes
            const KSize& z = SIZES[t.pick(sizeof(SIZES) / sizeof(SIZES[0]))];
            Bytes m = key_bytes(t, z.n), buf = m;
            buf.insert(buf.begin(), 8, 0xC3);
            buf.insert(buf.end(), 8, 0xC3);
            std::unique_ptr<IKey> k;
            CHECK(lib([&] { k = z.from(buf.data() + 8); }) == OK, "a key of ", z.n, " bytes was refused");
            Bytes want(z.n + 16, 0);
            std::fill(want.begin(), want.begin() + 8, 0xC3);
            std::fill(want.end() - 8, want.end(), 0xC3);
            CHECK(buf == want, "the caller's ", z.n, " key bytes are not exactly erased");
            k->has = true; k->m = m;
            k->regions = track::live_count() - before;
            CHECK(k->regions >= 1, "a key without secure memory");
            W.keys.push_back(std::move(k));
            what = "key of " + std::to_string(z.n);
            break; }
        case 1: {
            const KSize& z = SIZES[t.pick(sizeof(SIZES) / sizeof(SIZES[0]))];
            std::unique_ptr<IKey> k;
            CHECK(lib([&] { k = z.rnd(); }) == OK, "a random key was refused");
            k->has = true;
            k->regions = track::live_count() - before;
            k->m = k->content();
            add_secret(k->m, true);
            W.keys.push_back(std::move(k));
            what = "random key of " + std::to_string(z.n);
            break; }
        case 2: { // move construction
            IKey& s = *W.keys[t.pick(unsigned(nk))];
            std::unique_ptr<IKey> k;
            CHECK(lib([&] { k = s.moved(); }) == OK, "a move threw");
            k->has = s.has; k->m = s.m; k->regions = s.regions;
            s.has = false; s.regions = 0;
            W.check_key(s, "being moved from");
            W.keys.push_back(std::move(k));
            W.check_key(*W.keys.back(), "a move");
            transferred = true;
            what = "move";
            break; }
        case 3: { // move assignment, possibly to itself
            size_t a = t.pick(unsigned(nk)), b = t.pick(unsigned(nk));
            IKey &d = *W.keys[a], &s = *W.keys[b];
            if (d.size() != s.size()) break;
            CHECK(lib([&] { d.assign(s); }) == OK, "a move assignment threw");
            if (a != b) { d.has = s.has; d.m = s.m; d.regions = s.regions; s.has = false; s.regions = 0; }
            W.check_key(s, a == b ? "self assignment" : "being assigned from");
            W.check_key(d, "assignment");
            transferred = true;
            what = a == b ? "self-assign" : "assign";
            break; }
        case 4: {
            IKey& s = *W.keys[t.pick(unsigned(nk))];
            CHECK(lib([&] { s.erase(); }) == OK, "erase threw");
            s.has = false; s.regions = 0;
            W.check_key(s, "erase");
            what = "erase";
            break; }
        case 5: { // consuming derivation
            IKey& s = *W.keys[t.pick(unsigned(nk))];
            if (s.size() != 32) break;
            Key<32>& k = static_cast<KeySlot<32>&>(s).k;
            unsigned how = t.pick(6);
            uint16_t off = uint16_t(t.len(0, 300, 65535));
            Outcome o;
            std::unique_ptr<IKey> d;
            Bytes want;
            std::string out;
            if (how == 0) { if (s.has) want = ref::prg(s.m, size_t(off) * 16, 16); o = lib_deriving({want}, [&] { d.reset(new KeySlot<16>(Prg::derive_key<16>(std::move(k), off))); }); }
            else if (how == 1) { if (s.has) want = ref::prg(s.m, size_t(off) * 32, 32); o = lib_deriving({want}, [&] { d.reset(new KeySlot<32>(Prg::derive_key<32>(std::move(k), off))); }); }
            else if (how == 2) { o = lib([&] { Prg::derive(std::move(k), off, 50, out); }); if (s.has && o == OK) CHECK(eq(ref::prg(s.m, off, 50), out), "one-shot derivation differs"); }
            else if (how == 3) {
                std::vector<Key<16>> v;
                o = lib([&] { v = Prg::derive_keys<16>(std::move(k), 3, off); });
                if (s.has && o == OK) for (unsigned j = 0; j < 3; j++) CHECK(v.size() == 3 && key_content(v[j]) == ref::prg(s.m, (size_t(off) + j) * 16, 16), "batch key differs");
            } else if (how == 4) { std::array<uint8_t, 40> a; o = lib([&] { Prg::derive(std::move(k), off, a); }); if (s.has && o == OK) CHECK(eq(ref::prg(s.m, off, 40), a), "one-shot array differs"); }
            else { o = lib([&] { Prg::derive(std::move(k), off, 7, static_cast<unsigned char*>(nullptr)); }); CHECK(o != OK && o != NON_STD, "derivation into null: ", outcome_name(o)); }
            if (how != 5) CHECK((o == OK) == s.has && o != NON_STD, "derivation from ", s.has ? "a key" : "an empty key", ": ", outcome_name(o));
            if (o == OK) { s.has = false; s.regions = 0; }
            else { // refused: either untouched or consumed, never in between
                bool e = s.empty();
                if (e) { s.has = false; s.regions = 0; }
            }
            W.check_key(s, "a consuming derivation");
            if (d && o == OK) {
                d->has = true; d->m = want;
                d->regions = track::live_count() - W.model();
                CHECK(d->regions >= 1, "a derived key without secure memory");
                add_secret(want, true);
                W.keys.push_back(std::move(d));
                W.check_key(*W.keys.back(), "a derivation");
            }
            transferred = true;
            what = "consume (" + std::to_string(how) + ")";
            break; }
        case 6: case 7: case 8: { // an object from a key
            size_t at = t.pick(unsigned(nk));
            if (t.pick(4)) // mostly a key that can become an object
                for (size_t j = 0; j < nk; j++) { IKey& q = *W.keys[(at + j) % nk]; if (q.has && (q.size() == 32 || q.size() == 48 || q.size() == 100)) { at = (at + j) % nk; break; } }
            IKey& s = *W.keys[at];
            unsigned kd = t.pick(8);
            unsigned h = 2 + t.pick(30);
            std::unique_ptr<IObj> n;
            Outcome o = OK;
            if (s.size() == 32) {
                Key<32>& k = static_cast<KeySlot<32>&>(s).k;
                std::vector<Bytes> ks;
                if (kd == 6 && s.has) { ref::WrapKeys w = ref::wrap_keys(s.m); ks = {w.tag, w.enc}; }
                o = lib_deriving(ks, [&] {
                    switch (kd) {
                    case 0: n = slot(Cipher(std::move(k))); break;
                    case 1: n = slot(Mac32(std::move(k))); break;
                    case 2: n = slot(Prf<20>(std::move(k))); break;
                    case 3: n = slot(Prf<150>(std::move(k))); break;
                    case 4: case 5: n = slot(Prg(std::move(k))); break;
                    case 6: n = slot(Wrapper(std::move(k))); break;
                    default: n = slot(RCPrf<16>(std::move(k), uint8_t(h))); break;
                    }
                });
            } else if (s.size() == 48) { Key<48>& k = static_cast<KeySlot<48>&>(s).k; o = lib([&] { n = slot(Prp(std::move(k))); }); }
            else if (s.size() == 100) { Key<100>& k = static_cast<KeySlot<100>&>(s).k; o = lib([&] { n = slot(Mac100(std::move(k))); }); }
            else break;
            CHECK(o != NON_STD, "construction raised a non-standard exception");
            if (s.has) CHECK(o == OK, "construction from a key was refused: ", outcome_name(o));
            Bytes m = s.m;
            bool had = s.has;
            size_t old = s.regions;
            bool e = s.empty();
            if (had) CHECK(e, "the key given to an object is still there");
            s.has = false; s.regions = 0;
            W.check_key(s, "giving it to an object");
            if (o == OK) {
                n->m = m; n->h = h; n->dead = !had;
                n->regions = track::live_count() - W.model();
                if (had) CHECK(n->regions >= 1, "an object without secure memory");
                if (n->kind() == 6 && had && std::find(g_plain.begin(), g_plain.end(), m) == g_plain.end()) add_secret(ref::aez_context(m), true);
                if (n->kind() == 7 && had) { ref::WrapKeys w = ref::wrap_keys(m); add_secret(w.tag, true); add_secret(w.enc, true); }
                what = std::string("object ") + n->name() + (had ? "" : " of an empty key");
                W.objs.push_back(std::move(n));
            } else what = "refused empty key";
            (void)old;
            transferred = true;
            break; }
        case 9: case 10: case 11: { // use
            IObj& o = *W.objs[t.pick(unsigned(no))];
            if (o.dead) { Outcome r = o.use_dead(t); CHECK(r != OK && r != NON_STD, o.name(), " without a key was used: ", outcome_name(r)); what = std::string("use-dead ") + o.name(); }
            else { o.use(t); what = std::string("use ") + o.name(); }
            later = later || transferred;
            break; }
        case 12: { // invalid call
            IObj& o = *W.objs[t.pick(unsigned(no))];
            std::string w;
            Outcome r = o.abuse(t, w);
            if (w.empty()) break;
            CHECK(r != OK && r != NON_STD, o.name(), ": ", w, ": ", outcome_name(r));
            W.invariants("an invalid call");
            if (!o.dead) o.use(t);
            what = "invalid " + w;
            later = later || transferred;
            break; }
        case 13: { // moving objects
            size_t a = t.pick(unsigned(no)), b = t.pick(unsigned(no));
            IObj& s = *W.objs[a];
            if (t.pick(2) && a != b && W.objs[b]->kind() == s.kind()) {
                IObj& d = *W.objs[b];
                bool did = false;
                CHECK(lib([&] { did = d.assign(s); }) == OK, "assignment threw");
                if (!did) break;
                copy_model(s, d);
                d.dead = s.dead; d.regions = s.regions;
                s.dead = true; s.regions = 0;
                what = std::string("assign-object ") + s.name();
            } else {
                std::unique_ptr<IObj> n;
                CHECK(lib([&] { n = s.moved(); }) == OK, "moving an object threw");
                copy_model(s, *n);
                n->dead = s.dead; n->regions = s.regions;
                s.dead = true; s.regions = 0;
                W.objs.push_back(std::move(n));
                what = std::string("move-object ") + s.name();
            }
            transferred = true;
            break; }
        case 14: { // constraining
            IObj& s = *W.objs[t.pick(unsigned(no))];
            if (s.dead || s.none || (s.kind() != 8 && s.kind() != 9)) { // destroy something instead
                if (t.pick(2)) { size_t a = t.pick(unsigned(no)); drop(W.objs, a); what = "destroy object"; }
                else if (nk) { size_t a = t.pick(unsigned(nk)); drop(W.keys, a); what = "destroy key"; }
                break;
            }
            uint64_t lo = s.kind() == 8 ? 0 : s.lo, hi = s.kind() == 8 ? (uint64_t(1) << (s.h - 1)) - 1 : s.hi;
            uint64_t x = t.range(lo, hi), y = t.range(x, hi);
            if (s.kind() == 8 && x == lo && y == hi) break;
            std::unique_ptr<IObj> n;
            std::vector<Bytes> ks = path(s.m, s.h, x), more = path(s.m, s.h, y);
            ks.insert(ks.end(), more.begin(), more.end());
            CHECK(lib_deriving(ks, [&] { n = s.kind() == 8 ? slot(static_cast<ObjSlot<RCPrf<16>>&>(s).c.constrain(x, y)) : slot(static_cast<ObjSlot<ConstrainedRCPrf<16>>&>(s).c.constrain(x, y)); }) == OK, "constraint refused");
            n->m = s.m; n->h = s.h; n->lo = x; n->hi = y;
            n->regions = track::live_count() - before;
            W.objs.push_back(std::move(n));
            what = "constrain";
            break; }
        default: { // through a wrapper
            IObj *w = nullptr, *p = nullptr;
            for (auto& o : W.objs) if (!o->dead) { if (o->kind() == 7) w = o.get(); else if (o->kind() == 0 || o->kind() == 3 || o->kind() == 5 || o->kind() == 6 || o->kind() == 8 || o->kind() == 9) p = o.get(); }
            if (!p) break;
            if (!w) {
                Bytes wk = key_bytes(t, 32);
                ref::WrapKeys ks = ref::wrap_keys(wk);
                add_secret(ks.tag, true); add_secret(ks.enc, true);
                std::unique_ptr<IObj> nw;
                Key<32> k = mk<32>(wk);
                CHECK(lib([&] { nw = slot(Wrapper(std::move(k))); }) == OK, "a wrapper was refused");
                nw->m = wk;
                nw->regions = track::live_count() - before;
                w = nw.get();
                W.objs.push_back(std::move(nw));
                before = track::live_count();
            }
            Wrapper& wr = static_cast<ObjSlot<Wrapper>*>(w)->c;
            std::unique_ptr<IObj> n;
            std::vector<uint8_t> blob;
            bool spoil = t.pick(4) == 0;
            unsigned at = t.u8();
#define RW(C) { blob = wr.wrap(static_cast<ObjSlot<C>*>(p)->c); if (spoil) blob[at % blob.size()] ^= 4; n = slot(wr.unwrap<C>(blob)); }
            Outcome o = lib([&] {
                switch (p->kind()) {
                case 0: RW(Cipher) break;
                case 3: RW(Prf<20>) break;
                case 5: RW(Prg) break;
                case 6: RW(Prp) break;
                case 8: RW(RCPrf<16>) break;
                default: RW(ConstrainedRCPrf<16>) break;
                }
            });
            CHECK((o == OK) == !spoil && o != NON_STD, "wrapping a ", p->name(), ": ", outcome_name(o));
            if (o == OK) {
                copy_model(*p, *n);
                n->regions = track::live_count() - before;
                W.objs.push_back(std::move(n));
                transferred = true;
            }
            what = spoil ? "unwrap-forged" : "unwrap";
        } }
        if (what.empty()) continue;
        W.invariants(what.c_str());
        say(what);
        if (t.pick(3) == 0 && !W.keys.empty()) W.check_key(*W.keys[t.pick(unsigned(W.keys.size()))], what.c_str());
    }
    for (auto& k : W.keys) W.check_key(*k, "the history");
    for (auto& o : W.objs) if (!o->dead) o->use(t);
    W.invariants("the last uses");
    // destruction in an order of the tape's choosing
    while (!W.objs.empty() || !W.keys.empty()) {
        bool ob = !W.objs.empty() && (W.keys.empty() || t.pick(2));
        if (ob) { size_t a = t.pick(unsigned(W.objs.size())); drop(W.objs, a); }
        else { size_t a = t.pick(unsigned(W.keys.size())); drop(W.keys, a); }
        W.invariants("a destruction");
    }
    CHECK(track::live_count() == 0, track::live_count(), " secure regions outlive every object");
    if (c) { heap::pause(1); c->note(W.log); heap::pause(-1); }
    std::vector<Bytes>().swap(g_secrets);
    std::vector<Bytes>().swap(g_wide);
    std::vector<Bytes>().swap(g_plain);
    return transferred && later;
}
// the private half of an RSA key, in the forms the library handles: bytes, limbs and PEM text
static void add_chunk(const Bytes& s) { if (std::set<uint8_t>(s.begin(), s.end()).size() >= 10) { g_secrets.push_back(s); g_wide.push_back(s); } }
static void rsa_secrets(const RsaKey& k)
{
    const mpz_t* f[] = {&k.d, &k.p, &k.q, &k.dp, &k.dq, &k.qinv};
    for (auto* v : f) {
        Bytes b = mpz_bytes(*v, (mpz_sizeinbase(*v, 2) + 7) / 8);
        for (size_t at : {b.size() / 3, b.size() / 2}) {
            if (at + 16 > b.size()) continue;
            Bytes x(b.begin() + long(at), b.begin() + long(at) + 16);
            add_chunk(x);
            std::reverse(x.begin(), x.end());
            add_chunk(x);
        }
    }
    for (const Bytes& der : {ref_private_der(k)}) { // its text; the public numbers come first
        std::string pem = ref_pem("X", der, 64, "\n");
        for (size_t at = 600; at + 120 < pem.size(); at += 97) {
            size_t nl = pem.find('\n', at);
            if (nl + 17 < pem.size()) add_chunk(B(pem.substr(nl + 1, 16)));
        }
    }
}
static bool rsa_body(Tape& t, Ctx* c)
{
    g_secrets.clear();
    g_wide.clear();
    g_hit = false;
    rng_seed(t.raw(4));
    const TestKey& K = test_key(t.pick(unsigned(TEST_SK.size())));
    heap::pause(1);
    rsa_secrets(K.k);
    std::vector<std::string> hold; // results handed to us are ours to wipe
    hold.reserve(64);
    heap::pause(-1);
    std::vector<std::unique_ptr<TdpInverse>> objs;
    std::unique_ptr<Wrapper> w;
    std::string log;
    unsigned steps = 2 + t.pick(5);
    bool done = false;
    for (unsigned i = 0; i < steps; i++) {
        unsigned op = objs.empty() ? t.pick(3) : t.pick(9);
        std::string what;
        std::unique_ptr<TdpInverse> n;
        TdpInverse* o = objs.empty() ? nullptr : objs[t.pick(unsigned(objs.size()))].get();
        heap::pause(1);
        std::string in, out;
        Bytes x = t.bytes(256);
        x[0] &= 0x3f;
        std::string sx = S(x);
        heap::pause(-1);
        switch (op) {
        case 0: case 1: {
            heap::pause(1);
            unsigned form = t.pick(4);
            in = form == 0 ? K.sk : ref_pem("RSA PRIVATE KEY", ref_private_der(K.k), 64, form == 1 ? "\r\n" : "\n");
            if (form == 3) { Bytes b = unhex("020100"), alg = der_tlv(0x30, unhex("06092a864886f70d0101010500")), key = der_tlv(4, ref_private_der(K.k)); b.insert(b.end(), alg.begin(), alg.end()); b.insert(b.end(), key.begin(), key.end()); in = ref_pem("PRIVATE KEY", der_tlv(0x30, b), 64, "\n"); }
            heap::pause(-1);
            what = "import RSA";
            CHECK(lib([&] { n.reset(new TdpInverse(in)); }) == OK, "a genuine private key was refused");
            break; }
        case 2: { // a key that is refused
            heap::pause(1);
            in = K.sk;
            unsigned how = t.pick(4);
            if (how == 0) in.resize(in.size() - 1 - t.range(0, 300));
            else if (how == 1) { size_t at = 700 + t.range(0, 700); in[at] = in[at] == 'A' ? 'B' : 'A'; }
            else if (how == 2) in.erase(in.size() - 40 - t.pick(60), 1 + t.pick(8));
            else in[100 + t.range(0, in.size() - 200)] = '!';
            heap::pause(-1);
            what = "refused RSA";
            Outcome r = lib([&] { n.reset(new TdpInverse(in)); });
            CHECK(r != NON_STD, "import raised a non-standard exception");
            if (r == OK && in != K.sk) n.reset(); // the same numbers in another text
            break; }
        case 3: what = "export RSA"; CHECK(lib([&] { out = o->private_key(); }) == OK && !out.empty(), "export refused"); break;
        case 4: what = "export public"; CHECK(lib([&] { out = o->public_key(); }) == OK && !out.empty(), "export refused"); break;
        case 5: what = "invert"; CHECK(lib([&] { out = o->invert(sx); }) == OK && eq(rsa_priv(K.k, x), out), "inversion differs"); break;
        case 6: what = "invert-many"; { unsigned k = t.pick(4); CHECK(lib([&] { out = o->invert_mult(sx, k); }) == OK && eq(rsa_priv(K.k, x, k), out), "inversion differs"); } break;
        case 7: {
            what = "destroy RSA";
            size_t a = t.pick(unsigned(objs.size()));
            CHECK(lib([&] { objs[a].reset(); }) == OK, "a destructor threw");
            objs.erase(objs.begin() + long(a));
            break; }
        default: {
            if (!w) { Key<32> k = mk<32>(t.bytes(32)); w.reset(new Wrapper(std::move(k))); }
            bool spoil = t.pick(4) == 0;
            unsigned at = t.u8();
            std::vector<uint8_t> blob;
            what = "wrap RSA";
            CHECK(lib([&] { blob = w->wrap(*o); }) == OK, "wrapping refused");
            if (spoil) blob[at % blob.size()] ^= 4;
            Outcome r = lib([&] { n.reset(new TdpInverse(w->unwrap<TdpInverse>(blob))); });
            CHECK((r == OK) == !spoil && r != NON_STD, "unwrapping ", spoil ? "a forged" : "the", " key: ", outcome_name(r));
        } }
        CHECK(!g_hit, "during ", what, ": ordinary memory holding private RSA numbers or their text was released");
        if (n) { CHECK(eq(rsa_pub(K.k, x), n->eval(sx)), "evaluation differs"); objs.push_back(std::move(n)); }
        heap::pause(1);
        hold.push_back(std::string()); hold.back().swap(out);
        log += (log.empty() ? "" : "; ") + what;
        if (c) c->label(what);
        heap::pause(-1);
        done = done || i > 0;
    }
    CHECK(lib([&] { objs.clear(); }) == OK, "a destructor threw");
    CHECK(!g_hit, "during the last destructions: ordinary memory holding private RSA numbers was released");
    heap::pause(1);
    if (c) c->note("RSA: ", log);
    std::vector<std::string>().swap(hold);
    std::string().swap(log);
    heap::pause(-1);
    heap::pause(1);
    std::vector<Bytes>().swap(g_secrets);
    heap::pause(-1);
    return done;
}
void pbt::prop_case(Tape& t, Ctx& c)
{
    track::reset();
    if (!g_judge_stack) c.label("stack not judged: libsodium leaves its inputs there");
    bool rsa = t.pick(24) == 23;
    size_t left = 0, bytes = 0;
    bool nt = false;
    Tape end = t;
    for (unsigned k = 0; k < 2; k++) { // statics initialised on first use are not leaks
        heap::watch(true);
        Tape u = t;
        nt = rsa ? rsa_body(u, k ? nullptr : &c) : body(u, k ? nullptr : &c);
        if (!k) end = u;
        heap::watch(false);
        left = heap::outstanding();
        bytes = heap::outstanding_bytes();
        if (!left) break;
    }
    CHECK(left == 0, left, " blocks of ordinary memory (", bytes, " bytes) outlive every object");
    t = end;
    c.nontrivial(nt);
}
