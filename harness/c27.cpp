// The life of the library: initialisation repeated, cleanup and initialisation
// again, and a CPU without AES, at any point of a program.
#include "lib.hpp"
#include "prog.hpp"
#include "heap.hpp"
#include <sse/crypto/prg.hpp>
#include <sse/crypto/prp.hpp>
#include <sse/crypto/wrapper.hpp>
#include <set>
#include <sys/wait.h>
#include <unistd.h>
using namespace pbt;
const char* pbt::PROP_ID = "C27";
const char* pbt::PROP_RULE = "a program of at least three calls with at least one initialisation or cleanup among them, or a history in which a Prp is used both while the CPU has AES and while it has not";
size_t pbt::prop_tape_len() { return 400; }
bool pbt::prop_directed(uint64_t, Bytes&) { return false; }

static bool g_off = false;          // the CPU claims to have no AES
static unsigned g_asked = 0;
extern "C" {
int __real_sodium_runtime_has_aesni(void);
int __real_sodium_runtime_has_neon(void);
int __wrap_sodium_runtime_has_aesni(void) { g_asked++; return g_off ? 0 : __real_sodium_runtime_has_aesni(); }
int __wrap_sodium_runtime_has_neon(void) { g_asked++; return g_off ? 0 : __real_sodium_runtime_has_neon(); }
}
static void init() { Outcome o = attempt([&] { init_crypto_lib(); }); CHECK(o == OK, "initialisation failed: ", outcome_name(o)); }
static void cleanup() { Outcome o = attempt([&] { cleanup_crypto_lib(); }); CHECK(o == OK, "cleanup failed: ", outcome_name(o)); }
static void cpu(bool off)
{
    g_off = off;
    init();
}
static bool g_can_switch = false;
// In a process of its own, first initialised without AES: 0 as it should be, 1 and it asks again
// when initialised again, 2 it does not ask at all, 9 wrong
static int first_without()
{
    pid_t p = fork();
    if (p == 0) {
        int r = 9;
        try {
            g_asked = 0;
            cpu(true);
            if (g_asked == 0) r = 2; // the library asks someone else
            else {
                Outcome a = attempt([] { Prp x; }), b = attempt([] { Prp x(mk<48>(Bytes(48, 7))); });
                bool ok = !Prp::is_available() && a == RUNTIME_ERROR && b == RUNTIME_ERROR;
                g_asked = 0;
                cpu(false);
                r = !ok ? 9 : g_asked ? 1 : 0;
            }
        } catch (...) { r = 8; }
        _exit(r);
    }
    int st = 0;
    waitpid(p, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 9;
}
void pbt::prop_setup()
{
    int r = first_without();
    if (r == 8) fail("check failed: initialising the library twice throws");
    if (r == 9) fail("check failed: a CPU without AES is taken for one with, or a Prp is constructed on it");
    warm_up();
    lib_init_real_rng();
    CHECK(Prp::is_available(), "a CPU with AES is taken for one without");
    g_can_switch = r == 1; // else the answer is kept for the life of the process
}

// ---- a program with the library's life going on between its calls
static void program(Tape& t, Ctx& c)
{
    Bytes b;
    uint64_t s = t.raw(4);
    if (t.pick(3)) while (b.size() < 300) { uint64_t v = splitmix(s); for (int k = 0; k < 8; k++) b.push_back(uint8_t(v >> (8 * k))); }
    else b = t.bytes(20 + t.pick(100));
    Program ref, p;
    { Tape u(b.data(), b.size()); ref.light = ref.collect_randoms = true; run_program(u, ref); }
    Bytes plan = t.bytes(16);
    size_t i = 0, events = 0;
    std::string log;
    p.light = p.collect_randoms = true;
    p.between = [&] {
        uint8_t e = plan[i++ % plan.size()] % 8;
        switch (e) {
        case 0: init(); events++; log += "i"; break;
        case 1: cleanup(); init(); events++; log += "c"; break;
        case 2: cleanup(); init(); init(); events++; log += "d"; break;
        case 3: if (g_can_switch) { cpu(true); cpu(false); events++; log += "a"; } break;
        default: log += "."; break;
        }
    };
    size_t before = track::live_count();
    { Tape u(b.data(), b.size()); run_program(u, p); }
    CHECK(Prp::is_available(), "the Prp class became unavailable");
    if (p.transcript != ref.transcript) {
        std::istringstream x(ref.transcript), y(p.transcript);
        std::string m, n;
        while (std::getline(x, m) && std::getline(y, n) && m == n) {}
        fail("with the library initialised or cleaned up between calls (" + log.substr(0, 60) + ") a result differs: " + m.substr(0, 200) + "  |  " + n.substr(0, 200));
    }
    CHECK(p.wrong.empty() && ref.wrong.empty(), p.wrong, ref.wrong);
    std::set<std::string> seen;
    for (auto* q : {&ref, &p}) for (auto& r : q->randoms) CHECK(seen.insert(r.substr(0, 16)).second, "a random value was handed out twice");
    CHECK(track::live_count() == before, "secure memory left behind");
    CHECK(track::errors().empty(), track::errors());
    std::set<std::string> kinds(p.ops.begin(), p.ops.end());
    for (auto& k : kinds) c.label(k);
    c.note("program of ", p.ops.size(), " calls, events ", log.substr(0, 40));
    c.nontrivial(p.ops.size() >= 3 && events > 0);
}

// ---- Prp objects while the CPU has AES and while it has not
struct Slot { std::unique_ptr<Prp> p; Bytes key; };
static void prp_history(Tape& t, Ctx& c)
{
    std::vector<Slot> v;
    Bytes wk = t.bytes(32);
    Wrapper w((mk<32>(wk)));
    std::vector<std::pair<std::vector<uint8_t>, Bytes>> blobs; // wrapped Prps and their keys
    size_t base = track::live_count();
    bool off = false, used_on = false, used_off = false;
    unsigned steps = 6 + t.pick(24);
    std::string log;
    for (unsigned i = 0; i < steps; i++) {
        unsigned op = t.pick(12);
        size_t live = track::live_count();
        auto refused = [&](Outcome o, const char* what) {
            used_off = true;
            CHECK(o == RUNTIME_ERROR, what, " on a CPU without AES: ", outcome_name(o));
            CHECK(track::live_count() == live, what, " on a CPU without AES changed the number of keys");
        };
        switch (op) {
        case 0: case 1:
            if (!g_can_switch) break;
            off = !off;
            if (t.pick(3) == 0) cleanup();
            cpu(off);
            CHECK(Prp::is_available() == !off, "availability is wrong after initialisation: ", Prp::is_available());
            log += off ? "off " : "on ";
            break;
        case 2: if (t.pick(2)) cleanup(); init(); CHECK(Prp::is_available() == !off, "availability changed"); log += "init "; break;
        case 3: { // a new object from a key
            Bytes k = t.bytes(48);
            Key<48> key(mk<48>(k));
            live = track::live_count();
            Slot s;
            Outcome o = attempt([&] { s.p.reset(new Prp(std::move(key))); });
            if (off) { refused(o, "constructing a Prp"); if (!key_empty(key)) CHECK(key_content(key) == k, "a refused key was changed"); }
            else { CHECK(o == OK, "a key was refused: ", outcome_name(o)); CHECK(key_empty(key), "the key was not consumed"); s.key = k; v.push_back(std::move(s)); }
            log += "new ";
            break; }
        case 4: { // with a random key
            std::unique_ptr<Prp> p;
            Outcome o = attempt([&] { p.reset(new Prp()); });
            if (off) refused(o, "constructing a random Prp"); else CHECK(o == OK, "no random Prp: ", outcome_name(o));
            log += "random ";
            break; }
        case 5: { // unwrap
            if (blobs.empty()) break;
            auto& b = blobs[t.pick(unsigned(blobs.size()))];
            std::vector<uint8_t> blob = b.first;
            Slot s;
            Outcome o = attempt([&] { s.p.reset(new Prp(w.unwrap<Prp>(blob))); });
            if (off) refused(o, "unwrapping a Prp"); else { CHECK(o == OK, "unwrapping failed: ", outcome_name(o)); s.key = b.second; v.push_back(std::move(s)); }
            log += "unwrap ";
            break; }
        default: {
            if (v.empty()) break;
            size_t at = t.pick(unsigned(v.size()));
            Slot& s = v[at];
            if (op == 6) { // wrap
                std::vector<uint8_t> blob;
                Outcome o = attempt([&] { blob = w.wrap(*s.p); });
                if (off) refused(o, "wrapping a Prp"); else { CHECK(o == OK, "wrapping failed: ", outcome_name(o)); if (blobs.size() < 5) blobs.push_back({blob, s.key}); }
                log += "wrap ";
                break;
            }
            if (op == 7) { if (t.pick(2)) { std::unique_ptr<Prp> m(new Prp(std::move(*s.p))); s.p = std::move(m); log += "move "; } else { v.erase(v.begin() + long(at)); log += "end "; } break; }
            Bytes in = t.bytes(t.len(1, 100, 1000));
            Bytes enc = ref::aez(s.key, in, false), dec = ref::aez(s.key, in, true);
            std::string si = S(in), out = "kept";
            bool d = t.pick(2);
            unsigned how = t.pick(5);
            uint32_t x = uint32_t(t.u64()), y = 0;
            uint64_t z = (uint64_t(x) << 32) + t.raw(2), zz = 0;
            Exact bo(in.size(), 0x5d);
            Outcome o = attempt([&] {
                switch (how) {
                case 0: if (d) s.p->decrypt(si, out); else s.p->encrypt(si, out); break;
                case 1: { std::string r = d ? s.p->decrypt(si) : s.p->encrypt(si); out = r; break; }
                case 2: if (d) s.p->decrypt(in.data(), unsigned(in.size()), bo.data()); else s.p->encrypt(in.data(), unsigned(in.size()), bo.data()); break;
                case 3: y = d ? s.p->decrypt(x) : s.p->encrypt(x); break;
                default: zz = d ? s.p->decrypt_64(z) : s.p->encrypt_64(z); break;
                }
            });
            log += d ? "dec " : "enc ";
            if (off) {
                refused(o, d ? "decrypting" : "encrypting");
                CHECK(out == "kept" && bo.bytes() == Bytes(in.size(), 0x5d), "a refused call wrote to its output");
            } else {
                used_on = true;
                CHECK(o == OK, "refused: ", outcome_name(o));
                auto le = [](uint64_t q, size_t n) { Bytes r(n); memcpy(r.data(), &q, n); return r; };
                if (how < 2) CHECK(eq(d ? dec : enc, out), "the permutation changed");
                else if (how == 2) CHECK(bo.bytes() == (d ? dec : enc), "the permutation changed");
                else if (how == 3) CHECK(le(y, 4) == ref::aez(s.key, le(x, 4), d), "the 32-bit permutation changed");
                else CHECK(le(zz, 8) == ref::aez(s.key, le(z, 8), d), "the 64-bit permutation changed");
            }
        } }
#ifdef ENABLE_MEMORY_LOCK
        { std::string m = track::all_locked(); CHECK(m.empty(), "after ", log, ": ", m); }
#endif
        // the rest of the library does not need the CPU's AES
        if (off && t.pick(4) == 0) {
            Bytes k = t.bytes(32);
            Prg g((mk<32>(k)));
            std::string o;
            Outcome r = attempt([&] { o = g.derive(40); });
            CHECK(r == OK && eq(ref::prg(k, 0, 40), o), "a PRG fails on a CPU without AES");
            std::vector<uint8_t> blob;
            CHECK(attempt([&] { blob = w.wrap(g); }) == OK, "wrapping a PRG fails on a CPU without AES");
            CHECK(attempt([&] { Prg q(w.unwrap<Prg>(blob)); o = q.derive(40); }) == OK && eq(ref::prg(k, 0, 40), o), "unwrapping a PRG fails on a CPU without AES");
        }
    }
    v.clear();
    CHECK(track::live_count() == base, "secure memory left behind");
    if (off) cpu(false);
    CHECK(track::errors().empty(), track::errors());
    c.label("Prp history");
    c.note("Prp history: ", log);
    c.nontrivial(used_on && used_off);
}
// ---- nothing is kept by initialising again and again
static void repeated(Tape& t, Ctx& c)
{
    unsigned n = 3 + t.pick(30);
    Bytes plan = t.bytes(n);
    init(); cleanup(); init();
    size_t secure = track::live_count();
    heap::watch(true);
    for (unsigned i = 0; i < n; i++) {
        if (plan[i] & 1) attempt([] { cleanup_crypto_lib(); });
        attempt([] { init_crypto_lib(); });
    }
    size_t left = heap::outstanding();
    heap::watch(false);
    CHECK(left == 0, left, " blocks are kept after ", n, " more initialisations");
    CHECK(track::live_count() == secure, "secure memory is kept by initialisation");
    c.label("initialised repeatedly");
    c.note(n, " initialisations");
    c.nontrivial(false);
}
void pbt::prop_case(Tape& t, Ctx& c)
{
    g_off = false;
    if (!Prp::is_available()) init();
    switch (t.pick(12)) {
    case 0: case 1: case 2: case 3: program(t, c); break;
    case 4: repeated(t, c); break;
    default: prp_history(t, c); break;
    }
}
