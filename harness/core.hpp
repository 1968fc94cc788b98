// Property-based testing engine: every case is a byte tape (choice sequence).
// A property is a function of the tape only, so a case can be generated from
// (VERIF_SEED, index), replayed from a hex file, shrunk by editing the tape, or
// driven by libFuzzer.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {
using Bytes = std::vector<uint8_t>;

struct Failure : std::exception {
    std::string msg;
    explicit Failure(std::string m) : msg(std::move(m)) {}
    const char* what() const noexcept override { return msg.c_str(); }
};

inline uint64_t splitmix(uint64_t& s)
{
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

class Tape {
public:
    Tape(const uint8_t* d, size_t n) : d_(d), n_(n) {}
    // a directed case on more than 2^32 bytes (see --giant); reads the marker when it is there
    static const char* giant_marker() { return "GIANT\x01\x7f\xfe"; }
    bool giant()
    {
#ifndef PBT_LIBFUZZER
        if (pos_ == 0 && n_ >= 8 && memcmp(d_, giant_marker(), 8) == 0) { pos_ = 8; return true; }
#endif
        return false;
    }
    // a directed case of tens of thousands of operations on one object (see --long)
    static const char* long_marker() { return "LONGHIS\x7f"; }
    bool longrun()
    {
#ifndef PBT_LIBFUZZER
        if (pos_ == 0 && n_ >= 8 && memcmp(d_, long_marker(), 8) == 0) { pos_ = 8; return true; }
#endif
        return false;
    }
    size_t pos() const { return pos_; }
    Bytes rest() { Bytes r(d_ + (pos_ < n_ ? pos_ : n_), d_ + n_); pos_ = n_; return r; }
    bool exhausted() const { return pos_ >= n_; }
    uint8_t u8() { return pos_ < n_ ? d_[pos_++] : (pos_++, uint8_t(0)); }
    uint64_t raw(int nbytes)
    {
        uint64_t v = 0;
        for (int i = 0; i < nbytes; i++) v = (v << 8) | u8();
        return v;
    }
    uint64_t u64() { return raw(8); }
    // uniform-ish in [lo, hi]
    uint64_t range(uint64_t lo, uint64_t hi)
    {
        if (hi <= lo) return lo;
        uint64_t w = hi - lo;
        int nb = 1;
        while (nb < 8 && (w >> (8 * nb)) != 0) nb++;
        if (nb < 8 && w > 0) nb++; // reduce the modulo bias
        if (nb > 8) nb = 8;
        uint64_t v = raw(nb);
        return w == ~0ull ? v : lo + v % (w + 1);
    }
    uint64_t below(uint64_t n) { return range(0, n - 1); }
    // small ranges: a single byte
    unsigned pick(unsigned n) { return n <= 1 ? 0 : u8() % n; }
    bool chance(unsigned num, unsigned den = 256) { return (u8() * den) / 256 >= den - num; }
    // byte string of a given length; zero tape -> zeros
    Bytes bytes(size_t len)
    {
        Bytes b(len);
        fill(b.data(), len);
        return b;
    }
    void fill(uint8_t* out, size_t len)
    {
        if (len == 0) return;
        unsigned mode = u8() & 15;
        switch (mode) {
        case 0: memset(out, 0, len); break;
        case 1: memset(out, 0xff, len); break;
        case 2: memset(out, u8(), len); break;
        case 3: for (size_t i = 0; i < len; i++) out[i] = uint8_t(i + 1); break;
        case 4: { // sparse: few non-zero bytes
            memset(out, 0, len);
            unsigned k = 1 + pick(4);
            for (unsigned i = 0; i < k; i++) { size_t p = range(0, len - 1); out[p] = u8(); }
            break; }
        case 5: // literal
            for (size_t i = 0; i < len; i++) out[i] = i < 256 ? u8() : uint8_t(out[i - 256]);
            break;
        default: {
            uint64_t s = raw(4) * 0x100000001B3ull + mode;
            for (size_t i = 0; i < len; i += 8) {
                uint64_t v = splitmix(s);
                for (size_t j = 0; j < 8 && i + j < len; j++) out[i + j] = uint8_t(v >> (8 * j));
            } }
        }
    }
    std::string str(size_t len) { Bytes b = bytes(len); return std::string(b.begin(), b.end()); }
    // a length with boundary bias
    size_t length(size_t lo, size_t hi)
    {
        static const size_t B[] = {0, 1, 2, 3, 4, 7, 8, 9, 11, 12, 13, 15, 16, 17, 31, 32, 33, 47, 48, 49, 55, 56, 63, 64, 65, 79, 80, 95, 96, 97,
            111, 112, 119, 120, 127, 128, 129, 143, 144, 159, 160, 191, 192, 193, 223, 224, 239, 240, 241, 255, 256, 257, 383, 384, 511, 512, 513, 767, 768,
            1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 16383, 16384, 16385, 65535, 65536, 65537};
        unsigned m = u8() & 7;
        size_t v;
        if (m <= 2) v = range(lo, lo + 64 < hi ? lo + 64 : hi);
        else if (m <= 4) { v = B[range(0, sizeof(B) / sizeof(B[0]) - 1)]; }
        else if (m <= 6) v = range(lo, lo + 600 < hi ? lo + 600 : hi);
        else v = range(lo, hi);
        if (v < lo) v = lo;
        if (v > hi) v = lo + v % (hi - lo + 1);
        return v;
    }
    // as length(lo, usual), one time in 24 anything up to rare
    size_t len(size_t lo, size_t usual, size_t rare)
    {
        if (u8() % 24 != 23) return length(lo, usual);
        size_t v;
        switch (u8() & 3) {
        case 0: v = range(lo, rare); break;
        case 1: { unsigned k = unsigned(range(6, 24)); v = (size_t(1) << k) + pick(5) - 2; break; } // around a power of two
        default: { unsigned k = unsigned(range(6, 24)); v = range(size_t(1) << k, size_t(2) << k); }
        }
        if (v < lo) v = lo;
        if (v > rare) v = lo + v % (rare - lo + 1);
        return v;
    }
private:
    const uint8_t* d_;
    size_t n_;
    size_t pos_ = 0;
};
// endless choices for the long cases, from one 64-bit value of the tape
struct Stream {
    uint64_t s;
    explicit Stream(Tape& t) : s(t.raw(8) * 2 + 1) {}
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    size_t below(size_t n) { return size_t(next() % n); }
    Bytes bytes(size_t n) { Bytes b(n); for (auto& x : b) x = uint8_t(next()); return b; }
};
static const unsigned LONG_OPS = 70000; // more than 2^16

struct Ctx {
    std::string desc;
    bool nontriv = false;
    std::map<std::string, uint64_t>* labels = nullptr; // shared across the cases of a worker
    std::vector<std::string> case_labels;
    bool verbose = false;
    void nontrivial(bool b = true) { nontriv = nontriv || b; }
    void label(const std::string& l) { case_labels.push_back(l); }
    template <class... A> void note(const A&... a)
    {
        std::ostringstream o;
        put(o, a...);
        if (verbose) { fprintf(stderr, "  . %s\n", o.str().c_str()); }
        if (desc.size() < 2000) { if (!desc.empty()) desc += "; "; desc += o.str(); }
    }
    static void put(std::ostream&) {}
    template <class T, class... A> static void put(std::ostream& o, const T& t, const A&... a) { o << t; put(o, a...); }
};

template <class... A> [[noreturn]] void fail(const A&... a)
{
    std::ostringstream o;
    Ctx::put(o, a...);
    throw Failure(o.str());
}
#define CHECK(cond, ...) do { if (!(cond)) ::pbt::fail("check failed: " #cond " : ", __VA_ARGS__); } while (0)

std::string hex(const void* p, size_t n, size_t max = 48);
inline std::string hex(const Bytes& b) { return hex(b.data(), b.size()); }
inline std::string hex(const std::string& b) { return hex(b.data(), b.size()); }
template <size_t N> std::string hex(const std::array<uint8_t, N>& a) { return hex(a.data(), N); }
Bytes unhex(const std::string&);
inline Bytes B(const std::string& s) { return Bytes(s.begin(), s.end()); }
inline std::string S(const Bytes& b) { return std::string(b.begin(), b.end()); }

// Exception classification of a call.
enum Outcome { OK = 0, INVALID_ARGUMENT, OUT_OF_RANGE, RUNTIME_ERROR, BAD_ALLOC, OTHER_STD, NON_STD };
const char* outcome_name(Outcome o);
template <class F> Outcome attempt(F&& f)
{
    try { f(); return OK; }
    catch (const Failure&) { throw; }
    catch (const std::invalid_argument&) { return INVALID_ARGUMENT; }
    catch (const std::out_of_range&) { return OUT_OF_RANGE; }
    catch (const std::runtime_error&) { return RUNTIME_ERROR; }
    catch (const std::bad_alloc&) { return BAD_ALLOC; }
    catch (const std::exception&) { return OTHER_STD; }
    catch (...) { return NON_STD; }
}

// ---- to be provided by the property ----
extern const char* PROP_ID;
extern const char* PROP_RULE; // what "non-trivial" means
void prop_setup();            // once per process, before any case
void prop_case(Tape& t, Ctx& c);
size_t prop_tape_len();       // typical tape length
// optional directed tapes: return false to use a random tape
bool prop_directed(uint64_t idx, Bytes& tape);

// optional: what the executable does when started with --serve
int prop_serve() __attribute__((weak));

// ---- randomness under the control of the tape ----
// Installs a libsodium generator whose output is a function of the seed below.
void rng_install();
void rng_seed(uint64_t s);
unsigned rng_bias_now();
void rng_bias(unsigned mode); // 0: uniform, 1: mostly zero bytes, 2: mostly 0xff
uint64_t rng_bytes_drawn();
}
