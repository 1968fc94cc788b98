#include "lib.hpp"
#include "giant.hpp"
using namespace pbt;
const char* pbt::PROP_ID = "C22";
const char* pbt::PROP_RULE = "a search whose needle has at least two bytes and either occurs beyond the start or shares a prefix of at least two bytes with some position of the haystack without occurring there";
size_t pbt::prop_tape_len() { return 200; }
void pbt::prop_setup() { lib_init_tape_rng(); }

static Bytes pattern(Tape& t, size_t len)
{
    Bytes b(len);
    unsigned how = t.pick(8);
    unsigned alpha = how < 3 ? 1 + t.pick(2) : how < 5 ? 3 : 256;
    static const uint8_t A[3] = {0, 255, 'a'};
    if (how == 6) { // periodic
        size_t per = 1 + t.pick(7);
        Bytes p = t.bytes(per);
        for (size_t i = 0; i < len; i++) b[i] = p[i % per];
        if (len && t.pick(2)) b[t.range(0, len - 1)] ^= 1;
    } else if (how == 7) { // Fibonacci word
        std::string x = "a", y = "ab";
        while (y.size() < len) { std::string z = y + x; x = y; y = z; }
        for (size_t i = 0; i < len; i++) b[i] = uint8_t(y[i]);
    } else
        for (size_t i = 0; i < len; i++) b[i] = alpha == 256 ? t.u8() : A[t.pick(alpha)];
    return b;
}
// a placement in which reading past either end is noticed: the buffer ends (or starts) at an exact heap boundary
struct Placed {
    Exact e;
    explicit Placed(const Bytes& b) : e(b) {}
    const uint8_t* p() { return e.data(); }
};
// A text of more than 2^32 bytes: zeros, a few decoys that start like the needle, and
// perhaps one occurrence; or a needle of more than 2^32 bytes. What must be found is known
// by construction (the first byte of the needle occurs at the decoys only).
static void giant_case(Tape& t, Ctx& c)
{
    if (mem_available_gb() < 4) { c.label("giant case skipped: not enough memory"); return; }
    size_t n = giant_size(t);
    Big H(n);
    if (!H.p) { c.label("giant case skipped: not enough memory"); return; }
    size_t want = n;
    if (t.pick(3) == 0) { // a giant needle, which starts in the first bytes of the text
        size_t a = t.range(0, 30), nl = n - a - t.range(0, 3);
        H.p[a] = uint8_t(1 + t.pick(255));
        Big N(nl);
        if (!N.p) { c.label("giant case skipped: not enough memory"); return; }
        N.p[0] = H.p[a];
        bool found = t.pick(2) != 0;
        if (!found) N.p[nl - 1] = 1;
        const uint8_t* got = strstrn_uint8(H.p, n, N.p, nl);
        CHECK(got == (found ? H.p + a : nullptr), "search for ", nl, " bytes in ", n, ": ", got ? long(got - H.p) : -1L, " instead of ", found ? long(a) : -1L);
        c.label(found ? "giant needle, found" : "giant needle, absent");
        c.nontrivial(true); c.note("giant haystack ", n, " needle ", nl);
        return;
    }
    size_t nl = t.range(2, 20);
    Bytes nd(nl);
    for (auto& b : nd) b = uint8_t(2 + t.pick(250));
    nd[0] = 1;
    size_t at[4] = {t.range(0, 5000), (size_t(1) << 31) + t.range(0, 60) - 30, (size_t(1) << 32) - 10 - nl - t.range(0, 20), n - nl};
    unsigned which = t.pick(5); // 4: absent
    for (unsigned i = 0; i < 4; i++) {
        memcpy(H.p + at[i], nd.data(), nl);
        if (i == which) { want = at[i]; break; }
        H.p[at[i] + nl - 1] = 0; // a decoy
    }
    const uint8_t* got = strstrn_uint8(H.p, n, nd.data(), nl);
    CHECK(got == (want < n ? H.p + want : nullptr), "search for ", nl, " bytes in ", n, ": ", got ? long(got - H.p) : -1L, " instead of ", want < n ? long(want) : -1L);
    c.nontrivial(true);
    c.label(want < n ? "giant haystack, found" : "giant haystack, absent");
    c.note("giant haystack ", n, " needle ", nl);
}
void pbt::prop_case(Tape& t, Ctx& c)
{
    if (t.giant()) return giant_case(t, c);
    size_t hl = t.pick(6) == 0 ? t.len(0, 3000, 20000) : t.range(0, 60);
    Bytes h = pattern(t, hl), n;
    switch (t.pick(6)) {
    case 0: n = pattern(t, t.length(0, 40)); break;
    case 1: n = pattern(t, t.pick(5)); break;
    case 2: case 3: if (hl) { size_t a = t.range(0, hl - 1), l = t.range(1, hl - a); n.assign(h.begin() + long(a), h.begin() + long(a + l)); } break; // an occurrence
    case 4: if (hl) { size_t a = t.range(0, hl - 1), l = t.range(1, hl - a); n.assign(h.begin() + long(a), h.begin() + long(a + l)); n[t.range(0, l - 1)] ^= uint8_t(1 + t.pick(255)); } break; // a near miss
    default: if (hl) { size_t a = t.range(0, hl - 1); n.assign(h.begin() + long(a), h.end()); for (unsigned i = t.pick(4); i; i--) n.push_back(t.pick(2) ? h[t.range(0, hl - 1)] : t.u8()); } // runs over the end
    }
    bool shared = t.pick(10) == 0 && n.size() <= h.size(); // the needle is a part of the haystack buffer itself
    Placed H(h), N(n);
    const uint8_t* np = N.p();
    size_t nl = n.size();
    if (shared && hl) { size_t a = t.range(0, hl - 1); nl = t.range(0, hl - a); np = H.p() + a; n.assign(np, np + nl); }
    const uint8_t* got = strstrn_uint8(H.p(), hl, np, nl);
    const uint8_t* want = nullptr;
    for (size_t i = 0; i + nl <= hl && !want; i++) if (nl == 0 || memcmp(h.data() + i, n.data(), nl) == 0) want = H.p() + i;
    CHECK(got == want, "search for ", nl, " bytes in ", hl, ": ", got ? long(got - H.p()) : -1L, " instead of ", want ? long(want - H.p()) : -1L, " haystack ", hex(h), " needle ", hex(n));
    CHECK(H.e.bytes() == h, "the haystack was changed");
    size_t best = 0;
    for (size_t i = 0; i < hl; i++) { size_t k = 0; while (k < nl && i + k < hl && h[i + k] == n[k]) k++; if (k < nl && k > best) best = k; }
    c.nontrivial(nl >= 2 && ((want && want > H.p()) || best >= 2));
    c.label(want ? (nl == 0 ? "empty needle" : want == H.p() ? "found at the start" : want + nl == H.p() + hl ? "found at the end" : "found inside") : nl > hl ? "needle longer" : "absent");
    c.note("haystack ", hl, " needle ", nl, want ? " at " : " absent ", want ? long(want - H.p()) : -1L);
}
