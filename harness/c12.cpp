#include "rc.hpp"
using namespace pbt;
const char* pbt::PROP_ID = "C12";
const char* pbt::PROP_RULE = "a case making at least one out-of-domain request and checking the refusal and the object's later answers";
size_t pbt::prop_tape_len() { return 200; }
void pbt::prop_setup() { lib_init_tape_rng(); }
static const Kind KINDS[] = {kind<1>(), kind<16>(), kind<32>(), kind<33>(), kind<64>()};

static bool refused(Outcome o, bool inverted, bool outside)
{
    if (inverted && outside) return o == INVALID_ARGUMENT || o == OUT_OF_RANGE;
    return o == (inverted ? INVALID_ARGUMENT : OUT_OF_RANGE);
}
static uint64_t beyond(Tape& t, unsigned h)
{
    uint64_t top = max_leaf(h);
    switch (t.pick(5)) {
    case 0: return top + 1 + t.range(0, 3);
    case 1: return h < 64 ? (uint64_t(1) << h) - 1 + t.range(0, 2) : ~0ull - t.range(0, 2);
    case 2: return ~0ull - t.range(0, 3);
    case 3: { uint64_t v = top + 1 + gen_leaf(t, 0, top); return v; }
    default: { uint64_t v = t.u64(); return v <= top ? top + 1 + v : v; }
    }
}
void pbt::prop_case(Tape& t, Ctx& c)
{
    const Kind& K = KINDS[t.pick(sizeof(KINDS) / sizeof(KINDS[0]))];
    Bytes root = t.bytes(32);
    unsigned mode = t.pick(8);
    if (mode == 0) { // heights
        unsigned h = t.pick(3) == 0 ? t.pick(2) : unsigned(t.range(0, 255));
        Outcome o = attempt([&] { K.make(root, h); });
        bool ok = h >= 2 && h <= 64;
        CHECK(o == (ok ? OK : INVALID_ARGUMENT), "height ", h, ": ", outcome_name(o));
        c.note("height ", h, " -> ", outcome_name(o));
        c.label(ok ? "valid height" : "invalid height");
        c.nontrivial(!ok);
        return;
    }
    unsigned h = gen_height(t);
    uint64_t top = max_leaf(h);
    if (mode == 1) { // collections of pieces
        std::vector<std::pair<unsigned, Piece>> ps;
        unsigned n = 1 + t.pick(4);
        uint64_t next = 0;
        bool bad = false;
        std::string d;
        for (unsigned i = 0; i < n; i++) {
            unsigned sh = 1 + t.pick(std::min(h - 1, 6u));
            while (next & max_leaf(sh)) sh--;
            if (next > top || top - next < max_leaf(sh)) break;
            Piece p{sh, next, next + max_leaf(sh)};
            next = p.max + 1;
            ps.push_back({h, p});
        }
        unsigned flaw = t.pick(9);
        size_t at = t.pick(unsigned(ps.size()));
        if (flaw == 0 && ps.size() > 2) { ps.erase(ps.begin() + 1); bad = true; d = "gap"; }
        if (flaw == 1) { ps.push_back(ps[at]); bad = true; d = "duplicate"; }
        if (flaw == 2 && ps.size() > 1 && h < 64) { ps[at].first = h + 1; bad = true; d = "two tree heights"; }
        if (flaw == 3) { ps[at].second.height = h + t.pick(3); ps[at].second.max = ps[at].second.min + (ps[at].second.height <= 64 ? max_leaf(ps[at].second.height) : ~0ull); bad = true; d = "subtree as high as the tree"; }
        if (flaw == 4) { ps[at].second.height = 2 + t.pick(3); ps[at].second.max = ps[at].second.min + max_leaf(ps[at].second.height) + 1 + t.range(0, 5); bad = true; d = "wrong width"; }
        if (flaw == 5) { ps[at].second.height = 3; ps[at].second.min = 8; ps[at].second.max = 7 - t.range(0, 7); bad = true; d = "inverted piece"; }
        if (flaw == 6) { ps[at].second.height = 0; ps[at].second.max = ps[at].second.min; bad = true; d = "height 0 piece"; }
        if (flaw == 7) { for (size_t q = ps.size(); q > 1; q--) std::swap(ps[q - 1], ps[t.pick(unsigned(q))]); d = "shuffled"; }
        uint64_t last = next - 1;
        std::unique_ptr<ICon> o;
        Outcome r = attempt([&] { o = K.assemble(root, ps); });
        CHECK(r == (bad ? INVALID_ARGUMENT : OK), "collection of ", ps.size(), " pieces (", d, "), height ", h, ": ", outcome_name(r));
        if (!bad) {
            CHECK(o->min_leaf() == 0 && o->max_leaf() == last, "assembled range");
            uint64_t l = gen_leaf(t, 0, last);
            CHECK(o->eval(l) == ref::rcprf_leaf(root, h, l, K.n), "assembled object differs on leaf ", l);
        }
        c.note("pieces=", ps.size(), " flaw=", d, " -> ", outcome_name(r));
        c.label(bad ? "inconsistent pieces" : "consistent pieces");
        c.nontrivial(bad);
        return;
    }
    std::unique_ptr<IRc> r = K.make(root, h);
    uint64_t lo = 0, hi = top;
    std::unique_ptr<ICon> con;
    if (mode >= 5 && top > 0) {
        lo = gen_leaf(t, 0, top);
        hi = gen_leaf(t, 0, top);
        if (lo > hi) std::swap(lo, hi);
        if (lo == 0 && hi == top) lo = 1;
        con = r->constrain(lo, hi);
        if (t.pick(4) == 0 && hi > lo) { uint64_t m = lo + 1; con = con->constrain(m, hi); lo = m; }
    }
    unsigned n = 1 + t.pick(4);
    for (unsigned k = 0; k < n; k++) {
        unsigned calls = 0;
        Cb cb = [&](uint64_t, const Bytes&) { calls++; };
        uint64_t x, y;
        Outcome o;
        unsigned kind = t.pick(5);
        // a leaf outside
        uint64_t out = beyond(t, h);
        if (con && t.pick(2)) out = t.pick(2) && lo > 0 ? lo - 1 - t.range(0, std::min<uint64_t>(lo - 1, 5)) : hi + 1 + t.range(0, 5);
        if (kind == 0) {
            o = attempt([&] { if (con) (void)con->eval(out); else (void)r->eval(out); });
            CHECK(o == OUT_OF_RANGE, "eval(", out, ") on [", lo, ",", hi, "], height ", h, ": ", outcome_name(o));
            c.note("eval ", out, " on [", lo, ",", hi, "] h=", h);
            c.label("leaf outside");
        } else if (kind <= 2) { // ranges
            bool inv = t.pick(3) == 0;
            x = t.pick(2) ? gen_leaf(t, lo, hi) : out;
            y = t.pick(2) ? gen_leaf(t, lo, hi) : out;
            if (inv ? x < y : x > y) std::swap(x, y);
            if (inv && x == y) { if (x > 0) y = x - 1; else { x = 1; } }
            bool inverted = x > y, outside = x < lo || x > hi || y < lo || y > hi;
            bool full = !con && x == 0 && y == top;
            if (!inverted && !outside && !full) { y = out; if (x > y) std::swap(x, y); outside = true; if (x == y && x >= lo && x <= hi) continue; }
            if (kind == 1) {
                if (full) continue;
                o = attempt([&] { if (con) con->range(x, y, cb); else r->range(x, y, cb); });
                CHECK(refused(o, inverted, outside) && calls == 0, "eval_range(", x, ", ", y, ") on [", lo, ",", hi, "], height ", h, ": ", outcome_name(o), ", ", calls, " callbacks");
                c.label(inverted ? "inverted range" : "range outside");
            } else {
                std::unique_ptr<ICon> res;
                o = attempt([&] { res = con ? con->constrain(x, y) : r->constrain(x, y); });
                CHECK(refused(o, inverted, outside || full), "constrain(", x, ", ", y, ") on [", lo, ",", hi, "], height ", h, ": ", outcome_name(o), res ? (res->empty() ? " (empty object)" : " (object)") : "");
                c.label(full ? "full range" : inverted ? "inverted constraint" : "constraint outside");
            }
            c.note(kind == 1 ? "range [" : "constrain [", x, ",", y, "] on [", lo, ",", hi, "] h=", h, " -> ", outcome_name(o));
        } else if (kind == 3) {
            o = attempt([&] { (void)r->constrain(0, top); });
            CHECK(o == OUT_OF_RANGE, "constrain to the full range, height ", h, ": ", outcome_name(o));
            c.note("full range h=", h);
            c.label("full range");
        } else { // an empty constrained object
            std::unique_ptr<ICon> e = K.assemble(root, {});
            uint64_t l = t.pick(2) ? t.pick(3) : t.u64();
            CHECK(e->empty(), "not empty");
            CHECK(attempt([&] { (void)e->eval(l); }) == OUT_OF_RANGE, "an empty object evaluated leaf ", l);
            CHECK(attempt([&] { e->range(l, l, cb); }) == OUT_OF_RANGE && calls == 0, "an empty object evaluated a range at ", l);
            CHECK(attempt([&] { (void)e->constrain(l, l); }) == OUT_OF_RANGE, "an empty object was constrained to ", l);
            c.note("empty object, leaf ", l);
            c.label("empty object");
        }
        c.nontrivial();
        uint64_t l = gen_leaf(t, lo, hi);
        Bytes v = con ? con->eval(l) : r->eval(l);
        CHECK(v == ref::rcprf_leaf(root, h, l, K.n), "after a refused request, leaf ", l, " differs");
    }
}
