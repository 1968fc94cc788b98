#include "rc.hpp"
#include <set>
using namespace pbt;
const char* pbt::PROP_ID = "C10";
const char* pbt::PROP_RULE = "a case evaluating at least one leaf and one range of two or more leaves against the reference derivation tree";
size_t pbt::prop_tape_len() { return 160; }
void pbt::prop_setup() { lib_init_tape_rng(); }
static const Kind KINDS[] = {kind<1>(), kind<2>(), kind<8>(), kind<11>(), kind<16>(), kind<20>(), kind<24>(), kind<31>(), kind<32>(), kind<33>(), kind<40>(), kind<48>(), kind<63>(), kind<64>(), kind<65>(), kind<100>(), kind<127>(), kind<128>(), kind<129>(), kind<255>(), kind<256>(), kind<300>(), kind<1000>()};

static void long_case(Tape& t, Ctx& c)
{
    Stream g(t);
    const Kind& K = KINDS[4];
    unsigned h = 19 + unsigned(g.below(3));
    Bytes root = g.bytes(32);
    { // a low tree: every node derived costs several system calls
        unsigned lh = 2 + unsigned(g.below(3));
        std::unique_ptr<IRc> r = K.make(root, lh);
        for (unsigned i = 0; i < LONG_OPS; i++) {
            uint64_t l = g.next() & max_leaf(lh);
            CHECK(r->eval(l) == ref::rcprf_leaf(root, lh, l, K.n), "evaluation ", i, " of one object: leaf ", l, " of a tree of height ", lh);
        }
    }
    std::unique_ptr<IRc> r = K.make(root, h);
    uint64_t a = (g.next() & max_leaf(h)) / 2, next = a;
    r->range(a, a + LONG_OPS, [&](uint64_t i, const Bytes& v) {
        CHECK(i == next, "callback for leaf ", i, " instead of ", next);
        if (i % 16 == 0 || i - a > 64000) CHECK(v == ref::rcprf_leaf(root, h, i, K.n), "range value of leaf ", i, " of [", a, ", ", a + LONG_OPS, "], height ", h);
        next++;
    });
    CHECK(next == a + LONG_OPS + 1, "a range of ", LONG_OPS, " leaves stopped at ", next);
    c.note("long history of one tree");
    c.label("more than 65536 operations");
    c.nontrivial();
}
void pbt::prop_case(Tape& t, Ctx& c)
{
    if (t.longrun()) return long_case(t, c);
    const Kind& K = KINDS[t.pick(sizeof(KINDS) / sizeof(KINDS[0]))];
    unsigned h = gen_height(t);
    Bytes root = t.bytes(32);
    std::unique_ptr<IRc> r = K.make(root, h);
    CHECK(r->tree_height() == h, "height");
    uint64_t top = max_leaf(h);
    unsigned n = 1 + t.pick(4);
    for (unsigned k = 0; k < n; k++) {
        uint64_t l = gen_leaf(t, 0, top);
        CHECK(r->eval(l) == ref::rcprf_leaf(root, h, l, K.n), "eval(", l, ") in a tree of height ", h, ", width ", K.n, " is not the derivation tree's value");
        if (t.pick(4) == 0) { r = r->moved(); c.label("moved"); }
        // a range
        uint64_t w = t.pick(6) == 0 ? t.len(0, 300, K.n <= 65 ? 5000 : 600) : t.range(0, 12);
        uint64_t a = gen_leaf(t, 0, top), b = a;
        b = top - a < w ? top : a + w;
        uint64_t next = a;
        r->range(a, b, [&](uint64_t i, const Bytes& v) {
            CHECK(next <= b || b == ~0ull, "too many callbacks in [", a, ", ", b, "]");
            CHECK(i == next, "callback for leaf ", i, " instead of ", next, " in [", a, ", ", b, "], height ", h);
            CHECK(v == ref::rcprf_leaf(root, h, i, K.n), "range value of leaf ", i, " in [", a, ", ", b, "] differs, height ", h, " width ", K.n);
            next++;
        });
        CHECK(next == b + 1, "range [", a, ", ", b, "] stopped before leaf ", next, ", height ", h);
        if (t.pick(5) == 0) { // a callback that throws ends the evaluation; one that evaluates again does not disturb it
            struct Stop {};
            uint64_t at = a + t.range(0, std::min<uint64_t>(b - a, 9)), calls = 0;
            bool stopped = false;
            try { r->range(a, b, [&](uint64_t i, const Bytes&) { calls++; if (i == at) throw Stop(); }); }
            catch (const Stop&) { stopped = true; }
            CHECK(stopped && calls == at - a + 1, "a callback that throws at leaf ", at, " of [", a, ", ", b, "] was called ", calls, " times");
            uint64_t other = gen_leaf(t, 0, top), seen = 0;
            Bytes ov = ref::rcprf_leaf(root, h, other, K.n);
            uint64_t e = b - a > 20 ? a + 20 : b;
            r->range(a, e, [&](uint64_t i, const Bytes& v) {
                CHECK(r->eval(other) == ov, "evaluating leaf ", other, " from a range callback");
                if (i == a) r->range(other, other, [&](uint64_t, const Bytes& w2) { CHECK(w2 == ov, "a nested range evaluation of leaf ", other); });
                CHECK(v == ref::rcprf_leaf(root, h, i, K.n), "range value of leaf ", i, " after a nested evaluation");
                seen++;
            });
            CHECK(seen == e - a + 1, "a range with nested evaluations is incomplete");
            c.label("throwing and nested callbacks");
        }
        c.note("h=", h, " N=", K.n, " leaf=", l, " range=[", a, ",", b, "]");
        c.label(h < 10 ? "height<10" : h < 40 ? "height 10..39" : "height>=40");
        c.nontrivial(b > a);
    }
    if (h <= 8 && t.pick(2) == 0) { // a whole tree
        std::map<Bytes, uint64_t> seen;
        uint64_t next = 0;
        r->range(0, top, [&](uint64_t i, const Bytes& v) {
            CHECK(i == next, "callback order");
            next++;
            CHECK(v == r->eval(i), "range and single evaluation differ on leaf ", i);
            auto q = seen.insert({v, i});
            if (K.n >= 16) CHECK(q.second, "leaves ", q.first->second, " and ", i, " share a value, height ", h);
        });
        CHECK(next == top + 1, "whole-tree range is incomplete");
        c.label("whole tree");
    }
}
