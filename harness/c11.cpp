#include "rc.hpp"
using namespace pbt;
const char* pbt::PROP_ID = "C11";
const char* pbt::PROP_RULE = "a case with at least one constrained object over two or more leaves whose key material was compared piece by piece with the reference tree";
size_t pbt::prop_tape_len() { return 240; }
void pbt::prop_setup() { lib_init_tape_rng(); }
static const Kind KINDS[] = {kind<1>(), kind<2>(), kind<11>(), kind<16>(), kind<20>(), kind<24>(), kind<31>(), kind<32>(), kind<33>(), kind<48>(), kind<63>(), kind<64>(), kind<65>(), kind<100>(), kind<128>(), kind<256>()};

static uint64_t rd64(const Bytes& b, size_t p) { uint64_t v; memcpy(&v, &b[p], 8); return v; }

// Everything the object knows, read out of its wrapped form.
static std::string material(const ICon& o, const Bytes& root, unsigned h, uint64_t a, uint64_t b, const Bytes& wk, const Wrapper& w)
{
    Bytes blob = o.wrap(w);
    ref::WrapKeys ks = ref::wrap_keys(wk);
    CHECK(blob.size() >= 28, "wrapped size");
    Bytes body(blob.begin() + 16, blob.end() - 12);
    Bytes ser = ref::chacha20_ietf(ks.enc, &blob[blob.size() - 12], 0, body);
    size_t N = o.width(), p = 5;
    CHECK(ser.size() >= 5 && ser[0] == h, "serialised height");
    uint32_t n;
    memcpy(&n, &ser[1], 4);
    uint64_t next = a;
    std::string desc;
    for (uint32_t i = 0; i < n; i++) {
        CHECK(p + 17 <= ser.size(), "truncated serialisation");
        unsigned sh = ser[p];
        uint64_t mn = rd64(ser, p + 1), mx = rd64(ser, p + 9);
        p += 17;
        CHECK(mn == next, "piece ", i, " starts at ", mn, " instead of ", next, " for range [", a, ",", b, "]");
        CHECK(mx >= mn && mx <= b, "piece ", i, " [", mn, ",", mx, "] leaves the range [", a, ",", b, "]");
        CHECK(sh >= 1 && sh < h && mx - mn == max_leaf(sh), "piece ", i, " is not a subtree");
        CHECK((mn & max_leaf(sh)) == 0, "piece ", i, " is not aligned on a subtree");
        size_t kl = sh == 1 ? N : 32;
        CHECK(p + kl <= ser.size(), "truncated serialisation");
        Bytes got(ser.begin() + p, ser.begin() + p + kl);
        Bytes want = sh == 1 ? ref::rcprf_leaf(root, h, mn, N) : ref::rcprf_node_key(root, h, h - sh, mn >> (sh - 1));
        CHECK(got == want, "piece ", i, " [", mn, ",", mx, "] of height ", sh, " holds other key material than the subtree's, tree height ", h);
        p += kl;
        next = mx + 1;
        if (desc.size() < 60) desc += std::to_string(sh) + " ";
    }
    CHECK(n > 0 && next == b + 1, "the pieces stop at ", next, " for range [", a, ",", b, "]");
    CHECK(p == ser.size(), "trailing key material");
    return desc;
}

static void long_case(Tape& t, Ctx& c)
{
    Stream g(t);
    const Kind& K = KINDS[3];
    unsigned h = 19 + unsigned(g.below(3));
    Bytes root = g.bytes(32);
    std::unique_ptr<IRc> r = K.make(root, h);
    { // a low tree: every node derived costs several system calls
        unsigned lh = 4 + unsigned(g.below(3));
        uint64_t a = g.below(size_t(max_leaf(lh) / 2)), b = max_leaf(lh) - 1;
        std::unique_ptr<IRc> lr = K.make(root, lh);
        std::unique_ptr<ICon> k = lr->constrain(a, b);
        for (unsigned i = 0; i < LONG_OPS; i++) {
            uint64_t l = a + g.below(size_t(b - a + 1));
            CHECK(k->eval(l) == ref::rcprf_leaf(root, lh, l, K.n), "evaluation ", i, " of one constrained object: leaf ", l, " of [", a, ", ", b, "], height ", lh);
            if (i % 50 == 0) {
                uint64_t m = a + g.below(size_t(b - a)), e = m + g.below(size_t(b - m));
                if (m == a && e == b) continue;
                std::unique_ptr<ICon> s = k->constrain(m, e);
                CHECK(s->min_leaf() == m && s->max_leaf() == e && s->eval(m) == ref::rcprf_leaf(root, lh, m, K.n) && s->eval(e) == ref::rcprf_leaf(root, lh, e, K.n), "constraint ", i, " of one object: [", m, ", ", e, "]");
            }
            CHECK(!(i % 97 == 0 && attempt([&] { (void)k->eval(b + 1); }) == OK), "a leaf above the range was evaluated after ", i, " evaluations");
        }
    }
    uint64_t a = (g.next() & max_leaf(h)) / 2, b = a + LONG_OPS + g.below(20000), next = a;
    std::unique_ptr<ICon> k = r->constrain(a, b);
    k->range(a, b, [&](uint64_t i, const Bytes& v) {
        CHECK(i == next, "callback for leaf ", i, " instead of ", next);
        if (i % 16 == 0 || i - a > 64000) CHECK(v == ref::rcprf_leaf(root, h, i, K.n), "range value of leaf ", i, " of [", a, ", ", b, "], height ", h);
        next++;
    });
    CHECK(next == b + 1, "the range [", a, ", ", b, "] stopped at ", next);
    c.note("long history of one constrained object");
    c.label("more than 65536 operations");
    c.nontrivial();
}
void pbt::prop_case(Tape& t, Ctx& c)
{
    if (t.longrun()) return long_case(t, c);
    const Kind& K = KINDS[t.pick(sizeof(KINDS) / sizeof(KINDS[0]))];
    unsigned h = gen_height(t);
    Bytes root = t.bytes(32), wk = t.bytes(32);
    std::unique_ptr<IRc> r = K.make(root, h);
    Wrapper w(mk<32>(wk));
    uint64_t lo = 0, hi = max_leaf(h);
    std::unique_ptr<ICon> cur;
    std::vector<std::unique_ptr<ICon>> keep; // ancestors stay alive and usable
    std::vector<std::pair<uint64_t, uint64_t>> rng;
    unsigned depth = 1 + t.pick(4);
    for (unsigned k = 0; k < depth; k++) {
        uint64_t a, b;
        switch (t.pick(8)) {
        case 0: a = lo; b = gen_leaf(t, lo, hi); break;
        case 1: b = hi; a = gen_leaf(t, lo, hi); break;
        case 2: a = b = gen_leaf(t, lo, hi); break;
        case 3: a = gen_leaf(t, lo, hi); b = hi - a > 40 ? a + t.range(0, 40) : hi; break;
        case 4: a = lo + (hi > lo ? 1 : 0); b = hi; break;
        case 5: a = lo; b = hi; break; // the object's own full range
        default: a = gen_leaf(t, lo, hi); b = gen_leaf(t, lo, hi); if (a > b) std::swap(a, b); break;
        }
        if (!cur && a == 0 && b == max_leaf(h)) { if (t.pick(2)) a++; else b--; }
        std::vector<Piece> ps = cur ? cur->pieces(a, b) : r->pieces(a, b);
        std::unique_ptr<ICon> nx = cur ? cur->constrain(a, b) : r->constrain(a, b);
        { // the advertised pieces
            uint64_t next = a;
            std::vector<Piece> s = ps;
            std::sort(s.begin(), s.end(), [](const Piece& x, const Piece& y) { return x.min < y.min; });
            for (auto& p : s) { CHECK(p.min == next && p.max >= p.min && p.max <= b, "generated piece [", p.min, ",", p.max, "] for [", a, ",", b, "]"); next = p.max + 1; }
            CHECK(!s.empty() && next == b + 1, "generated pieces do not cover [", a, ",", b, "]");
        }
        CHECK(!nx->empty() && nx->min_leaf() == a && nx->max_leaf() == b, "constrained to [", a, ",", b, "] but reports [", nx->min_leaf(), ",", nx->max_leaf(), "]");
        CHECK(nx->tree_height() == h, "tree height changed");
        unsigned mv = t.pick(6);
        if (mv < 2) { nx->move_around(mv); c.label("moved"); }
        if (mv == 2) { nx = nx->rewrap(w); c.label("through a wrapper"); }
        std::string d = material(*nx, root, h, a, b, wk, w);
        if (cur) { rng.push_back({lo, hi}); keep.push_back(std::move(cur)); }
        cur = std::move(nx);
        lo = a; hi = b;
        c.note("h=", h, " N=", K.n, " -> [", a, ",", b, "] pieces ", d);
        c.nontrivial(b > a);
        // agreement inside
        for (int q = 0; q < 3; q++) {
            uint64_t l = gen_leaf(t, lo, hi);
            CHECK(cur->eval(l) == ref::rcprf_leaf(root, h, l, K.n), "leaf ", l, " of [", lo, ",", hi, "] differs from the parent, height ", h);
        }
        {
            uint64_t x = gen_leaf(t, lo, hi), len = t.len(0, 30, 1500), y = hi - x < len ? hi : x + len;
            uint64_t next = x;
            cur->range(x, y, [&](uint64_t i, const Bytes& v) {
                CHECK(i == next && i <= y, "range callback ", i, " instead of ", next);
                if (i == x && len < 40) CHECK(cur->eval(y) == ref::rcprf_leaf(root, h, y, K.n), "evaluating leaf ", y, " from a range callback");
                CHECK(v == ref::rcprf_leaf(root, h, i, K.n), "range value of leaf ", i, " differs, height ", h, " range [", lo, ",", hi, "]");
                next++;
            });
            CHECK(next == y + 1, "range [", x, ",", y, "] incomplete inside [", lo, ",", hi, "]");
        }
        if (t.pick(6) == 0) {
            struct Stop {};
            unsigned calls = 0;
            bool stopped = false;
            try { cur->range(lo, hi, [&](uint64_t, const Bytes&) { calls++; throw Stop(); }); }
            catch (const Stop&) { stopped = true; }
            CHECK(stopped && calls == 1, "a callback that throws was called ", calls, " times");
            c.label("throwing callback");
        }
        // nothing outside
        for (int q = 0; q < 3; q++) {
            uint64_t l = t.pick(2) ? (t.pick(2) ? lo - 1 - t.range(0, 3) : hi + 1 + t.range(0, 3)) : t.u64();
            if (l >= lo && l <= hi) continue;
            CHECK(attempt([&] { (void)cur->eval(l); }) == OUT_OF_RANGE, "leaf ", l, " outside [", lo, ",", hi, "] was evaluated, height ", h);
            unsigned calls = 0;
            uint64_t a2 = std::min(l, lo), b2 = std::max(l, lo);
            CHECK(attempt([&] { cur->range(a2, b2, [&](uint64_t, const Bytes&) { calls++; }); }) == OUT_OF_RANGE && calls == 0, "range [", a2, ",", b2, "] was evaluated outside [", lo, ",", hi, "]");
            CHECK(attempt([&] { (void)cur->constrain(a2, b2); }) == OUT_OF_RANGE, "constrained to [", a2, ",", b2, "] from [", lo, ",", hi, "]");
            c.label("outside refused");
        }
        c.label(k == 0 ? "first constraint" : "nested constraint");
    }
    for (size_t i = 0; i < keep.size(); i++) {
        uint64_t l = gen_leaf(t, rng[i].first, rng[i].second);
        CHECK(keep[i]->eval(l) == ref::rcprf_leaf(root, h, l, K.n), "an ancestor changed after being constrained");
    }
    uint64_t l = gen_leaf(t, 0, max_leaf(h));
    CHECK(r->eval(l) == ref::rcprf_leaf(root, h, l, K.n), "the root PRF changed after being constrained");
}
