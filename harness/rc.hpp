// Type-erased range-constrained PRFs of several output widths.
#pragma once
#include "lib.hpp"
#include <sse/crypto/rcprf.hpp>
#include <sse/crypto/wrapper.hpp>
namespace pbt {
typedef std::function<void(uint64_t, const Bytes&)> Cb;
struct Piece { unsigned height; uint64_t min, max; };
struct ICon {
    virtual ~ICon() {}
    virtual size_t width() const = 0;
    virtual unsigned tree_height() const = 0;
    virtual bool empty() const = 0;
    virtual uint64_t min_leaf() const = 0;
    virtual uint64_t max_leaf() const = 0;
    virtual Bytes eval(uint64_t l) const = 0;
    virtual void range(uint64_t a, uint64_t b, const Cb& cb) const = 0;
    virtual std::unique_ptr<ICon> constrain(uint64_t a, uint64_t b) const = 0;
    virtual std::vector<Piece> pieces(uint64_t a, uint64_t b) const = 0;
    virtual Bytes wrap(const Wrapper& w) const = 0;
    virtual std::unique_ptr<ICon> rewrap(const Wrapper& w) const = 0;
    virtual void move_around(unsigned how) = 0;
};
struct IRc {
    virtual ~IRc() {}
    virtual size_t width() const = 0;
    virtual unsigned tree_height() const = 0;
    virtual Bytes eval(uint64_t l) const = 0;
    virtual void range(uint64_t a, uint64_t b, const Cb& cb) const = 0;
    virtual std::unique_ptr<ICon> constrain(uint64_t a, uint64_t b) const = 0;
    virtual std::vector<Piece> pieces(uint64_t a, uint64_t b) const = 0;
    virtual std::unique_ptr<IRc> rewrap(const Wrapper& w) const = 0;
    virtual Bytes wrap(const Wrapper& w) const = 0;
    virtual std::unique_ptr<IRc> moved() = 0;
};
template <uint16_t N> struct Con : ICon {
    ConstrainedRCPrf<N> c;
    explicit Con(ConstrainedRCPrf<N>&& o) : c(std::move(o)) {}
    size_t width() const override { return N; }
    unsigned tree_height() const override { return c.tree_height(); }
    bool empty() const override { return c.is_empty(); }
    uint64_t min_leaf() const override { return c.min_leaf(); }
    uint64_t max_leaf() const override { return c.max_leaf(); }
    Bytes eval(uint64_t l) const override { return B(c.eval(l)); }
    void range(uint64_t a, uint64_t b, const Cb& cb) const override
    {
        c.eval_range(a, b, [&](uint64_t l, const std::array<uint8_t, N>& v) { cb(l, B(v)); });
    }
    std::unique_ptr<ICon> constrain(uint64_t a, uint64_t b) const override { return std::unique_ptr<ICon>(new Con(c.constrain(a, b))); }
    std::vector<Piece> pieces(uint64_t a, uint64_t b) const override
    {
        std::vector<std::unique_ptr<ConstrainedRCPrfElement<N>>> v;
        c.generate_constrained_subkeys(a, b, v);
        std::vector<Piece> r;
        for (auto& e : v) r.push_back({e->subtree_height(), e->min_leaf(), e->max_leaf()});
        return r;
    }
    Bytes wrap(const Wrapper& w) const override { return w.wrap(c); }
    std::unique_ptr<ICon> rewrap(const Wrapper& w) const override
    {
        std::vector<uint8_t> b = w.wrap(c);
        return std::unique_ptr<ICon>(new Con(w.unwrap<ConstrainedRCPrf<N>>(b)));
    }
    void move_around(unsigned how) override
    {
        ConstrainedRCPrf<N> t(std::move(c));
        if (how == 0) c = std::move(t);
        else { ConstrainedRCPrf<N> u{std::vector<std::unique_ptr<ConstrainedRCPrfElement<N>>>()}; u = std::move(t); c = std::move(u); }
    }
};
template <uint16_t N> struct Rc : IRc {
    RCPrf<N> r;
    explicit Rc(RCPrf<N>&& o) : r(std::move(o)) {}
    size_t width() const override { return N; }
    unsigned tree_height() const override { return r.tree_height(); }
    Bytes eval(uint64_t l) const override { return B(r.eval(l)); }
    void range(uint64_t a, uint64_t b, const Cb& cb) const override
    {
        r.eval_range(a, b, [&](uint64_t l, const std::array<uint8_t, N>& v) { cb(l, B(v)); });
    }
    std::unique_ptr<ICon> constrain(uint64_t a, uint64_t b) const override { return std::unique_ptr<ICon>(new Con<N>(r.constrain(a, b))); }
    std::vector<Piece> pieces(uint64_t a, uint64_t b) const override
    {
        std::vector<std::unique_ptr<ConstrainedRCPrfElement<N>>> v;
        r.generate_constrained_subkeys(a, b, v);
        std::vector<Piece> o;
        for (auto& e : v) o.push_back({e->subtree_height(), e->min_leaf(), e->max_leaf()});
        return o;
    }
    std::unique_ptr<IRc> rewrap(const Wrapper& w) const override
    {
        std::vector<uint8_t> b = w.wrap(r);
        return std::unique_ptr<IRc>(new Rc(w.unwrap<RCPrf<N>>(b)));
    }
    Bytes wrap(const Wrapper& w) const override { return w.wrap(r); }
    std::unique_ptr<IRc> moved() override { return std::unique_ptr<IRc>(new Rc(std::move(r))); }
};
struct Kind {
    size_t n;
    std::unique_ptr<IRc> (*make)(const Bytes& key, unsigned height);
    // builds a constrained object from explicit pieces; .height 1 = leaf piece
    std::unique_ptr<ICon> (*assemble)(const Bytes& root, const std::vector<std::pair<unsigned, Piece>>& pieces);
};
template <uint16_t N> Kind kind()
{
    return Kind{N,
        [](const Bytes& k, unsigned h) { return std::unique_ptr<IRc>(new Rc<N>(RCPrf<N>(mk<32>(k), uint8_t(h)))); },
        [](const Bytes& root, const std::vector<std::pair<unsigned, Piece>>& ps) {
            std::vector<std::unique_ptr<ConstrainedRCPrfElement<N>>> v;
            for (auto& hp : ps) {
                const Piece& p = hp.second;
                if (p.height == 1) v.emplace_back(new ConstrainedRCPrfLeafElement<N>(arr<N>(ref::rcprf_leaf(root, hp.first, p.min, N)), uint8_t(hp.first), p.min));
                else v.emplace_back(new ConstrainedRCPrfInnerElement<N>(mk<32>(p.height && hp.first > p.height ? ref::rcprf_node_key(root, hp.first, hp.first - p.height, p.min >> (p.height - 1)) : root), uint8_t(hp.first), uint8_t(p.height), p.min, p.max));
            }
            return std::unique_ptr<ICon>(new Con<N>(ConstrainedRCPrf<N>(std::move(v))));
        }};
}
inline uint64_t max_leaf(unsigned h) { return (uint64_t(1) << (h - 1)) - 1; }
inline uint64_t gen_leaf(Tape& t, uint64_t lo, uint64_t hi)
{
    uint64_t v;
    switch (t.pick(6)) {
    case 0: v = lo + t.range(0, 4); break;
    case 1: v = hi - t.range(0, 4); break;
    case 2: v = uint64_t(1) << t.range(0, 63); v += t.range(0, 4) - 2; break;
    case 3: v = lo + (hi - lo) / 2 + t.range(0, 6) - 3; break;
    default: v = t.range(lo, hi); break;
    }
    if (v < lo || v > hi) v = hi - lo == ~0ull ? v : lo + v % (hi - lo + 1);
    return v;
}
inline unsigned gen_height(Tape& t)
{
    switch (t.pick(5)) {
    case 0: return 2 + t.pick(7);
    case 1: return 64 - t.pick(6);
    case 2: return 31 + t.pick(5);
    default: return unsigned(t.range(2, 64));
    }
}
}
