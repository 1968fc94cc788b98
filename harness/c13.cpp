#include "wrapobj.hpp"
using namespace pbt;
const char* pbt::PROP_ID = "C13";
const char* pbt::PROP_RULE = "a case wrapping at least one object, unwrapping it and comparing both objects with the model";
size_t pbt::prop_tape_len() { return 260; }
void pbt::prop_setup() { lib_init_tape_rng(); }
static void long_case(Tape& t, Ctx& c)
{
    Stream g(t);
    Bytes master = g.bytes(32), key = g.bytes(32);
    Wrapper w(mk<32>(master));
    Prg p(mk<32>(key));
    Prf<20> f(mk<32>(key));
    std::string pw = p.derive(3, 20);
    auto fw = f.prf("x");
    for (unsigned i = 0; i < LONG_OPS; i++) {
        std::vector<uint8_t> b = i % 2 ? w.wrap(p) : w.wrap(f);
        if (i % 16 == 0) { Bytes ser; CHECK(ref::unwrap(master, i % 2 ? 3 : 2, i % 2 ? Bytes() : Bytes{0, 20}, b, ser) && ser == key, "wrapping number ", i, " of one wrapper"); }
        if (i % 2) CHECK(w.unwrap<Prg>(b).derive(3, 20) == pw, "unwrapping number ", i, " of one wrapper (Prg)");
        else CHECK(w.unwrap<Prf<20>>(b).prf("x") == fw, "unwrapping number ", i, " of one wrapper (Prf)");
    }
    c.note("long history of one wrapper");
    c.label("more than 65536 operations");
    c.nontrivial();
}
void pbt::prop_case(Tape& t, Ctx& c)
{
    if (t.longrun()) return long_case(t, c);
    rng_seed(t.raw(4));
    Bytes master = t.bytes(32);
    std::unique_ptr<Wrapper> w(new Wrapper(mk<32>(master)));
    unsigned n = 1 + t.pick(3);
    for (unsigned k = 0; k < n; k++) {
        unsigned ci = t.pick(unsigned(WCLASSES.size()));
        if (WCLASSES[ci].type == 7 && t.pick(3)) ci = unsigned(WCLASSES.size()) - 2 - t.pick(6); // RSA is slow
        const WClass& K = WCLASSES[ci];
        Model m;
        std::unique_ptr<IObj> o = K.make(t, m);
        if (t.pick(4) == 0) { o->check(t, m); c.label("used before"); }
        if (t.pick(4) == 0) { o = o->moved(); c.label("moved before"); }
        if (t.pick(4) == 0) { std::unique_ptr<Wrapper> w2(new Wrapper(std::move(*w))); w = std::move(w2); c.label("wrapper moved"); }
        std::vector<uint8_t> blob = o->wrap(*w);
        Bytes ser;
        CHECK(ref::unwrap(master, K.type, K.ctx, blob, ser), K.name, " of width ", K.width, ": the wrapped form is not IV, encrypted serialisation and tag for its class");
        CHECK(blob.size() == ser.size() + 28, K.name, ": expansion of ", blob.size() - ser.size(), " bytes");
        std::string e = K.ser_error(m, ser);
        CHECK(e.empty(), K.name, " of width ", K.width, ": ", e);
        // the original is unaffected
        o->check(t, m);
        std::vector<uint8_t> keep = blob;
        std::unique_ptr<IObj> u = K.unwrap(*w, blob);
        CHECK(blob.size() == keep.size() && std::all_of(blob.begin(), blob.end(), [](uint8_t b) { return b == 0; }), K.name, ": the blob was not wiped");
        u->check(t, m);
        o->check(t, m);
        // independent life of the two objects
        if (t.pick(2)) { o.reset(); u->check(t, m); c.label("original destroyed"); }
        // wrapped by the reference, another IV
        Bytes iv = t.bytes(16);
        std::vector<uint8_t> foreign = ref::wrap(master, iv.data(), K.type, K.ctx, ser);
        std::unique_ptr<IObj> f = K.unwrap(*w, foreign);
        f->check(t, m);
        // an unwrapped object wraps again; the same blob unwraps many times
        std::vector<uint8_t> again = u->wrap(*w);
        Bytes ser2;
        CHECK(ref::unwrap(master, K.type, K.ctx, again, ser2) && ser2 == ser, K.name, ": wrapping the unwrapped object gives another serialisation");
        CHECK(Bytes(again.begin(), again.begin() + 16) != Bytes(keep.begin(), keep.begin() + 16), "wrapping IV repeated");
        std::unique_ptr<IObj> v = K.unwrap(*w, keep);
        v->check(t, m);
        std::unique_ptr<IObj> x = K.unwrap(*w, again);
        if (t.pick(2)) x = x->moved();
        x->check(t, m);
        c.note(K.name, K.width ? "<" + std::to_string(K.width) + ">" : "", m.height ? " height=" + std::to_string(m.height) : "", m.empty ? " empty" : m.height && K.type == 6 ? " [" + std::to_string(m.lo) + "," + std::to_string(m.hi) + "]" : "", " blob=", blob.size(), "B master=", hex(master.data(), 32, 4));
        c.label(std::string(K.name) + (m.empty ? " (empty)" : ""));
        c.nontrivial();
    }
}
