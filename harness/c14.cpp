#include "wrapobj.hpp"
using namespace pbt;
const char* pbt::PROP_ID = "C14";
const char* pbt::PROP_RULE = "a case offering at least one blob that must be refused (altered, foreign or of another class) and then unwrapping the genuine one";
size_t pbt::prop_tape_len() { return 300; }
void pbt::prop_setup() { lib_init_tape_rng(); }
static void long_case(Tape& t, Ctx& c)
{
    Stream g(t);
    Bytes master = g.bytes(32), key = g.bytes(32);
    Wrapper w(mk<32>(master));
    Prg p(mk<32>(key));
    const std::vector<uint8_t> good = w.wrap(p);
    std::string pw = p.derive(3, 20);
    for (unsigned i = 0; i < LONG_OPS; i++) {
        std::vector<uint8_t> b = good;
        if (i % 3) b[g.below(b.size())] ^= uint8_t(1u << g.below(8));
        std::vector<uint8_t> k = b;
        CHECK(attempt([&] { if (i % 3) (void)w.unwrap<Prg>(b); else (void)w.unwrap<Cipher>(b); }) != OK, "forgery ", i, " accepted by one wrapper");
        CHECK(b == k, "refusal ", i, " changed the blob");
        if (i % 500 == 499) { b = good; CHECK(w.unwrap<Prg>(b).derive(3, 20) == pw, "the genuine blob after ", i, " refusals"); }
    }
    c.note("long history of refusals by one wrapper");
    c.label("more than 65536 operations");
    c.nontrivial();
}
void pbt::prop_case(Tape& t, Ctx& c)
{
    if (t.longrun()) return long_case(t, c);
    rng_seed(t.raw(4));
    Bytes master = t.bytes(32);
    Wrapper w(mk<32>(master));
    unsigned ci = t.pick(unsigned(WCLASSES.size()));
    if (WCLASSES[ci].type == 7 && t.pick(2)) ci = unsigned(WCLASSES.size()) - 2 - t.pick(6);
    const WClass& K = WCLASSES[ci];
    Model m;
    std::unique_ptr<IObj> o = K.make(t, m);
    const std::vector<uint8_t> good = o->wrap(w);
    Model m2;
    const std::vector<uint8_t> other = K.make(t, m2)->wrap(w);
    unsigned n = 1 + t.pick(5);
    for (unsigned k = 0; k < n; k++) {
        std::vector<uint8_t> b = good;
        const WClass* as = &K;
        std::string what;
        std::unique_ptr<Wrapper> w2;
        bool same_content = false;
        switch (t.pick(10)) {
        case 0: case 1: {
            size_t p;
            unsigned where = t.pick(4);
            if (where == 0) p = t.range(0, 15); // IV
            else if (where == 1) p = b.size() - 1 - t.range(0, 11); // tag
            else if (where == 2) { p = 16 + t.range(0, b.size() - 29); }
            else p = t.range(0, b.size() - 1);
            b[p] ^= uint8_t(1u << t.pick(8));
            what = "bit flipped at " + std::to_string(p) + " of " + std::to_string(b.size());
            break; }
        case 2: { unsigned q = 2 + t.pick(6); for (unsigned i = 0; i < q; i++) b[t.range(0, b.size() - 1)] ^= uint8_t(1 + t.pick(255)); what = "several bytes changed"; break; }
        case 3: { size_t l = t.pick(2) ? b.size() - 1 - t.range(0, std::min<size_t>(b.size() - 1, 40)) : t.range(0, b.size() - 1); if (t.pick(3) == 0) b.erase(b.begin(), b.begin() + long(b.size() - l)); else b.resize(l); what = "truncated to " + std::to_string(l) + " of " + std::to_string(good.size()); break; }
        case 4: { Bytes e = t.bytes(1 + t.pick(40)); size_t at = t.pick(3) == 0 ? 0 : t.pick(2) ? b.size() : t.range(0, b.size()); b.insert(b.begin() + long(at), e.begin(), e.end()); what = "extended by " + std::to_string(e.size()) + " at " + std::to_string(at); break; }
        case 5: { // splice with another blob of the same class
            unsigned how = t.pick(3);
            size_t L = std::min(b.size(), other.size());
            if (how == 0) std::copy(other.begin(), other.begin() + 16, b.begin());
            else if (how == 1) std::copy(other.end() - 12, other.end(), b.end() - 12);
            else { size_t cut = t.range(1, L - 1); b.assign(good.begin(), good.begin() + long(cut)); b.insert(b.end(), other.begin() + long(cut), other.end()); }
            what = "splice " + std::to_string(how);
            break; }
        case 6: { // another wrapping key
            Bytes k2 = t.pick(2) ? t.bytes(32) : master;
            if (k2 == master) k2[t.pick(32)] ^= uint8_t(1u << t.pick(8));
            w2.reset(new Wrapper(mk<32>(k2)));
            what = "another wrapping key";
            same_content = true;
            break; }
        case 7: case 8: { // another class or width
            unsigned cj = t.pick(2) ? t.pick(unsigned(WCLASSES.size())) : ci; // prefer the same family
            if (cj == ci) { do cj = (cj + 1 + t.pick(unsigned(WCLASSES.size()) - 1)) % unsigned(WCLASSES.size()); while (0); }
            if (t.pick(2)) for (unsigned z = 0; z < WCLASSES.size(); z++) { unsigned q = (cj + z) % unsigned(WCLASSES.size()); if (q != ci && (WCLASSES[q].type == K.type || WCLASSES[q].width == K.width)) { cj = q; break; } }
            if (cj == ci) continue;
            as = &WCLASSES[cj];
            what = std::string("as ") + as->name + "<" + std::to_string(as->width) + ">";
            same_content = true;
            break; }
        default: { b = t.bytes(t.len(0, 400, 70000)); what = "arbitrary bytes"; break; }
        }
        if (!same_content && (b == good || b == other)) continue;
        std::vector<uint8_t> kept = b;
        std::unique_ptr<IObj> got;
        Outcome r = attempt([&] { got = as->unwrap(w2 ? *w2 : w, b); });
        CHECK(r != OK, K.name, "<", K.width, "> ", what, ": unwrapped");
        CHECK(r == RUNTIME_ERROR || r == INVALID_ARGUMENT, K.name, "<", K.width, "> ", what, ": ", outcome_name(r));
        CHECK(b == kept, K.name, "<", K.width, "> ", what, ": the refused blob was modified");
        c.note(K.name, "<", K.width, "> ", what, " -> ", outcome_name(r));
        c.label(what.substr(0, what.find(' ')) + (same_content ? (as == &K ? " key" : " class") : ""));
        c.nontrivial();
    }
    std::vector<uint8_t> g = good;
    std::unique_ptr<IObj> u = K.unwrap(w, g);
    u->check(t, m);
    o->check(t, m);
}
