#include "lib.hpp"
#include <sse/crypto/set_hash.hpp>
#include <iomanip>
#include <sstream>
using namespace pbt;
const char* pbt::PROP_ID = "C09";
const char* pbt::PROP_RULE = "a history with at least three state-changing operations over at least two distinct elements, whose final digests were compared with the model of net multiplicities";
size_t pbt::prop_tape_len() { return 160; }
void pbt::prop_setup() { lib_init_tape_rng(); }
using MS = std::map<std::string, long>;
typedef std::array<uint8_t, 32> Pt;
static Pt point(const std::string& e)
{
    Bytes h = ref::blake2b512(B(e));
    Pt p;
    crypto_core_ed25519_from_uniform(p.data(), h.data());
    return p;
}
// |mult| * P by repeated addition (small multiplicities)
static Pt digest(const MS& m)
{
    Pt s{};
    s[0] = 1;
    for (auto& e : m) {
        Pt p = point(e.first);
        for (long i = 0; i < std::labs(e.second); i++) {
            if (e.second > 0) crypto_core_ed25519_add(s.data(), s.data(), p.data());
            else crypto_core_ed25519_sub(s.data(), s.data(), p.data());
        }
    }
    return s;
}
static void add(MS& a, const std::string& e, long k) { if ((a[e] += k) == 0) a.erase(e); }
static std::string show(const MS& m)
{
    std::string s = "{";
    for (auto& e : m) s += hex(e.first.data(), e.first.size(), 4) + ":" + std::to_string(e.second) + " ";
    return s + "}";
}
static void long_case(Tape& t, Ctx& c)
{
    Stream g(t);
    std::string e = S(g.bytes(5)), f = S(g.bytes(6));
    auto times = [](const std::string& x, unsigned n) { // n times the point of x, by doubling
        Pt s{}, p = point(x);
        s[0] = 1;
        for (; n; n >>= 1) { if (n & 1) crypto_core_ed25519_add(s.data(), s.data(), p.data()); crypto_core_ed25519_add(p.data(), p.data(), p.data()); }
        return s;
    };
    SetHash h, q;
    std::vector<std::string> list;
    for (unsigned i = 1; i <= LONG_OPS; i++) {
        h.add_element(e);
        if (i % 3 == 0) q.remove_element(f);
        list.push_back(i % 5 ? e : f);
        if (i == 255 || i == 256 || i == 257 || i == 32768 || i == 65535 || i == 65536 || i == 65537 || i == LONG_OPS) {
            CHECK(h.data() == times(e, i), "an element added ", i, " times");
            SetHash r(q);
            for (unsigned k = 0; k < 2; k++) r.remove_set(h);
            r.add_set(h);
            r.add_set(h);
            CHECK(r == q, "sets added and removed after ", i, " insertions");
        }
    }
    Pt neg = times(f, LONG_OPS / 3), zero{};
    zero[0] = 1;
    crypto_core_ed25519_sub(neg.data(), zero.data(), neg.data());
    CHECK(q.data() == neg, "an element removed ", LONG_OPS / 3, " times");
    SetHash l(list);
    Pt want = times(e, LONG_OPS - LONG_OPS / 5), w2 = times(f, LONG_OPS / 5);
    crypto_core_ed25519_add(want.data(), want.data(), w2.data());
    CHECK(l.data() == want, "the hash of a list of ", LONG_OPS, " elements");
    for (unsigned i = 0; i < LONG_OPS; i++) h.remove_element(e);
    CHECK(h == SetHash(), "an element added and removed ", LONG_OPS, " times");
    c.note("multiplicities above 65536");
    c.label("more than 65536 operations");
    c.nontrivial();
}
void pbt::prop_case(Tape& t, Ctx& c)
{
    if (t.longrun()) return long_case(t, c);
    unsigned ne = 2 + t.pick(6);
    std::vector<std::string> elems;
    for (unsigned i = 0; i < ne; i++) {
        unsigned w = t.pick(6);
        std::string e = w == 0 ? std::string() : w == 1 ? std::string(1 + t.pick(3), char(t.u8())) : t.str(t.len(0, 300, 70000));
        if (w == 2 && !elems.empty()) e = elems[0] + std::string(1, '\0'); // close relatives
        if (w == 3 && !elems.empty() && !elems[0].empty()) e = elems[0].substr(1);
        elems.push_back(e);
    }
    unsigned ns = 1 + t.pick(4);
    std::vector<SetHash> H(ns);
    std::vector<MS> M(ns);
    unsigned nops = 3 + t.pick(25), changes = 0;
    std::string ops;
    for (unsigned k = 0; k < nops; k++) {
        unsigned i = t.pick(ns), j = t.pick(ns);
        const std::string& e = elems[t.pick(ne)];
        switch (t.pick(11)) {
        case 0: case 1: case 2: H[i].add_element(e); add(M[i], e, 1); ops += "+"; changes++; break;
        case 3: case 4: H[i].remove_element(e); add(M[i], e, -1); ops += "-"; changes++; break;
        case 5: { MS mj = M[j]; H[i].add_set(H[j]); for (auto& x : mj) add(M[i], x.first, x.second); ops += i == j ? "D" : "U"; changes++; break; }
        case 6: { MS mj = M[j]; H[i].remove_set(H[j]); for (auto& x : mj) add(M[i], x.first, -x.second); ops += i == j ? "Z" : "M"; changes++; break; }
        case 7: { // from a list
            std::vector<std::string> l;
            MS m;
            unsigned n = t.pick(6);
            for (unsigned q = 0; q < n; q++) { l.push_back(elems[t.pick(ne)]); add(m, l.back(), 1); }
            H[i] = SetHash(l);
            M[i] = m;
            ops += "L";
            changes += n > 0;
            break; }
        case 8: { SetHash cp(H[j]); H[i] = cp; M[i] = M[j]; ops += "C"; break; }
        case 9: { SetHash imp(H[i].data()); CHECK(imp == H[i] && imp.data() == H[i].data(), "a digest does not import back"); H[i] = imp; ops += "I"; break; }
        default: { SetHash cp(H[j]); SetHash mv(std::move(cp)); H[i] = mv; M[i] = M[j]; ops += "V"; break; }
        }
        bool huge = false;
        for (auto& x : M[i]) huge = huge || std::labs(x.second) > 2000;
        if (huge) { H[i] = SetHash(); M[i].clear(); }
        if (t.pick(4) == 0) CHECK(H[i].data() == digest(M[i]), "digest differs from the model after '", ops, "', state ", show(M[i]));
    }
    for (unsigned i = 0; i < ns; i++) {
        CHECK(H[i].data() == digest(M[i]), "digest differs from the model after '", ops, "', state ", show(M[i]));
        if (M[i].empty()) { SetHash z; CHECK(H[i] == z, "a state with no net element is not the neutral digest"); c.label("returned to neutral"); }
        for (unsigned j = 0; j < ns; j++) {
            bool same = M[i] == M[j];
            CHECK((H[i] == H[j]) == same, "equality is wrong: ", show(M[i]), " vs ", show(M[j]));
            CHECK((H[i] != H[j]) == !same, "inequality is wrong: ", show(M[i]), " vs ", show(M[j]));
            CHECK((H[i].data() == H[j].data()) == same, "digest bytes disagree with the multisets");
            if (!same) c.label("unequal pair");
        }
        // rebuild in another order
        std::vector<std::string> seq;
        for (auto& x : M[i]) for (long q = 0; q < std::labs(x.second); q++) seq.push_back(x.first);
        for (size_t q = seq.size(); q > 1; q--) std::swap(seq[q - 1], seq[t.range(0, q - 1)]);
        SetHash r;
        for (auto& e : seq) { if (M[i][e] > 0) r.add_element(e); else r.remove_element(e); }
        CHECK(r == H[i], "the digest depends on the order of insertion");
        std::ostringstream a, b;
        a << H[i];
        CHECK(a.str() == hex(H[i].data().data(), 32), "printed digest differs from its bytes: ", a.str());
    }
    // imports
    Pt x = arr<32>(t.bytes(32));
    unsigned w = t.pick(5);
    if (w == 1) { x = H[0].data(); x[t.pick(32)] ^= uint8_t(1u << t.pick(8)); }
    if (w == 2) { x.fill(0); x[0] = uint8_t(t.pick(4)); if (t.pick(2)) x[31] = 0x80; }
    if (w == 3) { x.fill(0xff); x[0] = uint8_t(0xe8 + t.pick(24)); x[31] = t.pick(2) ? 0x7f : 0xff; }
    Pt inf{};
    inf[0] = 1;
    bool valid = crypto_core_ed25519_is_valid_point(x.data()) == 1 || x == inf;
    Outcome o = attempt([&] {
        SetHash h(x);
        CHECK(h.data() == x, "an imported digest has other bytes");
        SetHash g = H[0];
        g.add_set(h);
        g.remove_set(h);
        CHECK(g == H[0], "adding and removing an imported digest is not neutral");
    });
    CHECK(o == (valid ? OK : INVALID_ARGUMENT), "import of ", valid ? "a valid" : "an invalid", " encoding: ", outcome_name(o), " ", hex(x));
    c.label(valid ? "valid import" : "refused import");
    c.note("elements=", ne, " states=", ns, " ops=", ops, " final0=", show(M[0]));
    c.nontrivial(changes >= 3);
}
