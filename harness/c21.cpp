#include "lib.hpp"
#include "testkeys.hpp"
#include "heap.hpp"
extern "C" {
#include <mbedtls/asn1.h>
#include <mbedtls/asn1write.h>
#include <mbedtls/base64.h>
#include <mbedtls/pem.h>
#include <mbedtls/pk.h>
#include <mbedtls/rsa.h>
#include <mbedtls/rsa_io.h>
}
using namespace pbt;
const char* pbt::PROP_ID = "C21";
const char* pbt::PROP_RULE = "a case that encoded or decoded at least 4 bytes, or had a malformed text or a short buffer refused";
size_t pbt::prop_tape_len() { return 260; }
static std::vector<std::string> g_small; // generated small keys live in the tape; larger ones come from the table
void pbt::prop_setup() { lib_init_tape_rng(); }

static const char* ALPHA = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string ref_b64(const Bytes& b)
{
    std::string r;
    for (size_t i = 0; i < b.size(); i += 3) {
        uint32_t v = b[i] << 16 | (i + 1 < b.size() ? b[i + 1] << 8 : 0) | (i + 2 < b.size() ? b[i + 2] : 0);
        r += ALPHA[v >> 18]; r += ALPHA[(v >> 12) & 63];
        r += i + 1 < b.size() ? ALPHA[(v >> 6) & 63] : '=';
        r += i + 2 < b.size() ? ALPHA[v & 63] : '=';
    }
    return r;
}
// the documented grammar: digits, line ends \n or \r\n anywhere, spaces only before a line end or at the end of
// the text, at most two '=' and only at the end, a multiple of four symbols
static bool ref_unb64(const std::string& s, Bytes& out)
{
    std::string sym;
    for (size_t i = 0; i < s.size(); i++) {
        size_t j = i;
        while (j < s.size() && s[j] == ' ') j++;
        if (j > i) {
            if (j == s.size()) break;
            if (s[j] == '\n' || (s[j] == '\r' && j + 1 < s.size() && s[j + 1] == '\n')) { i = j - 1; continue; }
            return false;
        }
        if (s[i] == '\n') continue;
        if (s[i] == '\r') { if (i + 1 < s.size() && s[i + 1] == '\n') continue; return false; }
        if (s[i] != '=' && (s[i] == 0 || !strchr(ALPHA, s[i]))) return false;
        sym += s[i];
    }
    if (sym.size() % 4) return false;
    size_t pad = 0;
    while (pad < sym.size() && sym[sym.size() - 1 - pad] == '=') pad++;
    if (pad > 2 || sym.find('=') != (pad ? sym.size() - pad : std::string::npos)) return false;
    out.clear();
    for (size_t i = 0; i < sym.size(); i += 4) {
        uint32_t v = 0;
        for (int k = 0; k < 4; k++) v = v << 6 | (sym[i + size_t(k)] == '=' ? 0 : uint32_t(strchr(ALPHA, sym[i + size_t(k)]) - ALPHA));
        out.push_back(uint8_t(v >> 16)); out.push_back(uint8_t(v >> 8)); out.push_back(uint8_t(v));
    }
    out.resize(out.size() - pad);
    return true;
}
static std::string show(const std::string& s) { std::string r; for (char ch : s.substr(0, 120)) { if (ch == '\n') r += "\\n"; else if (ch == '\r') r += "\\r"; else r += ch; } return r; }
static Exact exact(const std::string& s) { return Exact(B(s)); }
static std::string lines(Tape& t, const std::string& b64)
{
    std::string r;
    unsigned style = t.pick(5);
    size_t w = style == 0 ? 64 : style == 1 ? 76 : 1 + t.pick(80);
    const char* eol = t.pick(3) == 0 ? "\r\n" : "\n";
    for (size_t i = 0; i < b64.size(); i += w) {
        r += b64.substr(i, w);
        if (style == 4 && t.pick(3) == 0) r += std::string(t.pick(4), ' ');
        if (i + w < b64.size() || t.pick(2)) r += eol;
    }
    if (t.pick(6) == 0) r += std::string(t.pick(4), ' ');
    return r;
}
static std::string spoil(Tape& t, std::string s)
{
    unsigned n = 1 + t.pick(2);
    for (unsigned k = 0; k < n; k++) {
        size_t p = s.empty() ? 0 : t.range(0, s.size() - 1);
        static const char W[] = "= \r\n\t-_:@[`{.\x7f\x80\xff+/A";
        switch (t.pick(7)) {
        case 0: if (!s.empty()) s[p] = char(t.u8()); break;
        case 1: s.insert(p, 1, W[t.pick(sizeof W)]); break;
        case 2: if (!s.empty()) s.erase(p, 1); break;
        case 3: s.resize(p); break;
        case 4: s += std::string(1 + t.pick(3), '='); break;
        case 5: if (!s.empty()) s[p] = W[t.pick(sizeof W)]; break;
        default: { size_t q = s.find('='); if (q != std::string::npos) { if (t.pick(2)) s.erase(q, 1); else s.insert(q, 1, t.pick(2) ? '=' : 'B'); } }
        }
    }
    return s;
}

static void base64_encode(Tape& t, Ctx& c)
{
    Bytes in = t.bytes(t.len(0, 700, 70000));
    std::string want = ref_b64(in);
    size_t need = in.empty() ? 0 : want.size() + 1;
    size_t dlen = t.pick(3) == 0 ? need + t.pick(20) : t.pick(2) ? need : (need ? t.range(0, need - 1) : 0);
    if (t.pick(4) == 0 && need) dlen = need - 1;
    Exact src(in), dst(dlen);
    size_t olen = 12345;
    bool null = t.pick(10) == 0;
    int ret = mbedtls_base64_encode(null ? nullptr : dst.data(), null ? 0 : dlen, &olen, src.data(), in.size());
    c.note("base64 encode ", in.size(), " into ", null ? 0 : dlen);
    if (need > (null ? 0 : dlen)) {
        CHECK(ret == MBEDTLS_ERR_BASE64_BUFFER_TOO_SMALL && olen == need, "encoding ", in.size(), " bytes into ", dlen, " returned ", ret, " and announces ", olen, " instead of ", need);
        CHECK(dst.bytes() == Bytes(dlen, 0xA5), "a refused encoding wrote to its buffer");
        c.nontrivial();
        c.label("encode: short buffer");
        return;
    }
    CHECK(ret == 0 && olen == want.size(), "encoding ", in.size(), " bytes returned ", ret, " length ", olen);
    CHECK(eq(Bytes(dst.data(), dst.data() + olen), want) && (in.empty() || dst.data()[olen] == 0), "base64 of ", hex(in), ": ", std::string(reinterpret_cast<char*>(dst.data()), olen));
    for (size_t i = need; i < dlen; i++) CHECK(dst.data()[i] == 0xA5, "encoding wrote beyond its end");
    c.nontrivial(in.size() >= 4);
    c.label("encode");
}
static void base64_decode(Tape& t, Ctx& c)
{
    Bytes in = t.bytes(t.len(0, 500, 70000)), want;
    std::string text = lines(t, ref_b64(in));
    bool sp = t.pick(2);
    if (sp) text = spoil(t, text);
    else if (t.pick(12) == 0) { text.clear(); size_t n = t.pick(40); for (size_t i = 0; i < n; i++) { unsigned k = t.pick(12); text += k < 8 ? ALPHA[t.pick(64)] : k == 8 ? '=' : k == 9 ? ' ' : k == 10 ? '\n' : '\r'; } sp = true; }
    bool ok = ref_unb64(text, want);
    CHECK(sp || (ok && want == in), "the reference decoder is broken");
    Exact src(B(text));
    size_t olen = 12345;
    int ret = mbedtls_base64_decode(nullptr, 0, &olen, src.data(), text.size());
    c.note("base64 decode ", text.size(), ok ? " valid" : " malformed");
    if (!ok) {
        CHECK(ret == MBEDTLS_ERR_BASE64_INVALID_CHARACTER, "malformed base64 was not refused when asking for its size (", ret, "): ", show(text));
        Exact big(text.size() + 8);
        ret = mbedtls_base64_decode(big.data(), big.n, &olen, src.data(), text.size());
        CHECK(ret == MBEDTLS_ERR_BASE64_INVALID_CHARACTER, "malformed base64 was decoded (", ret, ", ", olen, " bytes): ", show(text));
        c.nontrivial();
        c.label("decode: malformed");
        return;
    }
    CHECK(ret == (want.empty() ? 0 : MBEDTLS_ERR_BASE64_BUFFER_TOO_SMALL) && olen == want.size(), "size query returned ", ret, " and ", olen, " for ", want.size(), " bytes: ", show(text));
    size_t dlen = t.pick(3) == 0 && !want.empty() ? t.range(0, want.size() - 1) : want.size() + (t.pick(2) ? t.pick(10) : 0);
    Exact dst(dlen);
    olen = 12345;
    ret = mbedtls_base64_decode(dst.data(), dlen, &olen, src.data(), text.size());
    if (dlen < want.size()) {
        CHECK(ret == MBEDTLS_ERR_BASE64_BUFFER_TOO_SMALL && olen == want.size(), "decoding into a short buffer returned ", ret, " and ", olen);
        CHECK(dst.bytes() == Bytes(dlen, 0xA5), "a refused decoding wrote to its buffer");
        c.nontrivial();
        c.label("decode: short buffer");
        return;
    }
    CHECK(ret == 0 && olen == want.size() && Bytes(dst.data(), dst.data() + olen) == want, "decoding returned ", ret, ", ", olen, " bytes for ", show(text));
    for (size_t i = olen; i < dlen; i++) CHECK(dst.data()[i] == 0xA5, "decoding wrote beyond its end");
    CHECK(src.bytes() == B(text), "decoding changed its input");
    c.nontrivial(want.size() >= 4);
    c.label("decode");
}
static void pem(Tape& t, Ctx& c)
{
    static const char* const NAMES[] = {"PUBLIC KEY", "RSA PRIVATE KEY", "PRIVATE KEY", "X", "A VERY LONG NAME THAT FILLS MORE THAN ONE LINE OF THE USUAL SIXTY-FOUR CHARACTERS"};
    std::string name = NAMES[t.pick(5)];
    std::string bh = "-----BEGIN " + name + "-----", bf = "-----END " + name + "-----";
    Bytes der = t.bytes(1 + t.len(0, 1200, 70000));
    std::string want = bh + "\n", b = ref_b64(der);
    for (size_t i = 0; i < b.size(); i += 64) want += b.substr(i, 64) + "\n";
    want += bf + "\n";
    // writing
    size_t announced = 0;
    int ret;
    Exact src(der);
    {
        Exact none(0);
        ret = mbedtls_pem_write_buffer((bh + "\n").c_str(), (bf + "\n").c_str(), src.data(), der.size(), none.data(), 0, &announced);
        CHECK(ret != 0 && announced >= want.size() + 1 && announced <= want.size() + 8, "PEM writing to an empty buffer returned ", ret, " and announces ", announced, " for ", want.size() + 1);
    }
    size_t blen = t.pick(2) ? announced : t.pick(2) ? t.range(0, want.size()) : announced + t.pick(30);
    Exact buf(blen);
    size_t olen = 0;
    ret = mbedtls_pem_write_buffer((bh + "\n").c_str(), (bf + "\n").c_str(), src.data(), der.size(), buf.data(), blen, &olen);
    c.note("PEM of ", der.size(), " bytes into ", blen);
    if (blen <= want.size()) { CHECK(ret != 0, "PEM writing to a short buffer succeeded"); CHECK(buf.bytes() == Bytes(blen, 0xA5), "a refused PEM writing wrote to its buffer"); c.label("PEM: short buffer"); }
    else if (blen >= announced) {
        CHECK(ret == 0 && olen == want.size() + 1, "PEM writing returned ", ret, ", length ", olen);
        CHECK(eq(Bytes(buf.data(), buf.data() + want.size()), want) && buf.data()[want.size()] == 0, "PEM text of ", der.size(), " bytes");
    }
    // reading: the text as written, or with other lines, surroundings, or spoilt
    std::string body = t.pick(2) ? want.substr(bh.size() + 1, want.size() - bh.size() - bf.size() - 2) : lines(t, b);
    bool spoilt = t.pick(3) == 0, enc = false;
    if (spoilt) body = spoil(t, body);
    if (!body.empty() && body[body.size() - 1] != '\n' && t.pick(2)) body += "\n";
    if (t.pick(20) == 0) { body = "Proc-Type: 4,ENCRYPTED\nDEK-Info: AES-128-CBC,0123\n\n" + body; enc = true; }
    std::string eol = t.pick(4) == 0 ? "\r\n" : t.pick(4) == 0 ? " \n" : "\n", head, tail;
    if (t.pick(4) == 0) head = "some text\n";
    if (t.pick(4) == 0) tail = "more text\n";
    unsigned hurt = t.pick(8); // 0: no header line end, 1: no footer, 2: no header, 3: footer first
    std::string text = head + (hurt == 2 ? "" : bh) + (hurt == 0 ? "" : eol) + body + (hurt == 1 ? "" : bf) + (t.pick(2) ? "\n" : t.pick(2) ? "\r\n" : "") + tail;
    if (hurt == 3) text = bf + "\n" + text;
    Bytes dec;
    size_t nul = text.find('\0');
    std::string seen = nul == std::string::npos ? text : text.substr(0, nul);
    size_t hp = seen.find(bh);
    bool good = hp != std::string::npos && !enc;
    if (good) {
        size_t s1 = hp + bh.size();
        if (s1 < seen.size() && seen[s1] == ' ') s1++;
        if (s1 < seen.size() && seen[s1] == '\r') s1++;
        good = s1 < seen.size() && seen[s1] == '\n';
        s1++;
        size_t s2 = good ? seen.find(bf, s1) : std::string::npos;
        good = good && s2 != std::string::npos && s2 > s1 && ref_unb64(seen.substr(s1, s2 - s1), dec);
    }
    bool either = hurt == 3 && good; // a stray footer in front: refused or ignored
    Bytes z = B(text);
    z.push_back(0);
    Exact in(z);
    mbedtls_pem_context ctx;
    size_t used = 0, len = 0;
    Bytes got;
    heap::watch(true);
    mbedtls_pem_init(&ctx);
    ret = mbedtls_pem_read_buffer(&ctx, bh.c_str(), bf.c_str(), in.data(), nullptr, 0, &used);
    if (ret == 0) { len = ctx.buflen; heap::pause(1); got.assign(ctx.buf, ctx.buf + len); heap::pause(-1); }
    mbedtls_pem_free(&ctx);
    heap::watch(false);
    CHECK(heap::outstanding() == 0, "reading PEM (", ret, ") leaks ", heap::outstanding(), " blocks");
    if (good && !(either && ret)) {
        CHECK(ret == 0, "valid PEM was refused (", ret, "): ", show(text));
        CHECK(got == dec, "PEM decoded to ", hex(got), " instead of ", hex(dec));
        if (!spoilt && hurt > 3) CHECK(got == der, "PEM decoded to another string");
        CHECK(used <= text.size() && (hurt == 3 || used >= text.find(bf) + bf.size()), "length of the PEM text");
        c.label("PEM read");
    } else {
        CHECK(ret != 0, "malformed PEM was accepted (", hurt, "): ", show(text));
        c.label("PEM refused");
    }
    c.nontrivial();
}
// ---- DER ----
struct Tlv { bool ok; bool minimal; uint8_t tag; size_t hdr, len; };
static Tlv ref_tlv(const Bytes& d, size_t at = 0)
{
    Tlv r = {false, true, 0, 0, 0};
    if (d.size() < at + 2) return r;
    r.tag = d[at];
    size_t l = d[at + 1], p = at + 2;
    if (l & 0x80) {
        size_t n = l & 0x7f;
        if (n == 0 || n > 4 || p + n > d.size()) return r;
        l = 0;
        r.minimal = d[p] != 0;
        for (size_t i = 0; i < n; i++) l = l << 8 | d[p++];
        if (l < 128) r.minimal = false;
    }
    if (l > d.size() - p) return r;
    r.hdr = p - at; r.len = l; r.ok = true;
    return r;
}
static Bytes uint_der(const Bytes& mag) { Bytes b = mag; size_t z = 0; while (z < b.size() && b[z] == 0) z++; b.erase(b.begin(), b.begin() + long(z)); if (b.empty() || b[0] & 0x80) b.insert(b.begin(), 0); return der_tlv(2, b); }
struct M { mbedtls_mpi m; M() { mbedtls_mpi_init(&m); } ~M() { mbedtls_mpi_free(&m); } };
static void der_write(Tape& t, Ctx& c)
{
    unsigned kind = t.pick(10);
    Bytes body = t.bytes(t.pick(3) ? t.length(0, 300) : t.pick(2) ? 125 + t.pick(6) : 253 + t.pick(6));
    if (t.pick(40) == 0) body = t.bytes(t.pick(3) ? 65530 + t.pick(12) : t.range(60000, 300000));
    Bytes want, par;
    size_t bits = 0;
    int val = 0;
    M m;
    switch (kind) {
    case 0: want = der_tlv(4, body); break;
    case 1: want = der_tlv(0x13, body); break;
    case 2: want = der_tlv(0x16, body); break;
    case 3: want = der_tlv(6, body); break;
    case 4: { bits = body.size() * 8; if (bits && t.pick(2)) bits -= t.pick(8); Bytes x = body; x.insert(x.begin(), uint8_t(body.size() * 8 - bits)); want = der_tlv(3, x); break; }
    case 5: { val = int(t.pick(2)); want = der_tlv(1, Bytes(1, val ? 255 : 0)); if (val && t.pick(2)) val = 77; break; }
    case 6: { val = int(t.u8()); Bytes x; if (val > 127) x.push_back(0); x.push_back(uint8_t(val)); want = der_tlv(2, x); break; }
    case 7: want = unhex("0500"); break;
    case 8: { Bytes x = body; if (x.size() > 900) x.resize(900); if (t.pick(6) == 0) x.assign(t.pick(4), 0); if (t.pick(3) == 0) x.insert(x.begin(), 1 + t.pick(9), 0); if (mbedtls_mpi_read_binary(&m.m, x.data(), x.size())) fail("read_binary"); if (t.pick(3) == 0) (void)mbedtls_mpi_grow(&m.m, m.m.n + 1 + t.pick(3)); want = uint_der(x); break; }
    default: {
        if (body.size() > 200) body.resize(200);
        if (t.pick(2)) { Bytes v = t.bytes(t.pick(3) ? t.pick(40) : 100 + t.pick(60)); par = der_tlv(t.pick(2) ? 0x30 : 6, v); }
        Bytes alg = der_tlv(6, body), tail = par.empty() ? unhex("0500") : par;
        alg.insert(alg.end(), tail.begin(), tail.end());
        want = der_tlv(0x30, alg);
        break;
    }
    }
    size_t size = t.pick(2) ? want.size() : t.pick(2) ? want.size() + t.pick(9) : t.range(0, want.size() - 1);
    if (size < par.size()) size = par.size();
    Exact buf(size), src(body);
    unsigned char *p = buf.data() + size, *start = buf.data();
    if (!par.empty()) { p -= par.size(); memcpy(p, par.data(), par.size()); } // the caller writes the parameters first
    const char* text = reinterpret_cast<const char*>(src.data());
    int ret = 0;
    switch (kind) {
    case 0: ret = mbedtls_asn1_write_octet_string(&p, start, src.data(), body.size()); break;
    case 1: ret = mbedtls_asn1_write_printable_string(&p, start, text, body.size()); break;
    case 2: ret = mbedtls_asn1_write_ia5_string(&p, start, text, body.size()); break;
    case 3: ret = mbedtls_asn1_write_oid(&p, start, text, body.size()); break;
    case 4: ret = mbedtls_asn1_write_bitstring(&p, start, src.data(), bits); break;
    case 5: ret = mbedtls_asn1_write_bool(&p, start, val); break;
    case 6: ret = mbedtls_asn1_write_int(&p, start, val); break;
    case 7: ret = mbedtls_asn1_write_null(&p, start); break;
    case 8: ret = mbedtls_asn1_write_mpi(&p, start, &m.m); break;
    default: ret = mbedtls_asn1_write_algorithm_identifier(&p, start, text, body.size(), par.size()); break;
    }
    static const char* const K[] = {"octets", "printable", "ia5", "oid", "bits", "bool", "int", "null", "mpi", "algorithm"};
    c.note("DER ", K[kind], " ", want.size(), " bytes into ", size);
    c.nontrivial();
    if (size < want.size()) { CHECK(ret < 0, "DER ", K[kind], ": writing ", want.size(), " bytes into ", size, " returned ", ret); c.label("DER write: short buffer"); return; }
    CHECK(ret == int(want.size()) && p == start + (size - want.size()), "DER ", K[kind], ": writing ", want.size(), " bytes returned ", ret);
    CHECK(Bytes(p, p + want.size()) == want, "DER ", K[kind], ": ", hex(p, want.size()), " instead of ", hex(want));
    for (unsigned char* q = start; q < p; q++) CHECK(*q == 0xA5, "DER writing touched other bytes");
    // and back
    unsigned char *r = p, *end = start + size;
    size_t len = 0;
    if (kind == 8) { M b; CHECK(mbedtls_asn1_get_mpi(&r, end, &b.m) == 0 && r == end && mbedtls_mpi_cmp_mpi(&b.m, &m.m) == 0, "integer round trip ", hex(want)); }
    else if (kind == 6) { int v = -1; CHECK(mbedtls_asn1_get_int(&r, end, &v) == 0 && v == val && r == end, "int round trip ", val, " -> ", v); }
    else if (kind == 5) { int v = -1; CHECK(mbedtls_asn1_get_bool(&r, end, &v) == 0 && v == (val ? 1 : 0) && r == end, "bool round trip"); }
    else if (kind == 4) { mbedtls_asn1_bitstring bs; CHECK(mbedtls_asn1_get_bitstring(&r, end, &bs) == 0 && bs.len == body.size() && bs.unused_bits == body.size() * 8 - bits && Bytes(bs.p, bs.p + bs.len) == body && r == end, "bit string round trip"); }
    else if (kind == 9 && !par.empty()) {
        mbedtls_asn1_buf alg, prm;
        CHECK(mbedtls_asn1_get_alg(&r, end, &alg, &prm) == 0 && r == end && alg.tag == 6 && Bytes(alg.p, alg.p + alg.len) == body, "algorithm with parameters: round trip of the identifier");
        Tlv v = ref_tlv(par);
        CHECK(prm.tag == par[0] && Bytes(prm.p, prm.p + prm.len) == Bytes(par.begin() + long(v.hdr), par.end()), "algorithm with parameters: round trip of the parameters");
        c.label("DER algorithm with parameters");
    }
    else if (kind == 9) { mbedtls_asn1_buf alg; CHECK(mbedtls_asn1_get_alg_null(&r, end, &alg) == 0 && r == end && alg.tag == 6 && Bytes(alg.p, alg.p + alg.len) == body, "algorithm round trip"); }
    else { CHECK(mbedtls_asn1_get_tag(&r, end, &len, want[0]) == 0 && r + len == end && Bytes(r, end) == (kind == 7 ? Bytes() : body), "round trip of ", K[kind]); }
    c.label(std::string("DER ") + K[kind]);
}
// lists of named values, the way certificate names are kept: the value last stored under an identifier is found
// under it and under no other, in whatever order the values were stored, and freeing the list frees everything
static void named_list(Tape& t, Ctx& c)
{
    struct Item { Bytes oid, val; size_t len; };
    std::vector<Item> model;
    std::vector<Bytes> oids;
    for (unsigned i = 0, n = 1 + t.pick(5); i < n; i++) {
        Bytes o = t.pick(3) && !oids.empty() ? oids.back() : t.bytes(1 + t.pick(12));
        if (!oids.empty() && o == oids.back()) { if (t.pick(2)) o.push_back(t.u8()); else o[o.size() - 1] ^= uint8_t(1u << t.pick(8)); }
        oids.push_back(o);
    }
    unsigned steps = 1 + t.pick(8);
    c.note("a list of named values, ", oids.size(), " identifiers, ", steps, " values stored");
    heap::watch(true);
    mbedtls_asn1_named_data* head = nullptr;
    for (unsigned s = 0; s < steps; s++) {
        heap::pause(1);
        Bytes oid = oids[t.pick(unsigned(oids.size()))], val = t.bytes(t.length(0, 60));
        Exact eo(oid), ev(val);
        heap::pause(-1);
        bool bare = t.pick(6) == 0; // no value given: room for one only
        mbedtls_asn1_named_data* e = mbedtls_asn1_store_named_data(&head, reinterpret_cast<const char*>(eo.data()), oid.size(), bare ? nullptr : ev.data(), val.size());
        heap::pause(1);
        CHECK(e != nullptr, "storing a named value failed");
        Item* m = nullptr;
        for (Item& i : model) if (i.oid == oid) m = &i;
        if (!m) { model.push_back({oid, Bytes(), val.size()}); m = &model.back(); }
        if (m->len < val.size()) { m->len = val.size(); m->val.clear(); }
        if (!bare && !val.empty()) m->val = val;
        for (const Bytes& o : oids) {
            Exact q(o);
            mbedtls_asn1_named_data* f = mbedtls_asn1_find_named_data(head, reinterpret_cast<const char*>(q.data()), o.size());
            const Item* w = nullptr;
            for (const Item& i : model) if (i.oid == o) w = &i;
            CHECK((f != nullptr) == (w != nullptr), "an identifier ", w ? "stored" : "never stored", " is ", f ? "found" : "not found", ": ", hex(o));
            if (!w) continue;
            CHECK(Bytes(f->oid.p, f->oid.p + f->oid.len) == o, "found under another identifier");
            CHECK(f->val.len >= w->val.size() && (w->val.empty() || memcmp(f->val.p, w->val.data(), w->val.size()) == 0), "the value under ", hex(o), " is not the last one stored: ", hex(f->val.p, f->val.len), " instead of ", hex(w->val));
            if (o == oid) CHECK(f == e, "storing returned another entry");
        }
        size_t n = 0;
        for (mbedtls_asn1_named_data* i = head; i; i = i->next) n++;
        CHECK(n == model.size(), "the list holds ", n, " entries instead of ", model.size());
        heap::pause(-1);
    }
    mbedtls_asn1_free_named_data_list(&head);
    heap::watch(false);
    CHECK(head == nullptr, "the list is not empty once freed");
    CHECK(heap::outstanding() == 0, "a freed list leaks ", heap::outstanding(), " blocks");
    c.nontrivial();
    c.label("list of named values");
}
static void der_parts(Tape& t, Ctx& c)
{
    unsigned kind = t.pick(3);
    Bytes want, body;
    size_t l = 0;
    bool valid = true;
    if (kind == 0) {
        static const uint64_t L[] = {0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0xffffff, 0x1000000, 0xffffffffu};
        l = t.pick(3) ? size_t(L[t.pick(9)] + t.pick(3) - 1) : size_t(t.raw(1 + t.pick(6)));
        valid = l <= 0xffffffffu;
        unsigned n = l < 128 ? 0 : l < 1u << 8 ? 1 : l < 1u << 16 ? 2 : l < 1u << 24 ? 3 : 4;
        want.push_back(uint8_t(n ? 0x80 | n : l));
        for (unsigned i = n; i > 0; i--) want.push_back(uint8_t(l >> (8 * (i - 1))));
    } else if (kind == 1) { l = t.u8(); want.push_back(uint8_t(l)); }
    else { body = t.bytes(1 + t.length(0, 300)); want = body; }
    size_t size = t.pick(2) ? want.size() : t.pick(2) ? want.size() + t.pick(9) : t.range(0, want.size() - 1);
    Exact buf(size), src(body);
    unsigned char *p = buf.data() + size, *start = buf.data();
    int ret = kind == 0 ? mbedtls_asn1_write_len(&p, start, l) : kind == 1 ? mbedtls_asn1_write_tag(&p, start, uint8_t(l)) : mbedtls_asn1_write_raw_buffer(&p, start, src.data(), body.size());
    static const char* const K[] = {"length", "tag", "raw bytes"};
    c.note("DER ", K[kind], " ", kind == 2 ? body.size() : l, " into ", size);
    c.nontrivial();
    if (size < want.size() || !valid) { CHECK(ret < 0, "DER ", K[kind], " ", l, ": writing ", want.size(), " bytes into ", size, " returned ", ret); c.label("DER part: refused"); return; }
    CHECK(ret == int(want.size()) && p == start + (size - want.size()) && Bytes(p, p + want.size()) == want, "DER ", K[kind], " ", l, ": returned ", ret, ", wrote ", hex(p, size_t(start + size - p)), " instead of ", hex(want));
    for (unsigned char* q = start; q < p; q++) CHECK(*q == 0xA5, "DER writing touched other bytes");
    if (kind == 0 && l <= 70000) {
        Bytes in = want;
        in.resize(in.size() + l, 0x5c);
        bool cut = l && t.pick(3) == 0;
        if (cut) in.pop_back();
        Exact e(in);
        unsigned char* r = e.data();
        size_t got = 0;
        ret = mbedtls_asn1_get_len(&r, e.data() + in.size(), &got);
        if (cut) CHECK(ret != 0, "a length of ", l, " was accepted with ", l - 1, " bytes behind it");
        else CHECK(ret == 0 && got == l && r == e.data() + want.size(), "length ", l, " read back as ", got, " (", ret, ")");
    }
    c.label(std::string("DER part ") + K[kind]);
}
static void der_sequence_of(Tape& t, Ctx& c)
{
    static const uint8_t TAGS[] = {2, 4, 6, 0x30, 0x13, 0};
    uint8_t tag = TAGS[t.pick(6)];
    Bytes body;
    size_t n = t.pick(4) ? t.pick(6) : t.pick(60);
    for (size_t i = 0; i < n; i++) { Bytes x = der_tlv(t.pick(24) ? tag : t.u8(), t.bytes(t.pick(12) ? t.pick(9) : 120 + t.pick(150))); body.insert(body.end(), x.begin(), x.end()); }
    Bytes d = der_tlv(t.pick(24) ? 0x30 : t.u8(), body);
    if (t.pick(4) == 0) d[t.range(0, d.size() - 1)] = t.u8();
    if (t.pick(8) == 0) d.resize(t.range(0, d.size()));
    if (t.pick(8) == 0) d.push_back(t.u8());
    bool may = true, must = true;
    Tlv v = ref_tlv(d);
    std::vector<Bytes> want;
    may = v.ok && v.tag == 0x30 && v.hdr + v.len == d.size();
    must = v.minimal;
    for (size_t at = v.hdr; may && at < d.size();) {
        Tlv e = ref_tlv(d, at);
        may = e.ok && e.tag == tag;
        must = must && e.minimal;
        if (may) want.push_back(Bytes(d.begin() + long(at + e.hdr), d.begin() + long(at + e.hdr + e.len)));
        at += e.hdr + e.len;
    }
    Exact in(d);
    unsigned char *p = in.data(), *end = p + d.size();
    mbedtls_asn1_sequence head;
    memset(&head, 0, sizeof head);
    c.note("SEQUENCE OF ", unsigned(tag), ", ", d.size(), " bytes");
    heap::watch(true);
    int ret = mbedtls_asn1_get_sequence_of(&p, end, &head, tag);
    heap::pause(1);
    std::vector<Bytes> got;
    if (ret == 0) for (mbedtls_asn1_sequence* s = &head; s; s = s->next) { if (s->buf.p) { CHECK(s->buf.tag == tag && s->buf.p >= in.data() && s->buf.p + s->buf.len <= end, "an element outside of its sequence"); got.push_back(Bytes(s->buf.p, s->buf.p + s->buf.len)); } }
    heap::pause(-1);
    for (mbedtls_asn1_sequence* s = head.next; s;) { mbedtls_asn1_sequence* x = s->next; free(s); s = x; }
    heap::watch(false);
    CHECK(heap::outstanding() == 0, "SEQUENCE OF (", ret, ") leaks ", heap::outstanding(), " blocks");
    CHECK(!(may && must && ret != 0), "a valid SEQUENCE OF was refused (", ret, "): ", hex(d));
    CHECK(!(!may && ret == 0), "a malformed SEQUENCE OF was accepted: ", hex(d));
    if (ret == 0) CHECK(got == want && p == end, "a SEQUENCE OF ", want.size(), " elements was read as ", got.size(), ": ", hex(d));
    c.nontrivial(d.size() >= 4);
    c.label(ret ? "SEQUENCE OF refused" : "SEQUENCE OF");
}
static void der_read(Tape& t, Ctx& c)
{
    static const uint8_t TAGS[] = {1, 2, 3, 4, 5, 6, 0x30, 0x13};
    unsigned what = t.pick(8);
    static const uint8_t FIT[] = {4, 1, 2, 2, 3, 3, 0x30, 0x30};
    uint8_t tag = t.pick(4) == 0 ? TAGS[t.pick(8)] : FIT[what];
    Bytes body = t.bytes(t.pick(4) ? t.pick(8) : t.len(0, 300, 140000)), d;
    if (tag == 1 && t.pick(3)) body = t.bytes(1);
    if (what == 2 && tag == 2 && t.pick(2)) { body = t.bytes(1 + t.pick(4)); body[0] &= uint8_t(0x7f); }
    if (tag == 3 && !body.empty() && t.pick(2)) body[0] = t.pick(2) ? 0 : uint8_t(t.pick(10));
    size_t l = body.size();
    if (tag == 0x30 && t.pick(8)) { body = der_tlv(6, t.bytes(t.pick(12))); if (t.pick(3)) { Bytes pr = t.pick(3) ? unhex("0500") : der_tlv(TAGS[t.pick(8)], t.bytes(t.pick(4))); body.insert(body.end(), pr.begin(), pr.end()); } if (t.pick(4) == 0 && !body.empty()) body[t.range(0, body.size() - 1)] = t.u8(); l = body.size(); }
    d.push_back(t.pick(8) ? tag : t.u8());
    unsigned form = t.pick(6);
    if (t.pick(5) == 0) l = t.pick(2) ? t.raw(4) : l + t.pick(3) - 1; // a wrong length
    if (form == 0 || l >= 1u << 24) { d.push_back(0x84); for (int i = 3; i >= 0; i--) d.push_back(uint8_t(l >> (8 * i))); }
    else if (form == 1 || l >= 1u << 16) { d.push_back(0x83); for (int i = 2; i >= 0; i--) d.push_back(uint8_t(l >> (8 * i))); }
    else if (form == 2 || l >= 256) { d.push_back(0x82); d.push_back(uint8_t(l >> 8)); d.push_back(uint8_t(l)); }
    else if (form == 3 || l >= 128) { d.push_back(0x81); d.push_back(uint8_t(l)); }
    else if (form == 4 && t.pick(4) == 0) { d.push_back(uint8_t(0x80 | t.u8())); }
    else d.push_back(uint8_t(l));
    d.insert(d.end(), body.begin(), body.end());
    if (t.pick(6) == 0) d.resize(t.range(0, d.size()));
    bool trailing = t.pick(4) == 0;
    if (trailing) { Bytes x = t.bytes(1 + t.pick(6)); d.insert(d.end(), x.begin(), x.end()); }
    Exact in(d);
    Tlv v = ref_tlv(d);
    unsigned char *p = in.data(), *end = p + d.size();
    static const char* const K[] = {"tag", "bool", "int", "mpi", "bits", "whole bits", "algorithm without parameters", "algorithm"};
    c.note("DER read ", K[what], " of ", hex(d));
    auto content = [&] { return Bytes(d.begin() + long(v.hdr), d.begin() + long(v.hdr + v.len)); };
    int ret;
    bool must_ok = false, may_ok = false;
    switch (what) {
    case 0: {
        size_t len = 0;
        ret = mbedtls_asn1_get_tag(&p, end, &len, tag);
        may_ok = v.ok && v.tag == tag; must_ok = may_ok && v.minimal;
        if (ret == 0 && may_ok) CHECK(len == v.len && p == in.data() + v.hdr, "element of ", len, " bytes instead of ", v.len, " in ", hex(d));
        break; }
    case 1: {
        int b = 7;
        ret = mbedtls_asn1_get_bool(&p, end, &b);
        may_ok = v.ok && v.tag == 1 && v.len == 1; must_ok = may_ok && v.minimal && (d[v.hdr] == 0 || d[v.hdr] == 255);
        if (ret == 0 && may_ok) CHECK(b == (d[v.hdr] ? 1 : 0) && p == in.data() + v.hdr + 1, "boolean ", b, " from ", hex(d));
        break; }
    case 2: {
        int b = -7;
        ret = mbedtls_asn1_get_int(&p, end, &b);
        may_ok = v.ok && v.tag == 2 && v.len >= 1 && v.len <= 4 && !(d[v.hdr] & 0x80); must_ok = may_ok && v.minimal && (v.len == 1 || d[v.hdr] || d[v.hdr + 1] & 0x80);
        if (ret == 0 && may_ok) { int64_t x = 0; for (uint8_t y : content()) x = x << 8 | y; CHECK(b == x && p == in.data() + v.hdr + v.len, "integer ", b, " instead of ", x, " from ", hex(d)); }
        break; }
    case 3: {
        M m;
        ret = mbedtls_asn1_get_mpi(&p, end, &m.m);
        may_ok = v.ok && v.tag == 2; must_ok = may_ok && v.len <= 1024 && v.minimal && v.len >= 1 && !(d[v.hdr] & 0x80) && (v.len == 1 || d[v.hdr] || d[v.hdr + 1] & 0x80);
        if (ret == 0 && may_ok) { Bytes x = content(); M w; if (mbedtls_mpi_read_binary(&w.m, x.data(), x.size())) fail("read_binary"); CHECK(mbedtls_mpi_cmp_mpi(&w.m, &m.m) == 0 && p == in.data() + v.hdr + v.len, "big integer from ", hex(d)); }
        break; }
    case 4: {
        mbedtls_asn1_bitstring bs;
        ret = mbedtls_asn1_get_bitstring(&p, end, &bs);
        may_ok = v.ok && v.tag == 3 && v.len >= 1 && d[v.hdr] <= 7 && v.hdr + v.len == d.size(); must_ok = may_ok && v.minimal && (v.len > 1 || d[v.hdr] == 0);
        if (ret == 0 && may_ok) { Bytes x = content(); CHECK(bs.unused_bits == x[0] && Bytes(bs.p, bs.p + bs.len) == Bytes(x.begin() + 1, x.end()), "bit string from ", hex(d)); }
        break; }
    case 5: {
        size_t len = 0;
        ret = mbedtls_asn1_get_bitstring_null(&p, end, &len);
        may_ok = v.ok && v.tag == 3 && v.len >= 1 && d[v.hdr] == 0; must_ok = may_ok && v.minimal && v.len >= 2;
        if (ret == 0 && may_ok) CHECK(len == v.len - 1 && p == in.data() + v.hdr + 1, "bit string of ", len, " bytes from ", hex(d));
        break; }
    default: {
        mbedtls_asn1_buf alg = {0, 0, nullptr}, par = {0, 0, nullptr};
        ret = what == 6 ? mbedtls_asn1_get_alg_null(&p, end, &alg) : mbedtls_asn1_get_alg(&p, end, &alg, &par);
        Tlv o = {false, false, 0, 0, 0}, q = o;
        Bytes x;
        if (v.ok && v.tag == 0x30) { x = content(); o = ref_tlv(x); }
        may_ok = o.ok && o.tag == 6;
        bool has = may_ok && o.hdr + o.len < x.size();
        if (has) { q = ref_tlv(x, o.hdr + o.len); may_ok = q.ok && o.hdr + o.len + q.hdr + q.len == x.size(); }
        must_ok = may_ok && v.minimal && o.minimal && (!has || q.minimal);
        if (what == 6 && has) { must_ok = must_ok && q.tag == 5 && q.len == 0; may_ok = may_ok && (q.tag == 5 || q.tag == 0) && q.len == 0; }
        if (ret == 0 && may_ok) {
            CHECK(Bytes(alg.p, alg.p + alg.len) == Bytes(x.begin() + long(o.hdr), x.begin() + long(o.hdr + o.len)), "algorithm from ", hex(d));
            if (what == 6) { } else if (has) CHECK(par.tag == q.tag && par.len == q.len, "algorithm parameters from ", hex(d)); else CHECK(par.tag == 0 && par.len == 0 && par.p == nullptr, "absent parameters from ", hex(d));
        } }
    }
    CHECK(!(must_ok && ret != 0), "valid DER ", K[what], " was refused (", ret, "): ", hex(d));
    CHECK(!(!may_ok && ret == 0), "malformed DER was accepted as ", K[what], ": ", hex(d));
    if (ret == 0) CHECK(p >= in.data() && p <= end, "the parser left its input");
    CHECK(in.bytes() == d, "parsing changed its input");
    c.nontrivial(ret != 0 || d.size() >= 4);
    c.label(std::string("DER read ") + K[what] + (ret ? " refused" : ""));
}
// ---- RSA keys ----
struct Rsa { mbedtls_rsa_context r; Rsa() { mbedtls_rsa_init(&r, 0, 0); } ~Rsa() { mbedtls_rsa_free(&r); } };
static void put(mbedtls_mpi* m, const mpz_t v) { Bytes b = mpz_bytes(v, (mpz_sizeinbase(v, 2) + 7) / 8); if (mbedtls_mpi_read_binary(m, b.data(), b.size())) fail("read_binary"); }
static void same(const mbedtls_mpi* m, const mpz_t v, const char* what)
{
    M w;
    put(&w.m, v);
    CHECK(mbedtls_mpi_cmp_mpi(m, &w.m) == 0, "RSA key round trip changes ", what);
}
// A lenient reading of the key formats: what it cannot read must be refused, and what is accepted must carry
// the numbers it finds.
static bool take(const Bytes& d, size_t& at, uint8_t tag, Bytes& content)
{
    Tlv v = ref_tlv(d, at);
    if (!v.ok || v.tag != tag) return false;
    content.assign(d.begin() + long(at + v.hdr), d.begin() + long(at + v.hdr + v.len));
    at += v.hdr + v.len;
    return true;
}
static bool read_alg(const Bytes& d, size_t& at)
{
    Bytes alg, oid;
    size_t a = 0;
    if (!take(d, at, 0x30, alg) || !take(alg, a, 6, oid) || oid != unhex("2a864886f70d010101")) return false;
    if (a == alg.size()) return true;
    Tlv q = ref_tlv(alg, a);
    return q.ok && (q.tag == 5 || q.tag == 0) && q.len == 0 && a + q.hdr == alg.size();
}
static bool read_version0(const Bytes& d, size_t& at)
{
    Bytes v;
    if (!take(d, at, 2, v) || v.empty() || v.size() > 4) return false;
    for (uint8_t x : v) if (x) return false;
    return true;
}
static bool read_ints(const Bytes& d, size_t at, size_t n, std::vector<Bytes>& out)
{
    out.clear();
    for (size_t i = 0; i < n; i++) { Bytes x; if (!take(d, at, 2, x)) return false; size_t z = 0; while (z < x.size() && x[z] == 0) z++; out.push_back(Bytes(x.begin() + long(z), x.end())); }
    return at == d.size();
}
static bool read_public(const Bytes& d, std::vector<Bytes>& out)
{
    Bytes s, b, r;
    size_t at = 0, a = 0;
    if (!take(d, at, 0x30, s) || !read_alg(s, a) || !take(s, a, 3, b) || a != s.size() || b.size() < 2 || b[0] != 0) return false;
    a = 1;
    return take(b, a, 0x30, r) && a == b.size() && read_ints(r, 0, 2, out);
}
static bool read_pkcs1(const Bytes& d, std::vector<Bytes>& out)
{
    Bytes s;
    size_t at = 0, a = 0;
    return take(d, at, 0x30, s) && read_version0(s, a) && read_ints(s, a, 8, out);
}
static bool read_pkcs8(const Bytes& d, std::vector<Bytes>& out)
{
    Bytes s, o;
    size_t at = 0, a = 0;
    return take(d, at, 0x30, s) && read_version0(s, a) && read_alg(s, a) && take(s, a, 4, o) && read_pkcs1(o, out);
}
// positions of the tag, length and leading content bytes of the elements of a key
static void headers(const Bytes& d, size_t at, size_t end, std::vector<size_t>& pos)
{
    while (at < end) {
        Tlv v = ref_tlv(d, at);
        if (!v.ok) return;
        for (size_t i = 0; i <= v.hdr && at + i < end; i++) pos.push_back(at + i);
        if (v.tag == 0x30 || v.tag == 4) headers(d, at + v.hdr, at + v.hdr + v.len, pos);
        if (v.tag == 3) headers(d, at + v.hdr + 1, at + v.hdr + v.len, pos);
        at += v.hdr + v.len;
    }
}
static bool is_mpi(const mbedtls_mpi* m, const Bytes& b) { M w; if (mbedtls_mpi_read_binary(&w.m, b.data(), b.size())) fail("read_binary"); return mbedtls_mpi_cmp_mpi(m, &w.m) == 0; }
static void rsa_damaged(Tape& t, Ctx& c, const RsaKey& k)
{
    unsigned form = t.pick(3); // public, PKCS#1, PKCS#8
    Bytes d = form == 0 ? ref_spki_der(k) : ref_private_der(k);
    if (form == 2) { Bytes x = unhex("020100300d06092a864886f70d0101010500"), o = der_tlv(4, d); x.insert(x.end(), o.begin(), o.end()); if (t.pick(4) == 0) { Bytes a = der_tlv(0xa0, t.bytes(t.pick(8))); x.insert(x.end(), a.begin(), a.end()); } d = der_tlv(0x30, x); }
    std::vector<size_t> pos;
    headers(d, 0, d.size(), pos);
    unsigned edits = t.pick(4) == 0 ? 0 : 1 + t.pick(2);
    for (unsigned i = 0; i < edits && !pos.empty() && !d.empty(); i++) {
        size_t p = pos[t.range(0, pos.size() - 1)];
        if (t.pick(6) == 0 || p >= d.size()) p = t.range(0, d.size() - 1);
        switch (t.pick(7)) {
        case 0: d[p]++; break;
        case 1: d[p]--; break;
        case 2: d[p] = t.u8(); break;
        case 3: d[p] ^= uint8_t(1u << t.pick(8)); break;
        case 4: d.insert(d.begin() + long(p), t.pick(2) ? 0 : t.u8()); break;
        case 5: d.erase(d.begin() + long(p)); break;
        default: d.push_back(t.u8());
        }
    }
    std::vector<Bytes> want, alt;
    bool may = form == 0 ? read_public(d, want) : read_pkcs8(d, want), may2 = form != 0 && read_pkcs1(d, alt);
    bool text = t.pick(3) == 0;
    if (text && form == 1) may = false;
    if (text && form == 2) may2 = false;
    if (!may && may2) { want = alt; may = true; }
    Bytes blob = d;
    if (text) { blob = B(ref_pem(form == 0 ? "PUBLIC KEY" : form == 1 ? "RSA PRIVATE KEY" : "PRIVATE KEY", d)); blob.push_back(0); }
    Exact in(blob);
    unsigned via = t.pick(3);
    int ret;
    c.note("RSA key ", form == 0 ? "SPKI" : form == 1 ? "PKCS#1" : "PKCS#8", text ? " PEM" : " DER", ", ", edits, " edits, ", d.size(), " bytes");
    heap::watch(true);
    {
        Rsa q;
        mbedtls_pk_context pk;
        mbedtls_pk_init(&pk);
        const mbedtls_rsa_context* r = &q.r;
        if (via == 0) ret = form ? mbedtls_rsa_parse_key(&q.r, in.data(), blob.size(), nullptr, 0) : mbedtls_rsa_parse_public_key(&q.r, in.data(), blob.size());
        else {
            unsigned char* p = in.data();
            ret = form ? mbedtls_pk_parse_key(&pk, in.data(), blob.size(), nullptr, 0) : via == 2 && !text ? mbedtls_pk_parse_subpubkey(&p, in.data() + blob.size(), &pk) : mbedtls_pk_parse_public_key(&pk, in.data(), blob.size());
            if (ret == 0) r = static_cast<const mbedtls_rsa_context*>(pk.pk_ctx);
        }
        heap::pause(1);
        CHECK(!(ret == 0 && !may), "a malformed key was accepted: ", hex(d));
        CHECK(!(edits == 0 && ret != 0), "a well-formed key was refused (", ret, "): ", hex(d));
        if (ret == 0) {
            const mbedtls_mpi* m[8] = {&r->N, &r->E, &r->D, &r->P, &r->Q, &r->DP, &r->DQ, &r->QP};
            for (size_t i = 0; i < want.size(); i++) CHECK(is_mpi(m[i], want[i]), "number ", i, " of a parsed key is not the one in ", hex(d));
            CHECK(r->len == want[0].size(), "length of a parsed key: ", r->len);
            if (via) CHECK(mbedtls_pk_get_type(&pk) == MBEDTLS_PK_RSA, "type of a parsed key");
        }
        heap::pause(-1);
        mbedtls_pk_free(&pk);
    }
    heap::watch(false);
    CHECK(heap::outstanding() == 0, "parsing a key (", ret, ") leaks ", heap::outstanding(), " blocks");
    CHECK(in.bytes() == blob, "parsing a key changed the text");
    c.nontrivial();
    c.label(std::string("RSA key ") + (form == 0 ? "SPKI" : form == 1 ? "PKCS#1" : "PKCS#8") + (edits ? ret ? ": damaged, refused" : ": damaged, same or other numbers" : ""));
}
static void rsa_keys(Tape& t, Ctx& c)
{
    RsaKey k;
    unsigned src = t.pick(8);
    if (src == 0) ref_parse_private(OTHER_SIZE_SK[t.pick(unsigned(OTHER_SIZE_SK.size()))], k);
    else if (src == 1) ref_parse_private(TEST_SK[t.pick(unsigned(TEST_SK.size()))], k);
    else { // a small key out of generated primes
        size_t bits = 65 + t.range(0, 200);
        mpz_t a, b;
        mpz_inits(a, b, nullptr);
        do {
            Bytes x = t.bytes((bits + 7) / 8), y = t.bytes((bits + 7) / 8 - t.pick(2));
            bytes_mpz(k.p, x); bytes_mpz(k.q, y);
            mpz_fdiv_r_2exp(k.p, k.p, bits); mpz_setbit(k.p, bits - 1);
            mpz_setbit(k.q, 62 + t.pick(20));
            mpz_nextprime(k.p, k.p); mpz_nextprime(k.q, k.q);
            if (mpz_cmp(k.p, k.q) == 0) mpz_nextprime(k.q, k.q);
            mpz_sub_ui(a, k.p, 1); mpz_sub_ui(b, k.q, 1);
            mpz_lcm(a, a, b);
            static const unsigned long E[] = {3, 5, 17, 257, 65537, 4294967311ul, 127, 129, 255};
            mpz_set_ui(k.e, E[t.pick(9)]);
            if (t.exhausted()) mpz_set_ui(k.e, 65537);
            while (!mpz_invert(k.d, k.e, a)) mpz_add_ui(k.e, k.e, 2);
        } while (false);
        if (t.pick(2)) { mpz_sub_ui(a, k.p, 1); mpz_sub_ui(b, k.q, 1); mpz_mul(a, a, b); mpz_invert(k.d, k.e, a); }
        mpz_mul(k.n, k.p, k.q);
        mpz_sub_ui(a, k.p, 1); mpz_fdiv_r(k.dp, k.d, a);
        mpz_sub_ui(a, k.q, 1); mpz_fdiv_r(k.dq, k.d, a);
        mpz_invert(k.qinv, k.q, k.p);
        mpz_clears(a, b, nullptr);
    }
    if (mpz_sizeinbase(k.n, 2) < 128 || mpz_cmp(k.e, k.n) >= 0) return;
    if (t.pick(2)) { rsa_damaged(t, c, k); return; }
    Rsa r;
    put(&r.r.N, k.n); put(&r.r.E, k.e); put(&r.r.D, k.d); put(&r.r.P, k.p); put(&r.r.Q, k.q); put(&r.r.DP, k.dp); put(&r.r.DQ, k.dq); put(&r.r.QP, k.qinv);
    r.r.len = mbedtls_mpi_size(&r.r.N);
    if (t.pick(5) == 0) { // a public and a private key belong together iff both are sound and their n and e agree
        Rsa pub;
        put(&pub.r.N, k.n); put(&pub.r.E, k.e);
        pub.r.len = r.r.len;
        unsigned how = t.pick(6);
        bool pair = true;
        mpz_t z;
        mpz_init(z);
        if (how == 1) { mpz_add_ui(z, k.n, 2); put(&pub.r.N, z); pair = false; }
        if (how == 2) { mpz_set(z, k.n); mpz_combit(z, 1 + t.range(0, mpz_sizeinbase(k.n, 2) - 3)); put(&pub.r.N, z); pair = false; }
        if (how == 3) { mpz_add_ui(z, k.e, 2); put(&pub.r.E, z); pair = false; }
        if (how == 4) { mpz_add_ui(z, k.d, 2); put(&r.r.D, z); pair = false; }
        if (how == 5) { mpz_add_ui(z, k.n, 1); put(&pub.r.N, z); pair = false; }
        mpz_clear(z);
        int got = mbedtls_rsa_check_pub_priv(&pub.r, &r.r);
        c.note("RSA ", mpz_sizeinbase(k.n, 2), " bits, pair check ", how);
        // e a 64-bit number at most for the check of a public key
        if (pair) CHECK(got == 0 || mpz_sizeinbase(k.e, 2) > 64, "the two halves of a key are said not to match (", got, ")");
        else CHECK(got != 0, "halves of different keys are said to match (", how, ")");
        c.nontrivial();
        c.label(pair ? "RSA pair" : "RSA pair: halves of different keys");
        return;
    }
    bool priv = t.pick(2), text = t.pick(2);
    Bytes der = priv ? ref_private_der(k) : ref_spki_der(k);
    std::string pemt = ref_pem(priv ? "RSA PRIVATE KEY" : "PUBLIC KEY", der);
    size_t need = text ? pemt.size() + 1 : der.size();
    size_t size = t.pick(2) ? need + 2 : t.pick(2) ? need + t.pick(100) + 2 : t.range(0, need - 1);
    if (!text && t.pick(2) && size > need) size = need;
    Exact buf(size);
    c.note("RSA ", mpz_sizeinbase(k.n, 2), " bits, ", priv ? "private " : "public ", text ? "PEM" : "DER", " into ", size, " (", need, " needed)");
    heap::watch(true);
    int ret = text ? (priv ? mbedtls_rsa_write_key_pem(&r.r, buf.data(), size) : mbedtls_rsa_write_pubkey_pem(&r.r, buf.data(), size))
                   : (priv ? mbedtls_rsa_write_key_der(&r.r, buf.data(), size) : mbedtls_rsa_write_pubkey_der(&r.r, buf.data(), size));
    heap::watch(false);
    CHECK(heap::outstanding() == 0, "writing a key leaks");
    c.nontrivial();
    std::string lab = std::string(priv ? "RSA private " : "RSA public ") + (text ? "PEM" : "DER");
    Bytes blob;
    if (size < need) { CHECK(ret < 0, lab, ": writing ", need, " bytes into ", size, " returned ", ret); c.label(lab + ": short buffer"); blob = text ? B(pemt) : der; if (text) blob.push_back(0); }
    else {
        CHECK(ret == (text ? 0 : int(need)), lab, ": writing returned ", ret);
        blob = text ? Bytes(buf.data(), buf.data() + need) : Bytes(buf.data() + size - need, buf.data() + size);
        if (text) CHECK(eq(Bytes(blob.begin(), blob.end() - 1), pemt) && blob.back() == 0, lab, " text"); else CHECK(blob == der, lab, ": ", hex(blob), " instead of ", hex(der));
        c.label(lab);
    }
    // parse back, as is or damaged
    bool cut = t.pick(4) == 0;
    if (cut) { if (text) blob.erase(blob.begin() + long(t.range(0, blob.size() - 2)), blob.end() - 1); else blob.resize(t.range(0, blob.size() - 1)); }
    Exact in(blob);
    heap::watch(true);
    {
        Rsa q;
        ret = priv ? mbedtls_rsa_parse_key(&q.r, in.data(), blob.size(), nullptr, 0) : mbedtls_rsa_parse_public_key(&q.r, in.data(), blob.size());
        heap::pause(1);
        bool accepted = ret == 0;
        if (!cut) CHECK(accepted, lab, ": its own encoding was refused (", ret, ")");
        if (accepted) {
            same(&q.r.N, k.n, "n"); same(&q.r.E, k.e, "e");
            CHECK(q.r.len == (mpz_sizeinbase(k.n, 2) + 7) / 8, "key length ", q.r.len);
            if (priv) { same(&q.r.D, k.d, "d"); same(&q.r.P, k.p, "p"); same(&q.r.Q, k.q, "q"); same(&q.r.DP, k.dp, "dp"); same(&q.r.DQ, k.dq, "dq"); same(&q.r.QP, k.qinv, "qinv"); }
        }
        CHECK(!(cut && accepted && !text), lab, ": a truncated key was accepted");
        heap::pause(-1);
    }
    heap::watch(false);
    CHECK(heap::outstanding() == 0, "parsing a key (", ret, ") leaks ", heap::outstanding(), " blocks");
}
// DER of more than 2^24 bytes (a length of four bytes), base64 and PEM of as many
static void long_case(Tape& t, Ctx& c)
{
    Stream g(t);
    size_t n = (size_t(1) << 24) + g.below(3000000);
    Bytes body = g.bytes(n), want = der_tlv(4, body);
    std::unique_ptr<uint8_t[]> buf(new uint8_t[want.size()]);
    unsigned char *p = buf.get() + want.size(), *start = buf.get();
    int ret = mbedtls_asn1_write_octet_string(&p, start, body.data(), n);
    CHECK(ret == int(want.size()) && p == start && memcmp(p, want.data(), want.size()) == 0, "writing an octet string of ", n, " bytes returned ", ret);
    size_t len = 0;
    p = start;
    ret = mbedtls_asn1_get_tag(&p, start + want.size(), &len, 4);
    CHECK(ret == 0 && len == n && p == start + want.size() - n, "reading an octet string of ", n, " bytes returned ", ret, ", length ", len);
    p = start;
    CHECK(mbedtls_asn1_get_tag(&p, start + want.size() - 1, &len, 4) != 0, "an octet string of ", n, " bytes without its last byte was accepted");
    p = start;
    CHECK(mbedtls_asn1_get_tag(&p, start + n / 2, &len, 4) != 0, "half an octet string of ", n, " bytes was accepted");
    std::string b64 = ref_b64(body);
    std::unique_ptr<uint8_t[]> e(new uint8_t[b64.size() + 1]), d(new uint8_t[n]);
    ret = mbedtls_base64_encode(e.get(), b64.size() + 1, &len, body.data(), n);
    CHECK(ret == 0 && len == b64.size() && memcmp(e.get(), b64.data(), len) == 0, "base64 of ", n, " bytes returned ", ret, ", ", len, " symbols");
    ret = mbedtls_base64_decode(d.get(), n, &len, e.get(), b64.size());
    CHECK(ret == 0 && len == n && memcmp(d.get(), body.data(), n) == 0, "decoding ", b64.size(), " base64 symbols returned ", ret, ", ", len, " bytes");
    c.note("contents of ", n, " bytes");
    c.label("more than 2^24 bytes");
    c.nontrivial();
}
void pbt::prop_case(Tape& t, Ctx& c)
{
    if (t.longrun()) return long_case(t, c);
    rng_seed(1);
    switch (t.pick(14)) {
    case 0: base64_encode(t, c); break;
    case 1: case 2: base64_decode(t, c); break;
    case 3: pem(t, c); break;
    case 4: case 5: der_write(t, c); break;
    case 6: case 7: case 8: der_read(t, c); break;
    case 9: der_parts(t, c); break;
    case 10: if (t.pick(3)) der_sequence_of(t, c); else named_list(t, c); break;
    default: rsa_keys(t, c);
    }
}
