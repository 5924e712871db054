// C24: public key codec. Every entry point (SEC bytes, hex text, constructors, x-only, raw coordinates; ECPoint and
// PublicKey) is run on every encoding of a point set (all small x coordinates, limb-boundary x coordinates, multiples of
// the generator), on every prefix byte, every truncation, every coordinate alteration of a set; the verdict and the
// decoded coordinates are judged against independent curve arithmetic.
#include "lib.h"
#include "BitcoinCurve.h"
using ref::U; using ref::Pt;
struct Want { bool ok = false; Pt p; bool comp = true; };
static Want judge(const bytes &b) { Want w; if (b.empty()) return w; if (b[0] == 2 || b[0] == 3) { if (b.size() < 33) return w; w.ok = ref::lift(ref::fromB(sub(b, 1, 32)), b[0] == 3, w.p); return w; }
  if (b[0] == 4) { if (b.size() < 65) return w; U x = ref::fromB(sub(b, 1, 32)), y = ref::fromB(sub(b, 33, 32)); w.comp = false; w.ok = ref::oncurve(x, y); w.p = Pt(x, y); } return w; }
static void same(const ECPoint &q, const Want &w, const char *how, const bytes &in) {
  std::string ctx = std::string(how) + " of " + ref::hex(in); step(); ok(q.isValid() == w.ok && bool(q) == w.ok, w.ok ? "valid-key-rejected" : "invalid-key-accepted", ctx); if (!w.ok) { outcome("rejected"); return; }
  eq(pointof(q), pt64(w.p), "decoded-point", ctx); eqn(q.compressed, w.comp, "decoded-form", ctx); ok(q.isEven() == !w.p.y.odd(), "parity", ctx); bytes e = ref::sec(w.p, w.comp); eqn(q.length(), e.size(), "length", ctx); eq(secof(q), e, "encoded", ctx); eq(ser(q), e, "serialized", ctx); eq(q.sec(), ref::hex(e), "encoded-text", ctx); eq(q.toString(), ref::hex(e), "text", ctx); uint8_t x[32]; eqn(q.x(x, 32), 32, "x-length", ctx); eq(bytes(x, x + 32), ref::toB(w.p.x), "x", ctx); eq(q.x(), ref::hex(ref::toB(w.p.x)), "x-text", ctx); outcome(w.comp ? "accepted-compressed" : "accepted-uncompressed"); }
static std::string upper(std::string s) { for (auto &c : s) c = toupper(c); return s; }
// all ways to read SEC bytes
static void entry(const bytes &b, bool full) {
  Want w = judge(b); state(b); std::string h = ref::hex(b);
  { Exact e(b); ECPoint q; size_t n = q.fromSec(e.p, e.n); ok(n <= b.size(), "consumed", h); same(q, w, "fromSec", b); if (w.ok) eqn(n, w.comp ? 33 : 65, "consumed", h); }
  { Exact e(b); PublicKey q; q.parse(e.p, e.n); same(q, w, "PublicKey parse", b); }
  { PublicKey q; q.parse(h); same(q, w, "parse text", b); }
  if (full) {
    { ECPoint q(h.c_str()); same(q, w, "ECPoint(text)", b); } { PublicKey q(h.c_str()); same(q, w, "PublicKey(text)", b); ECPoint c = q; same(c, w, "copy", b); }
    { PublicKey q; q.fromString(upper(h).c_str()); same(q, w, "fromString upper case", b); }
    size_t need = b.size() && b[0] == 4 ? 65 : 33; if (b.size() >= need) { Exact e(b); ECPoint q((const uint8_t *)e.p); same(q, w, "ECPoint(bytes)", b); PublicKey r((const uint8_t *)e.p); same(r, w, "PublicKey(bytes)", b); } }
}
static std::vector<U> &XS() { static std::vector<U> v; if (v.empty()) { int m = thorough ? 20000 : 1000; for (int i = 0; i < m; i++) v.push_back(U(i)); for (int i = 0; i < 300; i++) { U r; if (i < 200) ref::subb(r, ref::P(), U(i + 1)); else ref::addc(r, ref::P(), U(i - 200)); v.push_back(r); } // x around p: values >= p are no coordinates
    for (int b = 8; b < 256; b++) { U x; x.v[b / 64] = 1ULL << (b % 64); v.push_back(x); U y; ref::subb(y, x, U(1)); v.push_back(y); ref::addc(y, x, U(1)); v.push_back(y); } U f; ref::subb(f, U(0), U(1)); v.push_back(f); for (int i = 1; i < 40; i++) v.push_back(ref::mulG(U(i)).x); for (int i = 0; i < 32; i++) { bytes z(32, 0x5a); z[i] = 0; v.push_back(ref::fromB(z)); z[i] = 0xff; v.push_back(ref::fromB(z)); } }
  return v; }
static void bycoord() { size_t xi = choose(XS().size()); int k = choose(6); const U &x = XS()[xi]; if (k < 2) { entry(ref::cat({(uint8_t)(2 + k)}, ref::toB(x)), xi % 7 == 0); return; }
  Pt p; bool on = ref::lift(ref::modm(x, ref::P()), false, p); U y = on ? p.y : U(5); if (k == 3) y = ref::negm(y, ref::P()); if (k == 4) { U t; if (ref::addc(t, y, ref::P()) == 0) y = t; else ref::addc(y, y, U(1)); } if (k == 5) y.v[xi % 4] ^= 1ULL << (xi * 7 % 64); entry(ref::cat(ref::cat({4}, ref::toB(x)), ref::toB(y)), xi % 7 == 0); }
static std::vector<Pt> &KS() { static std::vector<Pt> v; if (v.empty()) { for (int i = 1; i <= 8; i++) { v.push_back(ref::mulG(U(i))); v.push_back(ref::neg(v.back())); } v.push_back(ref::mulG(ref::fromH("6a5b4c3d2e1f00112233445566778899aabbccddeeff0123456789abcdef0011"))); Pt p; ref::lift(U(1), true, p); v.push_back(p); } return v; }
static void prefix() { const Pt &p = pick(KS()); bool c = flip(); bytes b = ref::sec(p, c); b[0] = choose(256); entry(b, true); }
static void trunc() { const Pt &p = pick(KS()); bool c = flip(); bytes b = ref::sec(p, c); size_t n = choose(b.size() + 40); if (n < b.size()) b.resize(n); else while (b.size() < n) b.push_back(0x02 + b.size() % 3); entry(b, b.size() >= 33); }
static void bits() { const Pt &p = KS()[choose(thorough ? 18 : 4)]; bool c = flip(); bytes b = ref::sec(p, c); size_t i = choose(b.size() * 8); b[i / 8] ^= 1 << (i % 8); entry(b, false); }
static void raw() { // raw coordinates and x-only form
  size_t xi = choose(XS().size()); int k = choose(3); const U &x = XS()[xi]; Pt p; bool on = ref::lift(x, k == 1, p); bytes c = on ? pt64(p) : ref::cat(ref::toB(x), ref::toB(U(xi % 5))); if (on && k == 2) c[63] ^= 2; bool good = on && k != 2; if (!on && ref::oncurve(x, U(xi % 5))) good = true; bool comp = flip();
  PublicKey q(c.data(), comp); Want w; w.ok = good; w.p = Pt(ref::fromB(sub(c, 0, 32)), ref::fromB(sub(c, 32, 32))); w.comp = comp; same(q, w, "coordinates", c); ECPoint e(c.data(), comp); same(e, w, "coordinates", c);
  if (k == 0) { Want v; v.ok = on; v.p = p; ECPoint o; bytes xb = ref::toB(x); Exact eb(xb); size_t n = o.from_x(eb.p, 32); (void)n; same(o, v, "from_x", xb); ECPoint s; eqn(s.from_x(eb.p, xi % 32), 0, "from_x-short", ""); ok(!s.isValid(), "from_x-short-valid", ""); uint8_t t[31]; if (on) eqn(o.x(t, 31), 0, "x-buffer", ""); } state(ref::fnv(c, k)); }
static void keys() { // key -> public key -> both encodings -> key
  static const uint64_t ks[] = {1, 2, 3, 255, 256, 65537, 0xffffffff, 0x123456789abcdefULL}; int i = choose(16); U d(ks[i % 8]); if (i >= 8) d = ref::negm(d, ref::N()); Pt p = ref::mulG(d); PrivateKey k(ref::toB(d).data(), flip()); PublicKey q = k.publicKey(); Want w; w.ok = true; w.p = p; w.comp = q.compressed; same(q, w, "publicKey", ref::toB(d)); bool f = flip(); q.compressed = f; w.comp = f; same(q, w, "publicKey other form", ref::toB(d)); entry(ref::sec(p, f), true); }
// all sequences of reading keys into one object: the last one wins, whatever came before
static void history() { std::vector<bytes> C = {ref::sec(KS()[0], true), ref::sec(KS()[3], false), ref::sec(KS()[5], true), ref::sec(KS()[6], false), ref::cat({2}, ref::toB(U(5))), ref::cat({7}, bytes(32, 1)), bytes(20, 3)}; PublicKey q; std::string tr; for (int d = 0; d < (thorough ? 4 : 3); d++) { int c = choose(7); tr += fmt(" %d", c); if (q.getStatus() != PARSING_DONE || flip()) q.reset(); q.parse(C[c].data(), C[c].size()); same(q, judge(C[c]), "history", C[c]); } state(ref::fnv(tr)); }
void define_spaces() { XS(); KS(); space("coordinates", 1, [] { bycoord(); }); space("prefix", 1, [] { prefix(); }); space("truncation", 1, [] { trunc(); }); space("bits", 1, [] { bits(); }); space("raw", 1, [] { raw(); }); space("keys", 1, [] { keys(); }); space("history", 1, [] { history(); }); }
