// C23: scalar and point arithmetic. All pairs of a boundary-value set of scalars under every operator, all pairs
// of a set of multiples of the generator (with their negatives, the identity, both encodings) under point
// addition and subtraction, all (scalar, point) products, all operator sequences up to a depth over a small set;
// judged against independent 256-bit modular and group arithmetic.
#include "lib.h"
#include "BitcoinCurve.h"
using ref::U; using ref::Pt; using ref::N;
static const std::vector<U> &SC() { static std::vector<U> v; if (v.empty()) { auto add = [&](U x) { x = ref::modm(x, N()); for (auto &y : v) if (y == x) return; v.push_back(x); }; auto mi = [&](uint64_t d) { U r; ref::subb(r, N(), U(d)); return r; };
    for (uint64_t x : {0, 1, 2, 3, 4, 5, 255, 256, 257}) add(U(x)); for (uint64_t x : {1, 2, 3, 256}) add(mi(x)); for (uint64_t x : {0x3fffffffULL, 0x40000000ULL, 0x7fffffffULL, 0xffffffffULL, 0x100000000ULL, ~0ULL}) { add(U(x)); add(mi(x)); }
    U h = N(); for (int i = 0; i < 4; i++) h.v[i] = N().v[i] >> 1 | (i < 3 ? N().v[i + 1] << 63 : 0); add(h); U h1; ref::addc(h1, h, U(1)); add(h1); ref::subb(h1, h, U(1)); add(h1);
    for (int b : {30, 60, 90, 120, 127, 128, 150, 180, 210, 240, 255}) { U x; x.v[b / 64] = 1ULL << (b % 64); add(x); U y; ref::subb(y, x, U(1)); add(y); } U f; ref::subb(f, U(0), U(1)); add(f); // 2^256-1 mod n
    add(ref::fromH("6a5b4c3d2e1f00112233445566778899aabbccddeeff0123456789abcdef0011")); add(ref::fromH("c90fdaa22168c234c4c6628b80dc1cd129024e088a67cc74020bbea63b14e5c9")); add(ref::fromH("5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72")); // last: cube root of unity mod n
    add(ref::fromH("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140")); add(ref::fromH("0000000000000000000000000000000100000000000000000000000000000000")); add(ref::fromH("00000000ffffffff00000000ffffffff00000000ffffffff00000000ffffffff")); }
  return v; }
static ECScalar sc(const U &u) { ECScalar s; bytes b = ref::toB(u); s.setSecret(b.data()); return s; }
static bytes sb(const ECScalar &s) { return secretof(s); }
static void same(const ECScalar &got, const U &want, const std::string &k, const std::string &ctx) { eq(sb(got), ref::toB(want), k, ctx); ok(got.isValid() == !want.zero(), k + "-valid", ctx); step(); }
static void scal() {
  const U &a = pick(SC()), &b = pick(SC()); std::string ctx = "a=" + ref::hex(ref::toB(a)) + " b=" + ref::hex(ref::toB(b)); ECScalar x = sc(a), y = sc(b); const U &n = N();
  same(x + y, ref::addm(a, b, n), "add", ctx); same(x - y, ref::subm(a, b, n), "subtract", ctx); same(x * y, ref::mulm(a, b, n), "multiply", ctx); same(-x, ref::negm(a, n), "negate", ctx);
  { bytes ab = ref::toB(a), bb = ref::toB(b); ECScalar p(ab.data(), 32), q(ref::hex(bb).c_str()); same(p, a, "from-bytes", ctx); same(q, b, "from-hex", ctx); same(p + q, ref::addm(a, b, n), "add-parsed", ctx); same(p * q, ref::mulm(a, b, n), "multiply-parsed", ctx); p += q; same(p, ref::addm(a, b, n), "add-assign-parsed", ctx); } ECScalar t = x; t += y; same(t, ref::addm(a, b, n), "add-assign", ctx); t = x; t -= y; same(t, ref::subm(a, b, n), "subtract-assign", ctx); t = x; t *= y; same(t, ref::mulm(a, b, n), "multiply-assign", ctx);
  if (!b.zero()) { U q = ref::mulm(a, ref::invm(b, n), n); same(x / y, q, "divide", ctx); t = x; t /= y; same(t, q, "divide-assign", ctx); } else { ECScalar z = x / y; (void)z; outcome("division-by-zero-returns"); }
  ok((x == y) == (a == b) && (x != y) != (a == b), "equality", ctx); ok((x < y) == (a < b) && (x > y) == (b < a) && (x <= y) == !(b < a) && (x >= y) == !(a < b), "order", ctx); ok(x.isValid() == !a.zero() && bool(x) == !a.zero(), "isValid", ctx); same(x, a, "operand-changed", ctx); same(y, b, "operand-changed", ctx); state(ref::fnv(ref::cat(ref::toB(a), ref::toB(b)))); outcome("scalar-ok");
}
static void smallint() { const U &a = pick(SC()); static const uint32_t I[] = {0, 1, 2, 255, 256, 0x3fffffff, 0x40000000, 0x7fffffff, 0x80000000, 0xbfffffff, 0xc0000000, 0xfffffffe, 0xffffffff}; uint32_t i = I[choose(13)]; std::string ctx = "a=" + ref::hex(ref::toB(a)) + fmt(" i=%u", i); ECScalar x = sc(a); const U &n = N(); U u(i);
  same(ECScalar(i), u, "from-int", ctx); same(x + i, ref::addm(a, u, n), "add-int", ctx); same(x - i, ref::subm(a, u, n), "subtract-int", ctx); same(i + x, ref::addm(a, u, n), "int-add", ctx); same(i - x, ref::subm(u, a, n), "int-subtract", ctx); same(x * i, ref::mulm(a, u, n), "multiply-int", ctx); same(i * x, ref::mulm(a, u, n), "int-multiply", ctx); if (i) same(x / i, ref::mulm(a, ref::invm(u, n), n), "divide-int", ctx); if (!a.zero()) same(i / x, ref::mulm(u, ref::invm(a, n), n), "int-divide", ctx); ECScalar t = x; t += i; same(t, ref::addm(a, u, n), "add-int-assign", ctx); t = x; t -= i; same(t, ref::subm(a, u, n), "subtract-int-assign", ctx); state(ref::fnv(ref::toB(a), i)); outcome("int-ok"); }
static std::vector<std::pair<U, Pt>> &PTS() { static std::vector<std::pair<U, Pt>> v; if (v.empty()) { auto &s = SC(); for (size_t i = 0; i < s.size(); i++) if (i < 24 || i % (thorough ? 1 : 3) == 0 || i + 4 > s.size()) v.push_back({s[i], ref::mulG(s[i])}); U third = ref::invm(U(3), N()); v.push_back({third, ref::mulG(third)}); } return v; }
static ECPoint lp(const Pt &p, bool comp) { bytes b = pt64(p); if (p.inf) { ECPoint e; e.compressed = comp; return e; } return ECPoint(b.data(), comp); }
static void samep(const ECPoint &got, const Pt &want, const std::string &k, const std::string &ctx) { eq(pointof(got), pt64(want), k, ctx); ok(got.isValid() == !want.inf, k + "-valid", ctx); step(); }
static void points() {
  auto &a = pick(PTS()), &b = pick(PTS()); bool ca = flip(), cb = flip(); std::string ctx = "P=" + ref::hex(ref::toB(a.first)) + "*G Q=" + ref::hex(ref::toB(b.first)) + fmt("*G %d%d", ca, cb); ECPoint x = lp(a.second, ca), y = lp(b.second, cb);
  samep(x + y, ref::add(a.second, b.second), "point-add", ctx); samep(x - y, ref::add(a.second, ref::neg(b.second)), "point-subtract", ctx); samep(-x, ref::neg(a.second), "point-negate", ctx); if (x.isValid()) eqn((-x).compressed, x.compressed, "negate-form", ctx); ECPoint t = x; t += y; samep(t, ref::add(a.second, b.second), "point-add-assign", ctx); t = x; t -= y; samep(t, ref::add(a.second, ref::neg(b.second)), "point-subtract-assign", ctx);
  ok((x == y) == (a.second == b.second) && (x != y) != (x == y), "point-equality", ctx); if (!a.second.inf) ok(x.isEven() == !a.second.y.odd(), "isEven", ctx); samep(x, a.second, "operand-changed", ctx); samep(y, b.second, "operand-changed", ctx); state(ref::fnv(ref::cat(ref::toB(a.first), ref::toB(b.first)), 77)); outcome("points-ok");
}
static void prod() { auto &p = pick(PTS()); const U &k = pick(SC()); std::string ctx = ref::hex(ref::toB(k)) + " * (" + ref::hex(ref::toB(p.first)) + "*G)"; ECPoint x = lp(p.second, flip()); ECScalar s = sc(k); Pt w = ref::mulG(ref::mulm(k, p.first, N())); ECPoint r = s * x; samep(r, w, "scalar-multiply", ctx); eqn(r.compressed, x.compressed, "form-kept", ctx); samep(x * s, w, "multiply-scalar", ctx); if (!k.zero()) samep(x / s, ref::mulG(ref::mulm(ref::invm(k, N()), p.first, N())), "divide-by-scalar", ctx); state(ref::fnv(ref::cat(ref::toB(p.first), ref::toB(k)), 78)); outcome("product-ok"); }
// points chosen by their x coordinate (small, close to p, powers of two): limb boundaries of the field arithmetic
static std::vector<Pt> &XP() { static std::vector<Pt> v; if (v.empty()) { std::vector<U> xs; for (int i = 0; i < 12; i++) xs.push_back(U(i)); for (int i = 1; i < 12; i++) { U r; ref::subb(r, ref::P(), U(i)); xs.push_back(r); } for (int b = 10; b < 256; b += thorough ? 5 : 15) for (int d = 0; d < 4; d++) { U x; x.v[b / 64] = 1ULL << (b % 64); U y; if (d < 2) ref::addc(y, x, U(d)); else ref::subb(y, x, U(d - 1)); xs.push_back(y); } for (auto &x : xs) { Pt p; if (x < ref::P() && ref::lift(x, false, p)) { v.push_back(p); v.push_back(ref::neg(p)); } } v.push_back(Pt()); v.push_back(ref::G()); } return v; }
static void xpoints() { const Pt &a = pick(XP()), &b = pick(XP()); std::string ctx = "P=" + ref::hex(pt64(a)) + " Q=" + ref::hex(pt64(b)); ECPoint x = lp(a, true), y = lp(b, false); samep(x + y, ref::add(a, b), "point-add", ctx); samep(x - y, ref::add(a, ref::neg(b)), "point-subtract", ctx); samep(-x, ref::neg(a), "point-negate", ctx); state(ref::fnv(ref::cat(pt64(a), pt64(b)), 81)); outcome("xpoints-ok"); }
static void xprod() { const Pt &a = pick(XP()); const U &k = pick(SC()); ECPoint x = lp(a, true); samep(sc(k) * x, ref::mul(k, a), "scalar-multiply", ref::hex(ref::toB(k)) + " * " + ref::hex(pt64(a))); state(ref::fnv(ref::cat(pt64(a), ref::toB(k)), 82)); outcome("xproduct-ok"); }
// every 4-bit window of the scalar: digits d at position i, and all-ones / alternating neighbours
static void windows() { int i = choose(64), d = 1 + choose(15), bg = choose(4); U k; for (int j = 0; j < 64; j++) { int v = j == i ? d : bg == 0 ? 0 : bg == 1 ? (j < i ? 15 : 0) : bg == 2 ? (j < 60 ? 15 : 7) : (j & 1 ? 8 : 1); k.v[j / 16] |= (uint64_t)v << (4 * (j % 16)); } k = ref::modm(k, N()); std::string ctx = ref::hex(ref::toB(k)); samep(sc(k) * GeneratorPoint, ref::mulG(k), "generator-multiply", ctx); Pt q; ref::lift(U(2), true, q); samep(sc(k) * lp(q, true), ref::mul(k, q), "scalar-multiply", ctx); state(ref::fnv(ref::toB(k), 83)); outcome("window-ok"); }
static void sortcmp() { auto &a = pick(PTS()), &b = pick(PTS()); if (a.second.inf || b.second.inf) return; bool ca = flip(), cb = flip(); bytes sa = ref::sec(a.second, ca), sb_ = ref::sec(b.second, cb); ECPoint x = lp(a.second, ca), y = lp(b.second, cb); std::string ctx = ref::hex(sa) + " vs " + ref::hex(sb_); ok((x < y) == (sa < sb_), "point-order", ctx); ok((x > y) == (sb_ < sa) && (x <= y) == !(sb_ < sa) && (x >= y) == !(sa < sb_), "point-order", ctx); step(4); state(ref::fnv(ref::cat(sa, sb_))); outcome("order-ok"); }
static void history() { // accumulate: all sequences of operations on one scalar and one point
  static const int SI[] = {0, 1, 2, 10, 12}; U a = SC()[SI[choose(5)]]; ECScalar x = sc(a); Pt p = ref::mulG(a); ECPoint P = sc(a) * GeneratorPoint; std::string tr = ref::hex(ref::toB(a)); samep(P, p, "generator-multiply", tr);
  for (int d = 0; d < (thorough ? 4 : 3); d++) { int o = choose(9); U b = SC()[o % 3 == 0 ? 1 : o % 3 == 1 ? 10 : 40]; ECScalar y = sc(b); ECPoint Y = y * GeneratorPoint; tr += fmt(" op%d", o); switch (o / 3) { case 0: x += y; a = ref::addm(a, b, N()); P += Y; break; case 1: x -= y; a = ref::subm(a, b, N()); P -= Y; break; default: x *= y; a = ref::mulm(a, b, N()); P = y * P; } same(x, a, "history-scalar", tr); samep(P, ref::mulG(a), "history-point", tr); }
  samep(x * GeneratorPoint, ref::mulG(a), "history-consistent", tr); state(ref::fnv(tr)); outcome("history-ok");
}
void define_spaces() { SC(); space("scalars", 1, [] { scal(); }); space("scalar-int", 1, [] { smallint(); }); space("points", 2, [] { points(); }); space("products", 2, [] { prod(); }); space("x-points", 1, [] { xpoints(); }); space("x-products", 1, [] { xprod(); }); space("windows", 1, [] { windows(); }); space("order", 1, [] { sortcmp(); }); space("history", 2, [] { history(); }); }
