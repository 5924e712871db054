// C40: the bundled big-number and curve routines (bignum.c, ecdsa.c, secp256k1.c) compute the documented functions on the whole
// documented domain, including the unreduced and unnormalized representations that the routines hand to each other, operands that
// share storage, the special cases of the group law, and signing that has to retry. Oracle: exact integers (boost cpp_int) for the
// arithmetic, the independent reference curve for the points. Only documented facts are judged: congruence, the stated range and
// normalization, never the particular unreduced representative.
#include "lib.h"
#include <boost/multiprecision/cpp_int.hpp>
extern "C" {
#include "utility/trezor/bignum.h"
#include "utility/trezor/ecdsa.h"
#include "utility/trezor/secp256k1.h"
}
using ref::U; using ref::Pt; typedef boost::multiprecision::cpp_int Z;
static Z zb(const bytes &b) { Z r = 0; for (uint8_t c : b) { r <<= 8; r += c; } return r; }
static Z zu(const U &u) { return zb(ref::toB(u)); }
static bytes bz(Z z, size_t n = 32) { bytes b(n); for (size_t i = n; i-- > 0;) { b[i] = (uint8_t)(z & 255); z >>= 8; } return b; }
static U uz(const Z &z) { return ref::fromB(bz(z)); }
static std::string str(const Z &z) { std::ostringstream o; o << std::hex << z; return o.str(); }
static const Z TWO = 2;
static Z pow2(unsigned k) { return Z(1) << k; }
static Z val(const bignum256 &b) { Z r = 0; for (int i = 8; i >= 0; i--) { r <<= 30; r += b.val[i]; } return r; }
static bignum256 mk(Z z) { bignum256 b; for (int i = 0; i < 9; i++) { b.val[i] = (uint32_t)(z & 0x3fffffff); z >>= 30; } return b; }
static bool normal(const bignum256 &b) { for (int i = 0; i < 9; i++) if (b.val[i] >> 30) return false; return true; }
static void is(const bignum256 &b, const Z &w, const char *key, const std::string &ctx) { ok(normal(b), std::string(key) + "-normalized", ctx); if (val(b) != w) fail(key, ctx + " got " + str(val(b)) + " want " + str(w)); }
struct Mod { const char *name; const bignum256 *m; Z z; };
static const Mod &modulus(int i) { static const Mod v[2] = {{"p", &secp256k1.prime, zu(ref::P())}, {"n", &secp256k1.order, zu(ref::N())}}; return v[i]; }
static void cong(const bignum256 &b, const Z &w, const Mod &m, const Z &limit, const char *key, const std::string &ctx) { ok(normal(b), std::string(key) + "-normalized", ctx); Z g = val(b); if ((g - w) % m.z != 0) fail(key, ctx + " modulo " + m.name + " got " + str(g) + " want " + str(((w % m.z) + m.z) % m.z)); ok(g < limit, std::string(key) + "-range", ctx + " got " + str(g)); }

// numbers below `lim`: powers of two and neighbours, multiples of both moduli and neighbours, limb patterns on several backgrounds
static std::vector<Z> &numbers(int kind) { static std::vector<Z> c[4]; std::vector<Z> &v = c[kind]; if (!v.empty()) return v; const Z &p = modulus(0).z, &n = modulus(1).z; std::set<Z> s; Z lim = kind == 0 ? pow2(256) : kind == 1 ? 2 * n : kind == 2 ? pow2(263) : pow2(270); unsigned bits = kind == 0 || kind == 1 ? 256 : kind == 2 ? 263 : 270; unsigned st = thorough || kind == 0 ? 1 : 3;
  for (unsigned k = 0; k <= bits; k += st) for (int d = -1; d <= 1; d++) s.insert(pow2(k) + d); for (unsigned k = 0; k <= 270; k += 30) for (int d = -2; d <= 2; d++) s.insert(pow2(k) + d);
  for (const Z *m : {&p, &n}) { for (int k : {1, 2, 3, 4, 5, 7, 8, 15, 16, 100, 127, 179}) for (int d = -2; d <= 2; d++) s.insert(k * *m + d); for (int d = -2; d <= 2; d++) { s.insert(*m / 2 + d); s.insert(*m / 3 + d); s.insert(*m * 3 / 2 + d); } }
  s.insert(pow2(256) - p); s.insert(pow2(256) - n); s.insert(p - n);
  std::vector<Z> bg = {0, pow2(bits) - 1, p, 2 * n - 1, zb(ref::sha256(ref::B("bg")))}; static const uint32_t L[] = {0, 1, 0x1fffffff, 0x20000000, 0x3fffffff};
  for (size_t b = 0; b < bg.size(); b++) for (int i = 0; i < 9; i++) for (uint32_t x : L) { bignum256 t = mk(bg[b]); t.val[i] = x; s.insert(val(t)); if (kind == 0 || thorough) for (int j = i + 1; j < 9; j += 1) for (uint32_t y : {0u, 0x3fffffffu}) { bignum256 q = t; q.val[j] = y; s.insert(val(q)); } }
  for (int i = 0; i < 30; i++) s.insert(zb(ref::sha256(ref::be(i, 4))));
  for (auto &z : s) if (z >= 0 && z < lim) v.push_back(z); return v; }
static Z num(int kind) { auto &v = numbers(kind); return v[choose(v.size())]; }
// a smaller selection for pairs
static std::vector<Z> &few(int kind) { static std::vector<Z> c[4]; auto &v = c[kind]; if (v.empty()) { const Z &p = modulus(0).z, &n = modulus(1).z; std::set<Z> s = {0, 1, 2, 3, 57, 58, 999, 1000, p / 2, n / 2, n / 2 + 1, p - 2, p - 1, p, p + 1, n - 1, n, n + 1, p - n, pow2(256) - p, pow2(256) - n, pow2(256) - 1, pow2(256), 2 * p - 1, 2 * p, 2 * n - 1, 2 * n - 2, 2 * n, 3 * p, 100 * n + 5, 179 * p, 180 * n - 1}; for (int k = 29; k < 270; k += thorough ? 10 : 30) for (int d = -1; d <= 1; d++) { s.insert(pow2(k + 1) + d); } for (int i = 0; i < (thorough ? 60 : 12); i++) { s.insert(zb(ref::sha256(ref::be(i, 4)))); s.insert(zb(ref::sha256(ref::be(i, 4))) * (2 * i + 3)); } for (int i = 0; i < 9; i++) { bignum256 t = mk(pow2(256) - 1); t.val[i] = 0; s.insert(val(t)); t = mk(0); t.val[i] = i == 8 ? 0xffff : 0x3fffffff; s.insert(val(t)); t.val[i] = i == 8 ? 0x8000 : 0x20000000; s.insert(val(t)); } Z lim = kind == 0 ? pow2(256) : kind == 1 ? 2 * n : kind == 2 ? 180 * n : pow2(269); for (auto &z : s) if (z < lim) v.push_back(z); } return v; }
static Z sel(int kind) { auto &v = few(kind); return v[choose(v.size())]; }

// ---------------------------------------------------------------- representation
static void codec() { Z z = num(0); bytes b = bz(z), l(b.rbegin(), b.rend()); std::string ctx = str(z); bignum256 x; memset(&x, 0xA5, sizeof x); { Exact e(b); bn_read_be(e.p, &x); } is(x, z, "read-be", ctx); memset(&x, 0xA5, sizeof x); { Exact e(l); bn_read_le(e.p, &x); } is(x, z, "read-le", ctx); Exact o(32), q(32); bn_write_be(&x, o.p); bn_write_le(&x, q.p); eq(o.b(), b, "write-be", ctx); eq(q.b(), l, "write-le", ctx);
  bignum256 y; bn_copy(&x, &y); is(y, z, "copy", ctx); int bc = 0; while (pow2(bc) <= z) bc++; eqn(bn_bitcount(&x), bc, "bit-count", ctx); std::ostringstream d; d << z; eqn(bn_digitcount(&x), d.str().size(), "digit-count", ctx); eqn(!!bn_is_zero(&x), z == 0, "is-zero", ctx); eqn(!!bn_is_even(&x), z % 2 == 0, "is-even", ctx); eqn(!!bn_is_odd(&x), z % 2 == 1, "is-odd", ctx);
  if (z < pow2(64)) { uint64_t u = (uint64_t)z; memset(&y, 0xA5, sizeof y); bn_read_uint64(u, &y); is(y, z, "read-64", ctx); ok(bn_write_uint64(&y) == u, "write-64", ctx); } if (z < pow2(32)) { uint32_t u = (uint32_t)z; memset(&y, 0xA5, sizeof y); bn_read_uint32(u, &y); is(y, z, "read-32", ctx); ok(bn_write_uint32(&y) == u, "write-32", ctx); }
  y = x; bn_rshift(&y); is(y, z / 2, "shift-right", ctx); y = x; bn_lshift(&y); is(y, z * 2, "shift-left", ctx); y = x; uint32_t r = 7777; bn_divmod58(&y, &r); is(y, z / 58, "divide-58", ctx); ok(r == z % 58, "remainder-58", ctx); y = x; bn_divmod1000(&y, &r); is(y, z / 1000, "divide-1000", ctx); ok(r == z % 1000, "remainder-1000", ctx);
  is(x, z, "operand-changed", ctx); step(16); state(ref::fnv(b)); outcome("codec"); }
static void bits() { Z z = sel(0); int k = choose(256); std::string ctx = str(z) + fmt(" bit %d", k); bignum256 x = mk(z), y = x; ok(!!bn_testbit(&x, k) == !!(z & pow2(k)), "test-bit", ctx); bn_setbit(&y, k); is(y, z | pow2(k), "set-bit", ctx); y = x; bn_clearbit(&y, k); is(y, (z | pow2(k)) - pow2(k), "clear-bit", ctx); step(3); state(ref::fnv(ctx)); outcome("bits"); }
static void pairs() { Z a = sel(3), b = sel(3); std::string ctx = str(a) + " and " + str(b); bignum256 x = mk(a), y = mk(b), r; ok(!!bn_is_less(&x, &y) == (a < b), "is-less", ctx); ok(!!bn_is_equal(&x, &y) == (a == b), "is-equal", ctx); for (int c = 0; c < 2; c++) { bn_cmov(&r, c, &x, &y); is(r, c ? a : b, "select", ctx); r = x; bn_cmov(&r, c, &r, &y); is(r, c ? a : b, "select-shared", ctx); r = y; bn_cmov(&r, c, &x, &r); is(r, c ? a : b, "select-shared", ctx); } bn_xor(&r, &x, &y); is(r, a ^ b, "xor", ctx); r = x; bn_xor(&r, &r, &y); is(r, a ^ b, "xor-shared", ctx);
  if (a + b < pow2(270)) { r = x; bn_add(&r, &y); is(r, a + b, "add", ctx); } if (2 * a < pow2(270)) { r = x; bn_add(&r, &r); is(r, 2 * a, "add-shared", ctx); } if (a >= b) { bn_subtract(&x, &y, &r); is(r, a - b, "subtract", ctx); r = x; bn_subtract(&r, &y, &r); is(r, a - b, "subtract-shared", ctx); r = y; bn_subtract(&x, &r, &r); is(r, a - b, "subtract-shared", ctx); } if (b < pow2(30) && a + b < pow2(270)) { r = x; bn_addi(&r, (uint32_t)b); is(r, a + b, "add-small", ctx); } is(x, a, "operand-changed", ctx); is(y, b, "operand-changed", ctx); step(12); state(ref::fnv(ctx)); outcome("pairs"); }
// ---------------------------------------------------------------- modular arithmetic
static void unary() { const Mod &m = modulus(choose(2)); int kind = choose(4); Z z = num(kind); std::string ctx = str(z); Z lim = 2 * m.z; bignum256 x = mk(z), r; r = x; bn_fast_mod(&r, m.m); cong(r, z, m, lim, "reduce", ctx); for (int k = 0; k <= 4; k++) { r = x; bn_mult_k(&r, k, m.m); cong(r, k * z, m, lim, "times-small", ctx + fmt(" times %d", k)); }
  if (z < lim) { r = x; bn_mod(&r, m.m); is(r, z % m.z, "mod", ctx); r = x; bn_mult_half(&r, m.m); ok(normal(r), "half-normalized", ctx); Z h = val(r); ok((2 * h - z) % m.z == 0, "half", ctx + " got " + str(h)); ok(h < lim, "half-range", ctx); } for (uint32_t d : {0u, 1u, 3u, 7u}) if (z < pow2(269)) { r = x; bn_subi(&r, d, m.m); cong(r, z - d, m, z + m.z + 1, "subtract-small", ctx + fmt(" minus %u", d)); }
  if (kind == 3) { bignum256 q = x; for (int i = 0; i < 8; i++) { uint32_t up = q.val[i + 1]; if (up) { uint32_t t = up < 3 ? up : 3; q.val[i + 1] -= t; q.val[i] += t << 30; } } r = q; bn_normalize(&r); is(r, z, "normalize", ctx); r = q; bn_fast_mod(&r, m.m); cong(r, z, m, lim, "reduce-unnormalized", ctx); bignum256 big; for (int i = 0; i < 9; i++) big.val[i] = x.val[i] << 2 | 3; r = big; bn_fast_mod(&r, m.m); cong(r, val(big), m, lim, "reduce-any-limbs", ctx); } step(9); state(ref::fnv("mod " + ctx + m.name)); outcome("unary"); }
static void products() { const Mod &m = modulus(choose(2)); Z a = sel(2), b = sel(2); std::string ctx = str(a) + " and " + str(b); Z lim = 2 * m.z; bignum256 x = mk(a), y = mk(b), r; r = y; bn_multiply(&x, &r, m.m); cong(r, a * b, m, lim, "multiply", ctx); is(x, a, "operand-changed", ctx); if (a == b) { r = x; bn_multiply(&r, &r, m.m); cong(r, a * a, m, lim, "square-shared", ctx); }
  if (a < lim && b < lim) { r = x; bn_addmod(&r, &y, m.m); cong(r, a + b, m, lim, "add-mod", ctx); if (a == b) { r = x; bn_addmod(&r, &r, m.m); cong(r, 2 * a, m, lim, "add-mod-shared", ctx); } } if (b < lim) { bn_subtractmod(&x, &y, &r, m.m); cong(r, a - b, m, a + lim + 1, "subtract-mod", ctx); r = x; bn_subtractmod(&r, &y, &r, m.m); cong(r, a - b, m, a + lim + 1, "subtract-mod-shared", ctx); r = y; bn_subtractmod(&x, &r, &r, m.m); cong(r, a - b, m, a + lim + 1, "subtract-mod-shared", ctx); } step(5); state(ref::fnv(ctx + m.name)); outcome("products"); }
static void inverse() { const Mod &m = modulus(choose(2)); int kind = thorough ? choose(4) : (int)choose(2) * 3; Z z = num(kind); if (z % m.z == 0) { outcome("inverse-of-zero-skipped"); return; } std::string ctx = str(z); bignum256 x = mk(z); bn_inverse(&x, m.m); cong(x, val(x), m, m.z, "inverse", ctx); ok(val(x) * z % m.z == 1, "inverse", ctx + " got " + str(val(x))); step(); state(ref::fnv(ctx + m.name)); outcome("inverse"); }
static void root() { const Mod &m = modulus(0); Z z = thorough ? num(2) : sel(2); if (z >= 180 * m.z) { outcome("root-out-of-range"); return; } bignum256 x = mk(z); bn_sqrt(&x, m.m); Z r = val(x), q = z % m.z; ok(normal(x) && r < m.z, "root-range", str(z)); Z s = r * r % m.z; ok(s == q || (s + q) % m.z == 0, "root", str(z)); Z h = boost::multiprecision::powm(q, (m.z - 1) / 2, m.z); if (h == 1 || q == 0) ok(s == q, "root-of-square", str(z)); step(); state(ref::fnv("root " + str(z))); outcome(h == 1 ? "root-square" : "root-other"); }
// ---------------------------------------------------------------- formatting: amount * 10^exponent / 10^decimals
static void format() { static const std::vector<Z> A = {0, 1, 5, 9, 10, 99, 100, 120, 999, 1000, 1001, 12300, 100000, 123456789, 100000000, pow2(64) - 1, pow2(128), pow2(256) - 1}; static const char *PR[] = {nullptr, "", "BTC ", "$"}, *SF[] = {nullptr, "", " sat", "0", "."}; Z a = pick(A); unsigned dec = pick(std::vector<unsigned>{0, 1, 2, 3, 8, 18, 80}); int ex = pick(std::vector<int>{-80, -9, -4, -3, -2, -1, 0, 1, 2, 3, 9}); bool trail = flip(); const char *pr = PR[choose(4)], *sf = SF[choose(5)];
  std::ostringstream o; o << a; std::string d = o.str(); if (a != 0) { if (ex > 0) d += std::string(ex, '0'); else if (ex < 0) d = (int)d.size() > -ex ? d.substr(0, d.size() + ex) : "0"; } if (d.size() <= dec) d = std::string(dec + 1 - d.size(), '0') + d; std::string w = d; if (dec) { std::string f = d.substr(d.size() - dec); if (!trail) while (f.size() > 1 && f.back() == '0') f.pop_back(); w = d.substr(0, d.size() - dec) + "." + f; } w = (pr ? pr : "") + w + (sf ? sf : "");
  std::string ctx = str(a) + fmt(" decimals %u exponent %d trailing %d suffix %s", dec, ex, trail, sf ? sf : "-"); bignum256 x = mk(a); size_t fix = (pr ? strlen(pr) : 0) + (sf ? strlen(sf) : 0) + 1; for (int more = -2; more <= 1; more++) { long cap = (long)w.size() + 1 + more; if (cap < (long)fix) continue; Exact e(cap); size_t r = bn_format(&x, pr, sf, dec, ex, trail, e.c(), cap); if (more < 0) { eqn(r, 0, "format-too-long", ctx); continue; } eqn(r, w.size(), "format-length", ctx); eq(std::string(e.c(), r), w, "format", ctx); ok(e.p[r] == 0, "format-end", ctx); if (a < pow2(64)) { Exact q(cap); eqn(bn_format_uint64((uint64_t)a, pr, sf, dec, ex, trail, q.c(), cap), r, "format-64", ctx); eq(std::string(q.c()), w, "format-64", ctx); } step(); } state(ref::fnv(ctx)); outcome("format"); }
// ---------------------------------------------------------------- points
static curve_point cp(const Pt &p) { curve_point c; if (p.inf) { point_set_infinity(&c); return c; } c.x = mk(zu(p.x)); c.y = mk(zu(p.y)); return c; }
static void isp(const curve_point &c, const Pt &w, const char *key, const std::string &ctx) { if (w.inf) { ok(point_is_infinity(&c), key, ctx + " should be infinity"); return; } ok(!point_is_infinity(&c), key, ctx + " is infinity"); is(c.x, zu(w.x), key, ctx + " x"); is(c.y, zu(w.y), key, ctx + " y"); }
static std::vector<U> &scal() { static std::vector<U> v; if (v.empty()) { std::set<Z> s; const Z &n = modulus(1).z; for (int i = 0; i <= 40; i++) { s.insert(i); s.insert(n - i); s.insert(n / 2 + i - 20); s.insert(n / 3 + i - 20); } for (int k = 0; k < 256; k++) { s.insert(pow2(k)); s.insert(pow2(k) - 1); s.insert(n - pow2(k)); } for (int k = 0; k < 64; k++) for (int d = 1; d < 16; d += thorough ? 1 : 2) s.insert(Z(d) << (4 * k)); for (int d = 0; d < 256; d++) { Z r = 0; for (int i = 0; i < 32; i++) r = (r << 8) + d; s.insert(r % n); } for (int i = 0; i < 20; i++) s.insert(zb(ref::sha256(ref::be(i, 4))) % n); s.insert(zu(ref::fromH("5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72"))); for (auto &z : s) if (z >= 0 && z < n) v.push_back(uz(z)); } return v; }
static const std::vector<Pt> &points() { static std::vector<Pt> v; if (v.empty()) { v.push_back(Pt()); const Z &n = modulus(1).z; U lam = ref::fromH("5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72"); std::vector<Z> k; for (int i = 1; i <= 17; i++) { k.push_back(i); k.push_back(n - i); } for (int i : {30, 31, 60, 64, 128, 200, 255}) k.push_back(pow2(i)); k.push_back(n / 2); k.push_back(n / 2 + 1); k.push_back(zu(lam)); k.push_back(n - zu(lam)); k.push_back(zu(lam) * zu(lam) % n); for (int i = 0; i < (thorough ? 20 : 6); i++) k.push_back(zb(ref::sha256(ref::be(i, 4))) % n); for (auto &z : k) v.push_back(ref::mulG(uz(z))); for (int x = 0; x < 40; x++) { Pt q; if (ref::lift(U(x), x & 1, q)) v.push_back(q); Z t = modulus(0).z - 1 - x; if (ref::lift(uz(t), x & 1, q)) v.push_back(q); } } return v; }
static void group() { auto &P = points(); Pt a = P[choose(P.size())], b = P[choose(P.size())]; std::string ctx = (a.inf ? "inf" : ref::hex(ref::sec(a))) + " " + (b.inf ? "inf" : ref::hex(ref::sec(b))); curve_point x = cp(a), y = cp(b), z; z = y; point_add(&secp256k1, &x, &z); isp(z, ref::add(a, b), "point-add", ctx); isp(x, a, "operand-changed", ctx); ok(!!point_is_equal(&x, &y) == (a == b), "point-equal", ctx); if (!a.inf && !b.inf) ok(!!point_is_negative_of(&x, &y) == (a == ref::neg(b)), "point-negative", ctx); point_copy(&x, &z); isp(z, a, "point-copy", ctx); if (a == b) { z = x; point_double(&secp256k1, &z); isp(z, ref::add(a, a), "point-double", ctx); z = x; point_add(&secp256k1, &z, &z); isp(z, ref::add(a, a), "point-add-shared", ctx); if (!a.inf) { ok(ecdsa_validate_pubkey(&secp256k1, &x) == 1, "validate", ctx); bignum256 yy; uncompress_coords(&secp256k1, a.y.odd(), &x.x, &yy); is(yy, zu(a.y), "uncompress", ctx); uncompress_coords(&secp256k1, !a.y.odd(), &x.x, &yy); is(yy, modulus(0).z - zu(a.y), "uncompress", ctx); } else ok(!ecdsa_validate_pubkey(&secp256k1, &x), "validate-infinity"); } step(4); state(ref::fnv(ctx)); outcome(a.inf || b.inf ? "group-infinity" : a == b ? "group-double" : a == ref::neg(b) ? "group-cancel" : "group-add"); }
static void base() { auto &v = scal(); U k = v[choose(v.size())]; std::string ctx = ref::hex(ref::toB(k)); Pt w = ref::mulG(k); bignum256 b = mk(zu(k)); curve_point r; rng_seed(choose(2)); scalar_multiply(&secp256k1, &b, &r); isp(r, w, "base-multiply", ctx); point_multiply(&secp256k1, &b, &secp256k1.G, &r); isp(r, w, "multiply-generator", ctx); is(b, zu(k), "operand-changed", ctx); if (!k.zero()) { Exact e(ref::toB(k)), c(33), u(65); ecdsa_get_public_key33(&secp256k1, e.p, c.p); ecdsa_get_public_key65(&secp256k1, e.p, u.p); eq(c.b(), ref::sec(w), "public-key-33", ctx); eq(u.b(), ref::sec(w, false), "public-key-65", ctx); } step(3); state(ref::fnv(ctx)); outcome("base"); }
static void table() {
#if USE_PRECOMPUTED_CP
  int i = choose(64), j = choose(8); Z k = (Z(2 * j + 1) << (4 * i)); Pt w = ref::mul(uz(k % modulus(1).z), ref::G()); isp(secp256k1.cp[i][j], w, "table", fmt("entry %d,%d", i, j)); state(i * 8 + j + 77);
#endif
  is(secp256k1.prime, modulus(0).z, "prime", ""); is(secp256k1.order, modulus(1).z, "order", ""); is(secp256k1.order_half, modulus(1).z / 2, "half-order", ""); isp(secp256k1.G, ref::G(), "generator", ""); eqn(secp256k1.a, 0, "a"); is(secp256k1.b, 7, "b", ""); step(); outcome("table"); }
static void multiply() { auto &P = points(); static std::vector<U> K; if (K.empty()) { const Z &n = modulus(1).z; std::set<Z> s; for (int i = 0; i <= 34; i++) { s.insert(i); s.insert(n - 1 - i); if (i < 6) { s.insert(n / 2 + i - 2); s.insert(pow2(255) - i); } } for (int i = 0; i < (thorough ? 20 : 4); i++) s.insert(zb(ref::sha256(ref::be(i + 50, 4))) % n); s.insert(zu(ref::fromH("5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72"))); for (int b = 16; b < 256; b += thorough ? 15 : 60) { s.insert(pow2(b)); s.insert(pow2(b) - 1); } for (auto &z : s) K.push_back(uz(z)); } size_t pi = thorough ? choose(P.size()) : choose(12) * ((P.size() - 1) / 12); U k = K[choose(K.size())]; Pt a = P[pi], w = ref::mul(k, a); std::string ctx = ref::hex(ref::toB(k)) + " times " + (a.inf ? "inf" : ref::hex(ref::sec(a))); bignum256 b = mk(zu(k)); curve_point x = cp(a), r; point_multiply(&secp256k1, &b, &x, &r); isp(r, w, "multiply", ctx); if (!a.inf) { r = x; point_multiply(&secp256k1, &b, &r, &r); isp(r, w, "multiply-shared", ctx); isp(x, a, "operand-changed", ctx); bytes kb = ref::toB(k); for (int c = 0; c < 2; c++) { if (w.inf) break; Exact e(kb), pb(ref::sec(a, c)), o(65); eqn(ecdh_multiply(&secp256k1, e.p, pb.p, o.p), 0, "shared-secret-result", ctx); eq(o.b(), ref::sec(w, false), "shared-secret", ctx); } } step(3); state(ref::fnv(ctx)); outcome(w.inf ? "multiply-infinity" : "multiply"); }
// ---------------------------------------------------------------- keys
static void keys() { auto &P = points(); Pt a = P[1 + choose(thorough ? P.size() - 1 : 24)]; int how = choose(12); bytes b; const Z &p = modulus(0).z; if (how < 2) b = ref::sec(a, how); else if (how == 2) { b = ref::sec(a, false); b[64] ^= 1; } else if (how == 3) { b = ref::sec(a, false); b[1] ^= 0x80; } else if (how == 4) { b = ref::cat({(uint8_t)(2 + choose(2))}, bz(p + choose(30))); } else if (how == 5) { b = ref::cat({4}, bz(p + choose(30))); ref::app(b, ref::toB(a.y)); } else if (how == 6) { b = ref::cat({(uint8_t)(2 + choose(2))}, bz(choose(thorough ? 2000 : 200))); } else if (how == 7) { int pre_ = choose(256); b = ref::sec(a, pre_ == 2 || pre_ == 3); b[0] = pre_; if (b.size() == 33 || pre_ == 4) { } } else if (how == 8) { b = ref::cat({4}, bytes(64, 0)); } else if (how == 9) { b = ref::sec(ref::neg(a), false); } else if (how == 10) { b = ref::cat({4}, ref::toB(a.x)); Z y = zu(a.y) + p; if (y >= pow2(256)) { outcome("no-such-key"); return; } ref::app(b, bz(y)); } else { b = ref::cat({4}, ref::cat(ref::toB(a.y), ref::toB(a.x))); }
  Pt w; bool good = ref::parse_sec(b, w); std::string ctx = ref::hex(b); Exact e(b), o(65), o2(65); curve_point c; int r = ecdsa_read_pubkey(&secp256k1, e.p, &c); ok(!!r == good, good ? "valid-key-rejected" : "invalid-key-accepted", ctx); int q = ecdsa_uncompress_pubkey(&secp256k1, e.p, o.p); ok(!!q == good, "uncompress-result", ctx); if (good) { isp(c, w, "read-key", ctx); eq(o.b(), ref::sec(w, false), "uncompressed-key", ctx); curve_point d; ok(ecdsa_read_pubkey(nullptr, e.p, &d), "default-curve", ctx); isp(d, w, "read-key", ctx); } bytes one = ref::toB(U(1)); Exact k(one); int h = ecdh_multiply(&secp256k1, k.p, e.p, o2.p); ok((h == 0) == good, "shared-secret-of-invalid-key", ctx); if (good) eq(o2.b(), ref::sec(w, false), "shared-secret", ctx); step(3); state(ref::fnv(b)); outcome(good ? "key-valid" : "key-invalid"); }
// ---------------------------------------------------------------- signatures
static int reject_left; static std::vector<bytes> offered; static int canon(uint8_t by, uint8_t s[64]) { bytes b(s, s + 64); b.push_back(by); offered.push_back(b); return reject_left-- <= 0; }
static const std::vector<U> &privs() { static std::vector<U> v; if (v.empty()) { v = {U(1), U(2), ref::negm(U(1), ref::N()), ref::negm(U(2), ref::N()), ref::modm(ref::fromB(ref::sha256(ref::B("k"))), ref::N()), uz(modulus(1).z / 2)}; if (thorough) for (int i = 0; i < 10; i++) v.push_back(ref::modm(ref::fromB(ref::sha256(ref::be(i, 4))), ref::N())); } return v; }
static const std::vector<bytes> &digests() { static std::vector<bytes> v; if (v.empty()) { const Z &n = modulus(1).z; v = {bytes(32, 0), bz(1), bz(n - 1), bz(n), bz(n + 1), bytes(32, 0xff), ref::sha256(ref::B("a")), ref::sha256(ref::B("b"))}; if (thorough) for (int i = 0; i < 20; i++) v.push_back(ref::sha256(ref::be(i, 4))); } return v; }
struct SR { U r, s; int by; }; static SR model(const U &d, const bytes &h, int skip) { const U &n = ref::N(); U k = ref::rfc6979(d, h, skip); Pt R = ref::mulG(k); SR o; o.by = R.y.odd() | (R.x < n ? 0 : 2); o.r = ref::modm(R.x, n); o.s = ref::mulm(ref::invm(k, n), ref::addm(ref::modm(ref::fromB(h), n), ref::mulm(o.r, d, n), n), n); if (!ref::half_or_less(o.s)) { o.s = ref::negm(o.s, n); o.by ^= 1; } return o; }
static void sign() { U d = pick(privs()); bytes h = pick(digests()); int rej = choose(5), by_ = choose(2); rng_seed(choose(3)); std::string ctx = ref::hex(ref::toB(d)) + " " + ref::hex(h) + fmt(" rejected %d", rej); Exact k(ref::toB(d)), g(h), o(64); uint8_t by = 99; reject_left = rej; offered.clear(); int r = ecdsa_sign_digest(&secp256k1, k.p, g.p, o.p, by_ ? &by : nullptr, rej || by_ ? canon : nullptr); eqn(r, 0, "sign-result", ctx); bool big = zb(h) >= modulus(1).z; /* RFC6979 says reduce first, libsecp256k1 and this library do not: only validity is judged then */ if (big) { U r_ = ref::fromB(o.p), s_ = ref::fromB(o.p + 32); ok(ref::ecdsa_verify(ref::mulG(d), h, r_, s_) && ref::half_or_less(s_), "signature-invalid", ctx); std::set<bytes> q(offered.begin(), offered.end()); ok(q.size() == offered.size(), "repeated-signature", ctx); Exact pb(ref::sec(ref::mulG(d))); eqn(ecdsa_verify_digest(&secp256k1, pb.p, o.p, g.p), 0, "own-signature-rejected", ctx); step(2); state(ref::fnv(ctx)); outcome("sign-large-digest"); return; } SR w = model(d, h, rej); bytes ws = ref::cat(ref::toB(w.r), ref::toB(w.s)); eq(o.b(), ws, "signature", ctx); if (by_) eqn(by, w.by, "recovery-byte", ctx); for (size_t i = 0; i < offered.size(); i++) { SR m = model(d, h, i); eq(offered[i], ref::cat(ref::cat(ref::toB(m.r), ref::toB(m.s)), {(uint8_t)m.by}), "offered-signature", ctx); } if (rej || by_) eqn(offered.size(), rej + 1, "offered", ctx);
  Pt Q = ref::mulG(d); for (int c = 0; c < 2; c++) { Exact pb(ref::sec(Q, c)); eqn(ecdsa_verify_digest(&secp256k1, pb.p, o.p, g.p), 0, "own-signature-rejected", ctx); } Exact rec(65); eqn(ecdsa_recover_pub_from_sig(&secp256k1, rec.p, o.p, g.p, w.by), 0, "recover-result", ctx); eq(rec.b(), ref::sec(Q, false), "recovered-key", ctx); bytes der = ref::der(w.r, w.s); Exact dd(der.size()); eqn(ecdsa_sig_to_der(o.p, dd.p), der.size(), "der-length", ctx); eq(dd.b(), der, "der", ctx); step(4); state(ref::fnv(ctx)); outcome("sign"); }
static void messages() { U d = pick(privs()); size_t n = choose(140); HasherType t = (HasherType)choose(3); bytes m = repeat(n, 4), h = t == HASHER_SHA2 ? ref::sha256(m) : t == HASHER_SHA2D ? ref::dsha(m) : ref::cat(ref::hash160(m), bytes(12, 0)); if (t == HASHER_SHA2_RIPEMD) { outcome("short-hash-skipped"); return; } std::string ctx = fmt("message of %zu, hasher %d", n, (int)t); Exact k(ref::toB(d)), e(m), o(64); uint8_t by; eqn(ecdsa_sign(&secp256k1, t, k.p, e.p, n, o.p, &by, nullptr), 0, "sign-message-result", ctx); SR w = model(d, h, 0); eq(o.b(), ref::cat(ref::toB(w.r), ref::toB(w.s)), "message-signature", ctx); eqn(by, w.by, "message-recovery-byte", ctx); Exact pb(ref::sec(ref::mulG(d))); eqn(ecdsa_verify(&secp256k1, t, pb.p, o.p, e.p, n), 0, "message-verify", ctx); if (n) { bytes m2 = m; m2[n - 1] ^= 1; Exact e2(m2); ok(ecdsa_verify(&secp256k1, t, pb.p, o.p, e2.p, n) != 0, "message-verify-wrong", ctx); ok(ecdsa_verify(&secp256k1, t, pb.p, o.p, e.p, n - 1) != 0, "message-verify-short", ctx); } step(4); state(ref::fnv(ctx)); outcome("message"); }
static void exhausted() { U d = U(5 + choose(thorough ? 3 : 1)); bytes h = ref::sha256(ref::B("never")); Exact k(ref::toB(d)), g(h), o(64); reject_left = 1 << 30; offered.clear(); uint8_t by = 77; int r = ecdsa_sign_digest(&secp256k1, k.p, g.p, o.p, &by, canon); ok(r != 0, "exhausted-reported"); std::set<bytes> s(offered.begin(), offered.end()); ok(s.size() == offered.size(), "repeated-signature"); step(offered.size()); state(ref::fnv(offered.back())); outcome("exhausted"); }
static int anybit(const U &d, const bytes &h) { if (thorough || (d == privs()[4] && h == digests()[6])) return choose(256); return (int)choose(4) * 85; }
static void verify() { U d = pick(privs()); bytes h = pick(digests()); SR w = model(d, h, 0); const Z &n = modulus(1).z; int how = choose(16); Z r = zu(w.r), s = zu(w.s); bytes hh = h; Pt Q = ref::mulG(d); switch (how) { case 0: s = n - s; break; case 1: r = 0; break; case 2: s = 0; break; case 3: r = n; break; case 4: s = n; break; case 5: r = r + n; break; case 6: s = s + n; break; case 7: r ^= pow2(anybit(d, h)); break; case 8: s ^= pow2(anybit(d, h)); break; case 9: { int b = anybit(d, h); hh[b / 8] ^= 1 << b % 8; break; } case 10: Q = ref::neg(Q); break; case 11: std::swap(r, s); break; case 12: { Z z = zb(h) + n; if (z >= pow2(256)) z = zb(h) - n; if (z < 0) z = zb(h); hh = bz(z); break; } case 13: r = n - r; break; case 14: r = 1 + choose(5); s = 1 + choose(5); break; case 15: r = n - 1 - choose(4); s = n - 1 - choose(4); break; } if (r >= pow2(256) || s >= pow2(256)) { outcome("no-such-signature"); return; } U ur = uz(r), us = uz(s); bool good = ref::ecdsa_verify(Q, hh, ur, us); std::string ctx = fmt("way %d ", how) + ref::hex(ref::toB(d)) + " " + ref::hex(hh); bytes sg = ref::cat(bz(r), bz(s)); Exact e(sg), g(hh); for (int c = 0; c < 2; c++) { Exact pb(ref::sec(Q, c)); int v = ecdsa_verify_digest(&secp256k1, pb.p, e.p, g.p); ok((v == 0) == good, good ? "valid-signature-rejected" : "invalid-signature-accepted", ctx); }
  for (int id = 0; id < 4; id++) { Pt R; Z x = r + (id & 2 ? n : Z(0)); bool rg = r > 0 && s > 0 && r < n && s < n && x < modulus(0).z && ref::lift(uz(x), id & 1, R); Pt K; if (rg) { U ri = ref::invm(ur, ref::N()), z = ref::modm(ref::fromB(hh), ref::N()); K = ref::mul(ri, ref::add(ref::mul(us, R), ref::neg(ref::mulG(z)))); if (K.inf) rg = false; } Exact o(65); int v = ecdsa_recover_pub_from_sig(&secp256k1, o.p, e.p, g.p, id); ok((v == 0) == rg, rg ? "recoverable-rejected" : "unrecoverable-accepted", ctx + fmt(" id %d", id)); if (rg) eq(o.b(), ref::sec(K, false), "recovered-key", ctx); } if (r > 0 && s > 0) { bytes der = ref::der(ur, us); Exact dd(der.size()); eqn(ecdsa_sig_to_der(e.p, dd.p), der.size(), "der-length", ctx); eq(dd.b(), der, "der", ctx); } step(6); state(ref::fnv(sg)); outcome(good ? "verify-valid" : "verify-invalid"); }
// signatures made so that an intermediate point or sum is special
static void special() { const U &n = ref::N(); U d = pick(privs()), k = pick(std::vector<U>{U(1), U(2), U(3), U(77)}); int how = choose(6); Pt R = ref::mulG(k), Q = ref::mulG(d); U r = ref::modm(R.x, n), z, s; if (how == 0) { z = ref::negm(ref::mulm(r, d, n), n); s = U(9); } /* u1 G + u2 Q = infinity */ else if (how == 1) { z = ref::mulm(r, d, n); s = ref::mulm(ref::invm(k, n), ref::addm(z, ref::mulm(r, d, n), n), n); } /* u1 G = u2 Q: doubling */ else if (how == 2) { z = U(0); s = ref::mulm(ref::invm(k, n), ref::mulm(r, d, n), n); } else if (how == 3) { z = ref::modm(ref::fromB(ref::sha256(ref::B("x"))), n); s = ref::mulm(z, ref::invm(k, n), n); } /* recovers infinity */ else if (how == 4) { z = ref::modm(ref::fromB(ref::sha256(ref::B("y"))), n); s = ref::negm(ref::mulm(z, ref::invm(k, n), n), n); } /* s R = -z G: doubling in recovery */ else { z = U(1); s = ref::mulm(ref::invm(k, n), ref::addm(z, ref::mulm(r, d, n), n), n); } if (s.zero()) { outcome("no-such-signature"); return; } bytes h = ref::toB(z); bool good = ref::ecdsa_verify(Q, h, r, s); std::string ctx = fmt("special %d ", how) + ref::hex(ref::toB(d)) + " nonce " + ref::hex(ref::toB(k)); bytes sg = ref::cat(ref::toB(r), ref::toB(s)); Exact e(sg), g(h), pb(ref::sec(Q)); ok((ecdsa_verify_digest(&secp256k1, pb.p, e.p, g.p) == 0) == good, good ? "valid-signature-rejected" : "invalid-signature-accepted", ctx); for (int id = 0; id < 2; id++) { Pt X; ref::lift(r, id, X); Pt K = ref::mul(ref::invm(r, n), ref::add(ref::mul(s, X), ref::neg(ref::mulG(z)))); Exact o(65); int v = ecdsa_recover_pub_from_sig(&secp256k1, o.p, e.p, g.p, id); ok((v == 0) == !K.inf, K.inf ? "infinity-recovered" : "recoverable-rejected", ctx); if (!K.inf) eq(o.b(), ref::sec(K, false), "recovered-key", ctx); } step(3); state(ref::fnv(sg)); outcome(good ? "special-valid" : "special-invalid"); }
static void ders() { static const int L[] = {0, 1, 2, 15, 16, 30, 31}; auto mkv = [](int z, int top) { bytes b = repeat(32, 9); for (int i = 0; i < z; i++) b[i] = 0; b[z] = top; return b; }; bytes r = mkv(L[choose(7)], pick(std::vector<int>{1, 0x7f, 0x80, 0xff})), s = mkv(L[choose(7)], pick(std::vector<int>{1, 0x7f, 0x80, 0xff})); bytes der = ref::der(ref::fromB(r), ref::fromB(s)), sg = ref::cat(r, s); Exact e(sg), d(der.size()); eqn(ecdsa_sig_to_der(e.p, d.p), der.size(), "der-length", ref::hex(sg)); eq(d.b(), der, "der", ref::hex(sg)); step(); state(ref::fnv(sg)); outcome("der"); }
void define_spaces() { space("numbers", 1, [] { codec(); }); space("bits", 2, [] { bits(); }); space("pairs", 2, [] { pairs(); }); space("modular", 3, [] { unary(); }); space("products", 3, [] { products(); }); space("inverse", 3, [] { inverse(); }); space("root", 1, [] { root(); }); space("format", 4, [] { format(); }); space("group", 2, [] { group(); }); space("base", 1, [] { base(); }); space("table", 2, [] { table(); }); space("multiply", 2, [] { multiply(); }); space("keys", 2, [] { keys(); }); space("sign", 3, [] { sign(); }); space("messages", 2, [] { messages(); }); space("exhausted", 1, [] { exhausted(); }); space("verify", 3, [] { verify(); }); space("special", 3, [] { special(); }); space("der", 2, [] { ders(); }); }
