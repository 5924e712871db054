// C35: comparisons and validity flags. For every comparable type all pairs of a value set that contains every one-bit,
// one-byte, prefix, order and length neighbour of its members: == iff the values are equal, != is its negation, the order
// operators of scalars follow the numbers and those of points the encodings, and the bool conversions say what isValid says.
#include "objects.h"
template <class X> static void both(const X &a, const X &b, bool same, const std::string &ctx) { step(4); ok((a == b) == same, "equal", ctx); ok((b == a) == same, "equal-symmetric", ctx); ok((a != b) == !same, "not-equal", ctx); ok((b != a) == !same, "not-equal-symmetric", ctx); ok(a == a && !(a != a), "reflexive", ctx); X c(a); ok(c == a, "copy-equal", ctx); outcome(same ? "equal" : "different"); }
template <class X> static void order(const X &a, const X &b, int cmp, const std::string &ctx) { step(4); ok((a < b) == (cmp < 0), "less", ctx); ok((a > b) == (cmp > 0), "greater", ctx); ok((a <= b) == (cmp <= 0), "less-equal", ctx); ok((a >= b) == (cmp >= 0), "greater-equal", ctx); outcome("ordered"); }
static std::vector<bytes> neighbours(const bytes &b) { std::vector<bytes> v{b}; for (size_t i = 0; i < b.size() * 8; i++) { bytes c = b; c[i / 8] ^= 0x80 >> (i % 8); v.push_back(c); } return v; }
static void sigs() { bytes b = repeat(64, 7); auto v = neighbours(b); size_t i = choose(v.size()), k = choose(3); size_t j = k == 0 ? 0 : k == 1 ? i : (i * 7 + 13) % v.size(); std::string ctx = ref::hex(v[i]) + " " + ref::hex(v[j]); both(Signature(v[i].data(), v[i].data() + 32), Signature(v[j].data(), v[j].data() + 32), v[i] == v[j], ctx);
  SchnorrSignature p, q; p.parse(v[i].data(), 64); q.parse(v[j].data(), 64); both(p, q, v[i] == v[j], ctx); state(ref::fnv(ctx)); }
static void zero() { int w = choose(4); bytes b(64, 0); if (w & 1) b[31] = 1; if (w & 2) b[63] = 1; Signature s(b.data(), b.data() + 32); SchnorrSignature q; q.parse(b.data(), 64); eqn(s.isValid(), w != 0, "signature-valid", fmt("%d", w)); eqn((bool)s, s.isValid(), "signature-bool", ""); eqn(q.isValid(), w != 0, "schnorr-valid", fmt("%d", w)); eqn((bool)q, q.isValid(), "schnorr-bool", ""); ok(!Signature().isValid() && !SchnorrSignature().isValid(), "empty-signature", ""); step(5); outcome("flags"); }
static void scripts() { static std::vector<bytes> v = [] { std::vector<bytes> r{{}}; for (int a : {0, 1, 0x80, 0xff}) { r.push_back({(uint8_t)a}); for (int b : {0, 1, 0x80, 0xff}) { r.push_back({(uint8_t)a, (uint8_t)b}); for (int c : {0, 1, 0xff}) r.push_back({(uint8_t)a, (uint8_t)b, (uint8_t)c}); } } auto n = neighbours(repeat(25, 3)); r.insert(r.end(), n.begin(), n.end()); r.push_back(repeat(24, 3)); r.push_back(repeat(26, 3)); for (size_t l : {252, 253, 300, 301}) { r.push_back(repeat(l, 9)); bytes x = repeat(l, 9); x.back() ^= 1; r.push_back(x); } return r; }(); size_t i = choose(v.size()), j = choose(v.size()); Script a = mkscript(v[i]), b = mkscript(v[j]); std::string ctx = ref::hex(v[i]) + " / " + ref::hex(v[j]); both(a, b, v[i] == v[j], ctx); eqn((bool)a, !v[i].empty(), "script-bool", ctx); state(ref::fnv(ctx)); }
static void wits() { static std::vector<std::vector<bytes>> v = [] { std::vector<std::vector<bytes>> r{{}}; std::vector<bytes> e = {{}, {0}, {1}, {0, 1}, {1, 0}, {1, 1}, {1, 0, 1}}; for (auto &x : e) { r.push_back({x}); for (auto &y : e) { r.push_back({x, y}); for (auto &z : e) r.push_back({x, y, z}); } } for (auto &n : neighbours(repeat(9, 3))) r.push_back({n}); return r; }(); size_t i = choose(v.size()), j = choose(v.size()); auto mk = [](const std::vector<bytes> &e) { Witness w; for (auto &x : e) w.push(x.data(), x.size()); return w; }; Witness a = mk(v[i]), b = mk(v[j]); std::string ctx = ref::hex(ref::ser_wit(v[i])) + " / " + ref::hex(ref::ser_wit(v[j])); both(a, b, v[i] == v[j], ctx); eqn((bool)a, !v[i].empty(), "witness-bool", ctx); bytes enc = ref::ser_wit(v[i]); Exact x(enc); Witness c(x.p, x.n); ok(c == a, "witness-from-bytes", ctx); state(ref::fnv(ctx)); }
static void scalars() { std::vector<bytes> base = {bytes(32, 0), ref::toB(ref::modm(ref::fromB(repeat(32, 1)), ref::N())), ref::toB(ref::modm(ref::fromB(bytes(32, 0xff)), ref::N()))}; bytes b = pick(base); auto v = neighbours(b); size_t i = choose(v.size()), k = choose(4); bytes x = v[i], y = v[k == 0 ? 0 : k == 1 ? i : k == 2 ? (i + 8) % v.size() : (i * 5 + 3) % v.size()]; x = ref::toB(ref::modm(ref::fromB(x), ref::N())); y = ref::toB(ref::modm(ref::fromB(y), ref::N())); ECScalar p(x.data(), 32), q(y.data(), 32); std::string ctx = ref::hex(x) + " " + ref::hex(y); both(p, q, x == y, ctx); order(p, q, x < y ? -1 : x > y, ctx); bool z = x == bytes(32, 0); eqn((bool)p, !z, "scalar-bool", ctx); eqn(p.isValid(), !z, "scalar-valid", ctx); std::string h = ref::hex(x); ECScalar t(h.c_str()); ok(t == p, "scalar-from-text", ctx); PrivateKey u(x.data()), w(y.data()); if (!z && y != bytes(32, 0)) both(u, w, x == y, ctx); state(ref::fnv(ctx)); }
static void points() { static std::vector<ref::Pt> v = [] { std::vector<ref::Pt> r; ref::Pt g = ref::G(), p = g; for (int i = 0; i < 12; i++) { r.push_back(p); r.push_back(ref::neg(p)); p = ref::add(p, g); } return r; }(); size_t i = choose(v.size()), j = choose(v.size()); bool ca = flip(), cb = flip(); bytes a = ref::sec(v[i], ca), b = ref::sec(v[j], cb); PublicKey x, y; x.parse(a.data(), a.size()); y.parse(b.data(), b.size()); std::string ctx = ref::hex(a) + " " + ref::hex(b); both(x, y, i == j, ctx); order(x, y, a < b ? -1 : a > b, ctx); eqn((bool)x, true, "point-bool", ctx); ok(!PublicKey().isValid() && !(bool)PublicKey(), "empty-point", ""); state(ref::fnv(ctx)); }
// every object kind: good bytes cut anywhere, into a new object and into one that was complete before
static void containers() { auto it = reg.begin(); std::advance(it, choose(reg.size())); std::string t = it->first; if (t == "Script" || t == "Witness") return; auto &c = cat_[t]; size_t i = choose(std::min<size_t>(c.size(), 6)); const bytes &e = c[i]; size_t cut = e.size() - choose(std::min<size_t>(e.size(), thorough ? 400 : 150)); bool used = flip(); auto judge = [&](auto &&o) { if (used) { const bytes &f = c[(i + 1) % c.size()]; o.parse(f.data(), f.size()); ok(o.isValid() && bool(o), "complete-not-valid", t); } std::string ctx = t + fmt(" %zu of %zu used %d", cut, e.size(), used); o.parse(e.data(), cut); bool done = cut == e.size(); ok((o.getStatus() == PARSING_DONE) == done, "status", ctx); eqn((bool)o, done, "container-bool", ctx); eqn(o.isValid(), done, "container-valid", ctx); step(3); outcome(done ? "valid" : "not-valid"); state(ref::fnv(e, cut)); if (!done) { o.parse(e.data() + cut, e.size() - cut); ok(o.isValid() && bool(o), "completed-not-valid", ctx); } };
  if (t == "Tx") judge(Tx()); else if (t == "TxIn") judge(TxIn()); else if (t == "TxOut") judge(TxOut()); else if (t == "PSBT") judge(PSBT()); else if (t == "PublicKey") judge(PublicKey()); else if (t == "PrivateKey") judge(PrivateKey()); else if (t == "ECScalar") judge(ECScalar()); else if (t == "Signature") judge(Signature()); else if (t == "SchnorrSignature") judge(SchnorrSignature()); else if (t == "HDPrivateKey") judge(HDPrivateKey()); else if (t == "HDPublicKey") judge(HDPublicKey()); else fail("unknown-kind", t); }
void define_spaces() { build_objects(); space("signatures", 1, sigs); space("zero-signatures", 1, zero); space("scripts", 2, scripts); space("witnesses", 2, wits); space("scalars", 2, scalars); space("points", 2, points); space("containers", 1, containers); }
