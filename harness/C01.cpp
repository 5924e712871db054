// C01: incremental parsing. For every object type, every encoding of the catalogue, every way of cutting it
// into pieces (all 3-piece cuts incl. empty pieces, all constant piece sizes, and two objects fed alternately),
// raw and hex, on a fresh and on a re-used object: same status, same consumed count, same value as one-shot.
#include "objects.h"
static bytes tohex(const bytes &b) { std::string h = ref::hex(b); return bytes(h.begin(), h.end()); }
struct Feeder { // feeds enc piecewise; judges each intermediate status and count
  std::unique_ptr<IObj> o; bytes enc; bool hx; size_t pos = 0; std::string ctx;
  Feeder(IObj *p, const bytes &e, bool h, std::string c) : o(p), enc(e), hx(h), ctx(c) {}
  void to(size_t end) { size_t n = end - pos; bytes piece = sub(enc, pos, n); if (hx) piece = tohex(piece); Exact ex(piece); size_t r = o->feed(ex.p, ex.n, hx); eqn(r, n, "consumed", ctx + fmt(" piece [%zu,%zu) of %zu", pos, end, enc.size())); pos = end; parse_status s = o->st(); parse_status want = pos == enc.size() && !(n == 0 && pos == enc.size() && done) ? PARSING_DONE : PARSING_INCOMPLETE; if (want == PARSING_DONE) done = true; if (s != want) fail("status", ctx + fmt(" after %zu of %zu bytes: %s, expected %s", pos, enc.size(), stname(s), stname(want))); }
  bool done = false;
};
static bytes oneshot(const std::string &t, const bytes &e) { std::unique_ptr<IObj> o(reg[t]()); size_t r = o->feed(e.data(), e.size(), false); std::string c = t + " one-shot " + cutstr(ref::hex(e), 200); eqn(r, e.size(), "oneshot-consumed", c); ok(o->st() == PARSING_DONE, "oneshot-status", c + " " + stname(o->st())); bytes b = o->obs(); if (t != "PSBT") eq(sub(b, 0, e.size()), e, "oneshot-value", c); return b; }
static IObj *start(const std::string &t, bool reuse, size_t other) { IObj *o = reg[t](); if (reuse) { const bytes &e = cat_[t][other]; o->feed(e.data(), e.size(), false); } return o; }
static void split3(const std::string &t, size_t maxlen, bool all3) {
  auto &v = cat_[t]; size_t ei = choose(v.size()); const bytes &e = v[ei]; size_t L = e.size(); bool full = all3 || L <= maxlen;
  bool hx = flip(), reuse = flip(); bytes want = oneshot(t, e); size_t i = choose(L + 1); size_t j = i;
  if (full) j = i + choose(L + 1 - i); else { static const size_t ds[] = {0, 1, 2, 3}; j = std::min(L, i + ds[choose(4)]); }
  if (i == L && j == L) { if (L != 0) return; }
  std::string ctx = t + fmt(" enc#%zu %s %s cut %zu/%zu", ei, hx ? "hex" : "raw", reuse ? "reused" : "fresh", i, j);
  Feeder f(start(t, reuse, (ei + 1) % v.size()), e, hx, ctx); f.to(i); if (!(i == L)) { f.to(j); if (j < L) f.to(L); }
  eq(f.o->obs(), want, "value", ctx); state(ref::fnv(want, i * 1000003 + j)); outcome("split-ok");
}
static void strides(const std::string &t) {
  auto &v = cat_[t]; size_t ei = choose(v.size()); const bytes &e = v[ei]; bool hx = flip(), reuse = flip(); size_t L = e.size(); size_t k = 1 + choose(std::min<size_t>(L, 64)); bytes want = oneshot(t, e); bool empties = flip();
  std::string ctx = t + fmt(" enc#%zu %s %s stride %zu", ei, hx ? "hex" : "raw", reuse ? "reused" : "fresh", k); Feeder f(start(t, reuse, (ei + 2) % v.size()), e, hx, ctx);
  for (size_t p = 0; p < L;) { size_t q = std::min(L, p + k); f.to(q); if (empties && q < L) f.to(q); p = q; }
  eq(f.o->obs(), want, "value", ctx); state(ref::fnv(want, 7777 + k)); outcome("stride-ok");
}
static void inter(const std::string &ta, const std::string &tb) { // two objects fed alternately
  auto &va = cat_[ta], &vb = cat_[tb]; size_t na = std::min<size_t>(va.size(), thorough ? 99 : 4), nb = std::min<size_t>(vb.size(), thorough ? 99 : 3); size_t ia = choose(na), ib = choose(nb); const bytes &a = va[ia], &b = vb[vb.size() - 1 - ib]; bytes wa = oneshot(ta, a), wb = oneshot(tb, b);
  auto cutp = [&](size_t L) -> size_t { if (thorough || L <= 40) return 1 + choose(L > 1 ? L - 1 : 1); static const size_t pts = 12; size_t k = choose(pts + 2); if (k < 6) return std::min(L - 1, k + 1); if (k < 12) return L - 1 - std::min(L - 2, k - 6); return k == 12 ? L / 2 : L / 3; };
  if (a.size() < 2 || b.size() < 2) return; size_t i = cutp(a.size()), j = cutp(b.size()); std::string ctx = ta + fmt("#%zu cut %zu interleaved with ", ia, i) + tb + fmt("#%zu cut %zu", ib, j);
  Feeder fa(reg[ta](), a, false, ctx + " (first)"), fb(reg[tb](), b, false, ctx + " (second)"); fa.to(i); fb.to(j); fa.to(a.size()); fb.to(b.size()); eq(fa.o->obs(), wa, "value-interleaved", ctx); eq(fb.o->obs(), wb, "value-interleaved", ctx); state(ref::fnv(wa, ref::fnv(wb, i * 4099 + j))); outcome("interleave-ok");
}
static void back2back(const std::string &t) { // consecutive encodings on one object: stops exactly at the end, then starts over
  auto &v = cat_[t]; size_t i = choose(v.size()), j = choose(v.size()); bytes both = ref::cat(v[i], v[j]); std::unique_ptr<IObj> o(reg[t]()); std::string ctx = t + fmt(" #%zu followed by #%zu", i, j);
  size_t r = o->feed(both.data(), both.size(), false); eqn(r, v[i].size(), "trailing-consumed", ctx); ok(o->st() == PARSING_DONE, "trailing-status", ctx); eq(o->obs(), oneshot(t, v[i]), "trailing-value", ctx);
  r = o->feed(both.data() + r, both.size() - r, false); eqn(r, v[j].size(), "second-consumed", ctx); ok(o->st() == PARSING_DONE, "second-status", ctx + " " + stname(o->st())); eq(o->obs(), oneshot(t, v[j]), "second-value", ctx); state(ref::fnv(both, 3)); outcome("back-to-back-ok");
}
static void big() { std::vector<std::string> ty; for (auto &k : big_objects()) ty.push_back(k.first); std::string t = pick(ty); auto &v = big_objects().at(t); size_t ei = choose(v.size()); const bytes &e = v[ei]; size_t L = e.size(); auto P = big_positions(L); size_t i = P[choose(P.size())]; static const size_t ds[] = {0, 1, 65536}; size_t j = std::min(L, i + ds[choose(3)]); bool hx = flip(), reuse = flip(); if (i == L && L) return; if (hx && reuse) return; static std::map<std::string, bytes> memo; bytes &want = memo[t + fmt("%zu", ei)]; if (want.empty()) want = oneshot(t, e); std::string ctx = t + fmt(" long#%zu %s %s cut %zu/%zu", ei, hx ? "hex" : "raw", reuse ? "reused" : "fresh", i, j); Feeder f(start(t, reuse, 1), e, hx, ctx); f.to(i); if (j < L) f.to(j); f.to(L); eq(f.o->obs(), want, "value", ctx); state(ref::fnv(ctx)); outcome("split-ok"); }
// wide objects: many inputs, outputs, elements and records; every single cut
static const std::map<std::string, bytes> &wide_objects() { static std::map<std::string, bytes> m; if (!m.empty()) return m; std::vector<bytes> w; for (int i = 0; i < 90; i++) w.push_back(repeat(i % 7, i)); m["Witness"] = ref::ser_wit(w); RTx t; t.ver = 2; t.lock = 0x01020304; for (int i = 0; i < 14; i++) { t.in.push_back(rin(i + 1, i % 4, i, i)); if (i % 3) t.in.back().wit.assign(i % 5, repeat(i % 3, i)); } for (int i = 0; i < 11; i++) t.out.push_back(rout(i * 77, i % 5)); m["Tx"] = ref::ser_tx(t); RPsbt p; p.tx.ver = 2; for (int i = 0; i < 8; i++) { p.tx.in.push_back(rin(i + 1, 0, i, i)); p.in.push_back({{bytes{1}, ref::ser_out(rout(5 + i, 22))}}); if (i % 2) p.in.back().push_back(kv_deriv(6, ref::sec(ref::mulG(key_u(i % 3))), {1, 2, 3, (uint8_t)i}, {1, (uint32_t)i})); if (i == 5) p.in.back().push_back(kv_sig(ref::sec(ref::mulG(key_u(0))), ref::der(ref::U(0x80), ref::U(0x7f)))); } for (int i = 0; i < 7; i++) { p.tx.out.push_back(rout(i, 5)); p.out.push_back({}); if (i % 3 == 1) p.out.back().push_back({bytes{0}, repeat(i, 3)}); } m["PSBT"] = ser_psbt(p); return m; }
static void wide() { std::vector<std::string> ty; for (auto &k : wide_objects()) ty.push_back(k.first); std::string t = pick(ty); const bytes &e = wide_objects().at(t); size_t L = e.size(), i = choose(L), d = choose(thorough ? 8 : 3); static const size_t ds[] = {0, 1, 40, 2, 3, 9, 77, 200}; size_t j = std::min(L, i + ds[d]); bool hx = flip(); bytes want = oneshot(t, e); std::string ctx = t + fmt(" wide %s cut %zu/%zu", hx ? "hex" : "raw", i, j); Feeder f(reg[t](), e, hx, ctx); f.to(i); f.to(j); if (j < L) f.to(L); eq(f.o->obs(), want, "value", ctx); state(ref::fnv(ctx)); outcome("split-ok"); }
void define_spaces() {
  build_objects(); space("long", 3, big); space("wide", 3, wide);
  for (auto &kv : reg) { std::string t = kv.first; size_t ml = thorough ? 400 : t == "HDPrivateKey" || t == "PrivateKey" ? 40 : t == "HDPublicKey" ? 80 : t == "PSBT" ? 140 : 130;
    space("split." + t, 3, [=] { split3(t, ml, false); }); space("stride." + t, 3, [=] { strides(t); }); space("b2b." + t, 2, [=] { back2back(t); }); }
  for (auto &p : std::vector<std::pair<std::string, std::string>>{{"PublicKey", "PublicKey"}, {"Script", "Script"}, {"Witness", "Witness"}, {"Tx", "Tx"}, {"PSBT", "PSBT"}, {"Signature", "Signature"}, {"HDPublicKey", "PublicKey"}, {"PSBT", "Tx"}, {"PublicKey", "Signature"}, {"HDPrivateKey", "HDPrivateKey"}, {"TxIn", "TxOut"}})
    space("inter." + p.first + "." + p.second, 3, [=] { inter(p.first, p.second); });
}
