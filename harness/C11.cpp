// C11: malformed encodings. For every type and catalogue encoding: every strict prefix, every substitution of a byte,
// every inserted/deleted byte, every non-hex character. Nothing outside the buffers is touched (sanitizer), a strict
// prefix is never "done", what is accepted serializes back to what was consumed, and afterwards the object is reusable.
#include "objects.h"
#include "psbtkit.h"
// Is `got` an acceptable echo of the consumed bytes?
static bytes echo_of(const std::string &t, const bytes &c) {
  if (t == "PSBT") return psbt_expected(c);
  if (t == "ECScalar") { ref::U u = ref::modm(ref::fromB(c), ref::N()); return ref::toB(u); } // scalars are defined modulo the order
  if (t == "Tx" && c.size() > 6 && c[4] == 0 && c[5] == 1) { // segwit form with only empty witnesses: same transaction, legacy form
    Rd r{c, 6}; size_t ni = r.vi(); for (size_t i = 0; i < ni; i++) { r.take(36); r.take(r.vi()); r.take(4); } size_t no = r.vi(); for (size_t i = 0; i < no; i++) { r.take(8); r.take(r.vi()); } bool any = false; size_t w = r.p; for (size_t i = 0; i < ni; i++) { size_t k = r.vi(); if (k) any = true; for (size_t j = 0; j < k; j++) r.take(r.vi()); } if (!any) { bytes o = sub(c, 0, 4); ref::app(o, sub(c, 6, w - 6)); ref::app(o, sub(c, r.p, 4)); return o; } }
  return c; }
static void feed_judge(const std::string &t, IObj *o, const bytes &in, bool hx, bool strict_prefix, const std::string &ctx) {
  bytes src = in; if (hx) { std::string h = ref::hex(in); src = bytes(h.begin(), h.end()); } Exact b(src); size_t n = o->feed(b.p, b.n, hx); step(); ok(n <= in.size(), "consumed-too-much", ctx + fmt(" %zu of %zu", n, in.size())); parse_status st = o->st();
  if (strict_prefix) ok(st != PARSING_DONE, "truncated-accepted", ctx);
  if (st == PARSING_DONE) { bytes c = sub(in, 0, n); bytes want = echo_of(t, c); std::unique_ptr<IObj> q(o->clone()); bytes got(o->length()); if (!got.empty()) { size_t w = o->out(got.data(), got.size(), 0, false); got.resize(w); } eq(got, want, "accepted-but-misread", ctx + " " + cutstr(ref::hex(in), 300)); outcome("accepted"); }
  else outcome(st == PARSING_FAILED ? "failed" : "incomplete");
  if (st == PARSING_FAILED) { const bytes &g = cat_[t][0]; std::unique_ptr<IObj> q(o->clone()); q->feed(g.data(), g.size(), false); ok(q->st() == PARSING_FAILED, "failure-forgotten", ctx + " more input after a failed parse"); step(); } }
static bytes oneshot(const std::string &t, const bytes &e) { std::unique_ptr<IObj> o(reg[t]()); o->feed(e.data(), e.size(), false); return o->obs(); }
static void reuse(const std::string &t, IObj *o, size_t other, const std::string &ctx) { const bytes &e = cat_[t][other]; { std::unique_ptr<IObj> c(o->clone()); } o->reset(); size_t n = o->feed(e.data(), e.size(), false); eqn(n, e.size(), "reuse-consumed", ctx); ok(o->st() == PARSING_DONE, "reuse-status", ctx); eq(o->obs(), oneshot(t, e), "reuse-value", ctx); step(); }
static void prefixes(const std::string &t) { auto &v = cat_[t]; size_t ei = choose(v.size()); const bytes &e = v[ei]; size_t n = choose(e.size()); bool hx = flip(); std::string ctx = t + fmt(" enc %zu first %zu of %zu %s", ei, n, e.size(), hx ? "hex" : "raw"); std::unique_ptr<IObj> o(reg[t]()); feed_judge(t, o.get(), sub(e, 0, n), hx, true, ctx); state(ref::fnv(e, n)); reuse(t, o.get(), (ei + 1) % v.size(), ctx); }
static const std::vector<uint8_t> &vals() { static std::vector<uint8_t> v = {0, 1, 2, 3, 4, 0x20, 0x7f, 0x80, 0xfc, 0xfd, 0xfe, 0xff}; return v; }
static void subst(const std::string &t, size_t full) { auto &v = cat_[t]; size_t ei = choose(v.size()); bytes e = v[ei]; size_t i = choose(e.size()); bool all = e.size() <= full || thorough; uint8_t nv; if (all) nv = choose(256); else { size_t k = choose(vals().size() + 8); nv = k < vals().size() ? vals()[k] : e[i] ^ (1 << (k - vals().size())); } if (nv == e[i]) { outcome("same"); return; } e[i] = nv; std::string ctx = t + fmt(" enc %zu byte %zu = %02x", ei, i, nv); std::unique_ptr<IObj> o(reg[t]()); feed_judge(t, o.get(), e, false, false, ctx); state(e); reuse(t, o.get(), (ei + 1) % v.size(), ctx); }
static void insdel(const std::string &t) { auto &v = cat_[t]; size_t ei = choose(v.size()); bytes e = v[ei]; size_t i = choose(e.size()); int k = choose(5); static const uint8_t iv[] = {0, 1, 0xfd, 0xff}; if (k == 4) e.erase(e.begin() + i); else e.insert(e.begin() + i, iv[k]); std::string ctx = t + fmt(" enc %zu edit %d at %zu", ei, k, i); std::unique_ptr<IObj> o(reg[t]()); feed_judge(t, o.get(), e, false, false, ctx); state(e); reuse(t, o.get(), (ei + 1) % v.size(), ctx); }
// chunked feeding of corrupted input: same verdict as in one piece
static void chunked(const std::string &t) { auto &v = cat_[t]; size_t ei = choose(v.size()); bytes e = v[ei]; size_t i = choose(e.size()); int k = choose(4); static const uint8_t x[] = {0xff, 0x01, 0x80, 0x03}; e[i] ^= x[k]; static const size_t st[] = {1, 2, 7, 33}; size_t s = st[choose(4)]; std::string ctx = t + fmt(" enc %zu byte %zu ^ %02x in chunks of %zu", ei, i, x[k], s); std::unique_ptr<IObj> a(reg[t]()), b(reg[t]()); { Exact q(e); a->feed(q.p, q.n, false); } for (size_t p = 0; p < e.size() && b->st() != PARSING_FAILED; p += s) { if (p && b->st() == PARSING_DONE) break; Exact q(sub(e, p, s)); b->feed(q.p, q.n, false); } ok((a->st() == PARSING_DONE) == (b->st() == PARSING_DONE), "verdict-depends-on-chunks", ctx + fmt(" one piece %s, chunks %s", stname(a->st()), stname(b->st()))); if (a->st() == PARSING_DONE) eq(b->obs(), a->obs(), "value-depends-on-chunks", ctx); state(ref::fnv(e, s)); outcome(stname(a->st())); reuse(t, b.get(), 0, ctx); }
// a non-hex character ends the text: nothing after it is read and a strict prefix is not "done"
static void badhex(const std::string &t) { auto &v = cat_[t]; size_t ei = choose(v.size()); const bytes &e = v[ei]; std::string h = ref::hex(e); size_t i = choose(std::min<size_t>(h.size(), thorough ? 100000 : 200)); static const uint8_t cs[] = {'g', 'G', '/', ':', '@', '`', ' ', 0, 0xff, 'z', '\n', '-'}; uint8_t c = cs[choose(12)]; h[i] = c; std::string ctx = t + fmt(" enc %zu hex position %zu = %02x", ei, i, c); std::unique_ptr<IObj> o(reg[t]()); { Exact b(h); size_t n = o->feed(b.p, b.n, true); ok(n <= i / 2 + 1, "read-past-bad-hex", ctx + fmt(" consumed %zu", n)); } ok(o->st() != PARSING_DONE, "bad-hex-accepted", ctx); step(); outcome("bad-hex"); reuse(t, o.get(), (ei + 1) % v.size(), ctx); state(ref::fnv(e, i * 256 + c)); }
// length fields claiming huge sizes
static void huge() { static const std::vector<bytes> L = {{0xfd, 0xff, 0xff}, {0xfe, 0, 0, 1, 0}, {0xfe, 0xff, 0xff, 0xff, 0xff}, {0xff, 0, 0, 0, 0, 1, 0, 0, 0}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}, {0xff, 0, 0, 0, 0, 0, 0, 0, 0x80}, {0xfd, 0x11, 0x27}}; const bytes &l = pick(L); int w = choose(9); size_t tail = choose(3) * 40; std::string t; bytes e; RTx x = tx_catalog()[4]; bytes hdr; switch (w) { case 0: t = "Script"; e = l; break; case 1: t = "Witness"; e = l; break; case 2: t = "Witness"; e = ref::cat({1}, l); break; case 3: t = "TxIn"; e = ref::cat(repeat(36, 1), l); break; case 4: t = "TxOut"; e = ref::cat(repeat(8, 1), l); break; case 5: t = "Tx"; e = ref::cat(ref::le(1, 4), l); break; case 6: t = "Tx"; e = ref::cat(ref::cat(ref::le(1, 4), {1}), ref::cat(ref::ser_in(rin(1, 0, 0, 0)), l)); break; case 7: t = "PSBT"; e = ref::cat({0x70, 0x73, 0x62, 0x74, 0xff, 1, 0}, l); break; default: t = "PSBT"; e = ref::cat({0x70, 0x73, 0x62, 0x74, 0xff}, l); }
  ref::app(e, repeat(tail, 3)); std::unique_ptr<IObj> o(reg[t]()); std::string ctx = t + " huge length " + ref::hex(l); { Exact b(e); size_t n = o->feed(b.p, b.n, false); ok(n <= e.size(), "consumed-too-much", ctx); } ok(o->st() != PARSING_DONE, "truncated-accepted", ctx); step(); outcome("huge"); state(e); reuse(t, o.get(), 0, ctx); }
// every length and count field claiming 2^8k (or a multiple) more than there is: a reader that keeps only the low bits would find a complete encoding
static void wrapped() { struct Tok { bytes b; int len; }; std::vector<Tok> t; auto raw = [&](const bytes &b) { t.push_back({b, -1}); }; auto L = [&](size_t n) { t.push_back({{}, (int)n}); }; int w = choose(9); std::string ty; bytes sc = repeat(choose(2) ? 25 : 200, 2);
  auto in = [&] { raw(repeat(36, 1)); L(sc.size()); raw(sc); raw({1, 2, 3, 4}); }; auto out = [&] { raw({1, 0, 0, 0, 0, 0, 0, 0}); L(sc.size()); raw(sc); }; auto txb = [&](bool seg) { raw({2, 0, 0, 0}); if (seg) raw({0, 1}); L(1); in(); L(1); out(); if (seg) { L(2); L(3); raw({7, 8, 9}); L(sc.size()); raw(sc); } raw({0, 0, 0, 0}); };
  switch (w) { case 0: ty = "Script"; L(sc.size()); raw(sc); break; case 1: ty = "Witness"; L(2); L(3); raw({7, 8, 9}); L(sc.size()); raw(sc); break; case 2: ty = "TxIn"; in(); break; case 3: ty = "TxOut"; out(); break; case 4: ty = "Tx"; txb(false); break; case 5: ty = "Tx"; txb(true); break; case 6: case 7: case 8: { ty = "PSBT"; RTx x; x.in = {rin(1, 0, 0, 1)}; x.out = {rout(1, 1)}; bytes xb = ref::ser_tx(x); bytes dv = repeat(w == 6 ? 8 : 20, 4); raw({0x70, 0x73, 0x62, 0x74, 0xff}); L(1); raw({0}); L(xb.size()); raw(xb); raw({0}); L(34); raw(ref::cat({6}, ref::sec(ref::mulG(ref::U(5))))); L(dv.size()); raw(dv); if (w == 8) { L(9); raw(repeat(9, 0xfa)); L(sc.size()); raw(sc); } raw({0}); L(1); raw({0}); L(sc.size()); raw(sc); raw({0}); break; } }
  std::vector<int> f; for (size_t i = 0; i < t.size(); i++) if (t[i].len >= 0) f.push_back(i); int at = f[choose(f.size())]; int how = choose(10); static const uint64_t ADD[] = {0, 1ull << 32, 1ull << 33, 5ull << 32, 1ull << 40, 1ull << 48, 1ull << 56, 1ull << 63, 1ull << 16, 1ull << 8}; uint64_t v = t[at].len + ADD[how]; bytes e; for (size_t i = 0; i < t.size(); i++) ref::app(e, t[i].len < 0 ? t[i].b : (int)i == at ? ref::varint(v) : ref::varint(t[i].len));
  std::unique_ptr<IObj> o(reg[ty]()); std::string ctx = ty + fmt(" kind %d length field %d enlarged by 2^%d", w, at, how ? 63 - __builtin_clzll(ADD[how]) : 0); Exact b(e); o->feed(b.p, b.n, false); step(); if (!how) ok(o->st() == PARSING_DONE, "valid-rejected", ctx); else ok(o->st() != PARSING_DONE, "length-truncated", ctx); outcome(how ? "wrapped" : "valid"); state(e); reuse(ty, o.get(), 0, ctx); }
void define_spaces() { build_objects(); space("wrapped-lengths", 2, wrapped); for (auto &r : reg) { std::string t = r.first; space("prefix/" + t, 2, [t] { prefixes(t); }); space("subst/" + t, 2, [t] { subst(t, t == "PSBT" ? 100 : 110); }); space("insdel/" + t, 2, [t] { insdel(t); }); space("chunks/" + t, 2, [t] { chunked(t); }); space("badhex/" + t, 2, [t] { badhex(t); }); } space("huge-lengths", 2, huge); }
