// C03: transaction wire codec. For every transaction of the enumerated spaces: parse(ref encoding) gives exactly the
// model's fields, serialize gives exactly the ref encoding (both of the parsed object and of the object built through
// the API); encodings outside the supported canonical form are rejected.
#include "catalog.h"
static void both(const RTx &t, const std::string &ctx, bool api = true) {
  bytes e = ref::ser_tx(t); state(e);
  if (!t.in.empty()) { Exact b(e); Tx x; size_t r = x.parse(b.p, b.n); step(); eqn(r, e.size(), "parse-consumed", ctx); ok(x.getStatus() == PARSING_DONE, "parse-status", ctx + " " + stname(x.getStatus()) + " " + cutstr(ref::hex(e))); ok(x.isValid(), "isValid", ctx);
    eqtx(x, t, "parsed", ctx); eqn(x.isSegwit(), ref::has_wit(t), "isSegwit", ctx); eqn(x.length(), e.size(), "length", ctx); eq(ser(x), e, "reserialize", ctx); step();
    // trailing data is not consumed
    bytes e2 = e; e2.push_back(0x5a); e2.push_back(0); Tx y; r = y.parse(e2.data(), e2.size()); eqn(r, e.size(), "trailing-consumed", ctx); ok(y.getStatus() == PARSING_DONE, "trailing-status", ctx); eq(ser(y), e, "trailing-reserialize", ctx); step();
  }
  if (api) { Tx x = mktx(t); eqn(x.length(), e.size(), "api-length", ctx); eq(ser(x), e, "api-serialize", ctx); eqtx(x, t, "api", ctx); step(); }
  outcome("codec-ok");
}
static RTx base(bool seg) { RTx t; t.ver = 2; t.lock = 0; t.in = {rin(1, 3, 0, 0), rin(2, 0, 0, 0)}; if (seg) t.in[1].wit = {repeat(3, 8), repeat(1, 1)}; t.out = {rout(0, 4), rout(0, 2)}; return t; }
static void bits() {
  bool seg = flip(); RTx t = base(seg); int f = choose(9); int w = f == 7 || f == 8 ? 64 : f == 6 ? 256 : 32; int pat = choose(6); int b = choose(w); uint64_t m = w == 64 ? ~0ull : 0xffffffffull; uint64_t v = pat == 0 ? 1ull << (b % 64) : pat == 1 ? ~(1ull << (b % 64)) : pat == 2 ? (1ull << (b % 64)) - 1 : pat == 3 ? ~((1ull << (b % 64)) - 1) : pat == 4 ? 0x0101010101010101ull * (b + 1) : 0x8040201008040201ull ^ (0x9E3779B97F4A7C15ull * (b + 1)); v &= m;
  switch (f) { case 0: t.ver = v; break; case 1: t.lock = v; break; case 2: t.in[0].idx = v; break; case 3: t.in[0].seq = v; break; case 4: t.in[1].idx = v; break; case 5: t.in[1].seq = v; break; case 6: t.in[pat & 1].hash = bytes(32, pat & 2 ? 0xff : 0); t.in[pat & 1].hash[b / 8] ^= 1 << (b % 8); break; case 7: t.out[0].amount = v; break; case 8: t.out[1].amount = v; break; }
  both(t, fmt("field %d pattern %d bit %d segwit %d", f, pat, b, seg));
}
static void shapes() {
  RTx t; t.ver = 1; int ni = choose(5), no = choose(5); for (int i = 0; i < ni; i++) { RIn x = rin(i + 1, choose(2) * 2, i, 100 + i); int w = choose(4); if (w == 1) x.wit = {repeat(2, i)}; if (w == 2) x.wit = {bytes(), repeat(1, i)}; if (w == 3) x.wit = {bytes(), bytes(), bytes()}; t.in.push_back(x); if (!thorough && ni > 3 && i >= 2) { for (; i < ni - 1; i++) t.in.push_back(rin(40 + i, 1, 7, 8)); break; } }
  for (int i = 0; i < no; i++) t.out.push_back(rout(1000 + i, i));
  both(t, fmt("shape %d in %d out", ni, no));
}
static const std::vector<size_t> &lens() { static std::vector<size_t> v; if (v.empty()) { for (size_t i = 0; i <= 300; i++) v.push_back(i); for (size_t x : {511, 512, 520, 521, 1000, 2048, 4095, 4096, 9999, 10000, 10001, 32767, 32768, 65534, 65535, 65536, 65537, 70000}) v.push_back(x); } return v; }
static void lengths() { size_t L = pick(lens()); int w = choose(4); RTx t = base(w >= 2); if (w == 0) t.in[0].sig = repeat(L, 5); if (w == 1) t.out[0].spk = repeat(L, 6); if (w == 2) t.in[1].wit = {repeat(1, 2), repeat(L, 7), repeat(2, 9)}; if (w == 3) t.in[0].wit = {repeat(L, 7)}; both(t, fmt("length %zu where %d", L, w), L <= (w >= 2 ? 9900u : 10000u)); }
static void counts() { size_t n = choose(thorough ? 420 : 301); int w = choose(5); RTx t = base(false); auto &v = w; if (v == 0) { t.in.clear(); for (size_t i = 0; i < n; i++) t.in.push_back(rin(i, i % 3, i, i)); } if (v == 1) { t.out.clear(); for (size_t i = 0; i < n; i++) t.out.push_back(rout(i, i % 3)); }
  if (v == 4) { t.in.clear(); for (size_t i = 0; i < n; i++) t.in.push_back(rin(i, i % 3, i, i, i % 2 ? std::vector<bytes>{repeat(i % 3, 1)} : std::vector<bytes>{})); }
  if (v == 2) { t.in[0].wit.assign(n, repeat(1, 3)); } if (v == 3) { t.in[1].wit.assign(n, bytes()); }
  std::string ctx = fmt("count %zu kind %d", n, w); bytes e = ref::ser_tx(t); state(e);
  if (n >= 253) { Tx x; Exact b(e); x.parse(b.p, b.n); step(); ok(x.getStatus() != PARSING_DONE || ser(x) == e, "count-misread", ctx); outcome(x.getStatus() == PARSING_DONE ? "big-count-read" : "big-count-rejected"); Tx y = mktx(t); eq(ser(y), e, "api-serialize", ctx); eqn(y.length(), e.size(), "api-length", ctx); eqtx(y, t, "api", ctx); step(); }
  else both(t, ctx);
}
static void reject() {
  int k = choose(8); RTx t = base(k >= 4); bytes e; auto nonmin = [](uint64_t n, int form) { bytes r{(uint8_t)(form == 0 ? 0xfd : form == 1 ? 0xfe : 0xff)}; ref::app(r, ref::le(n, form == 0 ? 2 : form == 1 ? 4 : 8)); return r; };
  auto enc = [&](bool seg, int which, bytes repl, uint8_t marker, uint8_t flag) { bytes r = ref::le(t.ver, 4); if (seg) { r.push_back(marker); r.push_back(flag); } int id = 0; auto vi = [&](uint64_t n) { ref::app(r, id++ == which ? repl : ref::varint(n)); };
    vi(t.in.size()); for (auto &i : t.in) { ref::app(r, i.hash); ref::app(r, ref::le(i.idx, 4)); vi(i.sig.size()); ref::app(r, i.sig); ref::app(r, ref::le(i.seq, 4)); } vi(t.out.size()); for (auto &o : t.out) { ref::app(r, ref::le(o.amount, 8)); vi(o.spk.size()); ref::app(r, o.spk); } if (seg) for (auto &i : t.in) { vi(i.wit.size()); for (auto &x : i.wit) { vi(x.size()); ref::app(r, x); } } ref::app(r, ref::le(t.lock, 4)); return r; };
  std::string ctx;
  if (k == 0 || k == 4) { // non-minimal length prefixes, at every length prefix
    std::vector<uint64_t> v; v.push_back(t.in.size()); for (auto &i : t.in) v.push_back(i.sig.size()); v.push_back(t.out.size()); for (auto &o : t.out) v.push_back(o.spk.size()); if (k == 4) for (auto &i : t.in) { v.push_back(i.wit.size()); for (auto &x : i.wit) v.push_back(x.size()); }
    int w = choose(v.size()), f = choose(3); e = enc(k == 4, w, nonmin(v[w], f), 0, 1); ctx = fmt("non-minimal prefix %d form %d segwit %d", w, f, k == 4);
  } else if (k == 5) { uint8_t fl = choose(255); if (fl >= 1) fl++; e = enc(true, -1, {}, 0, fl); ctx = fmt("segwit flag %d", fl); }
  else { outcome("skip"); return; }
  Exact b(e); Tx x; x.parse(b.p, b.n); step(); state(e); ok(x.getStatus() != PARSING_DONE, "noncanonical-accepted", ctx + " " + ref::hex(e)); outcome("rejected");
}
static void parts() { // stand-alone parts: TxIn, TxOut, Script, Witness
  size_t L = pick(lens()); int w = choose(4); bytes s = repeat(L, 3); std::string ctx = fmt("part %d length %zu", w, L); bytes e;
  if (w == 0) { e = ref::varbytes(s); Script x; Exact b(e); x.parse(b.p, b.n); ok(x.getStatus() == PARSING_DONE, "part-status", ctx); eq(scriptbytes(x), s, "part-content", ctx); eq(ser(x), e, "part-serialize", ctx); eqn(x.length(), e.size(), "part-length", ctx); }
  if (w == 1) { RIn i = rin(3, L, 77, 99); e = ref::ser_in(i); TxIn x; Exact b(e); x.parse(b.p, b.n); ok(x.getStatus() == PARSING_DONE, "part-status", ctx); eq(ser(x), e, "part-serialize", ctx); eqn(x.outputIndex, 77, "part-index", ctx); eqn(x.sequence, 99, "part-seq", ctx); eq(scriptbytes(x.scriptSig), i.sig, "part-script", ctx); eqn(x.length(), e.size(), "part-length", ctx); }
  if (w == 2) { ROut o = rout(0x1122334455667788ull, L); e = ref::ser_out(o); TxOut x; Exact b(e); x.parse(b.p, b.n); ok(x.getStatus() == PARSING_DONE, "part-status", ctx); eq(ser(x), e, "part-serialize", ctx); ok(x.amount == o.amount, "part-amount", ctx); eqn(x.length(), e.size(), "part-length", ctx); }
  if (w == 3) { std::vector<bytes> wv{repeat(1, 1), s, repeat(L % 5, 2)}; e = ref::ser_wit(wv); Witness x; Exact b(e); x.parse(b.p, b.n); ok(x.getStatus() == PARSING_DONE, "part-status", ctx); eq(ser(x), e, "part-serialize", ctx); eqn(x.count(), 3, "part-count", ctx); eqn(x.length(), e.size(), "part-length", ctx); if (L <= 9900) { Witness y; for (auto &q : wv) y.push(q.data(), q.size()); eq(ser(y), e, "push-serialize", ctx); ok(x == y, "witness-eq", ctx); } }
  step(3); state(e); outcome("part-ok");
}
// constructors of inputs take the id in display order (bytes or hex) and keep index, script and sequence
static void ctors() { int k = choose(4); int b = choose(32); uint8_t v = choose(2) ? 0xa5 : 0x01; bytes id(32, 0); id[b] = v; uint32_t idx = 1u << b, seq = ~(1u << b); Script sc = mkscript(repeat(b, 4)); std::string h = ref::hex(id), ctx = fmt("ctor %d byte %d", k, b); TxIn x = k == 0 ? TxIn(id.data(), idx, sc, seq) : k == 1 ? TxIn(id.data(), idx, seq) : k == 2 ? TxIn(h.c_str(), idx, sc, seq) : TxIn(h.c_str(), idx, seq);
  eq(ser(x), ref::ser_in(RIn{ref::rev(id), idx, k % 2 ? bytes() : repeat(b, 4), seq, {}}), "ctor-serialize", ctx); ok(x.isValid(), "ctor-valid", ctx); state(ser(x)); step(); outcome("ctor-ok");
  TxIn d = k == 0 ? TxIn(id.data(), idx, sc) : k == 1 ? TxIn(id.data(), idx) : k == 2 ? TxIn(h.c_str(), idx, sc) : TxIn(h.c_str(), idx); eqn(d.sequence, 0xffffffffll, "default-sequence", ctx); uint64_t a = 1ull << (b * 2); TxOut o1(a, sc), o2(sc, a); eq(ser(o1), ref::ser_out(ROut{a, repeat(b, 4)}), "out-ctor", ctx); eq(ser(o2), ser(o1), "out-ctor-2", ctx); }
// an id text that is too short is no id: nothing but zeros comes out, whatever was in the memory before
static void shortid() { size_t n = choose(64); bool script = flip(); uint8_t fill = choose(2) ? 0xff : 0x5a; std::string t = ref::hex(repeat(32, 0x11)).substr(0, n); alignas(TxIn) static uint8_t mem[sizeof(TxIn)]; memset(mem, fill, sizeof mem); Exact e(t + std::string(1, 0)); TxIn *x = script ? new (mem) TxIn(e.c(), 3, mkscript({1, 2}), 5u) : new (mem) TxIn(e.c(), 3, 5u); eq(bytes(x->hash, x->hash + 32), bytes(32, 0), "short-id-hash", fmt("%zu characters", n)); x->~TxIn(); state(n * 2 + script); step(); outcome("short-id"); }
// one input among many carries the only witness
static void wpos() { static const size_t N[] = {2, 5, 33, 60, 101, 129, 200, 252}; size_t n = N[choose(thorough ? 8 : 7)], p = choose(n); int k = choose(2); RTx t = base(false); t.in.clear(); for (size_t i = 0; i < n; i++) t.in.push_back(rin(i, i % 2, i, i)); t.in[p].wit = k ? std::vector<bytes>{bytes()} : std::vector<bytes>{repeat(2, 3), repeat(1, 1)}; both(t, fmt("witness only in input %zu of %zu", p, n)); }
// a count byte above 252 is a prefix, never a count
static void prefix() { int c = 253 + choose(3), w = choose(4), d = choose(3); RTx t; t.ver = 1; bool seg = w == 1 || w == 3; size_t n = c + d; if (w < 2) for (size_t i = 0; i < n; i++) t.in.push_back(rin(i + 1, i % 2, i, i)); else t.in = {rin(1, 0, 0, 0)}; if (w == 2) for (size_t i = 0; i < n; i++) t.out.push_back(rout(i, 1)); else t.out = {rout(1, 1)}; if (w == 3) t.in[0].wit.assign(n, bytes{7}); bytes r = ref::le(t.ver, 4); if (seg) ref::app(r, {0, 1}); auto vi = [&](size_t k) { if (k > 252) r.push_back(c); else r.push_back(k); }; vi(t.in.size()); for (auto &i : t.in) ref::app(r, ref::ser_in(i)); vi(t.out.size()); for (auto &o : t.out) ref::app(r, ref::ser_out(o)); if (seg) for (auto &i : t.in) { vi(i.wit.size()); for (auto &x : i.wit) ref::app(r, ref::varbytes(x)); } ref::app(r, ref::le(t.lock, 4)); Exact b(r); Tx x; x.parse(b.p, b.n); step(); state(r); ok(x.getStatus() != PARSING_DONE || ser(x) == sub(r, 0, x.length()), "prefix-read-as-count", fmt("count byte %02x where %d items %zu", c, w, n)); outcome("rejected"); }
void define_spaces() { space("count-prefix", 2, prefix); space("witness-position", 2, wpos); space("bits", 3, bits); space("shapes", 5, shapes); space("lengths", 2, lengths); space("counts", 2, counts); space("reject", 3, reject); space("parts", 2, parts); space("ctors", 2, ctors); space("short-id", 2, shortid); }
