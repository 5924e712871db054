// C08: PSBT metadata. All ordered subsets of record kinds per section are parsed and compared field by field with the
// records; every defect of a list is injected at every record and must lead to rejection.
#include "psbtkit.h"
struct XIn { bytes utxo, redeem, witness; std::vector<RKV> der, sig; };
static bytes vb(const bytes &b) { return ref::varbytes(b); }
static void eqder(const PSBTDerivation *d, size_t n, const std::vector<RKV> &want, const std::string &ctx) { eqn(n, want.size(), "derivations", ctx); for (size_t i = 0; i < n; i++) { eq(secof(d[i].pubkey), sub(want[i].k, 1, 99), "derivation-key", ctx); bytes v(d[i].fingerprint, d[i].fingerprint + 4); for (size_t k = 0; k < d[i].derivationLen; k++) ref::app(v, ref::le(d[i].derivation[k], 4)); eq(v, want[i].v, "derivation-path", ctx); } }
static const bytes &PA() { static bytes b = rpub(1); return b; } static const bytes &PB() { static bytes b = rpub(2); return b; } static const bytes &PU() { static bytes b = rpub(3, false); return b; }
static RTx base(int ni, int no, const RTx &prev) { RTx t; t.ver = 2; t.lock = 5; for (int i = 0; i < ni; i++) { RIn x = rin(i + 9, 0, 1, 7 + i); x.hash = ref::dsha(ref::ser_tx(prev, false)); x.idx = i % 2 ? 0 : 1; t.in.push_back(x); } for (int i = 0; i < no; i++) t.out.push_back(rout(i + 1, i + 1)); return t; }
static const RTx &prev() { static RTx p = prevtx(3, 1, 0x0102030405060708ull, repeat(25, 9), true); return p; }
enum { NI = 13, NO = 7 };
// i-th record kind of an input section
static RKV irec(int k, int idx) { const ROut &o = prev().out[idx]; switch (k) { case 0: return {bytes{0}, ref::ser_tx(prev())}; case 1: return {bytes{1}, ref::ser_out(o)}; case 2: return kv_sig(PA(), ref::der(ref::U(0x80), ref::U(0x7f))); case 3: return kv_sig(PU(), ref::der(ref::fromH("ff00000000000000000000000000000000000000000000000000000000000001"), ref::U(1))); case 4: return {bytes{3}, ref::le(1, 4)}; case 5: return {bytes{4}, repeat(22, 5)}; case 6: return {bytes{5}, repeat(300, 6)}; case 7: return kv_deriv(6, PA(), {1, 2, 3, 4}, {hard(84), 0, 0xffffffff}); case 8: return kv_deriv(6, PB(), {5, 6, 7, 8}, {}); case 9: return {bytes{7}, repeat(3, 7)}; case 10: return {bytes{8}, repeat(4, 8)}; case 11: return {ref::cat({0xfc}, repeat(5, 1)), repeat(6, 1)}; default: return {bytes{9}, bytes()}; } }
static RKV orec(int k) { switch (k) { case 0: return {bytes{0}, repeat(23, 4)}; case 1: return {bytes{1}, repeat(71, 3)}; case 2: return kv_deriv(2, PA(), {9, 9, 9, 9}, {1, 2}); case 3: return kv_deriv(2, PU(), {8, 8, 8, 8}, {hard(1)}); case 4: return {bytes{3}, repeat(3, 7)}; case 5: return {ref::cat({0xfc}, repeat(5, 1)), bytes()}; default: return {bytes{0x20, 1, 2}, repeat(255, 1)}; } }
static void apply(XIn &x, const RKV &r, int idx) { switch (r.k[0]) { case 0: case 1: x.utxo = ref::ser_out(prev().out[idx]); break; case 2: x.sig.push_back(r); break; case 4: x.redeem = r.v; break; case 5: x.witness = r.v; break; case 6: x.der.push_back(r); break; } }
static void applyo(XIn &x, const RKV &r) { switch (r.k[0]) { case 0: x.redeem = r.v; break; case 1: x.witness = r.v; break; case 2: x.der.push_back(r); break; } }
static void judge(PSBT &p, const RPsbt &m, const std::string &ctx) {
  eqtx(p.tx, m.tx, "tx", ctx); for (size_t i = 0; i < m.in.size(); i++) { XIn x; x.utxo = ref::ser_out(ROut{0, bytes()}); for (auto &r : m.in[i]) apply(x, r, m.tx.in[i].idx); std::string c = ctx + fmt(" in %zu", i); auto &g = p.txInsMeta[i]; eq(ser(g.txOut), x.utxo, "spent-output", c); eq(ser(g.redeemScript), vb(x.redeem), "redeem-script", c); eq(ser(g.witnessScript), vb(x.witness), "witness-script", c); eqder(g.derivations, g.derivationsLen, x.der, c);
    eqn(g.signaturesLen, x.sig.size(), "signatures", c); for (size_t j = 0; j < x.sig.size(); j++) { eq(secof(g.signatures[j].pubkey), sub(x.sig[j].k, 1, 99), "signature-key", c); eq(derof(g.signatures[j].signature), sub(x.sig[j].v, 0, x.sig[j].v.size() - 1), "signature", c); eqn(g.signatures[j].sighash, x.sig[j].v.back(), "signature-type", c); } }
  for (size_t i = 0; i < m.out.size(); i++) { XIn x; for (auto &r : m.out[i]) applyo(x, r); std::string c = ctx + fmt(" out %zu", i); auto &g = p.txOutsMeta[i]; eq(ser(g.redeemScript), vb(x.redeem), "out-redeem-script", c); eq(ser(g.witnessScript), vb(x.witness), "out-witness-script", c); eqder(g.derivations, g.derivationsLen, x.der, c); } step();
}
static void good(const RPsbt &m, const std::string &ctx, bool twice = false) { bytes e = ser_psbt(m); Exact b(e); PSBT p; for (int k = 0; k < (twice ? 2 : 1); k++) { size_t n = p.parse(b.p, b.n); eqn(n, e.size(), "consumed", ctx); ok(p.getStatus() == PARSING_DONE, "well-formed-rejected", ctx); judge(p, m, ctx); } state(e); outcome("parsed"); }
static void bad(const bytes &e, const std::string &ctx, bool incomplete = false) { Exact b(e); PSBT p; p.parse(b.p, b.n); step(); state(e); ok(p.getStatus() != PARSING_DONE, "malformed-accepted", ctx + " " + cutstr(ref::hex(e), 300)); if (!incomplete) ok(p.getStatus() == PARSING_FAILED, "malformed-not-rejected", ctx + " " + cutstr(ref::hex(e), 300)); outcome("rejected"); }
// distinct kinds, in any order
static std::vector<int> subset(int n, int max) { std::vector<int> left, r; for (int i = 0; i < n; i++) left.push_back(i); int k = choose(max + 1); for (int i = 0; i < k; i++) { int j = choose(left.size()); r.push_back(left[j]); left.erase(left.begin() + j); } return r; }
static RPsbt mk(int ni, int no) { RPsbt m; m.tx = base(ni, no, prev()); m.in.resize(ni); m.out.resize(no); return m; }
static std::string nm(const std::vector<int> &v) { std::string s; for (int x : v) s += fmt("%d ", x); return s; }
static void inputs() { int where = choose(2); RPsbt m = mk(2, 1); auto s = subset(NI, thorough ? 4 : 3); for (int k : s) m.in[where].push_back(irec(k, m.tx.in[where].idx)); good(m, fmt("input %d records ", where) + nm(s)); }
static void outputs() { int where = choose(2); RPsbt m = mk(1, 2); auto s = subset(NO, thorough ? 5 : 4); for (int k : s) m.out[where].push_back(orec(k)); good(m, fmt("output %d records ", where) + nm(s)); }
static void shapes() { int ni = choose(5), no = choose(5); RPsbt m = mk(ni, no); int gl = choose(3); for (int i = 0; i < gl; i++) m.glob.push_back({ref::cat({(uint8_t)(i ? 0xfb : 1)}, repeat(i ? 0 : 78, 2)), repeat(4 + i, 3)}); bool in = flip(), out = flip(), alt = flip(); for (int i = 0; i < ni; i++) if (in && (!alt || i % 2)) for (int k = 0; k < NI; k++) m.in[i].push_back(irec((k * 5 + i) % NI, m.tx.in[i].idx)); for (int i = 0; i < no; i++) if (out && (!alt || i % 2 == 0)) for (int k = 0; k < NO; k++) m.out[i].push_back(orec((k * 3 + i) % NO)); if (ni == 0) { outcome("n/a"); return; } good(m, fmt("shape %d x %d glob %d %d%d%d", ni, no, gl, in, out, alt), true); }
static void counts() { bool in = flip(); int n = choose(256); RPsbt m = mk(1, 1); for (int i = 0; i < n; i++) { if (in) m.in[0].push_back(kv_deriv(6, rpub(i % NKEYS, i % 3 != 0), {(uint8_t)i, 2, 3, 4}, {(uint32_t)i})); else m.out[0].push_back(kv_deriv(2, rpub(i % NKEYS, i % 3 != 0), {(uint8_t)i, 2, 3, 4}, {(uint32_t)i, hard(i)})); } good(m, fmt("%d derivations %s", n, in ? "in" : "out")); }
static void plen() { bool in = flip(); int n = choose(256); RPsbt m = mk(1, 1); std::vector<uint32_t> p; for (int i = 0; i < n; i++) p.push_back(0x9e3779b9u * (i + 1)); if (in) m.in[0].push_back(kv_deriv(6, PA(), {1, 2, 3, 4}, p)); else m.out[0].push_back(kv_deriv(2, PB(), {1, 2, 3, 4}, p)); good(m, fmt("path length %d", n)); }
static void slen() { int w = choose(4), n = choose(601); RPsbt m = mk(1, 1); bytes v = repeat(n, 1); if (w == 0) m.in[0].push_back({bytes{4}, v}); else if (w == 1) m.in[0].push_back({bytes{5}, v}); else if (w == 2) m.out[0].push_back({bytes{0}, v}); else m.out[0].push_back({bytes{1}, v}); good(m, fmt("script %d of length %d", w, n)); }
static void unknown() { bool in = flip(); int t = choose(256), kl = choose(4), vl = choose(3); RPsbt m = mk(1, 1); bytes k = ref::cat({(uint8_t)t}, repeat(kl == 3 ? 300 : kl, 2)); if (in ? t <= 8 && t != 3 && t < 7 : t <= 2) { outcome("known"); return; } RKV r{k, repeat(vl == 2 ? 260 : vl * 7, 4)}; auto &l = in ? m.in[0] : m.out[0]; if (in) { l.push_back(irec(5, 1)); l.push_back(r); l.push_back(irec(7, 1)); } else { l.push_back(orec(0)); l.push_back(r); l.push_back(orec(2)); } good(m, fmt("unknown type %d", t)); }
// ---- defects
static bool defect(RKV &r, int d, bool in) { uint8_t t = r.k[0]; bool single = in ? (t == 0 || t == 1 || t == 4 || t == 5) : (t == 0 || t == 1), der = in ? t == 6 : t == 2, sig = in && t == 2; bool utxo = in && t <= 1;
  switch (d) { case 0: if (!single) return false; r.k.push_back(0); return true; case 1: if (!single) return false; ref::app(r.k, PA()); return true;
    case 2: if (!utxo) return false; r.v.push_back(0); return true; case 3: if (!utxo) return false; r.v.pop_back(); return true; case 4: if (!utxo) return false; r.v.clear(); return true;
    case 5: if (!(in && t == 0)) return false; r.v[0] ^= 1; return true; case 6: if (!(in && t == 0)) return false; r.v.back() ^= 0x80; return true; case 7: if (!(in && t == 0)) return false; r.v = ref::ser_tx(prevtx(3, 1, 0x0102030405060709ull, repeat(25, 9), true)); return true;
    case 8: if (!der && !sig) return false; r.k.pop_back(); return true; case 9: if (!der && !sig) return false; r.k.push_back(7); return true; case 10: if (!der && !sig) return false; r.k.resize(1); return true; case 11: if (!der && !sig) return false; r.k[1] = 5; return true; case 12: if (!der && !sig) return false; r.k[1] = r.k[1] == 4 ? 2 : 4; return true;
    case 13: if (!der) return false; r.v.push_back(1); return true; case 14: if (!der) return false; r.v.pop_back(); return true; case 15: if (!der) return false; r.v.clear(); return true;
    case 16: if (!sig) return false; r.v.pop_back(); return true; case 17: if (!sig) return false; r.v.insert(r.v.end(), 1, 1); return true; case 18: if (!sig) return false; r.v[0] = 0x31; return true; case 19: if (!sig) return false; r.v.clear(); return true; case 20: if (!sig) return false; r.v[1]++; return true; case 21: if (!sig) return false; r.v.resize(1); return true;
    case 22: if (!der && !sig) return false; for (size_t i = 1; i < r.k.size(); i++) r.k[i] = i == 1 ? r.k[1] : 0xff; return true; }
  return false; }
enum { ND = 23 };
static void defects() { bool in = flip(); int k = choose(in ? NI : NO), d = choose(ND), pos = choose(3), where = choose(2); RPsbt m = mk(2, 2); RKV r = in ? irec(k, m.tx.in[where].idx) : orec(k); if (!defect(r, d, in)) { outcome("n/a"); return; } auto &l = in ? m.in[where] : m.out[where]; RKV o = in ? irec(4, 0) : orec(4), o2 = in ? irec(k == 5 ? 6 : 5, 0) : orec(k == 0 ? 1 : 0); if (pos > 0) l.push_back(o); if (pos > 1) l.push_back(o2); l.push_back(r); if (pos == 0) l.push_back(o2); bad(ser_psbt(m), fmt("%s %d record %d defect %d pos %d", in ? "input" : "output", where, k, d, pos)); }
static void index_() { RPsbt m = mk(1, 1); uint32_t i = choose(6); static const uint32_t v[] = {0, 1, 2, 3, 0x7fffffff, 0xffffffff}; m.tx.in[0].idx = v[i]; m.in[0].push_back({bytes{0}, ref::ser_tx(prev())}); if (v[i] < prev().out.size()) good(m, "index"); else bad(ser_psbt(m), fmt("spent output %u does not exist", v[i])); }
static void bigprev() { static const uint32_t N[] = {1, 2, 3, 127, 128, 251, 252}; uint32_t n = N[choose(7)]; int sgw = choose(2), extra = choose(2); RTx pv; pv.ver = 1; pv.in = {rin(1, 0, 0, 0)}; if (sgw) pv.in[0].wit = {repeat(3, 3)}; for (uint32_t i = 0; i < n; i++) pv.out.push_back(rout(1000 + i, 3 + i % 20)); static const uint32_t I[] = {0, 1, 2, 3, 126, 127, 128, 250, 251, 252, 253, 255, 256, 257, 258, 383, 65535, 65536, 65537, 0x1000000, 0x1000001, 0x80000000, 0x80000001, 0xffffffff}; uint32_t v = I[choose(24)]; RPsbt m; m.tx = base(1, 1, pv); m.tx.in[0].idx = v; m.in.resize(1); m.out.resize(1); m.in[0].push_back({bytes{0}, ref::ser_tx(pv)}); if (extra && v < n) m.in[0].push_back({bytes{1}, ref::ser_out(pv.out[v])}); std::string ctx = fmt("output %u of a previous transaction with %u outputs", v, n); if (v >= n) { bad(ser_psbt(m), ctx); return; } bytes e = ser_psbt(m); Exact x(e); PSBT p; eqn(p.parse(x.p, x.n), e.size(), "consumed", ctx); ok(p.getStatus() == PARSING_DONE, "well-formed-rejected", ctx); eq(ser(p.txInsMeta[0].txOut), ref::ser_out(pv.out[v]), "spent-output", ctx); step(); state(e); outcome("parsed"); }
static void magic() { RPsbt m = mk(1, 1); m.in[0].push_back(irec(1, 1)); bytes e = ser_psbt(m); int i = choose(5), v = choose(256); if (e[i] == v) { good(m, "magic"); return; } e[i] = v; bad(e, fmt("magic byte %d = %d", i, v)); }
static void global() { RPsbt m = mk(1, 1); bytes t = ref::ser_tx(m.tx, false); int d = choose(12); std::vector<RKV> g{{bytes{0}, t}}; bool inc = false; switch (d) { case 0: g[0].k = {1}; break; case 1: g[0].k = {0, 0}; break; case 2: g[0].v.pop_back(); break; case 3: g[0].v.push_back(0); break; case 4: g[0].v.clear(); break; case 5: g.clear(); break; case 6: g.insert(g.begin(), RKV{bytes{0xfc, 1}, repeat(3, 1)}); g.pop_back(); break; case 7: g[0].v.resize(4); break; case 8: g[0].k = {2}; break; case 9: g[0].v = repeat(60, 0xff); break; case 10: g[0].v[4] = 2; break; case 11: g[0].k = {0xff}; break; }
  bytes e{0x70, 0x73, 0x62, 0x74, 0xff}; ref::app(e, ser_map(g)); ref::app(e, {0, 0}); bad(e, fmt("global defect %d", d), inc); }
static void trunc() { RPsbt m = mk(2, 2); for (int k = 0; k < NI; k += 2) m.in[0].push_back(irec(k, m.tx.in[0].idx)); for (int k = 0; k < NO; k++) m.out[1].push_back(orec(k)); bytes e = ser_psbt(m); size_t n = choose(e.size()); bad(sub(e, 0, n), fmt("first %zu of %zu bytes", n, e.size()), true); }
static void bits() { // every bit of every metadata value: either rejected or exposed exactly as written
  bool in = flip(); int k = choose(in ? NI : NO); RPsbt m = mk(1, 1); RKV r = in ? irec(k, 1) : orec(k); size_t nb = r.v.size() * 8; if (!nb) { outcome("n/a"); return; } size_t b = choose(std::min<size_t>(nb, 800)); if (in && k == 0) b = nb - 1 - b % nb; r.v[b / 8] ^= 1 << (b % 8); (in ? m.in[0] : m.out[0]).push_back(r); bytes e = ser_psbt(m);
  if (in && r.k[0] == 0) { RTx q = prev(); size_t base = ref::ser_tx(prev()).size(); (void)base; Exact x(e); PSBT p; p.parse(x.p, x.n); step(); // only witness bits do not change the id
    if (p.getStatus() == PARSING_DONE) { bytes want = ref::ser_out(prev().out[1]); eq(ser(p.txInsMeta[0].txOut), want, "altered-previous-transaction-accepted", fmt("bit %zu", b)); Tx y; y.parse(r.v.data(), r.v.size()); ok(y.getStatus() == PARSING_DONE, "altered-previous-transaction-accepted", fmt("bit %zu", b)); uint8_t h[32]; y.hash(h); eq(bytes(h, h + 32), ref::dsha(ref::ser_tx(prev(), false)), "altered-previous-transaction-accepted", fmt("bit %zu", b)); outcome("witness-bit"); } else outcome("id-mismatch"); return; }
  Exact x(e); PSBT p; p.parse(x.p, x.n); step(); if (in && r.k[0] == 1) { Rd q{r.v, 8}; uint64_t l = q.vi(); bool wf = q.p + l == r.v.size(); if (!wf) { ok(p.getStatus() != PARSING_DONE, "malformed-utxo-accepted", fmt("bit %zu", b)); outcome("rejected"); return; } ok(p.getStatus() == PARSING_DONE, "utxo-rejected", fmt("bit %zu", b)); eq(ser(p.txInsMeta[0].txOut), r.v, "spent-output", fmt("bit %zu", b)); outcome("exposed"); return; }
  if (in && r.k[0] == 2) { ref::U a, c; bytes d(r.v.begin(), r.v.end() - 1); if (p.getStatus() == PARSING_DONE && rder(d, a, c)) { judge(p, m, fmt("signature bit %zu", b)); outcome("exposed"); } else if (p.getStatus() != PARSING_DONE) { ok(!rder(d, a, c), "signature-rejected", fmt("bit %zu", b)); outcome("rejected"); } else outcome("lax-der"); return; }
  ok(p.getStatus() == PARSING_DONE, "well-formed-rejected", fmt("record %d bit %zu", k, b)); judge(p, m, fmt("record %d bit %zu", k, b)); outcome("exposed"); }
// the previous transaction must be the spent one: every bit of the recorded id; a path longer than any key has
static void ids() { int b = choose(257), sgw = choose(2); RTx pv = prevtx(3, 1, 77, repeat(25, 9), sgw); RPsbt m; m.tx = base(1, 1, pv); m.in.resize(1); m.out.resize(1); m.in[0].push_back({bytes{0}, ref::ser_tx(pv)}); bytes e = ser_psbt(m); if (b == 256) { Exact x(e); PSBT p; p.parse(x.p, x.n); ok(p.getStatus() == PARSING_DONE, "well-formed-rejected", "spent id"); eq(ser(p.txInsMeta[0].txOut), ref::ser_out(pv.out[1]), "spent-output", "spent id"); step(); outcome("parsed"); return; } m.tx.in[0].hash[b / 8] ^= 1 << (b % 8); bad(ser_psbt(m), fmt("bit %d of the spent id", b)); }
static void deep() { bool in = flip(); int n = 256 + choose(300); RPsbt m = mk(1, 1); std::vector<uint32_t> p(n, 3); if (in) m.in[0].push_back(kv_deriv(6, PA(), {1, 2, 3, 4}, p)); else m.out[0].push_back(kv_deriv(2, PB(), {1, 2, 3, 4}, p)); bad(ser_psbt(m), fmt("path length %d", n)); }
// the only records of the whole PSBT, in any section
static void place() { static const int N[] = {5, 64, 129, 250}; int n = N[choose(4)]; bool in = flip(); int P[] = {0, 1, n / 2, n - 2, n - 1, std::min(n - 1, 127), std::min(n - 1, 128)}; int p = P[choose(7)]; RPsbt m = mk(in ? n : 2, in ? 2 : n); if (in) for (int k = 0; k < NI; k++) m.in[p].push_back(irec(k, m.tx.in[p].idx)); else for (int k = 0; k < 2; k++) m.out[p].push_back(k ? kv_deriv(2, PB(), {1, 2, 3, 4}, {1, 2}) : RKV{bytes{1}, repeat(40, 2)}); good(m, fmt("records only in %s %d of %d", in ? "input" : "output", p, n)); }
void define_spaces() { space("positions", 2, place); space("large-previous", 3, bigprev); space("spent-id", 1, ids); space("impossible-paths", 1, deep); space("input-records", 3, inputs); space("output-records", 3, outputs); space("shapes", 2, shapes); space("record-counts", 2, counts); space("path-lengths", 2, plen); space("script-lengths", 2, slen); space("unknown-types", 2, unknown); space("defects", 2, defects); space("spent-index", 1, index_); space("magic", 2, magic); space("global-defects", 1, global); space("truncation", 1, trunc); space("value-bits", 2, bits); }
