// C10: PSBT histories. From every catalogue PSBT, all sequences of {sign by either wallet, serialize+parse in raw, hex or
// base64 form, copy, assign, add a signature record} up to a depth; after every step the transaction and the set of
// partial signatures of every input equal the model's, in memory and on the wire.
#include "psbtkit.h"
struct M { RTx tx; std::vector<std::map<bytes, bytes>> sig; std::vector<bytes> dig; std::vector<int> kind; bool meta; }; // sig: key -> der+type (empty: any valid signature)
struct Src { RPsbt p; std::vector<OutDesc> d; std::vector<uint64_t> am; };
static Src mksrc(int which) { Src s; RPsbt &p = s.p; p.tx.ver = 2; p.tx.lock = 3; const HD &A = wallet(0), &Bw = wallet(1); auto in = [&](int kind, std::vector<uint32_t> path, bool own, bool oth, int pre) { size_t n = p.tx.in.size(); bytes pa = ref::sec(hdp(A, path).K), pb = ref::sec(hdp(Bw, path).K); OutDesc d = describe(kind, pa, pb); uint64_t am = 10000 + n; RTx pv = prevtx(n + 1, n, am, d.spk); RIn x = rin(n, 0, n, 0xfffffffd); x.hash = ref::dsha(ref::ser_tx(pv, false)); p.tx.in.push_back(x); std::vector<RKV> m{{bytes{0}, ref::ser_tx(pv)}}; if (!d.redeem.empty()) m.push_back({bytes{4}, d.redeem}); if (!d.witness.empty()) m.push_back({bytes{5}, d.witness}); if (own) m.push_back(kv_deriv(6, pa, hd_fp(A), path)); if (oth) m.push_back(kv_deriv(6, pb, hd_fp(Bw), path));
    for (int i = 0; i < pre; i++) { RKV r = kv_sig(rpub(i % NKEYS, i % 2 == 0), ref::der(ref::U(0x80 + i * 0x1000), ref::U(0x7f + i))); r.v.back() = i % 3 == 0 ? 1 : i % 3 == 1 ? 0x83 : 2; m.push_back(r); } p.in.push_back(m); s.d.push_back(d); s.am.push_back(am); };
  switch (which) { case 0: in(S_WPKH, {0, 1}, true, false, 0); break; case 1: in(S_WSH, {hard(48), 2}, true, true, 0); in(S_PKH, {1}, true, false, 1); break; case 2: in(S_SH, {3}, true, true, 2); in(S_SHWPKH, {hard(1), 1}, true, false, 0); in(S_SHWSH, {2}, false, true, 3); break; case 3: in(S_BARE, {9}, false, false, 5); break; case 4: in(S_WPKH, {0}, true, false, 0); in(S_WPKH, {1}, true, false, 0); in(S_WPKH, {2}, false, false, 0); break; default: in(S_PKH, {5}, true, false, 3); break; }
  int no = which % 3 + (which != 3); for (int i = 0; i < no; i++) { p.tx.out.push_back(rout(i, 22 + i)); p.out.push_back({}); if (i == 1) p.out[i].push_back(kv_deriv(2, rpub(1), {1, 2, 3, 4}, {1})); } if (which == 5) { p.tx.out[0].spk = repeat(300, 1); p.glob.push_back({bytes{0xfc, 1}, repeat(9, 9)}); } return s; }
enum { NSRC = 6 };
static std::vector<std::map<bytes, bytes>> wire_sigs(const bytes &e, const RTx &tx, const std::string &ctx) { // checks well-formedness, returns partial signatures per input
  eq(sub(e, 0, 5), bytes{0x70, 0x73, 0x62, 0x74, 0xff}, "magic", ctx); Rd r{e, 5}; std::vector<std::vector<RKV>> maps; while (r.p < e.size()) { std::vector<RKV> m; std::set<bytes> keys; for (;;) { ok(r.p < e.size(), "wire-truncated", ctx); uint64_t n = r.vi(); if (!n) break; ok(r.p + n < e.size(), "wire-truncated", ctx); bytes k = r.take(n); ok(keys.insert(k).second, "wire-duplicate-key", ctx); uint64_t l = r.vi(); ok(r.p + l <= e.size(), "wire-truncated", ctx); m.push_back({k, r.take(l)}); } maps.push_back(m); }
  eqn(maps.size(), 1 + tx.in.size() + tx.out.size(), "wire-sections", ctx); ok(!maps[0].empty() && maps[0][0].k == bytes{0}, "wire-global-tx", ctx); eq(maps[0][0].v, ref::ser_tx(tx, false), "wire-transaction", ctx); std::vector<std::map<bytes, bytes>> out(tx.in.size()); for (size_t i = 0; i < tx.in.size(); i++) for (auto &kv : maps[1 + i]) if (kv.k[0] == 2) out[i][sub(kv.k, 1, 99)] = kv.v; return out; }
static void judge(PSBT &p, const M &m, const std::string &ctx) {
  bytes e = ser(p); eqn(p.length(), e.size(), "length", ctx); eqtx(p.tx, m.tx, "tx", ctx); auto w = wire_sigs(e, m.tx, ctx); for (size_t i = 0; i < m.tx.in.size(); i++) { eqn(w[i].size(), m.sig[i].size(), "signature-count", ctx + fmt(" input %zu", i)); for (auto &s : m.sig[i]) { ok(w[i].count(s.first), "signature-lost", ctx + fmt(" input %zu", i)); eq(w[i][s.first], s.second, "signature-changed", ctx + fmt(" input %zu", i)); } eqn(p.txInsMeta[i].signaturesLen, m.sig[i].size(), "signatures-in-memory", ctx); }
  eq(p.toBase64(), ref::b64(e), "base64", ctx); eq(p.toString(), ref::hex(e), "hex", ctx); step(3); state(e); }
static void sign(PSBT &p, M &m, const Src &s, int w, const std::string &ctx) { // merge what the wallet can sign; signatures must be valid
  uint8_t r = p.sign(lhd(wallet(w))); size_t want = 0; if (m.meta) for (size_t i = 0; i < m.tx.in.size(); i++) for (auto &kv : s.p.in[i]) if (kv.k[0] == 6 && sub(kv.v, 0, 4) == hd_fp(wallet(w))) { want++; std::vector<uint32_t> path; for (size_t k = 4; k < kv.v.size(); k += 4) path.push_back(kv.v[k] | kv.v[k + 1] << 8 | kv.v[k + 2] << 16 | (uint32_t)kv.v[k + 3] << 24); const HD &k = hdp(wallet(w), path); bytes pk = ref::sec(k.K), dg = desc_digest(s.d[i], m.tx, i, s.am[i], pk); auto ws = wire_sigs(ser(p), m.tx, ctx); ok(ws[i].count(pk), "signature-missing", ctx); bytes g = ws[i][pk]; ok(!g.empty() && g.back() == 1, "signature-type", ctx); std::string pr = badsig(sub(g, 0, g.size() - 1), k.k, dg); ok(pr.empty(), "signature-invalid", ctx + pr); m.sig[i][pk] = g; }
  eqn(r, want, "sign-count", ctx); step(); }
static void hist() { int which = choose(NSRC); Src s = mksrc(which); bytes e = ser_psbt(s.p); M m; m.tx = s.p.tx; m.meta = true; m.sig.resize(m.tx.in.size()); for (size_t i = 0; i < m.tx.in.size(); i++) for (auto &kv : s.p.in[i]) if (kv.k[0] == 2) m.sig[i][sub(kv.k, 1, 99)] = kv.v;
  std::unique_ptr<PSBT> p(new PSBT()); std::string ctx = fmt("psbt %d:", which); int form = choose(3); if (form == 0) p->parse(e.data(), e.size()); else if (form == 1) p->parse(ref::hex(e)); else eqn(p->parseBase64(ref::b64(e)), e.size(), "parseBase64", ctx); ok(p->getStatus() == PARSING_DONE, "parse", ctx + fmt(" form %d", form)); judge(*p, m, ctx);
  int depth = thorough ? 4 : 3; for (int k = 0; k < depth; k++) { int op = choose(9); if (op == 8) break; ctx += fmt(" %d", op); bytes cur = ser(*p);
    switch (op) { case 0: case 1: sign(*p, m, s, op, ctx); break; case 2: { std::unique_ptr<PSBT> q(new PSBT()); eqn(q->parse(cur.data(), cur.size()), cur.size(), "reparse", ctx); p = std::move(q); m.meta = false; break; } case 3: { p->parse(ref::hex(cur)); m.meta = false; break; } case 4: { std::unique_ptr<PSBT> q(new PSBT()); eqn(q->parseBase64(p->toBase64()), cur.size(), "parseBase64", ctx); p = std::move(q); m.meta = false; break; } case 5: { std::unique_ptr<PSBT> q(new PSBT(*p)); p = std::move(q); break; } case 6: { PSBT q; q = *p; *p = PSBT(); *p = q; break; }
      case 7: { RKV r = kv_sig(rpub(5), ref::der(ref::U(0x99 + k), ref::U(5))); r.v.back() = 3; Script a = mkscript(r.k), b = mkscript(r.v); ok(p->add(1, &a, &b) > 0, "add", ctx); m.sig[0][rpub(5)] = r.v; break; } }
    ok(p->getStatus() == PARSING_DONE, "status", ctx); judge(*p, m, ctx); } outcome("history"); }
// all signature sizes, type bytes and key forms survive
static void sigs() { static const std::vector<ref::U> v = {ref::U(1), ref::U(0x80), ref::fromH("00ff00000000000000000000000000000000000000000000000000000000000001"), ref::fromH("7f00000000000000000000000000000000000000000000000000000000000002"), ref::fromH("8000000000000000000000000000000000000000000000000000000000000003")}; int a = choose(5), b = choose(5), ty = choose(256), comp = choose(2), n = choose(2); RPsbt p; p.tx.in = {rin(1, 0, 0, 1), rin(2, 0, 0, 1)}; p.tx.out = {rout(1, 1)}; p.in.resize(2); p.out.resize(1); RKV r = kv_sig(rpub(1, comp), ref::der(v[a], v[b])); r.v.back() = ty; p.in[n].push_back(r); bytes e = ser_psbt(p); PSBT q; q.parse(e.data(), e.size()); ok(q.getStatus() == PARSING_DONE, "parse"); eq(ser(q), e, "round-trip", fmt("r %d s %d type %d compressed %d", a, b, ty, comp)); PSBT z; z.parseBase64(ref::b64(e)); eq(ser(z), e, "base64-round-trip"); state(e); step(2); outcome("signature-kept"); }
static void counts() { int n = choose(thorough ? 250 : 80); RPsbt p; p.tx.in = {rin(1, 0, 0, 1)}; p.tx.out = {rout(1, 1)}; p.in.resize(1); p.out.resize(1); for (int i = 0; i < n; i++) p.in[0].push_back(kv_sig(ref::sec(ref::mulG(ref::U(1000 + i)), i % 2), ref::der(ref::U(i + 1), ref::U(7)))); bytes e = ser_psbt(p); PSBT q; q.parse(e.data(), e.size()); ok(q.getStatus() == PARSING_DONE, "parse"); eq(ser(q), e, "round-trip", fmt("%d signatures", n)); state(e); step(); outcome("many"); }
static void txs() { auto c = tx_catalog(true); RTx t = c[choose(c.size())]; for (auto &i : t.in) { i.sig.clear(); i.wit.clear(); } bool sg = flip(); RPsbt p; p.tx = t; p.in.resize(t.in.size()); p.out.resize(t.out.size()); if (sg) for (size_t i = 0; i < p.in.size(); i++) p.in[i].push_back(kv_sig(rpub(i % NKEYS), ref::der(ref::U(i + 1), ref::U(7)))); bytes e = ser_psbt(p); PSBT q; q.parse(e.data(), e.size()); ok(q.getStatus() == PARSING_DONE, "parse"); eqtx(q.tx, t, "tx", ""); eq(ser(q), e, "round-trip"); eq(q.toBase64(), ref::b64(e), "base64"); state(e); step(2); outcome("tx-kept"); }
static void sizes() { int n = choose(400); RPsbt p; p.tx.in = {rin(1, 0, 0, 1)}; p.tx.out = {rout(1, n)}; p.in.resize(1); p.out.resize(1); bytes e = ser_psbt(p); PSBT q; eqn(q.parseBase64(ref::b64(e)), e.size(), "parseBase64", fmt("script %d", n)); ok(q.getStatus() == PARSING_DONE, "parse"); eq(ser(q), e, "round-trip"); eq(q.toBase64(), ref::b64(e), "base64"); state(e); step(2); outcome("size"); }
static void place() { static const size_t N[] = {5, 64, 129, 250}; size_t n = N[choose(4)]; size_t P[] = {0, 1, n / 2, n - 2, n - 1, std::min<size_t>(n - 1, 127), std::min<size_t>(n - 1, 128)}; size_t p = P[choose(7)], s = 1 + choose(3), no = choose(4); RPsbt q; for (size_t i = 0; i < n; i++) { q.tx.in.push_back(rin(i + 1, 0, i, 1)); q.in.push_back({}); } for (size_t i = 0; i < no; i++) { q.tx.out.push_back(rout(i, i)); q.out.push_back({}); } for (size_t i = 0; i < s; i++) q.in[p].push_back(kv_sig(rpub(i), ref::der(ref::U(i + 1), ref::U(7)))); bytes e = ser_psbt(q); std::string ctx = fmt("%zu signatures in input %zu of %zu", s, p, n); PSBT z; eqn(z.parse(e.data(), e.size()), e.size(), "consumed", ctx); ok(z.getStatus() == PARSING_DONE, "parse", ctx); eq(ser(z), e, "round-trip", ctx); eqn(z.length(), e.size(), "length", ctx); PSBT y(z); eq(ser(y), e, "copy", ctx); eq(z.toBase64(), ref::b64(e), "base64", ctx); state(e); step(3); outcome("placed"); }
void define_spaces() { space("positions", 2, place); space("histories", 3, hist); space("signature-forms", 2, sigs); space("signature-counts", 1, counts); space("transactions", 1, txs); space("sizes", 1, sizes); }
