// C07: PSBT::sign. All combinations of spent-output kinds, record kinds, derivation paths and signing sequences.
#include "psbtkit.h"
typedef std::vector<uint32_t> Path;
static const std::vector<Path> &paths() { static std::vector<Path> p = {{hard(84), hard(0), hard(0), 0, 5}, {hard(84), hard(0), hard(0), 1, 6}, {hard(84), hard(0), hard(1), 0, 5}, {hard(84), hard(0)}, {hard(84)}, {}, {0}, {7, 8}, {hard(84), hard(0), hard(0)}, {5, hard(1), 2}, {hard(49), 1, hard(2), 3}, {hard(0), 0xffffff, 0x7fffffff}, {hard(84), hard(0), hard(0), 0, 5, 1, 1, 1}, {hard(0x7fffffff), 0}, {0x01020304, hard(0x01020304)}}; return p; }
// record kinds
enum RK { R_OWN, R_FOREIGN_FP, R_WRONG_KEY, R_WRONG_PATH, R_NONE, R_OTHER, R_OTHER_OWN, R_OWN_OTHER, R_OWN_OWN2, R_WRONG_OWN, R_OWN_WRONG, R_FP_PREFIX, NRK };
static const char *rname(int r) { static const char *n[] = {"own", "foreign-fp", "wrong-key", "wrong-path", "none", "other-wallet", "other+own", "own+other", "own+own2", "wrong+own", "own+wrong", "similar-fingerprints"}; return n[r]; }
struct Want { bytes sec; ref::U k; bytes digest; int wallet; };
struct In { OutDesc d; uint64_t amount; std::vector<Want> want; std::vector<std::pair<bytes, bytes>> pre; };
struct Case { RPsbt p; std::vector<In> in; std::string ctx; };
// records of a second key only make sense for scripts with two keys
static bool legal(int kind, int utxo, int rk) { if (utxo == 0 && !(kind == S_WPKH || kind == S_SHWPKH || kind == S_WSH || kind == S_SHWSH || kind == S_WSHPKH || kind == S_SHWSHPKH)) return false; return kind == S_WSH || kind == S_SHWSH || kind == S_SH || !(rk == R_OTHER_OWN || rk == R_OWN_OTHER || rk == R_OWN_OWN2); }
// utxo: 0 witness utxo, 1 full previous transaction, 2 previous transaction with witnesses
static void add_input(Case &c, int kind, int utxo, int rk, const Path &path, uint64_t amount, bool presig) {
  size_t n = c.p.tx.in.size(); const HD &A = wallet(0), &Bw = wallet(1); HD ka = hdp(A, path); Path p2 = path; p2.push_back(3); HD ka2 = hdp(A, p2), kb = hdp(Bw, path);
  bytes pa = ref::sec(ka.K), pb = ref::sec(kb.K), pa2 = ref::sec(ka2.K); In I; I.amount = amount; I.d = rk == R_OTHER ? describe(kind, pb, pa) : describe(kind, pa, rk == R_OWN_OWN2 ? pa2 : pb);
  RTx prev = prevtx(n * 31 + 7, n + 1, amount, I.d.spk, utxo == 2); RIn in = rin(n * 40 + 1, 0, n + 1, 0xfffffffd); if (utxo) in.hash = ref::dsha(ref::ser_tx(prev, false)); c.p.tx.in.push_back(in);
  std::vector<RKV> m; if (utxo) m.push_back({bytes{0}, ref::ser_tx(prev)}); else m.push_back({bytes{1}, ref::ser_out(ROut{amount, I.d.spk})}); if (!I.d.redeem.empty()) m.push_back({bytes{4}, I.d.redeem}); if (!I.d.witness.empty()) m.push_back({bytes{5}, I.d.witness});
  bytes fa = hd_fp(A), fb = hd_fp(Bw), ff{0xde, 0xad, 0xbe, 0xef}; auto own = [&] { m.push_back(kv_deriv(6, pa, fa, path)); I.want.push_back({pa, ka.k, bytes(), 0}); }; auto oth = [&] { m.push_back(kv_deriv(6, pb, fb, path)); I.want.push_back({pb, kb.k, bytes(), 1}); };
  switch (rk) { case R_OWN: own(); break; case R_FOREIGN_FP: m.push_back(kv_deriv(6, pa, ff, path)); break; case R_WRONG_KEY: m.push_back(kv_deriv(6, pb, fa, path)); break; case R_WRONG_PATH: m.push_back(kv_deriv(6, pa, fa, p2)); break; case R_NONE: break; case R_OTHER: oth(); break; case R_OTHER_OWN: oth(); own(); break; case R_OWN_OTHER: own(); oth(); break;
    case R_OWN_OWN2: own(); m.push_back(kv_deriv(6, pa2, fa, p2)); I.want.push_back({pa2, ka2.k, bytes(), 0}); break; case R_WRONG_OWN: m.push_back(kv_deriv(6, pa2, fa, path)); own(); break; case R_OWN_WRONG: own(); m.push_back(kv_deriv(6, pb, fa, p2)); break; case R_FP_PREFIX: { bytes f = fa; f[3] ^= 1; m.push_back(kv_deriv(6, pa, f, path)); f = fa; f[0] ^= 0x80; m.push_back(kv_deriv(6, pb, f, path)); break; } }
  if (presig) { bytes sg = ref::der(ref::U(0x1234 + n), ref::U(0x81)), pk = rpub(2); m.push_back(kv_sig(pk, sg)); I.pre.push_back({pk, sg}); }
  c.p.in.push_back(m); c.in.push_back(I); c.ctx += fmt(" [%s utxo %d %s path", skname(kind), utxo, rname(rk)); for (uint32_t x : path) c.ctx += fmt("/%x", x); c.ctx += "]";
}
static void finish(Case &c) { c.p.tx.ver = 2; c.p.tx.lock = 77; c.p.tx.out = {rout(1000, 22), rout(2000, 25)}; c.p.out = {{}, {}}; for (size_t n = 0; n < c.in.size(); n++) for (auto &w : c.in[n].want) w.digest = desc_digest(c.in[n].d, c.p.tx, n, c.in[n].amount, w.sec); }
static void judge(PSBT &p, const Case &c, bool sa, bool sb, const std::string &ctx) {
  for (size_t n = 0; n < c.in.size(); n++) { auto &m = p.txInsMeta[n]; std::map<bytes, bytes> got; for (size_t j = 0; j < m.signaturesLen; j++) { bytes k = secof(m.signatures[j].pubkey); ok(!got.count(k), "duplicate-signature", ctx); got[k] = derof(m.signatures[j].signature); }
    for (auto &s : c.in[n].pre) { ok(got.count(s.first), "existing-signature-lost", ctx); eq(got[s.first], s.second, "existing-signature-changed", ctx); got.erase(s.first); }
    for (auto &w : c.in[n].want) { bool due = w.wallet == 0 ? sa : sb; if (!due) { ok(!got.count(w.sec), "signed-too-early", ctx); continue; } ok(got.count(w.sec), "signature-missing", ctx + fmt(" input %zu", n)); std::string pr = badsig(got[w.sec], w.k, w.digest); ok(pr.empty(), "signature-invalid", ctx + fmt(" input %zu: ", n) + pr); got.erase(w.sec); }
    ok(got.empty(), "unexpected-signature", ctx + fmt(" input %zu: %zu extra", n, got.size())); }
  eqtx(p.tx, c.p.tx, "tx-touched", ctx); step();
}
static void run(Case &c, const std::vector<int> &seq) {
  bytes e = ser_psbt(c.p); PSBT p; p.parse(e.data(), e.size()); ok(p.getStatus() == PARSING_DONE, "parse", c.ctx); bool s[3] = {false, false, false}; judge(p, c, false, false, c.ctx);
  std::vector<bytes> meta; for (size_t n = 0; n < c.in.size(); n++) { meta.push_back(ser(p.txInsMeta[n].txOut)); meta.push_back(ser(p.txInsMeta[n].redeemScript)); meta.push_back(ser(p.txInsMeta[n].witnessScript)); }
  for (int w : seq) { std::string ctx = c.ctx + fmt(" sign by %d", w); size_t want = 0; for (auto &i : c.in) for (auto &x : i.want) want += x.wallet == w; bytes before = ser(p); bool again = s[w]; uint8_t r = p.sign(lhd(wallet(w), w == 1 ? &Testnet : &Mainnet)); s[w] = true; eqn(r, want, "returned-count", ctx); judge(p, c, s[0], s[1], ctx); if (again) eq(ser(p), before, "second-signing-changes", ctx); state(ser(p)); }
  size_t k = 0; for (size_t n = 0; n < c.in.size(); n++) { eq(ser(p.txInsMeta[n].txOut), meta[k++], "metadata-touched", c.ctx); eq(ser(p.txInsMeta[n].redeemScript), meta[k++], "metadata-touched", c.ctx); eq(ser(p.txInsMeta[n].witnessScript), meta[k++], "metadata-touched", c.ctx); }
  outcome(fmt("judged-%zu-inputs", c.in.size()));
}
static const std::vector<std::vector<int>> SEQ = {{0}, {1}, {2}, {0, 1}, {1, 0}, {0, 0}, {2, 0, 1, 0}};
static void single() { int kind = choose(NSK), utxo = choose(3), rk = choose(NRK); const Path &p = paths()[choose(paths().size())]; if (!legal(kind, utxo, rk)) { outcome("n/a"); return; } Case c; uint64_t a = 123456789012ull; add_input(c, kind, utxo, rk, p, a, flip()); finish(c); run(c, SEQ[choose(thorough ? SEQ.size() : 4)]); }
static void kinds2() { int k1 = choose(NSK), k2 = choose(NSK), r1 = choose(NRK), r2 = choose(NRK); if (!legal(k1, 1, r1) || !legal(k2, 1, r2)) { outcome("n/a"); return; } Case c; add_input(c, k1, 1, r1, paths()[0], 5000, false); add_input(c, k2, legal(k2, 0, r2) ? 0 : 2, r2, paths()[1], 7000, false); finish(c); run(c, thorough ? SEQ[choose(SEQ.size())] : std::vector<int>{0, 1, 0}); }
static void paths2() { const Path &p1 = paths()[choose(paths().size())], &p2 = paths()[choose(paths().size())]; int r1 = thorough ? choose(NRK) : (int)R_OWN; Case c; add_input(c, S_WPKH, 0, r1, p1, 5000, false); add_input(c, S_PKH, 1, R_OWN, p2, 7000, false); finish(c); run(c, {0, 1}); }
static void three() { int k[3], r[3]; static const int rs[] = {R_OWN, R_OTHER, R_NONE, R_OTHER_OWN}; for (int i = 0; i < 3; i++) { k[i] = thorough ? choose(NSK) : (int)(i == 0 ? S_SHWPKH : i == 1 ? S_PKH : S_WSH); r[i] = rs[choose(4)]; if (!legal(k[i], 1, r[i])) { outcome("n/a"); return; } } Case c; for (int i = 0; i < 3; i++) add_input(c, k[i], 1 + (i & 1), r[i], paths()[choose(3)], 100 * i + 1, i == 1); finish(c); run(c, SEQ[3 + choose(2)]); }
static void amounts() { int b = choose(64), inv = choose(2), kind = choose(4), utxo = choose(3); static const int ks[] = {S_WPKH, S_SHWPKH, S_WSH, S_SHWSH}; uint64_t a = 1ull << b; if (inv) a = ~a; Case c; add_input(c, ks[kind], utxo, R_OWN, paths()[0], a, false); finish(c); run(c, {0}); }
static void many() { int n = 1 + choose(40); Case c; for (int i = 0; i < n; i++) { int k = i % NSK; add_input(c, k, 1, i % 5 == 3 ? R_NONE : R_OWN, {hard(84), hard(i % 3), 0, (uint32_t)i}, i + 1, i % 4 == 1); } finish(c); run(c, {0, 1}); }
// an input whose spent output is unknown gets nothing, whatever else is known about it; its neighbour is signed
static void undescribed() {
  int kind = choose(NSK), rk = choose(NRK), drop = choose(4), pos = choose(3), nk = choose(2) ? S_PKH : S_WSH; if (!legal(kind, 1, rk)) { outcome("n/a"); return; } Case c; int at = pos == 2 ? 1 : 0;
  for (int i = 0; i < (pos ? 2 : 1); i++) { if (i != at) { add_input(c, nk, 1, R_OWN, paths()[1], 900, false); continue; } add_input(c, kind, 1, rk, paths()[choose(3)], 5000, choose(2)); auto &m = c.p.in.back(); std::vector<RKV> w; for (auto &x : m) if (x.k[0] != 0 && !(x.k[0] == 4 && (drop & 1)) && !(x.k[0] == 5 && (drop & 2))) w.push_back(x); m = w; c.in.back().want.clear(); }
  finish(c); c.ctx += fmt(" spent output of input %d unknown, drop %d", at, drop); run(c, {0, 1});
}
// the only own input among many, and the only own record among many
static void place() { static const size_t N[] = {5, 64, 129, 250}; size_t n = N[choose(4)]; size_t P[] = {0, 1, n / 2, n - 2, n - 1, std::min<size_t>(n - 1, 127), std::min<size_t>(n - 1, 128)}; size_t p = P[choose(7)]; int k = choose(NSK); Case c; for (size_t i = 0; i < n; i++) { if (i == p) { add_input(c, k, 1, R_OWN, paths()[0], 5000, false); continue; } c.p.tx.in.push_back(rin(i + 1, 0, i, 1)); c.p.in.push_back({}); In I; I.amount = 0; c.in.push_back(I); } c.ctx += fmt(" input %zu of %zu", p, n); finish(c); run(c, {0, 1}); }
static void records() { static const size_t N[] = {2, 16, 100, 129, 255}; size_t n = N[choose(5)]; size_t P[] = {0, 1, n / 2, n - 1, std::min<size_t>(n - 1, 128)}; size_t p = P[choose(5)]; int k = choose(NSK); Case c; add_input(c, k, 1, R_OWN, paths()[0], 5000, false); auto &m = c.p.in[0]; RKV own = m.back(); m.pop_back(); for (size_t i = 0; i < n; i++) { if (i == p) { m.push_back(own); continue; } m.push_back(kv_deriv(6, ref::sec(ref::mulG(ref::U(5000 + i))), {(uint8_t)i, 1, 2, 3}, {(uint32_t)i, 7})); } c.ctx += fmt(" record %zu of %zu", p, n); finish(c); run(c, {0, 1}); }
static void all() { static const int N[] = {41, 130, 200, 250}; int n = N[choose(thorough ? 4 : 2)]; Case c; for (int i = 0; i < n; i++) add_input(c, i % 2 ? S_WPKH : S_PKH, 1, R_OWN, {hard(84), 1, (uint32_t)i}, i + 1, false); finish(c); run(c, {0}); }
void define_spaces() { space("positions", 2, place); space("record-positions", 2, records); space("all-own", 1, all); space("undescribed", 3, undescribed); space("single", 3, single); space("two-inputs-kinds", 3, kinds2); space("two-inputs-paths", 2, paths2); space("three-inputs", 3, three); space("amounts", 2, amounts); space("many-inputs", 1, many); }
