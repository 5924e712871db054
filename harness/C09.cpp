// C09: PSBT::fee and PSBT::isMine. All mixes of descriptions of spent outputs and amounts; all combinations of output
// script, scripts in the PSBT, derivation records and wallet key (private, public, at several depths).
#include "psbtkit.h"
typedef std::vector<uint32_t> Path;
static uint64_t amt(int i) { static const uint64_t a[] = {1, 2, 546, 0xffffffffull, 0x100000000ull, 2100000000000000ull, 0xffff, 0x10000}; return a[i]; }
static PSBT load(const RPsbt &m, const std::string &ctx) { bytes e = ser_psbt(m); PSBT p; p.parse(e.data(), e.size()); ok(p.getStatus() == PARSING_DONE, "parse", ctx); step(); state(e); return p; }
static void feerun(const std::vector<std::pair<int, uint64_t>> &in, const std::vector<uint64_t> &out, const std::string &ctx) { // kind 0 witness utxo, 1 prev tx, 2 both
  RPsbt m; m.tx.ver = 2; uint64_t si = 0, so = 0; for (size_t i = 0; i < in.size(); i++) { RTx pv = prevtx(i + 3, i % 3, in[i].second, repeat(22, i), i & 1); RIn x = rin(i, 0, i % 3, 1); std::vector<RKV> r; if (in[i].first) { x.hash = ref::dsha(ref::ser_tx(pv, false)); r.push_back({bytes{0}, ref::ser_tx(pv)}); } if (in[i].first != 1) r.push_back({bytes{1}, ref::ser_out(pv.out[i % 3])}); m.tx.in.push_back(x); m.in.push_back(r); si += in[i].second; } for (uint64_t o : out) { m.tx.out.push_back(ROut{o, repeat(22, 1)}); m.out.push_back({}); so += o; }
  PSBT p = load(m, ctx); uint64_t want = so > si ? 0 : si - so; ok(p.fee() == want, "fee", ctx + fmt(" got %llu want %llu", (unsigned long long)p.fee(), (unsigned long long)want)); PSBT q(p); ok(q.fee() == want, "fee-of-copy", ctx); outcome(so > si ? "overspent" : "fee-exact"); }
static void fee1() { int ni = 1 + choose(3); std::vector<std::pair<int, uint64_t>> in; for (int i = 0; i < ni; i++) { int k = choose(3); in.push_back({k, amt(choose(ni == 3 ? 3 : 8))}); } int no = choose(3); std::vector<uint64_t> out; for (int i = 0; i < no; i++) out.push_back(amt(choose(ni == 3 ? 3 : 8))); feerun(in, out, fmt("%d in %d out", ni, no)); }
static void fee2() { int b = choose(63), w = choose(3); uint64_t a = 1ull << b; if (w == 0) feerun({{0, a}}, {a - 1}, fmt("bit %d", b)); else if (w == 1) feerun({{1, a}, {0, a - 1 ? a - 1 : 1}}, {a}, fmt("bit %d", b)); else feerun({{1, 0x7fffffffffffffffull}}, {a}, fmt("bit %d", b)); }
static void fee3() { int ni = 1 + choose(60), no = choose(60); std::vector<std::pair<int, uint64_t>> in; std::vector<uint64_t> out; for (int i = 0; i < ni; i++) in.push_back({i % 3, 1000ull * (i + 1) * (i + 7)}); for (int i = 0; i < no; i++) out.push_back(90ull * i + 1); feerun(in, out, fmt("%d in %d out", ni, no)); }
// an input whose spent output is not described: the fee is not known
static void feeunknown() { int ni = 1 + choose(3), u = choose(3); if (u >= ni) { outcome("n/a"); return; } RPsbt m; for (int i = 0; i < ni; i++) { m.tx.in.push_back(rin(i, 0, 0, 1)); m.in.push_back({}); if (i != u) m.in[i].push_back({bytes{1}, ref::ser_out(rout(1000, 22))}); } m.tx.out = {rout(10, 22)}; m.out = {{}}; PSBT p = load(m, "unknown"); eqn(p.fee(), 0, "fee-unknown"); outcome("unknown"); }
// ---- change
enum OK_ { O_PKH, O_WPKH, O_SHWPKH, O_SHWPKH_NORED, O_WSH, O_WSH_NOSCRIPT, O_WSH_WRONG, O_SHWSH, O_SHWSH_NOSCRIPT, O_SHWSH_WRONGRED, O_SH, O_SH_NOSCRIPT, O_SH_WRONG, O_BARE, O_FPKH, O_FWPKH, O_FSHWPKH, O_FWSH, O_FSH, O_RETURN, O_EMPTY, O_PKH_LIE, O_WPKH_LIE, NOK };
static const char *oname(int k) { static const char *n[] = {"pkh", "wpkh", "sh-wpkh", "sh-wpkh no redeem", "wsh", "wsh no script", "wsh wrong script", "sh-wsh", "sh-wsh no witness script", "sh-wsh wrong redeem", "sh", "sh no script", "sh wrong script", "bare", "foreign pkh", "foreign wpkh", "foreign sh-wpkh", "foreign wsh", "foreign sh", "op_return", "empty", "foreign pkh with own scripts", "foreign wpkh with own scripts"}; return n[k]; }
// scripts in which the key's bytes occur: own exactly when the script pushes the key and can be spent
static void pushes() { int form = choose(12), kind = choose(4), comp = choose(2); HD k = hdp(wallet(0), {1, 7}); bytes pk = ref::sec(k.K, comp), P = rpush(pk), s; bool want = false; auto cat3 = [](bytes a, const bytes &b, const bytes &c) { ref::app(a, b); ref::app(a, c); return a; }; uint8_t n = pk.size();
  switch (form) { case 0: s = cat3({}, P, {0xac}); want = true; break; case 1: s = cat3({0x6a}, P, {}); break; case 2: s = cat3({0x6a, 4, 1, 2, 3, 4}, P, {0xac}); break; case 3: s = cat3({(uint8_t)(n + 1)}, P, {0x75, 0x51}); break; case 4: s = cat3({0x4c, n}, pk, {0xac}); want = true; break; case 5: s = cat3({0x4d, n, 0}, pk, {0xac}); want = true; break; case 6: s = cat3({0x4e, n, 0, 0, 0}, pk, {0xac}); want = true; break; case 7: s = cat3({0x4c, (uint8_t)(n + 1)}, P, {0x75, 0x51}); break; case 8: s = cat3({0x4d, (uint8_t)(n + 1), 0}, P, {0x75, 0x51}); break; case 9: s = cat3({0x4c, 200}, P, {0xac}); break; case 10: s = cat3({0x02, 0x01}, P, {}); s[2] = n; break; default: { s = cat3({0x63, 0x02, 0x90, 0x00, 0xb2, 0x75, 0x67, 0x68}, P, {0xac}); want = true; } }
  OutDesc d; if (kind == 0) { d.redeem = s; d.spk = ref::p2sh(ref::hash160(s)); } else if (kind == 1) { d.witness = s; d.spk = ref::p2wsh(ref::sha256(s)); } else if (kind == 2) { d.witness = s; d.redeem = ref::p2wsh(ref::sha256(s)); d.spk = ref::p2sh(ref::hash160(d.redeem)); } else d.spk = s;
  RPsbt ps; ps.tx.in = {rin(1, 0, 0, 1)}; ps.in = {{}}; ps.tx.out = {ROut{5, d.spk}}; std::vector<RKV> m; if (!d.redeem.empty()) m.push_back({bytes{0}, d.redeem}); if (!d.witness.empty()) m.push_back({bytes{1}, d.witness}); m.push_back(kv_deriv(2, pk, {1, 2, 3, 4}, {1, 7})); ps.out = {m}; PSBT p = load(ps, "push"); bool g = p.isMine(0, lhd(wallet(0))), gp = p.isMine(0, lhdpub(wallet(0))); step(2); ok(g == want && gp == want, want ? "own-output-not-recognised" : "foreign-output-reported-as-own", fmt("script form %d kind %d comp %d", form, kind, comp)); outcome(want ? "own" : "foreign"); }
enum RK { R_NONE, R_OWN, R_WRONGPATH, R_WRONGKEY, R_FOREIGN_OWN, R_OWN_FOREIGN, R_FOREIGN, NRK };
static const std::vector<Path> PR = {{hard(84), hard(0), hard(0), 1, 7}, {1, 7}, {}, {hard(49), 0}, {0, 0, 0, 0, 5}, {0x7fffffff, 0}, {0}};
static void change(int ok_, int rk, const Path &path, int keyform, int pos, const Path &basep) { // keyform: 0 private, 1 public; key given = wallet(0)/basep
  HD base = hdp(wallet(0), basep); bool hardened = false; for (uint32_t x : path) if (x >> 31) hardened = true; HD k = hdp(base, path), f = hdp(wallet(1), path); bytes pk = ref::sec(k.K), fk = ref::sec(f.K), ff2 = rpub(4); bytes fp = hd_fp(base), ffp = hd_fp(wallet(1)); bool involve = false; OutDesc d;
  switch (ok_) { case O_PKH: d = describe(S_PKH, pk, fk); involve = true; break; case O_WPKH: d = describe(S_WPKH, pk, fk); involve = true; break; case O_SHWPKH: d = describe(S_SHWPKH, pk, fk); involve = true; break; case O_SHWPKH_NORED: d = describe(S_SHWPKH, pk, fk); d.redeem.clear(); involve = true; break; case O_WSH: d = describe(S_WSH, fk, pk); involve = true; break; case O_WSH_NOSCRIPT: d = describe(S_WSH, pk, fk); d.witness.clear(); break; case O_WSH_WRONG: d = describe(S_WSH, fk, ff2); d.witness = multi2(pk, fk); break; case O_SHWSH: d = describe(S_SHWSH, pk, fk); involve = true; break; case O_SHWSH_NOSCRIPT: d = describe(S_SHWSH, pk, fk); d.witness.clear(); break; case O_SHWSH_WRONGRED: d = describe(S_SHWSH, fk, ff2); { OutDesc e = describe(S_SHWSH, pk, fk); d.redeem = e.redeem; d.witness = e.witness; } break;
    case O_SH: d = describe(S_SH, pk, fk); involve = true; break; case O_SH_NOSCRIPT: d = describe(S_SH, pk, fk); d.redeem.clear(); break; case O_SH_WRONG: d = describe(S_SH, fk, ff2); d.redeem = multi2(pk, fk); break; case O_BARE: d = describe(S_BARE, pk, fk); involve = true; break; case O_FPKH: d = describe(S_PKH, fk, pk); break; case O_FWPKH: d = describe(S_WPKH, fk, pk); break; case O_FSHWPKH: d = describe(S_SHWPKH, fk, pk); break; case O_FWSH: d = describe(S_WSH, fk, ff2); break; case O_FSH: d = describe(S_SH, fk, ff2); break; case O_RETURN: d.spk = {0x6a, 3, 1, 2, 3}; break; case O_EMPTY: break; case O_PKH_LIE: d = describe(S_PKH, fk, pk); d.redeem = ref::p2pkh(ref::hash160(pk)); d.witness = multi2(pk, fk); break; default: d = describe(S_WPKH, fk, pk); d.redeem = ref::p2wpkh(ref::hash160(pk)); d.witness = multi2(pk, fk); }
  std::vector<RKV> m; if (!d.redeem.empty()) m.push_back({bytes{0}, d.redeem}); if (!d.witness.empty()) m.push_back({bytes{1}, d.witness}); Path wp = path; if (wp.empty()) wp.push_back(1); else wp.back() ^= 1; bool rec = false;
  switch (rk) { case R_OWN: m.push_back(kv_deriv(2, pk, fp, path)); rec = true; break; case R_WRONGPATH: m.push_back(kv_deriv(2, pk, fp, wp)); break; case R_WRONGKEY: m.push_back(kv_deriv(2, fk, fp, path)); break; case R_FOREIGN_OWN: m.push_back(kv_deriv(2, fk, ffp, path)); m.push_back(kv_deriv(2, pk, fp, path)); rec = true; break; case R_OWN_FOREIGN: m.push_back(kv_deriv(2, pk, fp, path)); m.push_back(kv_deriv(2, fk, ffp, path)); rec = true; break; case R_FOREIGN: m.push_back(kv_deriv(2, fk, ffp, path)); break; }
  RPsbt ps; ps.tx.in = {rin(1, 0, 0, 1)}; ps.in = {{}}; for (int i = 0; i < 3; i++) { ps.tx.out.push_back(rout(i, 22)); ps.out.push_back({}); } ps.tx.out[pos] = ROut{77, d.spk}; ps.out[pos] = m;
  std::string ctx = fmt("output %s records %d key %s pos %d path", oname(ok_), rk, keyform ? "xpub" : "xprv", pos); for (uint32_t x : path) ctx += fmt("/%x", x); PSBT p = load(ps, ctx); bool want = rec && involve && !(keyform && hardened);
  for (int i = 0; i < 4; i++) { bool g = keyform ? p.isMine(i, lhdpub(base)) : p.isMine(i, lhd(base)); ok(g == (i == pos && want), g ? "foreign-output-reported-as-own" : "own-output-not-recognised", ctx + fmt(" output %d", i)); bool g2 = keyform ? p.isMine(i, lhdpub(wallet(2))) : p.isMine(i, lhd(wallet(2))); ok(!g2, "foreign-output-reported-as-own", ctx + " other wallet"); step(2); } outcome(want ? "own" : "foreign"); }
static void ch1() { int o = choose(NOK), r = choose(NRK), kf = choose(2); const Path &p = PR[choose(PR.size())]; change(o, r, p, kf, choose(thorough ? 3 : 1), {}); }
static void ch2() { int o = choose(NOK), r = choose(NRK), kf = choose(2), pos = choose(3); change(o, r, PR[1], kf, pos, {hard(84), hard(1), hard(0)}); }
// witness/redeem script that contains the key at any position (n keys), or the key bytes without being pushed
static void ms() { int n = 1 + choose(15), at = choose(15), kind = choose(4), push = choose(2); if (at >= n) { outcome("n/a"); return; } HD k = hdp(wallet(0), {1, 7}); bytes pk = ref::sec(k.K), s{(uint8_t)0x51}; for (int i = 0; i < n; i++) ref::app(s, i == at ? (push ? rpush(pk) : rpush(ref::cat({7}, pk))) : rpush(rpub(i % NKEYS))); ref::app(s, {(uint8_t)(0x50 + n), 0xae}); OutDesc d; if (kind == 0) { d.redeem = s; d.spk = ref::p2sh(ref::hash160(s)); } else if (kind == 1) { d.witness = s; d.spk = ref::p2wsh(ref::sha256(s)); } else if (kind == 2) { d.witness = s; d.redeem = ref::p2wsh(ref::sha256(s)); d.spk = ref::p2sh(ref::hash160(d.redeem)); } else d.spk = s;
  RPsbt ps; ps.tx.in = {rin(1, 0, 0, 1)}; ps.in = {{}}; ps.tx.out = {ROut{5, d.spk}}; std::vector<RKV> m; if (!d.redeem.empty()) m.push_back({bytes{0}, d.redeem}); if (!d.witness.empty()) m.push_back({bytes{1}, d.witness}); m.push_back(kv_deriv(2, pk, {1, 2, 3, 4}, {1, 7})); ps.out = {m}; PSBT p = load(ps, "multisig"); bool g = p.isMine(0, lhd(wallet(0))), gp = p.isMine(0, lhdpub(wallet(0))); if (!push) { ok(!g && !gp, "foreign-output-reported-as-own", fmt("key bytes inside another push, %d of %d kind %d", at, n, kind)); outcome("foreign"); return; } ok(g && gp, "own-output-not-recognised", fmt("key %d of %d kind %d", at, n, kind)); ok(!p.isMine(0, lhd(wallet(1))), "foreign-output-reported-as-own", "multisig"); outcome("own-multisig"); }
// every bit of the output's hash matters
static void bits() { int kind = choose(5); static const int ks[] = {S_PKH, S_WPKH, S_SHWPKH, S_WSH, S_SHWSH}; HD k = hdp(wallet(0), {1, 7}); OutDesc d = describe(ks[kind], ref::sec(k.K), rpub(1)); size_t b = choose(d.spk.size() * 8); bytes spk = d.spk; spk[b / 8] ^= 1 << (b % 8); RPsbt ps; ps.tx.in = {rin(1, 0, 0, 1)}; ps.in = {{}}; ps.tx.out = {ROut{5, spk}, ROut{5, d.spk}}; std::vector<RKV> m; if (!d.redeem.empty()) m.push_back({bytes{0}, d.redeem}); if (!d.witness.empty()) m.push_back({bytes{1}, d.witness}); m.push_back(kv_deriv(2, ref::sec(k.K), {1, 2, 3, 4}, {1, 7})); ps.out = {m, m}; PSBT p = load(ps, "bits"); ok(!p.isMine(0, lhd(wallet(0))), "foreign-output-reported-as-own", fmt("kind %d bit %zu of the output script", kind, b)); ok(p.isMine(1, lhd(wallet(0))), "own-output-not-recognised", "bits"); outcome("altered-script"); }
// one PSBT object asked again and again, edited, copied and parsed over
static RPsbt hpsbt(int k) { RPsbt m; m.tx.ver = 2; for (int i = 0; i < 2; i++) { RTx pv = prevtx(i + 3 + k, i, 5000 + 100 * k + i, repeat(22, i), i); RIn x = rin(i, 0, i, 1); x.hash = ref::dsha(ref::ser_tx(pv, false)); m.tx.in.push_back(x); m.in.push_back({{bytes{0}, ref::ser_tx(pv)}}); } for (int i = 0; i < 3; i++) { int w = (i + k) % 3; HD c = hdp(wallet(w), {1, (uint32_t)(7 + i)}), f = hdp(wallet((w + 1) % 3), {1, 9}); OutDesc d = describe(i == 0 ? S_WPKH : i == 1 ? S_SHWPKH : S_WSH, ref::sec(c.K), ref::sec(f.K)); m.tx.out.push_back(ROut{(uint64_t)(700 + 10 * i + k), d.spk}); std::vector<RKV> r; if (!d.redeem.empty()) r.push_back({bytes{0}, d.redeem}); if (!d.witness.empty()) r.push_back({bytes{1}, d.witness}); r.push_back(kv_deriv(2, ref::sec(c.K), hd_fp(wallet(w)), {1, (uint32_t)(7 + i)})); m.out.push_back(r); } return m; }
static void hist() { RPsbt m[2] = {hpsbt(0), hpsbt(1)}; int cur = 0; bytes e0 = ser_psbt(m[0]); PSBT p; p.parse(e0.data(), e0.size()); ok(p.getStatus() == PARSING_DONE, "parse", "history"); std::vector<uint64_t> in = {5000, 5001}, out = {700, 710, 720}; std::vector<int> own = {0, 1, 2}; std::string tr; int depth = thorough ? 4 : 3; bool sw = false; auto ow = [&](int i) { return sw && i < 2 ? -1 : own[i]; };
  auto wants = [&]() { uint64_t a = 0, b = 0; for (auto x : in) a += x; for (auto x : out) b += x; return a > b ? a - b : 0; };
  for (int d = 0; d < depth; d++) { int op = choose(14); tr += fmt(" %d", op); step(); switch (op) {
    case 0: ok(p.fee() == wants(), "fee-later", tr); break; case 1: case 2: case 3: { int w = op - 1; for (int i = 0; i < 3; i++) { bool g = p.isMine(i, lhd(wallet(w))); ok(g == (ow(i) == w), g ? "foreign-output-reported-as-own-later" : "own-output-not-recognised-later", tr + fmt(" output %d wallet %d", i, w)); } break; } case 4: { for (int i = 2; i >= 0; i--) { bool g = p.isMine(i, lhdpub(wallet(i))); ok(g == (ow(i) == i), g ? "foreign-output-reported-as-own-later" : "own-output-not-recognised-later", tr + fmt(" output %d xpub", i)); } break; }
    case 5: p.txInsMeta[0].txOut.amount += 9; in[0] += 9; break; case 6: p.tx.txOuts[1].amount += 4; out[1] += 4; break; case 7: { PSBT q(p); q.tx.txOuts[0].amount = 1; q.fee(); ok(p.fee() == wants(), "fee-after-copy", tr); PSBT r; r.fee(); r = p; ok(r.fee() == wants(), "fee-of-assigned", tr); p = r; break; }
    case 8: case 9: { cur = op - 8; bytes e = ser_psbt(m[cur]); p.parse(e.data(), e.size()); ok(p.getStatus() == PARSING_DONE, "reparse", tr); in = {5000u + 100 * cur, 5001u + 100 * cur}; out = {700u + cur, 710u + cur, 720u + cur}; for (int i = 0; i < 3; i++) own[i] = (i + cur) % 3; sw = false; break; }
    case 10: { TxOut a = p.tx.txOuts[0], b = p.tx.txOuts[1]; p.tx.txOuts[0] = b; p.tx.txOuts[1] = a; std::swap(out[0], out[1]); sw = !sw; break; } case 11: p.sign(lhd(wallet(0))); break; case 12: { PSBT q; bytes e = ser_psbt(m[1 - cur]); q.parse(e.data(), e.size()); for (int i = 0; i < 3; i++) { bool g = q.isMine(i, lhd(wallet(0))); ok(g == ((i + 1 - cur) % 3 == 0), "other-object", tr); } q.fee(); break; }
    case 13: p.tx.txOuts[2].amount += 0x100000000ull; out[2] += 0x100000000ull; break; } }
  ok(p.fee() == wants(), "fee-later", tr); for (int w = 0; w < 3; w++) for (int i = 0; i < 3; i++) { bool g = p.isMine(i, lhd(wallet(w))); ok(g == (ow(i) == w), g ? "foreign-output-reported-as-own-later" : "own-output-not-recognised-later", tr + fmt(" output %d wallet %d", i, w)); } state(ref::fnv(ser(p), p.fee())); outcome("history"); }
// the only own output among many, the only own record among many
static void place() { static const size_t N[] = {5, 64, 129, 252}; size_t n = N[choose(4)]; size_t P[] = {0, 1, n / 2, n - 2, n - 1, std::min<size_t>(n - 1, 127), std::min<size_t>(n - 1, 128)}; size_t p = P[choose(7)]; int kind = choose(3); static const size_t R[] = {1, 17, 129, 255}; size_t rn = R[choose(4)], rp = choose(3); rp = rp == 0 ? 0 : rp == 1 ? rn - 1 : rn / 2; HD k = hdp(wallet(0), {1, 7}); OutDesc d = describe(kind == 0 ? S_WPKH : kind == 1 ? S_SHWPKH : S_WSH, ref::sec(k.K), rpub(1)); RPsbt ps; ps.tx.in = {rin(1, 0, 0, 1)}; ps.in = {{}}; for (size_t i = 0; i < n; i++) { ps.tx.out.push_back(i == p ? ROut{5, d.spk} : rout(i, 22)); std::vector<RKV> m; if (i == p) { if (!d.redeem.empty()) m.push_back({bytes{0}, d.redeem}); if (!d.witness.empty()) m.push_back({bytes{1}, d.witness}); for (size_t j = 0; j < rn; j++) m.push_back(j == rp ? kv_deriv(2, ref::sec(k.K), {1, 2, 3, 4}, {1, 7}) : kv_deriv(2, rpub(j % NKEYS, false), {(uint8_t)j, 2, 3, 4}, {1})); } ps.out.push_back(m); } std::string ctx = fmt("output %zu of %zu, record %zu of %zu", p, n, rp, rn); PSBT q = load(ps, ctx); HDPrivateKey w = lhd(wallet(0)); for (size_t i = 0; i < n; i++) { if (i != p && i + 2 < n && i > 1 && i % 16) continue; bool g = q.isMine(i, w); ok(g == (i == p), g ? "foreign-output-reported-as-own" : "own-output-not-recognised", ctx + fmt(" output %zu", i)); step(); } outcome("placed"); }
void define_spaces() { space("positions", 2, place); space("histories", 3, hist); space("fee-mixes", 3, fee1); space("fee-bits", 1, fee2); space("fee-counts", 1, fee3); space("fee-unknown", 1, feeunknown); space("change", 3, ch1); space("change-account-key", 3, ch2); space("change-pushes", 2, pushes); space("change-multisig", 2, ms); space("change-script-bits", 2, bits); }
