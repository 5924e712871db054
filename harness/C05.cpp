// C05: signature digests (legacy and BIP143, types ALL/NONE/SINGLE) against the model, for every enumerated
// transaction, input index, script and amount; the transaction is unchanged afterwards.
#include "catalog.h"
static const SigHashType TY[3] = {SIGHASH_ALL, SIGHASH_NONE, SIGHASH_SINGLE};
static void judge(const RTx &t, const std::string &ctx, const bytes &code, uint64_t amount, int only = -1) {
  Tx x = mktx(t); bytes e = ref::ser_tx(t); Script sc = mkscript(code); uint8_t h[32];
  for (size_t n = 0; n < t.in.size(); n++) { if (only >= 0 && (int)n != only) continue;
    for (int k = 0; k < 3; k++) { std::string c = ctx + fmt(" input %zu type %d", n, k + 1); memset(h, 0x5a, 32); eqn(x.sigHash(h, n, sc, TY[k]), 32, "ret", c); eq(bytes(h, h + 32), ref::sighash_legacy(t, n, code, TY[k]), "legacy-digest", c); state(ref::fnv(h, 32));
      memset(h, 0x5a, 32); eqn(x.sigHashSegwit(h, n, sc, amount, TY[k]), 32, "ret", c); eq(bytes(h, h + 32), ref::sighash_segwit(t, n, code, amount, TY[k]), "segwit-digest", c); state(ref::fnv(h, 32)); step(2); }
    x.sigHash(h, n, sc); eq(bytes(h, h + 32), ref::sighash_legacy(t, n, code, 1), "legacy-default", ctx); x.sigHashSegwit(h, n, sc, amount); eq(bytes(h, h + 32), ref::sighash_segwit(t, n, code, amount, 1), "segwit-default", ctx); }
  bytes a, b, o; for (auto &i : t.in) { ref::app(a, i.hash); ref::app(a, ref::le(i.idx, 4)); ref::app(b, ref::le(i.seq, 4)); } for (auto &q : t.out) ref::app(o, ref::ser_out(q));
  x.hashPrevouts(h); eq(bytes(h, h + 32), ref::dsha(a), "hashPrevouts", ctx); x.hashSequence(h); eq(bytes(h, h + 32), ref::dsha(b), "hashSequence", ctx); x.hashOutputs(h); eq(bytes(h, h + 32), ref::dsha(o), "hashOutputs", ctx); step(3);
  eq(ser(x), e, "tx-changed", ctx); eq(scriptbytes(sc), code, "script-changed", ctx); outcome("digest-ok");
}
static bytes code_of(int k) { bytes h = repeat(20, 7); return k == 0 ? ref::p2pkh(h) : k == 1 ? bytes() : k == 2 ? ref::p2wpkh(h) : k == 3 ? repeat(71, 1) : k == 4 ? repeat(252, 2) : k == 5 ? repeat(253, 3) : bytes{0xac, 0xab, 0x51}; }
static void shapes() { int ni = 1 + choose(3), no = choose(5); RTx t; t.ver = 2; t.lock = 77; for (int i = 0; i < ni; i++) { int k = choose(3); RIn x = rin(i + 1, k == 1 ? 30 : 0, i * 5, 0xffffffff - i); if (k == 2) x.wit = {repeat(3, 3)}; t.in.push_back(x); } for (int i = 0; i < no; i++) t.out.push_back(rout(100 * i, i * 7)); judge(t, fmt("shape %d/%d", ni, no), code_of(choose(7)), 123456789); }
static void amounts() { int k = choose(4); int b = choose(64); uint64_t v = k == 0 ? 1ull << b : k == 1 ? ~(1ull << b) : k == 2 ? (1ull << b) - 1 : ~0ull << b; judge(tx_catalog()[choose(8)], fmt("amount %llx", (unsigned long long)v), code_of(0), v); }
static void fields() { RTx t; t.ver = 2; t.in = {rin(1, 3, 0, 0), rin(2, 0, 1, 1), rin(3, 0, 1, 1, {repeat(2, 2)})}; t.out = {rout(0, 4), rout(0, 2)}; int f = choose(7), b = choose(64), p = choose(3), w = choose(3); uint64_t v = p == 0 ? 1ull << b : p == 1 ? ~(1ull << b) : (1ull << b) - 1; if (f < 4 && b >= 32) { outcome("n/a"); return; }
  switch (f) { case 0: t.ver = v; break; case 1: t.lock = v; break; case 2: t.in[w].idx = v; break; case 3: t.in[w].seq = v; break; case 4: t.out[w % 2].amount = v; break; case 5: t.in[w].hash[b / 2] ^= p == 0 ? 0x80 : p == 1 ? 1 : 0xff; break; case 6: t.out[w % 2].spk = repeat(b, p); t.in[w].sig = repeat(b, 3); break; }
  judge(t, fmt("field %d bit %d pattern %d item %d", f, b, p, w), code_of(0), 5000000000ull); }
static void scripts() { std::vector<size_t> L; for (size_t i = 0; i <= 300; i++) L.push_back(i); for (size_t x : {511, 512, 520, 521, 1000, 4096, 9999, 10000}) L.push_back(x); size_t l = pick(L); RTx t = tx_catalog()[6]; judge(t, fmt("script length %zu", l), repeat(l, 0x51), 1); RTx u = t; u.out[0].spk = repeat(l, 3); u.in[0].sig = repeat(l, 4); judge(u, fmt("output script length %zu", l), code_of(0), 1); }
static void many() { size_t n = 1 + choose(300); int w = choose(2); RTx t; t.ver = 1; if (w) { t.in = {rin(1, 0, 0, 0), rin(2, 0, 0, 0)}; for (size_t i = 0; i < n; i++) t.out.push_back(rout(i, 1)); } else { for (size_t i = 0; i < n; i++) t.in.push_back(rin(i, 1, i, i)); t.out = {rout(1, 1)}; } size_t ix[] = {std::min<size_t>(n - 1, 255), 0, n / 2, n > 1 ? n - 2 : 0}; size_t last = w ? 1 : std::min<size_t>(255, ix[choose(n % 16 < 2 ? 4 : 1)]); judge(t, fmt("many %zu kind %d", n, w), code_of(0), 9, last); }
// one transaction object used again and again: every digest after every edit
static void again(const Tx &x, const RTx &t, const std::string &ctx) { bytes code = code_of(0); Script sc = mkscript(code); uint8_t h[32]; for (size_t n = 0; n < t.in.size(); n++) for (int k = 0; k < 3; k++) { std::string c = ctx + fmt(" input %zu type %d", n, k + 1); x.sigHash(h, n, sc, TY[k]); eq(bytes(h, h + 32), ref::sighash_legacy(t, n, code, TY[k]), "legacy-digest-later", c); x.sigHashSegwit(h, n, sc, 1000 + n, TY[k]); eq(bytes(h, h + 32), ref::sighash_segwit(t, n, code, 1000 + n, TY[k]), "segwit-digest-later", c); state(ref::fnv(h, 32)); step(2); }
  bytes a, b, o; for (auto &i : t.in) { ref::app(a, i.hash); ref::app(a, ref::le(i.idx, 4)); ref::app(b, ref::le(i.seq, 4)); } for (auto &q : t.out) ref::app(o, ref::ser_out(q)); x.hashPrevouts(h); eq(bytes(h, h + 32), ref::dsha(a), "hashPrevouts-later", ctx); x.hashSequence(h); eq(bytes(h, h + 32), ref::dsha(b), "hashSequence-later", ctx); x.hashOutputs(h); eq(bytes(h, h + 32), ref::dsha(o), "hashOutputs-later", ctx); x.hash(h); eq(bytes(h, h + 32), ref::dsha(ref::ser_tx(t, false)), "hash-later", ctx); }
static void history() { RTx t; t.ver = 2; t.in = {rin(1, 0, 0, 5), rin(2, 3, 1, 6)}; t.out = {rout(10, 4), rout(20, 2)}; Tx x = mktx(t); std::string tr; if (flip()) { tr = "primed"; again(x, t, tr); } int depth = thorough ? 4 : 3; for (int d = 0; d < depth; d++) { int op = choose(17); tr += fmt(" %d", op); size_t w = d & 1; switch (op) {
    case 0: x.txIns[w].sequence ^= 0x80000001; t.in[w].seq ^= 0x80000001; break; case 1: x.txIns[w].outputIndex += 7; t.in[w].idx += 7; break; case 2: x.txIns[w].hash[31] ^= 4; t.in[w].hash[31] ^= 4; break;
    case 3: if (t.out.empty()) return; x.txOuts[0].amount += 1000; t.out[0].amount += 1000; break; case 4: if (t.out.empty()) return; t.out.back().spk = repeat(9, d); x.txOuts[t.out.size() - 1].scriptPubkey = mkscript(t.out.back().spk); break;
    case 5: { RIn i = rin(9 + d, 2, d, d); t.in.push_back(i); { bytes id = ref::rev(i.hash); TxIn ti(id.data(), i.idx, mkscript(i.sig), i.seq); x.addInput(ti); } break; } case 6: { ROut o = rout(77 + d, 3); t.out.push_back(o); x.addOutput(TxOut(o.amount, mkscript(o.spk))); break; } case 7: x.version ^= 3; t.ver ^= 3; break; case 8: x.locktime += 500000; t.lock += 500000; break;
    case 9: { Tx y(x); again(y, t, tr + " copy"); y.txIns[0].sequence = 1; y.txOuts[0].amount = 1; uint8_t h[32]; y.hashSequence(h); y.hashOutputs(h); y.sigHashSegwit(h, 0, mkscript(code_of(0)), 1); break; } case 10: { Tx y = mktx(tx_catalog()[6]); uint8_t h[32]; if (y.inputsNumber) y.sigHashSegwit(h, 0, mkscript(code_of(0)), 1); y = x; x.txIns[0].outputIndex ^= 1; x = y; break; } case 11: { Tx y = mktx(t); RTx u = tx_catalog()[6]; x = mktx(u); uint8_t h[32]; x.hashPrevouts(h); x.sigHashSegwit(h, 0, mkscript(code_of(0)), 1); x = y; break; }
    case 12: { RTx u; u.ver = 1; u.in = {rin(5, 2, 3, 4), rin(6, 0, 0, 9)}; u.out = {rout(4, 4)}; bytes e = ref::ser_tx(u); x.parse(e.data(), e.size()); t = u; break; } case 13: { bytes e = ref::ser_tx(t); x.parse(e.data(), e.size()); break; }
    case 14: { uint8_t s[32]; memset(s, 7, 32); PrivateKey k(s); x.signInput(w, k, k.publicKey().script()); x.txIns[w].scriptSig = mkscript(t.in[w].sig); break; } case 15: { uint8_t s[32]; memset(s, 8, 32); PrivateKey k(s); x.signSegwitInput(w, k, k.publicKey().script(P2WPKH), 55, P2WPKH); x.txIns[w].witness = Witness(); x.txIns[w].scriptSig = mkscript(t.in[w].sig); break; }
    case 16: { std::swap(t.in[0], t.in[1]); TxIn a = x.txIns[0], b = x.txIns[1]; x.txIns[0] = b; x.txIns[1] = a; break; } }
    again(x, t, tr); } eq(ser(x), ref::ser_tx(t), "tx-changed", tr); outcome("history"); }
// as many outputs as inputs: the matching output, at every index
static void single() { static const size_t N[] = {4, 100, 129, 252}; size_t n = N[choose(4)], m = n - choose(3), p = choose(n); if (n > 60 && p % 9 && p + 4 < n && p > 3) { outcome("n/a"); return; } RTx t; t.ver = 1; for (size_t i = 0; i < n; i++) t.in.push_back(rin(i, 1, i, i)); for (size_t i = 0; i < m; i++) t.out.push_back(rout(1000 + i, 1 + i % 3)); judge(t, fmt("%zu inputs %zu outputs", n, m), code_of(0), 9, p); }
void define_spaces() { space("matching-output", 2, single); space("history", 2, history); space("shapes", 4, shapes); space("amounts", 2, amounts); space("fields", 2, fields); space("scripts", 1, scripts); space("many", 2, many); }
