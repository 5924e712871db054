// C04: ids and building. All histories of build/edit operations on a transaction; after every operation the object is
// compared with the model: fields, serialization, txid/wtxid in all their forms, add return values.
#include "catalog.h"
static void ids(const Tx &x, const RTx &t, const std::string &ctx) {
  bytes h = ref::dsha(ref::ser_tx(t, false)), w = ref::has_wit(t) ? ref::dsha(ref::ser_tx(t, true)) : h; uint8_t b[32];
  eqn(x.hash(b), 32, "hash-ret", ctx); eq(bytes(b, b + 32), h, "hash", ctx); x.whash(b); eq(bytes(b, b + 32), w, "whash", ctx); x.txid(b); eq(bytes(b, b + 32), ref::rev(h), "txid", ctx); x.wtxid(b); eq(bytes(b, b + 32), ref::rev(w), "wtxid", ctx);
  eq(x.txid(), ref::hex(ref::rev(h)), "txid-string", ctx); eq(x.wtxid(), ref::hex(ref::rev(w)), "wtxid-string", ctx); step(6);
}
static void full(const Tx &x, const RTx &t, const std::string &ctx) { eqtx(x, t, "fields", ctx); bytes e = ref::ser_tx(t); eqn(x.length(), e.size(), "length", ctx); eq(ser(x), e, "serialize", ctx); eqn(x.isSegwit(), ref::has_wit(t), "isSegwit", ctx); ids(x, t, ctx); state(e); }
static TxIn lin(const RIn &i) { bytes id = ref::rev(i.hash); TxIn in(id.data(), i.idx, mkscript(i.sig), i.seq); for (auto &e : i.wit) in.witness.push(e.data(), e.size()); return in; }
static void history() {
  size_t D = thorough ? 6 : 5; Tx x; RTx t; t.ver = x.version; t.lock = x.locktime; std::string ctx; eqn(x.inputsNumber, 0, "empty", ""); Tx other; RTx ot; ot.ver = t.ver; ot.lock = t.lock;
  for (size_t d = 0; d < D; d++) { int op = choose(10); ctx += fmt(" op%d", op); uint8_t r;
    switch (op) {
    case 0: { RIn i = rin(1 + d, d, d * 3, 0xfffffff0 + d); r = x.addInput(lin(i)); t.in.push_back(i); eqn(r, t.in.size(), "addInput-ret", ctx); break; }
    case 1: { RIn i = rin(9 + d, 0, d, d, {repeat(1 + d, d), repeat(33, d)}); r = x.addInput(lin(i)); t.in.push_back(i); eqn(r, t.in.size(), "addInput-ret", ctx); break; }
    case 2: { ROut o = rout(1000000 + d, d, d); r = x.addOutput(TxOut(o.amount, mkscript(o.spk))); t.out.push_back(o); eqn(r, t.out.size(), "addOutput-ret", ctx); break; }
    case 3: { ROut o = rout(~0ull - d, 34, d); r = x.addOutput(TxOut(mkscript(o.spk), o.amount)); t.out.push_back(o); eqn(r, t.out.size(), "addOutput-ret", ctx); break; }
    case 4: x.version = t.ver = 0x01020304 * (d + 1); x.locktime = t.lock = 0xf0f00000u + d; break;
    case 5: if (!t.in.empty()) { size_t i = d % t.in.size(); x.txIns[i].sequence = t.in[i].seq = 7 + d; x.txIns[i].scriptSig = mkscript(t.in[i].sig = repeat(d * 3, 5)); x.txIns[i].outputIndex = t.in[i].idx = 1u << 31; } break;
    case 6: if (!t.in.empty()) { size_t i = t.in.size() - 1; if (t.in[i].wit.empty()) { Witness w; w.push(repeat(2, 2).data(), 2); x.txIns[i].witness = w; t.in[i].wit = {repeat(2, 2)}; } else { x.txIns[i].witness = Witness(); t.in[i].wit.clear(); } } break;
    case 7: if (!t.out.empty()) { size_t i = d % t.out.size(); x.txOuts[i].amount = t.out[i].amount = 5 + d; x.txOuts[i].scriptPubkey = mkscript(t.out[i].spk = repeat(25, d)); } break;
    case 8: if (!t.in.empty()) { bytes e = ref::ser_tx(t); Tx y; y.parse(e.data(), e.size()); ok(y.getStatus() == PARSING_DONE, "reparse", ctx); x = y; } break; // continue on a parsed copy
    case 9: std::swap(t, ot); { Tx tmp = x; x = other; other = tmp; } break; } // swap with a second transaction
    full(x, t, ctx); }
  full(other, ot, ctx + " other"); outcome("history-ok");
}
static void many() { size_t n = choose(300); int k = choose(3); Tx x; RTx t; t.ver = x.version; t.lock = x.locktime; t.in.push_back(rin(1, 0, 0, 0)); x.addInput(lin(t.in[0])); for (size_t i = 0; i < n; i++) { if (k == 0) { t.in.push_back(rin(i, 0, i, i)); eqn(x.addInput(lin(t.in.back())), (uint8_t)t.in.size(), "ret", ""); } if (k == 1) { t.out.push_back(rout(i, 1)); eqn(x.addOutput(TxOut(i, mkscript(t.out.back().spk))), (uint8_t)t.out.size(), "ret", ""); } if (k == 2) { t.in.push_back(rin(i, 0, i, i, {repeat(i % 3, 1)})); x.addInput(lin(t.in.back())); } } full(x, t, fmt("many %zu kind %d", n, k)); outcome("many-ok"); }
static void cata() { auto v = tx_catalog(true); size_t i = choose(v.size()); bytes e = ref::ser_tx(v[i]); Tx x; x.parse(e.data(), e.size()); full(x, v[i], fmt("catalog %zu", i)); Tx y = mktx(v[i]); full(y, v[i], fmt("catalog api %zu", i)); outcome("catalog-ok"); }
static void place() { static const size_t N[] = {2, 33, 101, 129, 200, 252, 257, 300}; size_t n = N[choose(8)], p = choose(n); if (n > 60 && p % 5 && p + 3 < n && p > 3) { outcome("n/a"); return; } Tx x; RTx t; t.ver = x.version; t.lock = x.locktime; for (size_t i = 0; i < n; i++) { RIn r = rin(i, 0, i, i); if (i == p) r.wit = {repeat(2, 2)}; t.in.push_back(r); TxIn in = lin(r); if (i == p && in.witness.count() == 0) in.witness.push(r.wit[0].data(), r.wit[0].size()); x.addInput(in); } t.out = {rout(1, 2)}; x.addOutput(TxOut(1, mkscript(t.out[0].spk))); full(x, t, fmt("witness only in input %zu of %zu", p, n)); outcome("placed"); }
void define_spaces() { space("witness-position", 2, place); space("history", 3, history); space("many", 2, many); space("catalog", 1, cata); }
