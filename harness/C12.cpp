// C12: value semantics. Every history of parse / begin-parse / continue / reject / copy-construct / assign (also to itself) / reset
// over two objects of every type, and every history of the mutating operations of the container types, is run on the real
// objects next to plain values; after each operation every object must equal its value, and at the end of the history all
// memory must have been released (heap balance; double frees and use after free are caught by the address sanitizer).
#include "objects.h"
#include "electrum.h"
template <> inline bytes observe(ElectrumTx &o) { bytes b = ser(o.tx); if (o.getStatus() == PARSING_DONE) for (size_t i = 0; i < o.tx.inputsNumber; i++) { auto &m = o.txInsMeta[i]; HDPublicKey h = m.hd; ref::app(b, ser(h)); ref::app(b, ref::le(m.derivation[0], 2)); ref::app(b, ref::le(m.derivation[1], 2)); ref::app(b, ref::le(m.amount, 8)); } return b; }
static std::map<std::string, std::vector<size_t>> use; // encodings per type used in histories
static bytes value_of(const std::string &t, const bytes &e) { static std::map<std::pair<std::string, bytes>, bytes> m; auto k = std::make_pair(t, e); auto it = m.find(k); if (it != m.end()) return it->second; std::unique_ptr<IObj> o(reg[t]()); o->feed(e.data(), e.size(), false); ok(o->st() == PARSING_DONE, "catalogue", t); return m[k] = o->obs(); }
static bytes fresh_of(const std::string &t) { std::unique_ptr<IObj> o(reg[t]()); return o->obs(); }
struct Slot { int kind = 0; bytes v; size_t enc = 0, at = 0; }; // kind 0 value, 1 in the middle of parsing enc, 2 rejected
struct Op { int k, a, b; size_t e; };
static void run(const std::string &t, const std::vector<Op> &h, bool record) {
  std::unique_ptr<IObj> o[2]; Slot s[2]; std::string tr; for (int i = 0; i < 2; i++) { o[i].reset(reg[t]()); s[i].v = fresh_of(t); }
  for (auto &op : h) { auto &E = cat_[t]; const bytes &e = E[op.e]; int i = op.a, j = op.b;
    switch (op.k) {
    case 0: { tr += fmt(" parse(%d,enc%zu)", i, op.e); if (s[i].kind) o[i]->reset(); Exact b(e); o[i]->feed(b.p, b.n, false); ok(o[i]->st() == PARSING_DONE, "parse-status", t + tr); s[i].kind = 0; s[i].v = value_of(t, e); break; }
    case 1: { tr += fmt(" begin(%d,enc%zu,%d)", i, op.e, op.b); if (s[i].kind) o[i]->reset(); size_t n = std::max<size_t>(1, op.b == 0 ? e.size() / 2 : op.b == 1 ? 1 : e.size() - 1); if (n >= e.size()) n = e.size() - 1; if (!n) break; Exact b(sub(e, 0, n)); o[i]->feed(b.p, b.n, false); ok(o[i]->st() == PARSING_INCOMPLETE, "begin-status", t + tr); s[i].kind = 1; s[i].enc = op.e; s[i].at = n; break; }
    case 2: { tr += fmt(" continue(%d)", i); if (s[i].kind != 1) break; const bytes &f = E[s[i].enc]; Exact b(sub(f, s[i].at, f.size())); o[i]->feed(b.p, b.n, false); ok(o[i]->st() == PARSING_DONE, "continue-status", t + tr); s[i].kind = 0; s[i].v = value_of(t, f); break; }
    case 3: tr += fmt(" assign(%d,%d)", i, j); o[i]->assign(o[j].get()); if (i != j) s[i] = s[j]; break;
    case 4: tr += fmt(" copy(%d,%d)", i, j); { std::unique_ptr<IObj> c(o[j]->clone()); Slot q = s[j]; o[i] = std::move(c); s[i] = q; } break;
    case 5: tr += fmt(" reject(%d)", i); if (s[i].kind) o[i]->reset(); { bytes x = e; if (t == "PSBT" || t == "ElectrumTx") x[0] ^= 1; else if (t == "Tx") { x.resize(7); x[4] = 0; x[5] = 9; } else x[0] = 0xff; Exact b(x); o[i]->feed(b.p, b.n, false); s[i].kind = o[i]->st() == PARSING_DONE ? 3 : 2; } break;
    case 6: tr += fmt(" destroy(%d)", i); o[i].reset(reg[t]()); s[i] = Slot(); s[i].v = fresh_of(t); break; }
    step(); bytes st; for (int q = 0; q < 2; q++) { st.push_back(s[q].kind); if (s[q].kind == 0) { bytes got = o[q]->obs(); eq(got, s[q].v, "value-after-history", t + tr + fmt(": object %d", q)); ref::app(st, got); ok(o[q]->st() == PARSING_DONE || op.k == 6 || true, "", ""); } else ref::app(st, ref::le(s[q].enc * 1000 + s[q].at, 4)); } if (record) state(ref::fnv(t, ref::fnv(st)));
  }
}
static void history(const std::string &t, size_t depth) { std::vector<Op> h; auto &u = use[t]; size_t nu = u.size();
  for (size_t d = 0; d < depth; d++) { size_t n = nu + 1 + 1 + 1 + 1 + 1; // per object: parse*, begin, continue, reject, assign-other, copy-other; plus self ops for object 0
    size_t k = choose(2 * n + 3); Op op{0, (int)(k / n), 0, u[0]}; if (k >= 2 * n) { op.a = 0; op.b = 0; op.k = k == 2 * n ? 3 : k == 2 * n + 1 ? 4 : 6; h.push_back(op); continue; } size_t r = k % n; if (r < nu) { op.k = 0; op.e = u[r]; } else if (r == nu) { op.k = 1; op.e = u[nu - 1]; op.b = d % 3; } else if (r == nu + 1) op.k = 2; else if (r == nu + 2) op.k = 5; else { op.k = r == nu + 3 ? 3 : 4; op.b = 1 - op.a; } h.push_back(op); }
  run(t, h, true); noleak("leak", [&] { run(t, h, false); }, t + fmt(" history")); outcome("history"); }
// ---- mutating histories of the container types
static void scripts(size_t depth) { std::vector<uint32_t> h; for (size_t i = 0; i < depth; i++) h.push_back(choose(18)); auto go = [&] { Script s[2]; bytes v[2]; std::string tr;
    for (uint32_t k : h) { int i = k / 9, j = 1 - i; switch (k % 9) { case 0: s[i].push((uint8_t)0x51); v[i].push_back(0x51); break; case 1: { bytes d = repeat(3 + i, 4); s[i].push(d.data(), d.size()); ref::app(v[i], d); break; } case 2: s[i] = s[j]; v[i] = v[j]; break; case 3: s[i] = s[i]; break; case 4: s[i].clear(); v[i].clear(); break; case 5: s[i].push(s[j]); if (v[j].size()) { if (v[j].size() > 75) v[i].push_back(0x4c); v[i].push_back(v[j].size()); ref::app(v[i], v[j]); } else v[i].push_back(0); break; case 6: { Script c(s[i]); c.push((uint8_t)0xac); break; } case 7: { bytes e = ref::varbytes(repeat(2, 6)); s[i].parse(e.data(), e.size()); v[i] = repeat(2, 6); break; } case 8: s[i].push(s[i]); { bytes c = v[i]; if (c.size() > 75) v[i].push_back(0x4c); v[i].push_back(c.size()); ref::app(v[i], c); } break; }
      tr += fmt(" %u", k); step(); for (int q = 0; q < 2; q++) { if (v[q].size() > 250) return; eq(scriptbytes(s[q]), v[q], "script-value", "ops" + tr); } state(ref::fnv(v[0], ref::fnv(v[1]))); } }; go(); noleak("leak", go, "script history"); outcome("script-history"); }
static void witnesses(size_t depth) { std::vector<uint32_t> h; for (size_t i = 0; i < depth; i++) h.push_back(choose(18)); auto go = [&] { Witness s[2]; std::vector<bytes> v[2]; std::string tr;
    for (uint32_t k : h) { int i = k / 9, j = 1 - i; switch (k % 9) { case 0: s[i].push(NULL, 0); v[i].push_back({}); break; case 1: { bytes d = repeat(3 + i, 4); s[i].push(d.data(), d.size()); v[i].push_back(d); break; } case 2: s[i] = s[j]; v[i] = v[j]; break; case 3: s[i] = s[i]; break; case 4: s[i].clear(); v[i].clear(); break; case 5: { Script sc = mkscript(repeat(5, 1)); s[i].push(sc); v[i].push_back(repeat(5, 1)); break; } case 6: { Witness c(s[i]); c.push((const uint8_t *)"x", 1); break; } case 7: { std::vector<bytes> w{repeat(2, 6), {}}; bytes e = ref::ser_wit(w); s[i].parse(e.data(), e.size()); v[i] = w; break; } case 8: { Witness c; c = s[i]; s[i] = Witness(); s[i] = c; break; } }
      tr += fmt(" %u", k); step(); for (int q = 0; q < 2; q++) { eq(ser(s[q]), ref::ser_wit(v[q]), "witness-value", "ops" + tr); eqn(s[q].count(), v[q].size(), "witness-count", "ops" + tr); } state(ref::fnv(ser(s[0]), ref::fnv(ser(s[1])))); } }; go(); noleak("leak", go, "witness history"); outcome("witness-history"); }
static void txs(size_t depth) { std::vector<uint32_t> h; for (size_t i = 0; i < depth; i++) h.push_back(choose(26)); auto go = [&] { Tx s[2]; RTx v[2]; v[0].ver = s[0].version; v[1].ver = s[1].version; std::string tr; static const RTx cat5 = tx_catalog()[5]; static const bytes pe = ref::ser_tx(cat5);
    for (uint32_t k : h) { int i = k / 13, j = 1 - i; switch (k % 13) {
      case 0: { RIn x = rin(1 + v[i].in.size(), 2, 3, 4); RTx q; q.in = {x}; Tx one = mktx(q); TxIn in = one.txIns[0]; s[i].addInput(in); in.outputIndex = 77; in.scriptSig.push((uint8_t)1); v[i].in.push_back(x); break; }
      case 1: { ROut o = rout(10 + v[i].out.size(), 3); TxOut out(o.amount, mkscript(o.spk)); s[i].addOutput(out); out.amount = 1; out.scriptPubkey.push((uint8_t)1); v[i].out.push_back(o); break; }
      case 2: s[i] = s[j]; v[i] = v[j]; break; case 3: s[i] = s[i]; break;
      case 4: if (v[i].in.size()) { s[i].addInput(s[i].txIns[0]); v[i].in.push_back(RIn(v[i].in[0])); } break;
      case 5: if (v[i].out.size()) { s[i].addOutput(s[i].txOuts[v[i].out.size() - 1]); v[i].out.push_back(ROut(v[i].out.back())); } break;
      case 6: { Tx c(s[i]); c.version = 9; if (c.inputsNumber) { c.txIns[0].sequence = 5; c.txIns[0].witness.push((const uint8_t *)"q", 1); c.txIns[0].scriptSig.clear(); } if (c.outputsNumber) { c.txOuts[0].amount = 3; c.txOuts[0].scriptPubkey.clear(); } break; }
      case 7: s[i].parse(pe.data(), pe.size()); v[i] = cat5; break;
      case 8: if (v[i].in.size()) { s[i].txIns[0].witness.push((const uint8_t *)"w", 1); v[i].in[0].wit.push_back({'w'}); } break;
      case 9: if (v[i].in.size() && v[j].in.size()) { s[i].txIns[0] = s[j].txIns[0]; v[i].in[0] = v[j].in[0]; } break;
      case 10: if (v[i].out.size() && v[j].out.size()) { s[i].txOuts[0] = s[j].txOuts[0]; v[i].out[0] = v[j].out[0]; } break;
      case 11: { Tx c(s[i]); s[i] = Tx(); s[i] = c; break; }
      case 12: if (v[i].in.size()) { s[i].txIns[0].scriptSig = s[i].txIns[v[i].in.size() - 1].scriptSig; v[i].in[0].sig = v[i].in.back().sig; s[i].locktime++; v[i].lock++; } break; }
      tr += fmt(" %u", k); step(); for (int q = 0; q < 2; q++) { bytes w = ref::ser_tx(v[q]); eq(ser(s[q]), w, "tx-value", "ops" + tr); state(ref::fnv(w, q)); } } }; go(); noleak("leak", go, "tx history"); outcome("tx-history"); }
// PSBT: signing, copying and record additions on two objects
static void psbts(size_t depth) { std::vector<uint32_t> h; for (size_t i = 0; i < depth; i++) h.push_back(choose(14)); int w = choose(2); auto go = [&] { PSBT s[2]; bytes v[2]; std::string tr;
    ref::HD root = wallet(0), leaf = hdp(root, {hard(84), 1}); bytes pk = ref::sec(leaf.K), fp = hd_fp(root); RPsbt p; p.tx.ver = 2; p.tx.in = {rin(1, 0, 0, 1)}; p.tx.out = {rout(1000, 22), rout(50, 3)}; p.in = {{{bytes{1}, ref::ser_out(ROut{5000, ref::p2wpkh(ref::hash160(pk))})}, kv_deriv(6, pk, fp, {hard(84), 1})}}; p.out = {{kv_deriv(2, pk, fp, {1, 2})}, {}}; RPsbt p2; p2.tx.in = {rin(3, 0, 0, 1), rin(4, 0, 2, 2)}; p2.tx.out = {}; p2.in = {{}, {{bytes{4}, repeat(3, 1)}, {bytes{5}, repeat(4, 1)}}}; p2.out = {}; bytes e[2] = {ser_psbt(p), ser_psbt(p2)}; HDPrivateKey hk = lhd(root); for (int q = 0; q < 2; q++) v[q] = observe(s[q]);
    for (uint32_t k : h) { int i = k / 7, j = 1 - i; bool changed = false; switch (k % 7) { case 0: s[i].parse(e[w].data(), e[w].size()); changed = true; break; case 1: s[i].parse(e[1 - w].data(), e[1 - w].size()); changed = true; break; case 2: s[i] = s[j]; v[i] = v[j]; break; case 3: s[i] = s[i]; break; case 4: s[i].sign(hk); changed = true; break; case 5: { PSBT c(s[i]); c.sign(hk); c.tx.version = 8; if (c.tx.inputsNumber) { c.txInsMeta[0].redeemScript.push((uint8_t)4); c.txInsMeta[0].txOut.amount = 4; if (c.txInsMeta[0].derivationsLen) c.txInsMeta[0].derivations[0].derivation[0] = 4; } if (c.tx.outputsNumber) c.txOutsMeta[0].witnessScript.push((uint8_t)1); PSBT d; d = c; c = s[j]; break; } case 6: if (s[i].tx.inputsNumber) { bytes kb{9}, vb = repeat(3, 3); kb[0] = 4; Script kk = mkscript(kb), vv = mkscript(vb); s[i].add(1, &kk, &vv); changed = true; } break; }
      if (changed) v[i] = observe(s[i]); tr += fmt(" %u", k); step(); for (int q = 0; q < 2; q++) { eq(observe(s[q]), v[q], "psbt-value", "ops" + tr); state(ref::fnv(v[q], q)); } } }; go(); noleak("leak", go, "psbt history"); outcome("psbt-history"); }
// copies of every size equal the original and outlive it
static void sizes() { int kind = choose(10), n = choose(300), how = choose(3); std::string t; bytes e; bool skip = false; auto hd = [](int m) { bytes v(m, 0); for (int i = 0; i < m; i++) v[i] = i * 7 + i / 256 + 1; return v; };
  switch (kind) { case 0: t = "Script"; e = ref::varbytes(hd(n)); break; case 1: t = "Witness"; { std::vector<bytes> w; for (int i = 0; i < n; i++) w.push_back(repeat(i % 5, i)); if (n > 252) skip = true; else e = ref::ser_wit(w); } break; case 2: t = "Witness"; e = ref::ser_wit({hd(n), repeat(3, 1), hd(n * 3)}); break; case 3: t = "TxIn"; e = ref::ser_in(rin(1, n, 2, 3)); break; case 4: case 5: { if (n > 60) { skip = true; break; } t = "Tx"; RTx x; for (int i = 0; i < n; i++) { x.in.push_back(rin(i, i % 3, i, i)); if (kind == 5) x.in.back().wit = {repeat(i % 4, i), repeat(2, 1)}; } if (x.in.empty()) x.in.push_back(rin(1, 0, 0, 0)); for (int i = 0; i < 60 - n; i++) x.out.push_back(rout(i * 1000003ull, i % 30)); e = ref::ser_tx(x); break; }
    default: { t = "PSBT"; RPsbt p; p.tx.ver = 2; p.tx.in = {rin(1, 0, 0, 1), rin(2, 0, 1, 1)}; p.tx.out = {rout(5, 22), rout(6, 23)}; p.in.resize(2); p.out.resize(2); int w = n & 1; if (kind == 6) { if (n > 255) skip = true; else { std::vector<uint32_t> path; for (int i = 0; i < n; i++) path.push_back(0x9e3779b9u * (i + 1)); p.in[w].push_back(kv_deriv(6, rpub(1), {1, 2, 3, 4}, path)); p.out[1 - w].push_back(kv_deriv(2, rpub(2, false), {4, 3, 2, 1}, path)); } } else if (kind == 7) { if (n > 60) skip = true; else for (int i = 0; i < n; i++) { p.in[w].push_back(kv_deriv(6, rpub(i % NKEYS), {(uint8_t)i, 1, 1, 1}, {(uint32_t)i, 5, 6, 7, 8, 9})); p.out[w].push_back(kv_deriv(2, rpub(i % NKEYS), {(uint8_t)i, 2, 1, 1}, {(uint32_t)i, 5, 6, 7, 8, 9, 10})); } } else if (kind == 8) { if (n > 40) skip = true; else for (int i = 0; i < n; i++) { RKV r = kv_sig(ref::sec(ref::mulG(ref::U(1000 + i)), i % 2), ref::der(ref::U(i + 1), ref::U(0x80 + i))); r.v.back() = i; p.in[w].push_back(r); } } else { p.in[w].push_back({bytes{4}, hd(n)}); p.in[w].push_back({bytes{5}, hd(n + 7)}); p.in[1 - w].push_back({bytes{1}, ref::ser_out(ROut{9, hd(n)})}); p.out[w].push_back({bytes{0}, hd(n)}); p.out[w].push_back({bytes{1}, hd(n * 2)}); } e = ser_psbt(p); } }
  if (skip) { outcome("n/a"); return; } std::string ctx = t + fmt(" kind %d size %d way %d", kind, n, how); auto go = [&] { std::unique_ptr<IObj> a(reg[t]()), b; a->feed(e.data(), e.size(), false); ok(a->st() == PARSING_DONE, "parse", ctx); bytes v = a->obs(); if (how == 0) b.reset(a->clone()); else { b.reset(reg[t]()); if (how == 2) { auto &c = cat_[t]; b->feed(c.back().data(), c.back().size(), false); } b->assign(a.get()); } eq(a->obs(), v, "original-changed", ctx); a.reset(); std::vector<char> junk(4096, 0x5a); step(); eq(b->obs(), v, "copy-differs", ctx); ok(b->st() == PARSING_DONE, "copy-status", ctx); }; go(); if (n % 16 == 3) noleak("leak", go, ctx); state(ref::fnv(e, how)); outcome("copied"); }
// every ordered pair of states of a type: default, parsed, half parsed, failed, longer than 65535 bytes, edited
static std::unique_ptr<IObj> inst(const std::string &t, size_t k, size_t &count) { std::vector<std::function<IObj *()>> m; auto &c = cat_[t]; m.push_back([&] { return reg[t](); }); std::vector<size_t> ix; for (size_t i = 0; i < c.size(); i += std::max<size_t>(1, c.size() / 4)) ix.push_back(i); if (!c.empty()) ix.push_back(c.size() - 1); for (size_t i : ix) { m.push_back([&, i] { IObj *o = reg[t](); o->feed(c[i].data(), c[i].size(), false); return o; }); for (int h = 1; h < 4; h += 2) m.push_back([&, i, h] { IObj *o = reg[t](); o->feed(c[i].data(), c[i].size() * h / 4, false); return o; }); } if (t != "Script" && t != "Witness") m.push_back([&] { IObj *o = reg[t](); bytes z(200, 0xff); o->feed(z.data(), z.size(), false); return o; }); if (big_objects().count(t)) for (auto &e : big_objects().at(t)) m.push_back([&] { IObj *o = reg[t](); o->feed(e.data(), e.size(), false); return o; });
  if (t == "Tx") for (int q = 0; q < 5; q++) m.push_back([q] { auto *o = new O<Tx>(); o->o.version = q; o->o.locktime = 77 * q; if (q == 2) o->o.addOutput(TxOut(5, mkscript(repeat(3, 3)))); if (q == 3) { bytes id = repeat(32, 4); TxIn in(id.data(), 3, Script(), 4); o->o.addInput(in); } return (IObj *)o; });
  count = m.size(); return std::unique_ptr<IObj>(m[k]()); }
static bytes fields(const std::string &t, IObj &o) { bytes b = o.obs(); b.push_back((uint8_t)o.st()); ref::app(b, ref::le(o.length(), 8)); if (t == "Tx") { Tx &x = static_cast<O<Tx> &>(o).o; ref::app(b, ref::le(x.version, 4)); ref::app(b, ref::le(x.locktime, 4)); b.push_back(x.inputsNumber); b.push_back(x.outputsNumber); } return b; }
static void pairs(const std::string &t) { size_t n; inst(t, 0, n); size_t i = choose(n), j = choose(n); int how = choose(3); std::string ctx = t + fmt(" state %zu over state %zu way %d", i, j, how); auto a = inst(t, i, n), b = inst(t, j, n); bytes v = fields(t, *a); if (how == 0) b->assign(a.get()); else if (how == 1) { b->assign(a.get()); b->assign(a.get()); b->assign(b.get()); } else { if (j) { outcome("n/a"); return; } b.reset(a->clone()); } step(); eq(fields(t, *b), v, "assigned-differs", ctx); eq(fields(t, *a), v, "source-changed", ctx); { std::unique_ptr<IObj> c(b->clone()); a.reset(); eq(fields(t, *c), v, "copy-of-assigned", ctx); b.reset(); eq(fields(t, *c), v, "copy-after-destruction", ctx); } state(ref::fnv(ctx)); outcome("pair"); }
// temporaries: keys, signatures and texts passed by value leave nothing behind
static void api() { int k = choose(10); auto go = [&] { PrivateKey pk(key_b(2).data()); PublicKey pub = pk.publicKey(); uint8_t hsh[32] = {7}; switch (k) { case 0: { Signature s = pk.sign(hsh); pub.verify(s, hsh); Witness w(s, pub); break; } case 1: { PublicKey a[3] = {pub, pub + pub, pub}; Script m = sortedmulti(2, a, 3); m.address(); sh(m); wsh(m); break; } case 2: { Script s("bc1qw508d6qejxtdg4y5r3zarvary0c5xw7kv8f3t4"); std::string x = s.address(); s.type(); break; } case 3: { Tx t = mktx(tx_catalog()[5]); uint8_t hh[32]; t.sigHash(hh, 0, pub.script()); t.sigHashSegwit(hh, 0, pub.script(), 5); t.txid(); t.wtxid(); break; } case 4: { Tx t = mktx(tx_catalog()[5]); t.signInput(0, pk); t.signSegwitInput(0, pk, 44, P2WPKH); t.signSegwitInput(0, pk, multi(1, &pub, 1), 44, P2SH_P2WSH); break; } case 5: { HDPrivateKey h = lhd(wallet(0)); h.derive("m/84h/0h/0h").xpub().derive("1/2").address(); break; } case 6: { HDPrivateKey h("abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about", ""); h.xprv(); break; } case 7: { Script s = pub.script(P2WPKH), q(s, P2SH), r(q); s.scriptPubkey(P2WSH); break; } case 8: { PSBT p; bytes e = cat_["PSBT"].back(); p.parseBase64(ref::b64(e)); p.toBase64(); p.fee(); p.isMine(0, lhdpub(wallet(0))); p.isMine(1, lhd(wallet(0))); break; } case 9: { SchnorrSignature s = pk.schnorr_sign(hsh); pub.schnorr_verify(s, hsh); pk.wif(); toBase58Check(hsh, 32); toBase64(hsh, 32); toHex(hsh, 32); break; } } step(); }; noleak("leak", go, fmt("call group %d", k)); state(k); outcome("api"); }
void define_spaces() { build_objects(); reg["ElectrumTx"] = mk<ElectrumTx>; for (int sg = 0; sg < 2; sg++) for (int n = 1; n < 3; n++) { ETx e; e.segwit = sg; e.lock = 0x80000001u; for (int i = 0; i < n; i++) e.in.push_back(EIn{rin(i + 1, 0, i, 0xfffffffe), hdp(wallet(i), {hard(1)}), sg ? ZPUB : XPUB, {1, (uint16_t)(300 + i)}, sg ? 1000u + i : 0u}); e.out = {rout(5, 22)}; cat_["ElectrumTx"].push_back(ser_etx(e)); }
  for (auto &r : reg) { auto &c = cat_[r.first]; size_t n = c.size(); use[r.first] = {0, n / 2, n - 1}; if (r.first == "PSBT" || r.first == "Tx" || r.first == "ElectrumTx") use[r.first] = {1, n - 1}; std::string t = r.first; size_t d = 4; if (thorough && t != "PSBT" && t != "HDPrivateKey" && t != "PrivateKey") d = 5; if (!thorough && (t == "HDPrivateKey" || t == "PSBT" || t == "PrivateKey" || t == "HDPublicKey" || t == "PublicKey" || t == "ElectrumTx")) d = 3; space("pairs/" + t, 2, [t] { pairs(t); }); space("history/" + t, 2, [t, d] { history(t, d); }); }
  size_t dd = thorough ? 1 : 0; space("script-ops", 2, [dd] { scripts(4 + dd); }); space("witness-ops", 2, [dd] { witnesses(4 + dd); }); space("tx-ops", 2, [dd] { txs(4 + dd); }); space("psbt-ops", 2, [dd] { psbts(3 + dd); }); space("api", 1, api); space("copy-sizes", 2, sizes); }
