// C06: signing through the transaction API. All assignments of output kinds to inputs, all signing orders, digest
// types and redeem scripts; after every signing step every input signed so far is judged, the others are untouched.
#include "spend.h"
static PrivateKey lkey(int k, bool comp) { static std::map<int, PrivateKey> m; int id = k * 2 + comp; auto it = m.find(id); if (it == m.end()) { bytes b = key_b(k); it = m.emplace(id, PrivateKey(b.data(), comp)).first; } return it->second; }
static bytes redeem_of(int key, size_t extra) { bytes r = repeat(extra, 0x75); ref::app(r, ref::p2pkh(ref::hash160(rpub(key)))); r.push_back(0x51); return r; }
static void sign(Tx &x, size_t n, const Spend &s, bool conv, const std::string &ctx) {
  PrivateKey pk = lkey(s.key, s.kind != K_PKH_U); SigHashType ty = (SigHashType)s.type; Signature g; Script rs = mkscript(s.redeem); PublicKey pub = pk.publicKey();
  switch (s.kind) {
  case K_PKH: case K_PKH_U: g = conv ? x.signInput(n, pk) : x.signInput(n, pk, Script(pub, P2PKH), ty); break;
  case K_SH: g = x.signInput(n, pk, rs, ty); break;
  case K_WPKH: g = conv ? x.signSegwitInput(n, pk, s.amount) : x.signSegwitInput(n, pk, Script(pub, P2WPKH), s.amount, P2WPKH, ty); break;
  case K_SH_WPKH: g = conv ? x.signSegwitInput(n, pk, s.amount, P2SH_P2WPKH) : x.signSegwitInput(n, pk, Script(pub, P2WPKH), s.amount, P2SH_P2WPKH, ty); break;
  case K_WSH: g = x.signSegwitInput(n, pk, rs, s.amount, P2WSH, ty); break;
  case K_SH_WSH: g = x.signSegwitInput(n, pk, rs, s.amount, P2SH_P2WSH, ty); break; }
  bytes sg; { bytes w = ser(x.txIns[n].witness), ss = scriptbytes(x.txIns[n].scriptSig); if (s.kind <= K_SH) { size_t p = 0; sg = take_push(ss, p); } else { Rd r{w, 0}; r.vi(); sg = r.take(r.vi()); } } sg.pop_back(); eq(derof(g), sg, "returned-signature", ctx); step();
}
static void run(RTx t, const std::vector<Spend> &sp, const std::vector<size_t> &ord, bool conv, std::string ctx, bool dirty = false) {
  Tx x = mktx(t); if (dirty) for (size_t i = 0; i < t.in.size(); i++) { x.txIns[i].scriptSig = mkscript(repeat(i + 2, 3)); x.txIns[i].witness.push(repeat(4, 4).data(), 4); } std::vector<bool> done(sp.size(), false); for (size_t i = 0; i < sp.size(); i++) ctx += std::string(" ") + kname(sp[i].kind);
  for (size_t n : ord) { std::string c = ctx + fmt(" signing %zu", n); if (dirty && sp[n].kind <= K_SH) x.txIns[n].witness = Witness(); sign(x, n, sp[n], conv, c); done[n] = true;
    for (size_t i = 0; i < sp.size(); i++) { if (done[i]) judge_spend(x, t, i, sp[i], c + fmt(" input %zu", i)); else if (!dirty) { ok(x.txIns[i].scriptSig.scriptLen == 0 && !x.txIns[i].isSegwit(), "other-input-touched", c); } eq(bytes(x.txIns[i].hash, x.txIns[i].hash + 32), t.in[i].hash, "prevout-touched", c); eqn(x.txIns[i].outputIndex, t.in[i].idx, "prevout-touched", c); eqn(x.txIns[i].sequence, t.in[i].seq, "sequence-touched", c); }
    eqn(x.version, t.ver, "version-touched", c); eqn(x.locktime, t.lock, "locktime-touched", c); eqn(x.inputsNumber, t.in.size(), "inputs-touched", c); eqn(x.outputsNumber, t.out.size(), "outputs-touched", c); for (size_t i = 0; i < t.out.size(); i++) eq(ser(x.txOuts[i]), ref::ser_out(t.out[i]), "output-touched", c); }
  bytes e = ser(x); Tx y; y.parse(e.data(), e.size()); ok(y.getStatus() == PARSING_DONE, "signed-tx-parses", ctx); for (size_t i = 0; i < sp.size(); i++) if (done[i]) judge_spend(y, t, i, sp[i], ctx + " after wire"); state(e); outcome("spends-valid");
}
static Spend mk(int kind, int key, uint8_t ty, size_t extra = 0) { Spend s; s.kind = kind; s.key = key; s.amount = 100000000ull * (kind + 1) + key; s.type = ty; if (kind == K_SH || kind == K_WSH || kind == K_SH_WSH) s.redeem = redeem_of(key, extra); return s; }
static void orders() { int ni = 1 + choose(3); bool full = thorough || ni < 3; RTx t; t.ver = 2; t.lock = 9; std::vector<Spend> sp; uint8_t ty = ni < 3 ? 1 + choose(3) : 1; for (int i = 0; i < ni; i++) { t.in.push_back(rin(i * 17 + 3, 0, i, 0xfffffffd)); sp.push_back(mk(choose(NKIND), i + 1, ty)); } (void)full; t.out = {rout(5, 22), rout(6, 25)}; std::vector<size_t> left, ord; for (int i = 0; i < ni; i++) left.push_back(i); while (!left.empty()) { size_t k = choose(left.size()); ord.push_back(left[k]); left.erase(left.begin() + k); } run(t, sp, ord, false, fmt("%d inputs type %d", ni, ty)); }
static void resign() { RTx t; t.ver = 1; t.in = {rin(1, 0, 1, 1), rin(2, 0, 2, 2)}; t.out = {rout(5, 22)}; int k = choose(NKIND), k2 = choose(NKIND); bool conv = flip(), dirty = flip(); run(t, {mk(k, 2, 1), mk(k2, 3, 1)}, {0, 1, 0}, conv, fmt("resign conv %d dirty %d", conv, dirty), dirty); }
static void types() { int ni = 1 + choose(3), no = choose(4), n = choose(3); if (n >= ni) { outcome("n/a"); return; } RTx t; t.ver = 2; std::vector<Spend> sp; int k = choose(NKIND); uint8_t ty = 1 + choose(3); for (int i = 0; i < ni; i++) { t.in.push_back(rin(i + 60, 0, i, i)); sp.push_back(mk(i == n ? k : K_PKH, 4, ty)); } for (int i = 0; i < no; i++) t.out.push_back(rout(i, 20 + i)); run(t, sp, {(size_t)n}, false, fmt("types %d/%d input %d type %d", ni, no, n, ty)); }
static void keys() { RTx t; t.ver = 2; t.in = {rin(1, 0, 1, 1)}; t.out = {rout(5, 22)}; int k = choose(NKIND), key = choose(NKEYS), d = choose(thorough ? 500 : 100); t.lock = d; run(t, {mk(k, key, 1)}, {0}, flip(), fmt("key %d lock %d", key, d)); }
static void redeem() { std::vector<size_t> L; for (size_t i = 0; i <= 300; i++) L.push_back(i); for (size_t i = 480; i <= 530; i++) L.push_back(i); for (size_t x : {1000, 3574, 9700}) L.push_back(x); size_t l = pick(L); int k = choose(4); int kind = k == 0 ? K_SH : k == 1 ? K_WSH : k == 2 ? K_SH_WSH : K_WSH; RTx t; t.ver = 2; t.in = {rin(1, 0, 1, 1)}; t.out = {rout(5, 22)}; Spend s = mk(kind, 2, 1, l); if (k == 3) { if (l) { outcome("n/a"); return; } s.redeem = ref::p2pkh(ref::hash160(rpub(2))); } run(t, {s}, {0}, false, fmt("redeem length %zu", s.redeem.size())); }
static void amounts() { int b = choose(64), p = choose(2), k = K_WPKH + choose(4); RTx t; t.ver = 2; t.in = {rin(1, 0, 1, 1)}; t.out = {rout(5, 22)}; Spend s = mk(k, 2, 1); s.amount = p ? ~(1ull << b) : 1ull << b; run(t, {s}, {0}, false, fmt("amount bit %d pattern %d", b, p)); }
// any input of a large transaction
static void place() { static const size_t N[] = {5, 64, 129, 252}; size_t n = N[choose(4)]; size_t P[] = {0, 1, n / 2, n - 2, n - 1, std::min<size_t>(n - 1, 127), std::min<size_t>(n - 1, 128)}; size_t p = P[choose(7)]; int k = choose(NKIND); uint8_t ty = 1 + choose(3); RTx t; t.ver = 2; std::vector<Spend> sp; for (size_t i = 0; i < n; i++) { t.in.push_back(rin(i + 60, 0, i, i)); sp.push_back(mk(i == p ? k : K_PKH, 4, ty)); } size_t no = n - choose(2) * 2; for (size_t i = 0; i < no; i++) t.out.push_back(rout(i, 20 + i % 7)); run(t, sp, {p}, false, fmt("input %zu of %zu, %zu outputs, type %d", p, n, no, ty)); }
void define_spaces() { space("positions", 2, place); space("orders", 3, orders); space("resign", 2, resign); space("types", 3, types); space("keys", 2, keys); space("redeem", 1, redeem); space("amounts", 2, amounts); }
