// C29: script builders. All thresholds x key counts for multi and sortedmulti with all permutations of small key sets and
// all rotations/reversals of large ones, compressed/uncompressed mixes and duplicate keys; every push kind at every data
// length around the opcode boundaries; all push sequences up to a depth on scripts and witnesses near their size limit;
// type recognition of every builder result. Oracle: independent script assembler.
#include "lib.h"
#include "OpCodes.h"
#include "opcodes.h"
using ref::U; using ref::Pt;
struct Key { Pt p; bool c; bytes sec; PublicKey k; };
static const std::vector<Key> &KS() { static std::vector<Key> v; if (v.empty()) for (int i = 0; i < 20; i++) { Pt p = ref::mulG(U(i * 7 + 1)); if (i == 3) p = ref::neg(v[1].p); bool c = !(i == 2 || i == 9); v.push_back({p, c, ref::sec(p, c), PublicKey(pt64(p).data(), c)}); } return v; }
static bytes push1(const bytes &d) { if (d.size() < 76) return ref::cat({(uint8_t)d.size()}, d); if (d.size() < 256) return ref::cat({0x4c, (uint8_t)d.size()}, d); return ref::cat({0x4d, (uint8_t)d.size(), (uint8_t)(d.size() >> 8)}, d); }
static bytes multi_model(int m, std::vector<bytes> k, bool sorted) { if (m < 1 || k.empty() || k.size() > 16 || m > (int)k.size()) return {}; if (sorted) std::sort(k.begin(), k.end()); bytes r{(uint8_t)(0x50 + m)}; for (auto &x : k) ref::app(r, push1(x)); r.push_back(0x50 + k.size()); r.push_back(0xae); return r; }
static void mcheck(int m, const std::vector<int> &ix, const std::string &ctx) { std::vector<PublicKey> a; std::vector<bytes> s; for (int i : ix) { a.push_back(KS()[i].k); s.push_back(KS()[i].sec); } std::vector<PublicKey> keep = a; const PublicKey *p = a.empty() ? nullptr : a.data(); Script x = multi(m, p, a.size()); eq(scriptbytes(x), multi_model(m, s, false), "multi", ctx); Script y = sortedmulti(m, p, a.size()); eq(scriptbytes(y), multi_model(m, s, true), "sortedmulti", ctx); for (size_t i = 0; i < a.size(); i++) { eq(secof(a[i]), s[i], "caller-keys-changed", ctx); } step(2); bytes w = multi_model(m, s, true); if (!w.empty()) { eq(scriptbytes(sh(y)), ref::p2sh(ref::hash160(w)), "sh-multi", ctx); eq(scriptbytes(wsh(y)), ref::p2wsh(ref::sha256(w)), "wsh-multi", ctx); eq(scriptbytes(sh(wsh(y))), ref::p2sh(ref::hash160(ref::p2wsh(ref::sha256(w)))), "sh-wsh-multi", ctx); ok(y.type() == UNKNOWN_TYPE, "type", ctx); } state(ref::fnv(scriptbytes(x))); outcome(w.empty() ? "refused" : "multi"); }
static void params() { int m = choose(thorough ? 256 : 20), n = choose(21); if (!thorough && m == 19) m = 255; if (!thorough && m == 18) m = 128; std::vector<int> ix; int k = choose(3); for (int i = 0; i < n; i++) ix.push_back(k == 0 ? i % 20 : k == 1 ? (n - 1 - i) % 20 : (i * 7) % 20); mcheck(m, ix, fmt("%d of %d order %d", m, n, k)); }
// all ordered selections: every permutation of up to 6 keys (7 in the thorough tier), with repetitions for up to 3
static void perms() { int n = 1 + choose(thorough ? 7 : 6); std::vector<int> pool, ix; for (int i = 0; i < n; i++) pool.push_back(i); while (!pool.empty()) { int j = choose(pool.size()); ix.push_back(pool[j]); pool.erase(pool.begin() + j); } mcheck((n + 1) / 2, ix, "permutation"); }
static void repeats() { int n = 1 + choose(4); std::vector<int> ix; for (int i = 0; i < n; i++) ix.push_back(choose(n == 4 ? 4 : 6)); mcheck(1 + choose(n), ix, "repeated keys"); }
static void rotations() { int n = 8 + choose(9), r = choose(n); int op = choose(3); std::vector<int> ix; for (int i = 0; i < n; i++) ix.push_back((i + r) % n); if (op == 1) std::reverse(ix.begin(), ix.end()); if (op == 2) std::swap(ix[0], ix[n / 2]); mcheck(n, ix, "rotation"); }
static void single() { const Key &k = KS()[choose(20)]; bytes h = ref::hash160(k.sec); std::string ctx = ref::hex(k.sec); eq(scriptbytes(pkh(k.k)), ref::p2pkh(h), "pkh", ctx); eq(scriptbytes(wpkh(k.k)), ref::p2wpkh(h), "wpkh", ctx); eq(scriptbytes(Script(k.k)), ref::p2pkh(h), "Script-default", ctx); eq(scriptbytes(k.k.script()), ref::p2pkh(h), "key-script", ctx); static const ScriptType T[] = {P2PKH, P2WPKH, P2SH_P2WPKH, P2SH, P2WSH, UNKNOWN_TYPE, DIRECT_SCRIPT, MULTISIG, P2SH_P2WSH}; int t = choose(9); bytes w = t == 0 ? ref::p2pkh(h) : t == 1 ? ref::p2wpkh(h) : t == 2 ? ref::p2sh(ref::hash160(ref::p2wpkh(h))) : bytes(); eq(scriptbytes(Script(k.k, T[t])), w, "Script-of-key", ctx + fmt(" type %d", T[t])); eq(scriptbytes(k.k.script(T[t])), w, "key-script-type", ctx + fmt(" type %d", T[t])); eq(scriptbytes(sh(pkh(k.k))), ref::p2sh(ref::hash160(ref::p2pkh(h))), "sh-pkh", ctx); eq(scriptbytes(wsh(pkh(k.k))), ref::p2wsh(ref::sha256(ref::p2pkh(h))), "wsh-pkh", ctx); ok(pkh(k.k).type() == P2PKH && wpkh(k.k).type() == P2WPKH && sh(wpkh(k.k)).type() == P2SH && wsh(pkh(k.k)).type() == P2WSH, "type", ctx); PrivateKey pk(ref::toB(U(5)).data()); bytes ph = ref::hash160(ref::sec(ref::mulG(U(5)))); eq(scriptbytes(Script(pk.publicKey(), P2WPKH)), ref::p2wpkh(ph), "private-key"); step(6); state(ref::fnv(k.sec, t)); outcome("single"); }
static const std::vector<size_t> &LEN() { static std::vector<size_t> v; if (v.empty()) { for (size_t i = 0; i < (thorough ? 600 : 90); i++) v.push_back(i); for (size_t i : {105, 127, 128, 200, 252, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513, 519, 520, 521, 1000, 3600, 4999, 9990, 9993, 9994, 9995, 9996, 9997, 9998, 9999, 10000}) if (std::find(v.begin(), v.end(), i) == v.end()) v.push_back(i); } return v; }
// one push of every kind and every length onto scripts of several lengths
static void onepush() { size_t n = pick(LEN()); static const std::vector<size_t> B = {0, 1, 2, 75, 255}; size_t b = pick(B); bytes base = repeat(b, 8), d = repeat(n, 1); std::string ctx = fmt("%zu bytes onto %zu", n, b); Script s = mkscript(base); int kind = choose(4); bytes w = base; bool fits; size_t r; if (kind == 0) { Exact e(d); r = s.push(e.p, e.n); ref::app(w, d); } else if (kind == 1) { Script t = mkscript(d); r = s.push(t); ref::app(w, push1(d)); eq(scriptbytes(t), d, "pushed-script-changed", ctx); } else if (kind == 2) { uint8_t op = n; r = s.push(op); w.push_back(op); } else { const Key &k = KS()[n % 20]; r = s.push(k.k); ref::app(w, push1(k.sec)); } fits = w.size() <= 10000; if (!fits) w.clear(); eq(scriptbytes(s), w, "pushed", ctx + fmt(" kind %d", kind)); eqn(r, w.size(), "push-result", ctx); eqn(s.length(), w.size() + ref::varint(w.size()).size(), "length", ctx); step(); state(ref::fnv(w)); outcome(fits ? "pushed" : "too-large");
  Witness wt; Exact e(d); size_t q; int wk = choose(2); if (wk == 0) q = wt.push(e.p, e.n); else { Script t = mkscript(d); q = wt.push(t); } bytes we = ref::varbytes(d); if (we.size() > 10000) { eqn(wt.count(), 0, "witness-too-large", ctx); eqn(q, 0, "witness-push-result", ctx); } else { eq(ser(wt), ref::ser_wit({d}), "witness-push", ctx); eqn(q, we.size(), "witness-push-result", ctx); eqn(wt.count(), 1, "witness-count", ctx); } step(); }
static Signature sigof(int i, U &r, U &s) { static const char *X[] = {"01", "80", "ff", "7fffffff", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140", "7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a0", "8000000000000000000000000000000000000000000000000000000000000000", "0100000000000000000000000000000000000000000000000000000000000000"}; r = ref::fromH(std::string(X[i % 8])); s = ref::fromH(std::string(X[i / 8])); return Signature(ref::toB(r).data(), ref::toB(s).data()); }
static void sigs() { U r, s; Signature g = sigof(choose(64), r, s); int h = 1 + choose(3); // the values of SigHashType
   const Key &k = KS()[choose(4)]; bytes d = ref::cat(ref::der(r, s), {(uint8_t)h}); std::string ctx = ref::hex(d); Script a; a.push(g, (SigHashType)h); eq(scriptbytes(a), push1(d), "signature-push", ctx); a.push(k.k); eq(scriptbytes(a), ref::cat(push1(d), push1(k.sec)), "signature-key-push", ctx); Witness w; w.push(g, (SigHashType)h); w.push(k.k); eq(ser(w), ref::ser_wit({d, k.sec}), "witness-signature-key", ctx); if (h == 1) { Witness q(g, k.k); eq(ser(q), ref::ser_wit({d, k.sec}), "witness-constructor", ctx); Script b; b.push(g); eq(scriptbytes(b), push1(d), "signature-default-type", ctx); } step(4); state(ref::fnv(d)); outcome("signature"); }
// all push sequences up to a depth, also near the size limit: an overflow empties the script, whatever the kind of push
static void sequences() { static const std::vector<size_t> B = {0, 9900, 9932, 9965, 9966, 9967, 9997, 9998, 9999, 10000}; size_t b = pick(B); bytes w = repeat(b, 2); Script s = mkscript(w); std::string tr = fmt("base %zu:", b); U r, q; Signature g = sigof(36, r, q); bytes sd = ref::cat(ref::der(r, q), {1}); for (int d = 0; d < (thorough ? 5 : 4); d++) { int op = choose(7); tr += fmt(" %d", op); bytes add; size_t res = 0; switch (op) { case 0: add = {0xac}; res = s.push((uint8_t)0xac); break; case 1: add = repeat(30, 1); res = s.push(add.data(), add.size()); break; case 2: add = push1(KS()[0].sec); res = s.push(KS()[0].k); break; case 3: add = push1(sd); res = s.push(g); break; case 4: { bytes x = repeat(80, 3); add = push1(x); res = s.push(mkscript(x)); break; } case 5: { bytes x = repeat(300, 3); add = push1(x); res = s.push(mkscript(x)); break; } case 6: add = {}; res = s.push((const uint8_t *)"x", 0); break; } ref::app(w, add); bool over = w.size() > 10000; if (over) w.clear(); eq(scriptbytes(s), w, "push-sequence", tr); eqn(res, w.size(), "push-sequence-result", tr); step(); outcome(over ? "overflow" : "step"); } state(ref::fnv(w)); }
static void wsequences() { static const std::vector<size_t> B = {0, 9880, 9926, 9966, 9989, 9996}; size_t b = pick(B); std::vector<bytes> w; Witness s; if (b) { bytes x = repeat(b, 2); w.push_back(x); s.push(x.data(), x.size()); } std::string tr = fmt("base %zu:", b); U r, q; Signature g = sigof(36, r, q); bytes sd = ref::cat(ref::der(r, q), {1}); for (int d = 0; d < (thorough ? 5 : 4); d++) { int op = choose(6); tr += fmt(" %d", op); bytes add; switch (op) { case 0: s.push((const uint8_t *)"", 0); break; case 1: add = repeat(30, 1); s.push(add.data(), add.size()); break; case 2: add = KS()[0].sec; s.push(KS()[0].k); break; case 3: add = sd; s.push(g); break; case 4: add = repeat(80, 3); s.push(mkscript(add)); break; case 5: add = repeat(300, 3); s.push(mkscript(add)); break; } w.push_back(add); size_t tot = 0; for (auto &x : w) tot += ref::varbytes(x).size(); bool over = tot > 10000; if (over) w.clear(); eq(ser(s), ref::ser_wit(w), "witness-sequence", tr); eqn(s.count(), w.size(), "witness-sequence-count", tr); ok(bool(s) == !w.empty(), "witness-bool", tr); step(); outcome(over ? "overflow" : "step"); } state(ref::fnv(ser(s))); }
static void manyelements() { size_t n = choose(thorough ? 600 : 300); Witness s; std::vector<bytes> w; for (size_t i = 0; i < n; i++) { bytes x = repeat(i % 3, i); w.push_back(x); s.push(x.data(), x.size()); } eq(ser(s), ref::ser_wit(w), "witness-many", fmt("%zu elements", n)); eqn(s.count(), n, "witness-many-count"); eqn(s.length(), ref::ser_wit(w).size(), "witness-many-length"); step(); outcome("many"); }
static void types() { size_t n = choose(40); int f = choose(12); bytes s = repeat(n, 5); auto set = [&](size_t i, uint8_t v) { if (i < n) s[i] = v; }; switch (f) { case 0: set(0, 0x76); set(1, 0xa9); set(2, 20); if (n >= 2) { s[n - 2] = 0x88; s[n - 1] = 0xac; } break; case 1: set(0, 0xa9); set(1, 20); if (n) s[n - 1] = 0x87; break; case 2: set(0, 0); set(1, 20); break; case 3: set(0, 0); set(1, 32); break; case 4: set(0, 0); if (n > 1) s[1] = n - 2; break; case 5: set(0, 0x51); if (n > 1) s[1] = n - 2; break; case 6: set(0, 0xa9); set(1, 20); break; case 7: set(0, 0x76); set(1, 0xa9); set(2, 20); break; case 8: set(0, 0xa9); if (n) s[n - 1] = 0x87; break; case 9: set(0, 0x76); set(1, 0xa9); if (n >= 2) { s[n - 2] = 0x88; s[n - 1] = 0xac; } break; default: break; } ScriptType w = UNKNOWN_TYPE; if (n == 25 && s[0] == 0x76 && s[1] == 0xa9 && s[2] == 20 && s[23] == 0x88 && s[24] == 0xac) w = P2PKH; if (n == 23 && s[0] == 0xa9 && s[1] == 20 && s[22] == 0x87) w = P2SH; if (n == 22 && s[0] == 0 && s[1] == 20) w = P2WPKH; if (n == 34 && s[0] == 0 && s[1] == 32) w = P2WSH; Script x = mkscript(s); eqn(x.type(), w, "type", ref::hex(s)); step(); state(ref::fnv(s)); outcome(w == UNKNOWN_TYPE ? "type-unknown" : "type-known"); }
static void wrap() { size_t n = pick(LEN()); bytes s = repeat(n, 3); Script x = mkscript(s); static const ScriptType T[] = {P2SH, P2WSH, P2SH_P2WSH, P2PKH, UNKNOWN_TYPE}; int t = choose(5); bytes w = t == 0 ? ref::p2sh(ref::hash160(s)) : t == 1 ? ref::p2wsh(ref::sha256(s)) : bytes(); if (t == 2) { step(); return; } eq(scriptbytes(Script(x, T[t])), w, "Script-of-script", fmt("%zu bytes type %d", n, T[t])); eq(scriptbytes(x.scriptPubkey(T[t])), w, "scriptPubkey", fmt("%zu bytes type %d", n, T[t])); eq(scriptbytes(x), s, "wrapped-script-changed"); step(2); state(ref::fnv(s, t)); outcome("wrap"); }
// every named opcode has the value of the protocol, alone, after another opcode and after data
static void opnames() { size_t n = 0; while (OPNAMES[n].n) n++; if (!n) return; const OpName &o = OPNAMES[choose(n)], &o2 = OPNAMES[choose(n)]; eqn(o.v, o.want, "opcode", o.n); Script s; s.push((uint8_t)o.v); s.push((uint8_t)o2.v); eq(scriptbytes(s), bytes{(uint8_t)o.want, (uint8_t)o2.want}, "opcode-push", o.n); state(ref::fnv(std::string(o.n) + o2.n)); outcome("opcode"); step(2); }
void define_spaces() { space("opcodes", 2, [] { opnames(); }); KS(); LEN(); space("parameters", 2, [] { params(); }); space("permutations", 3, [] { perms(); }); space("repeats", 3, [] { repeats(); }); space("rotations", 2, [] { rotations(); }); space("single", 1, [] { single(); }); space("pushes", 1, [] { onepush(); }); space("signatures", 1, [] { sigs(); }); space("sequences", 2, [] { sequences(); }); space("witness-sequences", 2, [] { wsequences(); }); space("witness-many", 1, [] { manyelements(); }); space("types", 1, [] { types(); }); space("wrap", 1, [] { wrap(); }); }
