// C42: a private key object is a pair (secret, public key), and an HD key carries them with its chain code. Every sequence
// of constructing, reading (good, bad, in pieces, never finished), replacing, arithmetic in place, deriving, copying and
// resetting up to a depth is applied to one object; after every step the object is compared with a model that holds only
// the secret (and chain code), the public key being recomputed with independent arithmetic.
#include "lib.h"
using ref::U; using ref::Pt; using ref::HD; using ref::N;
static const uint32_t Hn = 0x80000000u;
static U minus(const U &a, uint64_t d) { U r; ref::subb(r, a, U(d)); return r; }
static U addn(const U &a, const U &b) { return ref::addm(a, b, N()); }
static U negn(const U &a) { if (a.zero()) return a; U r; ref::subb(r, N(), a); return r; }
static U invn(const U &a) { return ref::invm(a, N()); }
static const Pt &G_(const U &d) { static std::map<bytes, Pt> M; bytes b = ref::toB(d); auto it = M.find(b); if (it == M.end()) it = M.emplace(b, d.zero() ? Pt() : ref::mulG(d)).first; return it->second; }
// in-place arithmetic: operator and operand, applied to the object and to the model. Divisions by zero give zero.
static const char *OPS[] = {"+=", "-=", "*=", "/="};
template <class K> static U arith(K &k, const U &d, std::string &tr, int nop) { int op = choose(4), v = choose(nop); U x = v == 0 ? U(1) : v == 1 ? U(5) : v == 2 ? d : v == 3 ? minus(N(), 1) : v == 4 ? U(0) : v == 5 ? negn(d) : U(0xffffffffu); tr += fmt(" %s%d", OPS[op], v);
  auto run = [&](const auto &y) { if (op == 0) k += y; else if (op == 1) k -= y; else if (op == 2) k *= y; else k /= y; };
  if (v == 1) run(PrivateKey(ref::toB(x).data(), false, &Testnet)); else if (v == 2) run(k); else if (v == 6) run(ECScalar((uint32_t)0xffffffffu)); else { ECScalar y; if (!x.zero()) { bytes b = ref::toB(x); y = ECScalar(b.data(), 32); } run(y); }
  return op == 0 ? addn(d, x) : op == 1 ? addn(d, negn(x)) : op == 2 ? ref::mulm(d, x, N()) : x.zero() ? U(0) : ref::mulm(d, invn(x), N()); }
template <class K> static void pair(K &k, const U &d, const std::string &tr) { ok(k.getStatus() == PARSING_DONE, "status", tr); eq(secretof(k), ref::toB(d), "secret", tr); Pt p = G_(d); PublicKey q = k.publicKey(); eq(pointof(q), pt64(p), "public-key-of-another-secret", tr); ok(k.isValid() == !d.zero() && bool(k) == !d.zero(), "validity", tr); ok(q.isValid() == !d.zero(), "public-key-validity", tr); step(); }
template <class K> static void spends(K &k, const U &d, const std::string &tr) { if (d.zero()) return; bytes h = repeat(32, 9); Signature s = k.sign(h.data()); ok(k.publicKey().verify(s, h.data()), "own-signature-does-not-verify", tr); bytes b = binof(s); ok(ref::ecdsa_verify(G_(d), h, ref::fromB(sub(b, 0, 32)), ref::fromB(sub(b, 32, 32))), "signature-of-another-key", tr); step(); }
static std::string wif(const U &d, uint8_t v, bool c) { bytes p = ref::cat({v}, ref::toB(d)); if (c) p.push_back(1); return ref::b58c(p); }
// ---- PrivateKey. comp: -1 = not specified
struct M { bool done = true; U d; int comp = -1; const Network *net = nullptr; };
static void judge(PrivateKey &k, M &m, const std::string &tr, bool full = true) { if (!m.done) { ok(!k.isValid() && !bool(k), "unfinished-key-is-valid", tr); step(); return; } if (full) pair(k, m.d, tr); bool c = k.publicKey().compressed; if (m.comp >= 0) eqn(c, m.comp, "compression-flag", tr); m.comp = c; if (m.net) ok(k.network == m.net, "network", tr + " got " + netname(k.network)); m.net = k.network; if (!full) return; for (auto &ns : netspecs()) if (ns.net == m.net) { if (!m.d.zero()) { eq(k.wif(), wif(m.d, ns.wif, c), "wif", tr); eq(k.legacyAddress(), ref::b58c(ref::cat({ns.p2pkh}, ref::hash160(ref::sec(G_(m.d), c)))), "address", tr); } return; } fail("network-garbage", tr); }
static void prv(int maxdepth) { int depth = choose(maxdepth) + 1; PrivateKey k; M m; std::string tr; if (choose(2)) { k = PrivateKey(ref::toB(U(6)).data(), false, &Regtest); m.d = U(6); m.comp = 0; m.net = &Regtest; tr = "key 6"; judge(k, m, tr); }
  for (int i = 0; i < depth; i++) { int op = choose(m.done ? 8 : 4); switch (op) {
    case 0: { int v = choose(i == 1 && !thorough ? 3 : 4); U x = v == 0 ? U(1) : v == 1 ? minus(N(), 1) : v == 2 ? U(0) : N(); tr += fmt(" setSecret%d", v); k.setSecret(ref::toB(x).data()); m.done = true; m.d = v < 2 ? x : U(0); m.comp = -1; break; }
    case 1: { int v = i == 1 && !thorough ? 1 + (int)choose(2) : (int)choose(3); tr += fmt(" fromWIF%d", v); std::string w = v == 0 ? wif(U(7), 0x80, true) : wif(U(8), 0xef, false); if (v == 2) w[5] = w[5] == 'a' ? 'b' : 'a'; k.fromWIF(w.c_str()); m.done = true; m.d = v == 0 ? U(7) : v == 1 ? U(8) : U(0); m.comp = v == 2 ? -1 : v == 0; m.net = v == 2 ? nullptr : v == 0 ? &Mainnet : &Testnet; break; }
    case 2: { tr += " reset"; k.reset(); m.done = true; m.d = U(0); m.comp = -1; m.net = nullptr; break; }
    case 3: { int v = i == 1 && !thorough ? 1 : (int)choose(3); tr += fmt(" copy%d", v); PrivateKey c(k); M n = m; judge(c, n, tr + " (copy)"); if (v == 0) { c.setSecret(ref::toB(U(99)).data()); c.reset(); } else if (v == 1) { PrivateKey e(ref::toB(U(11)).data(), true, &Signet); e = k; n = m; judge(e, n, tr + " (assigned)"); k = e; } else { k.reset(); k = c; } break; }
    case 4: { int v = choose(i == 1 && !thorough ? 4 : 6); tr += fmt(" parse%d", v); bytes b = ref::toB(v == 1 ? U(0) : v == 2 ? N() : minus(N(), 9)); m.comp = -1; if (v < 3) { eqn(k.parse(b.data(), 32), 32, "consumed", tr); m.done = v == 0; m.d = minus(N(), 9); } else { size_t cut = v == 3 ? 1 : v == 4 ? 16 : 31; k.parse(b.data(), cut); ok(!k.isValid(), "unfinished-key-is-valid", tr); m.done = false; if (flip()) { tr += "+rest"; k.parse(b.data() + cut, 32 - cut); m.done = true; m.d = minus(N(), 9); } } break; }
    case 5: { m.d = arith(k, m.d, tr, !i ? 7 : thorough ? (depth < 4 ? 7 : 3) : i == 1 ? 2 : 3); break; }
    case 6: { int v = choose(4); tr += fmt(" assign%d", v); ECScalar one(1u); if (v == 0) { k = k + one; m.d = addn(m.d, U(1)); } else if (v == 1) { k = -k; m.d = negn(m.d); } else if (v == 2) { k = k - PrivateKey(ref::toB(U(5)).data()); m.d = addn(m.d, negn(U(5))); } else { k = k * k; m.d = ref::mulm(m.d, m.d, N()); } m.comp = -1; m.net = nullptr; break; }
    case 7: { tr += " hd"; HDPrivateKey h(ref::toB(U(3)).data(), repeat(32, 1).data(), 0, NULL, 0, &Testnet); k = h; m.d = U(3); m.comp = 1; m.net = &Testnet; break; } }
    judge(k, m, tr, i == depth - 1); state(ref::fnv(ref::cat(ref::toB(m.d), {(uint8_t)m.done, (uint8_t)(m.comp + 1), (uint8_t)(m.net ? netname(m.net)[0] : 0), (uint8_t)k.getStatus()}))); }
  if (m.done && depth <= 2) spends(k, m.d, tr); outcome(!m.done ? "unfinished" : m.d.zero() ? "empty" : "key"); }
// ---- HDPrivateKey. cc empty = not specified
struct HM { bool done = true; HD h; const Network *net = nullptr; };
static void judge(HDPrivateKey &k, HM &m, const std::string &tr, bool full = true) { if (!full) return; if (!m.done) { ok(!k.isValid() && !bool(k), "unfinished-key-is-valid", tr); ok(!k.child(0).isValid() && !k.hardenedChild(0).isValid(), "child-of-unfinished-key", tr); step(); return; } pair(k, m.h.k, tr); ok(k.publicKey().compressed, "compressed", tr); bool known = m.h.cc.size() == 32; HDPublicKey q = k.xpub(); eq(pointof(q), pt64(G_(m.h.k)), "xpub-of-another-secret", tr); ok(q.isValid() == !m.h.k.zero(), "xpub-validity", tr); if (known) { eq(bytes(k.chainCode, k.chainCode + 32), m.h.cc, "chain-code", tr); eq(bytes(q.chainCode, q.chainCode + 32), m.h.cc, "xpub-chain-code", tr); eqn(k.depth, m.h.depth, "depth", tr); eqn(q.depth, m.h.depth, "xpub-depth", tr); eqn(k.childNumber, m.h.num, "child-number", tr); eq(bytes(k.parentFingerprint, k.parentFingerprint + 4), m.h.pfp, "parent-fingerprint", tr); } if (m.net) ok(k.network == m.net, "network", tr + " got " + netname(k.network)); if (!m.h.k.zero()) { uint8_t f[4], g[4]; k.fingerprint(f); q.fingerprint(g); bytes w = sub(ref::hash160(ref::sec(G_(m.h.k), true)), 0, 4); eq(bytes(f, f + 4), w, "fingerprint", tr); eq(bytes(g, g + 4), w, "xpub-fingerprint", tr); } }
static HD kid(const HD &h, uint32_t i) { return ref::hd_child(h, i); }
static void hdp(int maxdepth) { int depth = choose(maxdepth) + 1; HDPrivateKey k; HM m; std::string tr; static const HD R = ref::hd_seed(repeat(16, 4)), S = kid(ref::hd_seed(repeat(32, 5)), Hn + 49); if (choose(2)) { k.fromSeed(repeat(16, 4).data(), 16, &Regtest); m.h = R; m.net = &Regtest; tr = "seed"; judge(k, m, tr); } else { m.h.k = U(0); m.h.cc.clear(); }
  for (int i = 0; i < depth; i++) { int op = choose(m.done ? 8 : 5); bool nokids = !m.done || m.h.k.zero() || m.h.cc.size() != 32; switch (op) {
    case 0: { int v = choose(3); U x = v == 0 ? minus(N(), 1) : v == 1 ? U(0) : N(); tr += fmt(" setSecret%d", v); k.setSecret(ref::toB(x).data()); m.h.k = v == 0 ? x : U(0); if (!m.done) { m.h.cc.clear(); m.net = nullptr; } m.done = true; break; }
    case 1: { int v = choose(3); tr += fmt(" text%d", v); std::string t = v == 0 ? ref::b58c(ref::hd_bytes(R, ref::be(0x0488ade4, 4), true)) : ref::b58c(ref::hd_bytes(S, ref::be(0x045f18bc, 4), true)); if (v == 2) t[20] = t[20] == 'a' ? 'b' : 'a'; k.fromString(t.c_str()); m.done = v < 2; if (m.done) { m.h = v == 0 ? R : S; m.net = v == 0 ? &Mainnet : &Testnet; } break; }
    case 2: { tr += " reset"; k.reset(); m.done = true; m.h.k = U(0); m.h.cc.clear(); m.net = nullptr; break; }
    case 3: { int v = choose(2); tr += fmt(" copy%d", v); HDPrivateKey c(k); HM n = m; judge(c, n, tr + " (copy)"); if (v == 0) { c.setSecret(ref::toB(U(99)).data()); c.reset(); memset(c.chainCode, 1, 32); } else { HDPrivateKey e(ref::toB(U(11)).data(), repeat(32, 1).data(), 3); e = k; judge(e, n, tr + " (assigned)"); k = HDPrivateKey(); k = e; } break; }
    case 4: { tr += " fromSeed"; k.fromSeed(repeat(16, 4).data(), 16, &Signet); m.done = true; m.h = R; m.net = &Signet; break; }
    case 5: { int v = choose(6); tr += fmt(" parse%d", v); bytes b = ref::hd_bytes(S, ref::be(0x045f18bc, 4), true); if (v == 1) b[3] ^= 1; if (v == 2) b[45] = 1; if (v == 3) std::fill(b.begin() + 46, b.end(), 0); if (v == 4) std::fill(b.begin() + 46, b.end(), 0xff); if (v < 5) { k.parse(b.data(), 78); m.done = v == 0; } else { static const size_t C[] = {45, 77, 1, 4, 47}; size_t cut = C[choose(i == 1 && !thorough ? 2 : 5)]; tr += fmt("@%zu", cut); k.parse(b.data(), cut); ok(!k.isValid(), "unfinished-key-is-valid", tr); m.done = flip(); if (m.done) k.parse(b.data() + cut, 78 - cut); } if (m.done) { m.h = S; m.net = &Testnet; } break; }
    case 6: { m.h.k = arith(k, m.h.k, tr, i && (!thorough || depth == 4) ? 2 : 4); break; }
    case 7: { int v = choose(4); tr += fmt(" child%d", v); HDPrivateKey c = v == 0 ? k.child(1) : v == 1 ? k.hardenedChild(5) : v == 2 ? k.derive("m/0/7h") : k.derive("m/x"); if (nokids && (m.h.k.zero() || v == 3)) { ok(!c.isValid(), "child-of-empty-key", tr); m.h.k = U(0); m.h.cc.clear(); m.net = nullptr; } else if (v == 3) { ok(!c.isValid(), "impossible-path", tr); m.h.k = U(0); m.h.cc.clear(); m.net = nullptr; } else if (!nokids) { m.h.K = G_(m.h.k); m.h = v == 0 ? kid(m.h, 1) : v == 1 ? kid(m.h, Hn + 5) : kid(kid(m.h, 0), Hn + 7); if (m.h.depth >= 2) m.net = nullptr; } else { outcome("skipped"); return; } k = c; break; } }
    m.h.K = G_(m.h.k); judge(k, m, tr, i == depth - 1); state(ref::fnv(ref::cat(ref::cat(ref::toB(m.h.k), m.h.cc), {(uint8_t)m.done, m.h.depth, (uint8_t)k.getStatus()}))); }
  if (m.done && depth <= 2) spends(k, m.h.k, tr); outcome(!m.done ? "unfinished" : m.h.k.zero() ? "empty" : "key"); }
// ---- plain scalars: never valid while unfinished or failed
static void scalar() { ECScalar e; std::string tr; int st = 0; U d; /* 0 done 1 unfinished 2 failed */ for (int i = 0; i < 3; i++) { int op = choose(6); tr += fmt(" %d", op); if (op == 0) { bytes b = ref::toB(U(12)); bool was = st == 2; if (st == 1) { outcome("skipped"); return; } e.parse(b.data(), 32); if (!was) { st = 0; d = U(12); } } else if (op == 1) { if (st) { outcome("skipped"); return; } bytes b = ref::toB(flip() ? N() : U(0)); e.parse(b.data(), 32); st = 2; } else if (op == 2) { if (st) { outcome("skipped"); return; } bytes b = ref::toB(minus(N(), 3)); e.parse(b.data(), 20); st = 1; } else if (op == 3) { e.setSecret(ref::toB(U(13)).data()); st = 0; d = U(13); } else if (op == 4) { e.reset(); st = 0; d = U(0); } else { e = ECScalar((uint32_t)14); st = 0; d = U(14); } ok(e.isValid() == (st == 0 && !d.zero()) && bool(e) == e.isValid(), "validity", tr); if (st == 0) eq(secretof(e), ref::toB(d), "value", tr); step(); } state(ref::fnv(tr)); outcome("scalar"); }
void define_spaces() { space("private-key", 3, [] { prv(thorough ? 4 : 3); }); space("hd-private-key", 3, [] { hdp(thorough ? 4 : 3); }); space("scalar", 2, [] { scalar(); }); }
