// C27: Schnorr signatures. All pairs of boundary keys (both parities) and hashes are signed: a BIP340 verifier accepts, the
// result is repeatable, and no two different (key, hash) pairs share a nonce point. Verification is run on every
// single-bit alteration of signature, hash and key, all pairs of boundary r and s values, and crafted classes (odd nonce
// point, nonce point at infinity, x coordinate off the curve, negated s, s + n, r + p) and judged by an independent verifier.
#include "lib.h"
using ref::U; using ref::Pt; using ref::N;
static U minus(const U &a, uint64_t d) { U r; ref::subb(r, a, U(d)); return r; }
static U plus(const U &a, uint64_t d) { U r; ref::addc(r, a, U(d)); return r; }
static const std::vector<U> &KEYS() { static std::vector<U> v; if (v.empty()) { for (uint64_t i : {1, 2, 3, 4, 5, 6, 256}) { v.push_back(U(i)); v.push_back(minus(N(), i)); } v.push_back(ref::fromH("c90fdaa22168c234c4c6628b80dc1cd129024e088a67cc74020bbea63b14e5c9")); v.push_back(ref::fromH("0b432b2677937381aef05bb02a66ecd012773062cf3fa2549e44f58ed2401710")); if (thorough) for (int i = 1; i < 40; i++) v.push_back(ref::fromB(ref::sha256(repeat(i, 9)))); } return v; }
static const std::vector<bytes> &HASHES() { static std::vector<bytes> v; if (v.empty()) { v.push_back(bytes(32, 0)); v.push_back(bytes(32, 0xff)); v.push_back(ref::toB(N())); v.push_back(ref::toB(U(1))); bytes b(32, 0); b[0] = 0x80; v.push_back(b); for (int i = 0; i < (thorough ? 100 : 20); i++) v.push_back(ref::sha256(bytes(1, i))); } return v; }
static bytes sb(const SchnorrSignature &s) { uint8_t b[64]; s.serialize(b, 64); return bytes(b, b + 64); }
static void signs() { const U &d = pick(KEYS()); const bytes &h = pick(HASHES()); std::string ctx = "key " + ref::hex(ref::toB(d)) + " hash " + ref::hex(h); rng_seed(1); PrivateKey k(ref::toB(d).data()); bytes b = sb(k.schnorr_sign(h.data())); rng_seed(7); eq(sb(k.schnorr_sign(h.data())), b, "not-deterministic", ctx); Pt Q = ref::mulG(d); step(2);
  ok(ref::schnorr_verify(Q.x, h, ref::fromB(sub(b, 0, 32)), ref::fromB(sub(b, 32, 32))), "not-a-signature", ctx + " " + ref::hex(b)); SchnorrSignature g(b.data()); PublicKey p = k.publicKey(); ok(p.schnorr_verify(g, h.data()), "own-signature-rejected", ctx); p.compressed = false; ok(p.schnorr_verify(g, h.data()), "own-signature-rejected", ctx); PublicKey x; x.from_x(ref::toB(Q.x).data(), 32); ok(x.schnorr_verify(g, h.data()), "own-signature-rejected", ctx + " x-only key"); ok((-p).isValid() && PublicKey(-p).schnorr_verify(g, h.data()), "own-signature-rejected", ctx + " negated key");
  PrivateKey neg(ref::toB(ref::negm(d, N())).data()); eq(sb(neg.schnorr_sign(h.data())), b, "negated-key-signs-differently", ctx); HDPrivateKey hd(ref::toB(d).data(), ref::sha256({1}).data()); eq(sb(hd.schnorr_sign(h.data())), b, "hd-signature", ctx); ok(hd.xpub().schnorr_verify(g, h.data()), "own-signature-rejected", ctx + " hd"); eq(secretof(k), ref::toB(d), "key-changed", ctx);
  PrivateKey w(ref::toB(d).data(), false, &Regtest); eq(sb(w.schnorr_sign(h.data())), b, "signature-depends-on-form", ctx); ok(sb(g) == b && g.isValid() && SchnorrSignature(ref::hex(b).c_str()) == g, "codec", ctx); state(ref::fnv(b)); outcome("signed"); }
// nonce points of all single-bit variants of a hash and of a key are pairwise different
static void nonces() { const U &d = KEYS()[choose(thorough ? 16 : 2) * 15 % 17]; const bytes &h0 = HASHES()[choose(thorough ? 4 : 1)]; std::set<bytes> seen; PrivateKey k(ref::toB(d).data()); auto add = [&](const PrivateKey &q, const bytes &h, const std::string &c) { bytes b = sb(q.schnorr_sign(h.data())); step(); ok(seen.insert(sub(b, 0, 32)).second, "nonce-reused", c); }; add(k, h0, "base"); for (int i = 0; i < 256; i++) { bytes h = h0; h[i / 8] ^= 1 << (i % 8); add(k, h, "key " + ref::hex(ref::toB(d)) + fmt(" bit %d of the hash", i)); }
  for (int i = 0; i < 250; i++) { U e = d; e.v[i / 64] ^= 1ULL << (i % 64); if (e.zero() || !(e < N())) continue; PrivateKey q(ref::toB(e).data()); add(q, h0, "key " + ref::hex(ref::toB(d)) + fmt(" bit %d of the key", i)); } state(ref::fnv(ref::cat(ref::toB(d), h0), 5)); outcome("nonces-distinct"); }
static void judge(const Pt &Q, const bytes &h, const U &r, const U &s, const std::string &ctx) { bytes rb = ref::toB(r), s_ = ref::toB(s), q = pt64(Q); bool want = !Q.inf && ref::oncurve(Q.x, Q.y) && ref::schnorr_verify(Q.x, h, r, s); PublicKey p(q.data(), true); SchnorrSignature g(rb.data(), s_.data()); bool got = p.schnorr_verify(g, h.data()); step(); ok(got == want, want ? "valid-signature-rejected" : "invalid-signature-accepted", ctx + " key " + ref::hex(q) + " hash " + ref::hex(h) + " r " + ref::hex(rb) + " s " + ref::hex(s_)); eq(sb(g), ref::cat(rb, s_), "signature-changed", ctx); eq(pointof(p), q, "key-changed", ctx); state(ref::fnv(ref::cat(ref::cat(q, h), ref::cat(rb, s_)))); outcome(want ? "accepted" : "rejected"); }
static bool lifted(const U &x, Pt &p) { return ref::lift(x, false, p); }
struct Case { U d; Pt Q; bytes h; U r, s; };
// reference signature with a chosen nonce
static Case mkcase(U d, const bytes &h, U k) { Case c; c.d = d; c.Q = ref::mulG(d); c.h = h; if (c.Q.y.odd()) d = ref::negm(d, N()); Pt R = ref::mulG(k); if (R.y.odd()) k = ref::negm(k, N()); c.r = R.x; U e = ref::modm(ref::fromB(ref::tagged("BIP0340/challenge", ref::cat(ref::cat(ref::toB(c.r), ref::toB(c.Q.x)), h))), N()); c.s = ref::addm(k, ref::mulm(e, d, N()), N()); return c; }
static std::vector<Case> &CASES() { static std::vector<Case> v; if (v.empty()) { int n = thorough ? 14 : 5; for (int i = 0; i < n; i++) v.push_back(mkcase(KEYS()[i * 3 % 16], HASHES()[(i * 5) % 20], i == 0 ? U(1) : i == 1 ? minus(N(), 2) : ref::fromB(ref::sha256(repeat(5, i))))); } return v; }
static void flips() { const Case &c = pick(CASES()); int w = choose(5), i = choose(256); U r = c.r, s = c.s; bytes h = c.h; Pt q = c.Q; if (w == 0) r.v[i / 64] ^= 1ULL << (i % 64); else if (w == 1) s.v[i / 64] ^= 1ULL << (i % 64); else if (w == 2) h[i / 8] ^= 1 << (i % 8); else if (w == 3) { U x = q.x; x.v[i / 64] ^= 1ULL << (i % 64); if (!lifted(x, q)) q = Pt(x, q.y); } else q.y.v[i / 64] ^= 1ULL << (i % 64); judge(q, h, r, s, fmt("bit %d of field %d flipped", i, w)); if (w == 0 && i == 0) { judge(c.Q, c.h, c.r, c.s, "unchanged"); judge(ref::neg(c.Q), c.h, c.r, c.s, "unchanged, negated key"); } }
static void ranges() { const Case &c = pick(CASES()); auto vals = [&](const U &x, const U &m) { std::vector<U> v = {x, ref::negm(x, m), U(0), U(1), U(2), U(5), minus(N(), 1), N(), plus(N(), 1), minus(ref::P(), 1), ref::P(), plus(ref::P(), 1), minus(U(0), 1)}; U t; if (!ref::addc(t, x, m)) v.push_back(t); return v; }; auto R = vals(c.r, ref::P()), S = vals(c.s, N()); const U &r = R[choose(R.size())]; const U &s = S[choose(S.size())]; judge(flip() ? c.Q : ref::neg(c.Q), c.h, r, s, "boundary values"); }
static void mixed() { const Case &a = pick(CASES()), &b = pick(CASES()), &c = pick(CASES()), &d = pick(CASES()); judge(a.Q, b.h, c.r, d.s, "mixed"); }
// crafted: (0) nonce point with odd y, (1) s*G = e*P (nonce at infinity) with arbitrary r, (2) s + n / s tiny, (3) negated challenge, (4) r such that s + n fits, (5) forged for r off the curve
static void crafted() { int kind = choose(6); U d = KEYS()[choose(16)]; const bytes &h = HASHES()[choose(6)]; Pt Q = ref::mulG(d); U de = Q.y.odd() ? ref::negm(d, N()) : d; U k(1 + choose(12)); Pt R = ref::mulG(k); if (R.y.odd()) { k = ref::negm(k, N()); R = ref::neg(R); } U r = R.x; auto chal = [&](const U &rr) { return ref::modm(ref::fromB(ref::tagged("BIP0340/challenge", ref::cat(ref::cat(ref::toB(rr), ref::toB(Q.x)), h))), N()); }; U e = chal(r), ed = ref::mulm(e, de, N()); U s = ref::addm(k, ed, N());
  if (kind == 0) s = ref::addm(ref::negm(k, N()), ed, N()); else if (kind == 1) { r = flip() ? U(0) : R.x; s = ref::mulm(chal(r), de, N()); } else if (kind == 2) s = ref::negm(s, N()); else if (kind == 3) s = ref::addm(k, ref::negm(ed, N()), N()); else if (kind == 4) { // choose the key so that s is tiny, then present s + n
    U small(1 + choose(3)); U nk = ref::subm(small, ed, N()); Pt R2 = ref::mulG(nk); (void)R2; r = R2.x; U t; ref::addc(t, small, N()); s = t; } else { U x = R.x; Pt t; while (lifted(x, t)) x = plus(x, 1); r = x; s = ref::addm(k, ref::mulm(chal(r), de, N()), N()); }
  judge(Q, h, r, s, fmt("crafted %d", kind)); if (kind == 0 || kind == 2) judge(ref::neg(Q), h, r, s, fmt("crafted %d, negated key", kind)); if (kind == 5) judge(Q, h, R.x, ref::addm(k, ed, N()), "valid reference signature"); }
// the nonce point is chosen by its x coordinate, so that x + p fits into 32 bytes; s comes from the equation s*G = R + e*P with P = Q
static void smallx() { uint64_t x = choose(40); Pt R; if (!lifted(U(x), R)) { outcome("no-such-point"); return; } const bytes &h = HASHES()[5]; // P := (s*G - R)/e needs e before P; use P = known multiple and only test that r + p is treated as out of range
  U s(7); Pt Q = ref::mulG(U(9)); judge(Q, h, U(x), s, "small x"); U t; ref::addc(t, U(x), ref::P()); judge(Q, h, t, s, "x + p"); }
static void badkey() { const Case &c = pick(CASES()); int k = choose(4); Pt q; if (k == 1) q = Pt(U(5), U(2)); if (k == 2) q = Pt(c.Q.x, ref::P()); if (k == 3) q = Pt(c.Q.x, plus(c.Q.y, 2)); bytes b = q.inf ? bytes(64, 0) : pt64(q); PublicKey p(b.data(), true); SchnorrSignature g(ref::toB(c.r).data(), ref::toB(c.s).data()), z; ok(!p.schnorr_verify(g, c.h.data()), "invalid-key-accepted", ref::hex(b)); ok(!p.schnorr_verify(z, c.h.data()), "invalid-key-accepted", ref::hex(b)); PublicKey good(pt64(c.Q).data(), true); ok(!good.schnorr_verify(z, c.h.data()), "empty-signature-accepted", ""); // with an invalid key, R = s*G makes the equation hold trivially if the key counts as infinity
  U s(3); Pt R = ref::mulG(s); if (R.y.odd()) { s = ref::negm(s, N()); R = ref::neg(R); } SchnorrSignature f(ref::toB(R.x).data(), ref::toB(s).data()); ok(!p.schnorr_verify(f, c.h.data()), "forgery-for-invalid-key-accepted", ref::hex(b)); step(4); state(ref::fnv(b)); outcome("rejected"); }
static void vectors() { // BIP340 published vectors (key, hash, signature, verdict)
  static const char *V[][4] = {{"F9308A019258C31049344F85F89D5229B531C845836F99B08601F113BCE036F9", "0000000000000000000000000000000000000000000000000000000000000000", "E907831F80848D1069A5371B402410364BDF1C5F8307B0084C55F1CE2DCA821525F66A4A85EA8B71E482A74F382D2CE5EBEEE8FDB2172F477DF4900D310536C0", "1"}, {"DFF1D77F2A671C5F36183726DB2341BE58FEAE1DA2DECED843240F7B502BA659", "243F6A8885A308D313198A2E03707344A4093822299F31D0082EFA98EC4E6C89", "6896BD60EEAE296DB48A229FF71DFE071BDE413E6D43F917DC8DCF8C78DE33418906D11AC976ABCCB20B091292BFF4EA897EFCB639EA871CFA95F6DE339E4B0A", "1"}, {"D69C3509BB99E412E68B0FE8544E72837DFA30746D8BE2AA65975F29D22DC7B9", "4DF3C3F68FCC83B27E9D42C90431A72499F17875C81A599B566C9889B9696703", "00000000000000000000003B78CE563F89A0ED9414F5AA28AD0D96D6795F9C6376AFB1548AF603B3EB45C9F8207DEE1060CB71C04E80F593060B07D28308D7F4", "1"}, {"DFF1D77F2A671C5F36183726DB2341BE58FEAE1DA2DECED843240F7B502BA659", "243F6A8885A308D313198A2E03707344A4093822299F31D0082EFA98EC4E6C89", "FFF97BD5755EEEA420453A14355235D382F6472F8568A18B2F057A14602975563CC27944640AC607CD107AE10923D9EF7A73C643E166BE5EBEAFA34B1AC553E2", "0"}, {"DFF1D77F2A671C5F36183726DB2341BE58FEAE1DA2DECED843240F7B502BA659", "243F6A8885A308D313198A2E03707344A4093822299F31D0082EFA98EC4E6C89", "0000000000000000000000000000000000000000000000000000000000000000123DDA8328AF9C23A94C1FEECFD123BA4FB73476F0D594DCB65C6425BD186051", "0"}, {"DFF1D77F2A671C5F36183726DB2341BE58FEAE1DA2DECED843240F7B502BA659", "243F6A8885A308D313198A2E03707344A4093822299F31D0082EFA98EC4E6C89", "00000000000000000000000000000000000000000000000000000000000000017615FBAF5AE28864013C099742DEADB4DBA87F11AC6754F93780D5A1837CF197", "0"}};
  auto &v = V[choose(6)]; bool want = v[3][0] == '1'; bytes x = ref::unhex(v[0]), h = ref::unhex(v[1]), g = ref::unhex(v[2]); ok(ref::schnorr_verify(ref::fromB(x), h, ref::fromB(sub(g, 0, 32)), ref::fromB(sub(g, 32, 32))) == want, "model-disagrees-with-vector", v[2]); PublicKey p; p.from_x(x.data(), 32); ok(p.schnorr_verify(SchnorrSignature(g.data()), h.data()) == want, "vector", v[2]); step(); outcome("vector"); }
void define_spaces() { KEYS(); HASHES(); CASES(); space("sign", 2, [] { signs(); }); space("nonces", 2, [] { nonces(); }); space("flips", 2, [] { flips(); }); space("ranges", 2, [] { ranges(); }); space("mixed", 2, [] { mixed(); }); space("crafted", 2, [] { crafted(); }); space("small-x", 1, [] { smallx(); }); space("badkey", 1, [] { badkey(); }); space("vectors", 1, [] { vectors(); }); }
