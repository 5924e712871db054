// C25: ECDSA. All pairs of boundary keys and hashes are signed and compared with the RFC6979 low-s signature and its
// recovery index; verification is run on every single-bit alteration of signature, hash and key, on all pairs of boundary
// r and s values, and on crafted signatures (nonce point with x beyond the order, result at infinity, hash congruent to
// zero, negated s); the verdict is judged against the ECDSA equation computed with independent arithmetic.
#include "lib.h"
using ref::U; using ref::Pt; using ref::N;
static U minus(const U &a, uint64_t d) { U r; ref::subb(r, a, U(d)); return r; }
static U plus(const U &a, uint64_t d) { U r; ref::addc(r, a, U(d)); return r; }
static const std::vector<U> &KEYS() { static std::vector<U> v; if (v.empty()) { for (uint64_t i : {1, 2, 3, 256}) { v.push_back(U(i)); v.push_back(minus(N(), i)); } U h; for (int i = 0; i < 4; i++) h.v[i] = N().v[i] >> 1 | (i < 3 ? N().v[i + 1] << 63 : 0); v.push_back(h); v.push_back(plus(h, 1)); U t; t.v[3] = 1; v.push_back(t); t = U(); t.v[2] = 1; v.push_back(t); v.push_back(ref::fromH("c90fdaa22168c234c4c6628b80dc1cd129024e088a67cc74020bbea63b14e5c9")); v.push_back(ref::fromH("6a5b4c3d2e1f00112233445566778899aabbccddeeff0123456789abcdef0011"));
    if (thorough) for (int i = 1; i < 40; i++) { v.push_back(ref::fromB(ref::sha256(repeat(i, 9)))); } } return v; }
static const std::vector<bytes> &HASHES() { static std::vector<bytes> v; if (v.empty()) { v.push_back(bytes(32, 0)); v.push_back(bytes(32, 0xff)); for (uint64_t d : {0, 1, 2}) { v.push_back(ref::toB(minus(N(), d))); v.push_back(ref::toB(plus(N(), d))); } for (int d : {1, 2}) v.push_back(ref::toB(U(d))); bytes b(32, 0); b[0] = 0x80; v.push_back(b); for (int i = 0; i < (thorough ? 120 : 24); i++) v.push_back(ref::sha256(bytes(1, i))); } return v; }
static PrivateKey mk(const U &d, bool c = true) { return PrivateKey(ref::toB(d).data(), c); }
static bool recovers(const U &r, const U &s, int idx, const bytes &h, const Pt &Q) { U x = r; if (idx & 2) { U t; if (ref::addc(t, r, N())) return false; x = t; } Pt R; if (!ref::lift(x, idx & 1, R)) return false; U ri = ref::invm(r, N()); Pt q = ref::mul(ri, ref::add(ref::mul(s, R), ref::neg(ref::mulG(ref::modm(ref::fromB(h), N()))))); return q == Q; }
static void signs() {
  const U &d = pick(KEYS()); const bytes &h = pick(HASHES()); std::string ctx = "key " + ref::hex(ref::toB(d)) + " hash " + ref::hex(h); rng_seed(choose(2) + 1); PrivateKey k = mk(d); Signature sig = k.sign(h.data()); bytes b = binof(sig); step(); U r = ref::fromB(sub(b, 0, 32)), s = ref::fromB(sub(b, 32, 32));
  ref::Sig w = ref::ecdsa_sign(d, h); bool good = w.r == r && w.s == s;
  if (!good && !(ref::fromB(h) < N())) { // RFC6979 reduces the hash first, libsecp256k1 does not: both nonces are in use for such hashes
    bytes V(32, 1), K(32, 0), x = ref::cat(ref::toB(d), h); K = ref::hmac256(K, ref::cat(ref::cat(V, {0}), x)); V = ref::hmac256(K, V); K = ref::hmac256(K, ref::cat(ref::cat(V, {1}), x)); V = ref::hmac256(K, V); V = ref::hmac256(K, V); U n = ref::fromB(V); U rr = ref::modm(ref::mulG(n).x, N()), ss = ref::mulm(ref::invm(n, N()), ref::addm(ref::modm(ref::fromB(h), N()), ref::mulm(rr, d, N()), N()), N()); if (!ref::half_or_less(ss)) ss = ref::negm(ss, N()); good = rr == r && ss == s; outcome("hash-not-below-order"); }
  ok(good, "signature", ctx + "\n got " + ref::hex(b) + "\n want " + ref::hex(ref::toB(w.r)) + ref::hex(ref::toB(w.s))); ok(ref::half_or_less(s), "high-s", ctx); ok(ref::ecdsa_verify(ref::mulG(d), h, r, s), "not-a-signature", ctx); ok(sig.index < 4 && recovers(r, s, sig.index, h, ref::mulG(d)), "recovery-index", ctx + fmt(" index %d", sig.index));
  PublicKey p = k.publicKey(); ok(p.verify(sig, h.data()), "own-signature-rejected", ctx); p.compressed = false; ok(p.verify(sig, h.data()), "own-signature-rejected", ctx + " uncompressed"); eq(secretof(k), ref::toB(d), "key-changed", ctx);
  HDPrivateKey hd(ref::toB(d).data(), ref::sha256({1}).data()); eq(binof(hd.sign(h.data())), b, "hd-signature", ctx); HDPublicKey hp = hd.xpub(); ok(hp.verify(sig, h.data()), "hd-own-signature-rejected", ctx); ok(hd.publicKey().verify(sig, h.data()), "hd-own-signature-rejected", ctx); state(ref::fnv(b)); outcome("signed"); }
static void judge(const Pt &Q, bool comp, const bytes &h, const U &r, const U &s, const std::string &ctx) {
  bytes rb = ref::toB(r), sb = ref::toB(s), q = pt64(Q); bool want = ref::ecdsa_verify(Q, h, r, s); PublicKey p(q.data(), comp); Signature sig(rb.data(), sb.data()); bool got = p.verify(sig, h.data()); step();
  ok(got == want, want ? "valid-signature-rejected" : "invalid-signature-accepted", ctx + " key " + ref::hex(q) + " hash " + ref::hex(h) + " r " + ref::hex(rb) + " s " + ref::hex(sb)); eq(binof(sig), ref::cat(rb, sb), "signature-changed", ctx); state(ref::fnv(ref::cat(ref::cat(q, h), ref::cat(rb, sb)))); outcome(want ? "accepted" : "rejected"); }
struct Case { U d; bytes h; Pt Q; ref::Sig s; };
static std::vector<Case> &CASES() { static std::vector<Case> v; if (v.empty()) { std::vector<std::pair<int, int>> ix = {{0, 20}, {1, 21}, {12, 22}, {13, 3}, {4, 0}}; if (thorough) for (int i = 0; i < 14; i++) ix.push_back({i, 10 + i}); for (auto &i : ix) { Case c; c.d = KEYS()[i.first]; c.h = HASHES()[i.second]; c.Q = ref::mulG(c.d); c.s = ref::ecdsa_sign(c.d, c.h); v.push_back(c); } } return v; }
static void flips() { const Case &c = pick(CASES()); int what = choose(5); int i = choose(256); U r = c.s.r, s = c.s.s; bytes h = c.h; Pt q = c.Q; if (what == 0) r.v[i / 64] ^= 1ULL << (i % 64); else if (what == 1) s.v[i / 64] ^= 1ULL << (i % 64); else if (what == 2) h[i / 8] ^= 1 << (i % 8); else if (what == 3) q.x.v[i / 64] ^= 1ULL << (i % 64); else q.y.v[i / 64] ^= 1ULL << (i % 64); bool comp = what == 4 ? false : what == 3 ? flip() : true;
  if (what >= 3) { if (comp) { Pt t; if (ref::lift(q.x, c.Q.y.odd(), t)) q = t; else q.y = c.Q.y; } } judge(q, comp && ref::oncurve(q.x, q.y), h, r, s, fmt("bit %d of field %d flipped", i, what)); }
static void othersigner() { const Case &a = pick(CASES()), &b = pick(CASES()), &c = pick(CASES()); judge(a.Q, true, b.h, c.s.r, c.s.s, "mixed"); judge(ref::neg(a.Q), true, b.h, c.s.r, c.s.s, "mixed, negated key"); }
static void ranges() { const Case &c = pick(CASES()); auto vals = [&](const U &x) { std::vector<U> v = {x, ref::negm(x, N()), U(0), U(1), U(2), minus(N(), 1), N(), plus(N(), 1), minus(ref::P(), 1), ref::P(), plus(ref::P(), 1), minus(U(0), 1)}; U t; if (!ref::addc(t, x, N())) v.push_back(t); else v.push_back(minus(U(0), 2)); t = x; t.v[3] |= 0xffffffff00000000ULL; v.push_back(t); return v; }; auto R = vals(c.s.r), S = vals(c.s.s); const U &r = R[choose(R.size())]; const U &s = S[choose(S.size())]; judge(c.Q, flip(), c.h, r, s, "boundary values"); }
// choose the nonce point, s and the hash freely; recover the key for which the signature is valid
static void crafted() { static const uint64_t off[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}; int kind = choose(3); U x; if (kind == 0) x = plus(N(), off[choose(16)]); else if (kind == 1) x = U(1 + choose(16)); else x = minus(N(), 1 + choose(16)); Pt R; bool odd = flip(); if (!ref::lift(x, odd, R)) { outcome("no-such-point"); return; } U r = ref::modm(x, N()); static const char *SS[] = {"1", "2", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140", "7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a0", "7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a1", "123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0"}; std::string sx = SS[choose(6)]; while (sx.size() < 64) sx = "0" + sx; U s = ref::fromH(sx); int hi = choose(7); const bytes &h = HASHES()[hi < 6 ? hi : 15];
  if (r.zero()) { judge(ref::G(), true, h, r, s, "r = 0"); return; } Pt Q = ref::mul(ref::invm(r, N()), ref::add(ref::mul(s, R), ref::neg(ref::mulG(ref::modm(ref::fromB(h), N()))))); if (Q.inf) { outcome("key-at-infinity"); return; } judge(Q, true, h, r, s, "crafted"); judge(Q, false, h, r, ref::negm(s, N()), "crafted, other s"); U t; if (!ref::addc(t, r, N())) judge(Q, true, h, t, s, "crafted, r + n"); if (!ref::addc(t, s, N())) judge(Q, true, h, r, t, "crafted, s + n"); }
// u1*G + u2*Q special: at infinity, equal terms (doubling), zero hash
static void special() { int k = choose(4); const U &d = KEYS()[choose(14)]; U r(5 + choose(3)), s(3 + choose(3)); Pt Q = ref::mulG(d); U z = ref::mulm(r, d, N()); if (k == 0) z = ref::negm(z, N()); /* infinity */ else if (k == 2) z = U(0); bytes h = ref::toB(z); if (k == 1 || k == 3) { // make r match the doubled point: z = r*d, X = 2*u1*G ; iterate over r cannot be solved, so only the verdict is compared
    if (k == 3) h = ref::toB(ref::addm(z, U(1), N())); } judge(Q, flip(), h, r, s, fmt("special %d", k)); }
static void badkey() { int k = choose(4); const Case &c = pick(CASES()); Pt q; if (k == 1) q = Pt(U(5), U(1)); if (k == 2) q = Pt(c.Q.x, ref::P()); if (k == 3) q = Pt(ref::P(), c.Q.y); if (k == 0) { PublicKey e; Signature s(ref::toB(c.s.r).data(), ref::toB(c.s.s).data()); ok(!e.verify(s, c.h.data()), "invalid-signature-accepted", "empty key"); Signature z; ok(!e.verify(z, c.h.data()), "invalid-signature-accepted", "empty key and signature"); PublicKey p(pt64(c.Q).data(), true); ok(!p.verify(z, c.h.data()), "invalid-signature-accepted", "empty signature"); step(3); outcome("rejected"); return; } judge(q, false, c.h, c.s.r, c.s.s, "key not on the curve"); }
// valid signature whose two terms u1*G and u2*Q are equal points (the addition is a doubling)
static void doubling() { U u1 = KEYS()[choose(KEYS().size())], s = KEYS()[choose(14)]; U r = ref::modm(ref::mulG(ref::addm(u1, u1, N())).x, N()); if (r.zero()) return; U z = ref::mulm(u1, s, N()), d = ref::mulm(z, ref::invm(r, N()), N()); bytes h = ref::toB(z); judge(ref::mulG(d), flip(), h, r, s, "doubling"); }
void define_spaces() { space("doubling", 2, [] { doubling(); }); KEYS(); HASHES(); CASES(); space("sign", 2, [] { signs(); }); space("flips", 2, [] { flips(); }); space("mixed", 2, [] { othersigner(); }); space("ranges", 2, [] { ranges(); }); space("crafted", 3, [] { crafted(); }); space("special", 2, [] { special(); }); space("badkey", 2, [] { badkey(); }); }
