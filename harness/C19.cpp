// C19: extended keys in text and binary form. All networks x script types x keys x boundary depths, fingerprints, child
// numbers and chain codes are written through every API and read back through every API (constructor, text, raw bytes,
// hex) into fresh and used objects, with the binary form delivered in every two-piece split; every payload length, every
// byte of every field and every defect of the key bytes is read. Oracle: independent BIP32/SLIP-132 encoder and decoder.
#include "lib.h"
using ref::U; using ref::Pt; using ref::HD;
static const uint32_t Hn = 0x80000000u;
static const ScriptType TY[] = {UNKNOWN_TYPE, DIRECT_SCRIPT, P2PKH, P2SH, P2WPKH, P2WSH, P2SH_P2WPKH, P2SH_P2WSH, MULTISIG};
static int slot(ScriptType t) { return t == P2SH_P2WPKH ? 1 : t == P2WPKH ? 2 : t == P2SH_P2WSH ? 3 : t == P2WSH ? 4 : 0; }
static const ScriptType BACK[] = {UNKNOWN_TYPE, P2SH_P2WPKH, P2WPKH, P2SH_P2WSH, P2WSH};
static uint32_t be32(const uint8_t *b) { return (uint32_t)b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3]; }
struct Node { HD h; const Network *net; ScriptType ty; };
// what a 78-byte string stands for
static bool decode(const bytes &p, bool priv, Node &o) { if (p.size() != 78) return false; bool f = false; for (auto &n : netspecs()) for (int i = 0; i < 5; i++) if (!f && be32(p.data()) == (priv ? n.prv[i] : n.pub[i])) { f = true; o.net = n.net; o.ty = BACK[i]; } if (!f) return false; o.h.depth = p[4]; o.h.pfp = sub(p, 5, 4); o.h.num = be32(&p[9]); o.h.cc = sub(p, 13, 32); if (priv) { if (p[45]) return false; o.h.k = ref::fromB(sub(p, 46, 32)); if (o.h.k.zero() || !(o.h.k < ref::N())) return false; o.h.K = ref::mulG(o.h.k); return true; } return ref::parse_sec(sub(p, 45, 33), o.h.K); }
static void fields(const uint8_t *cc, uint8_t d, const uint8_t *fp, uint32_t num, const Network *net, ScriptType ty, const Node &n, const std::string &ctx) { eq(bytes(cc, cc + 32), n.h.cc, "chain-code", ctx); eqn(d, n.h.depth, "depth", ctx); eq(bytes(fp, fp + 4), n.h.pfp, "fingerprint", ctx); eqn(num, n.h.num, "child-number", ctx); ok(net == n.net, "network", ctx + " got " + netname(net)); eqn(ty, n.ty, "type", ctx); step(); }
static void same(const HDPrivateKey &k, const Node &n, const std::string &ctx) { ok(k.isValid(), "valid-key-rejected", ctx); eq(secretof(k), ref::toB(n.h.k), "secret", ctx); eq(pointof(k.publicKey()), pt64(n.h.K), "public-key", ctx); ok(k.publicKey().compressed, "compressed", ctx); fields(k.chainCode, k.depth, k.parentFingerprint, k.childNumber, k.network, k.type, n, ctx); }
static void same(const HDPublicKey &k, const Node &n, const std::string &ctx) { ok(k.isValid(), "valid-key-rejected", ctx); eq(pointof(k), pt64(n.h.K), "point", ctx); ok(k.compressed, "compressed", ctx); fields(k.chainCode, k.depth, k.parentFingerprint, k.childNumber, k.network, k.type, n, ctx); }
template <class K> static void judge(K &k, const bytes &p, bool priv, const std::string &ctx) { Node w; if (decode(p, priv, w)) { same(k, w, ctx); ok(k.getStatus() == PARSING_DONE, "status", ctx); } else { ok(!k.isValid() && !bool(k), "invalid-encoding-accepted", ctx); } }
template <class K> static K used() { static HD h = ref::hd_child(ref::hd_seed(repeat(20, 8)), Hn + 49); bytes b = ref::hd_bytes(h, ref::be(std::is_same<K, HDPrivateKey>::value ? 0x045f18bc : 0x045f1cf6, 4), std::is_same<K, HDPrivateKey>::value); K k; k.parse(b.data(), 78); return k; }
// every way to read a payload in text form (its Base58Check encoding) or binary form
template <class K> static void readall(const bytes &p, bool priv, const std::string &ctx) { std::string t = ref::b58c(p), c = ctx + " payload " + ref::hex(p); Node w; bool g = decode(p, priv, w); { Exact e(t + std::string(1, 0)); K k(e.c()); judge(k, p, priv, c + " constructor"); } { Exact e(t); K k; size_t r = k.fromString(e.c(), e.n); judge(k, p, priv, c + " text"); ok((r != 0) == g, "text-result", c); } { K k = used<K>(); k.fromString(t.c_str(), t.size()); judge(k, p, priv, c + " text into used key"); if (g) { K q; q = k; judge(q, p, priv, c + " assigned"); K z(k); judge(z, p, priv, c + " copied"); } }
  if (p.size() == 78) { { Exact e(p); K k; size_t r = k.parse(e.p, e.n); judge(k, p, priv, c + " bytes"); if (g) eqn(r, 78, "bytes-read", c); else ok(k.getStatus() == PARSING_FAILED, "status-of-invalid", c); } { K k = used<K>(); k.parse(p.data(), 78); if (g) judge(k, p, priv, c + " bytes into used key"); else ok(k.getStatus() == PARSING_FAILED, "status-of-invalid", c + " bytes into used key"); } { K k; k.parse(ref::hex(p)); judge(k, p, priv, c + " hex"); } }
  state(ref::fnv(p)); outcome(g ? "read-valid" : "read-rejected"); }
static const std::vector<U> &KS() { static std::vector<U> v; if (v.empty()) { for (uint64_t i : {1ull, 2ull, 3ull, 6ull, 256ull}) v.push_back(U(i)); U t; ref::subb(t, ref::N(), U(1)); v.push_back(t); ref::subb(t, ref::N(), U(2)); v.push_back(t); for (int i = 0; i < (thorough ? 12 : 3); i++) v.push_back(ref::modm(ref::fromB(ref::sha256(repeat(5, i))), ref::N())); // a point whose x starts with a zero byte
  for (uint64_t i = 4; v.size() < (thorough ? 24u : 11u); i++) if (ref::toB(ref::mulG(U(i)).x)[0] == 0) v.push_back(U(i)); } return v; }
static Node mk(bool small) { Node n; n.h.k = pick(KS()); n.h.K = ref::mulG(n.h.k); static const int D[] = {0, 1, 2, 127, 128, 254, 255}; n.h.depth = D[choose(small ? 3 : 7)]; static const std::vector<uint32_t> I = {0, 1, Hn - 1, Hn, Hn + 84, 0xffffffffu, 0x01020304, 255, 256, 0xff00, 0xff000000u}; n.h.num = small ? I[choose(6)] : pick(I); int f = choose(3); n.h.pfp = f == 0 ? bytes(4, 0) : f == 1 ? bytes{1, 2, 3, 4} : bytes{0xff, 0xfe, 0, 0x80}; int c = small ? (f + n.h.num) % 3 : choose(3); n.h.cc = c == 0 ? bytes(32, 0) : c == 1 ? bytes(32, 0xff) : repeat(32, 7); return n; }
static void writes(bool small) { auto &ns = netspecs()[choose(4)]; ScriptType ty = TY[choose(9)]; Node n = mk(small); n.net = ns.net; n.ty = ty; bytes prv = ref::hd_bytes(n.h, ref::be(ns.prv[slot(ty)], 4), true), pub = ref::hd_bytes(n.h, ref::be(ns.pub[slot(ty)], 4), false); std::string tp = ref::b58c(prv), tq = ref::b58c(pub), ctx = fmt("%s type %d depth %d child %08x", ns.name, ty, n.h.depth, n.h.num);
  HDPrivateKey k(ref::toB(n.h.k).data(), n.h.cc.data(), n.h.depth, n.h.pfp.data(), n.h.num, ns.net, ty); same(k, n, ctx + " constructed"); eq(k.xprv(), tp, "xprv", ctx); eq(k.toString(), tp, "private-text", ctx); eq(std::string(k), tp, "private-string-cast", ctx); char b[130]; memset(b, 'x', sizeof b); eqn(k.xprv(b, sizeof b), tp.size(), "xprv-length", ctx); eq(std::string(b), tp, "xprv-buffer", ctx); eq(ser(k), prv, "private-bytes", ctx); eq(k.serialize(), ref::hex(prv), "private-hex", ctx); eqn(k.length(), 78, "length"); memset(b, 'x', sizeof b); eqn(k.xpub(b, sizeof b), tq.size(), "xpub-of-private-length", ctx); eq(std::string(b), tq, "xpub-of-private", ctx);
  HDPublicKey q = k.xpub(); same(q, n, ctx + " neutered"); HDPublicKey r(pt64(n.h.K).data(), n.h.cc.data(), n.h.depth, n.h.pfp.data(), n.h.num, ns.net, ty); same(r, n, ctx + " constructed public"); for (HDPublicKey *x : {&q, &r}) { eq(x->xpub(), tq, "xpub", ctx); eq(x->toString(), tq, "public-text", ctx); memset(b, 'x', sizeof b); eqn(x->xpub(b, sizeof b), tq.size(), "xpub-length", ctx); eq(std::string(b), tq, "xpub-buffer", ctx); eq(ser(*x), pub, "public-bytes", ctx); eq(x->serialize(), ref::hex(pub), "public-hex", ctx); } readall<HDPrivateKey>(prv, true, ctx); readall<HDPublicKey>(pub, false, ctx); step(8); outcome("written"); }
// every two-piece and three-piece delivery of the binary form, and one byte at a time
static void splits() { bool priv = flip(); HD h = ref::hd_child(ref::hd_seed(repeat(16, 4)), Hn + 3); auto &ns = netspecs()[choose(2)]; bytes p = ref::hd_bytes(h, ref::be(priv ? ns.prv[2] : ns.pub[3], 4), priv); int def = choose(3); if (def == 1) p[45] = 0x09; if (def == 2) p[2] ^= 0x40; size_t a = choose(79), b = a + choose(79 - a); bool hexf = flip(), use = flip(); std::string ctx = fmt("split %zu %zu defect %d", a, b, def); auto run = [&](auto k) { auto feed = [&](size_t f, size_t n) { bytes c = sub(p, f, n); if (hexf) { std::string t = ref::hex(c); Exact e(t); k.parse(e.c(), e.n); } else { Exact e(c); k.parse(e.p, e.n); } step(); }; feed(0, a); if (a < 78 && a > 0) ok(k.getStatus() != PARSING_DONE, "done-before-the-end", ctx); feed(a, b - a); if (b < 78 && b > 0) ok(k.getStatus() != PARSING_DONE, "done-before-the-end", ctx); feed(b, 78 - b); if (b == 78 && a == 78) return; if (def && k.getStatus() == PARSING_FAILED) { ok(!k.isValid() || k.getStatus() == PARSING_FAILED, "x"); outcome("split-rejected"); return; } if (b < 78) { Node w; if (decode(p, priv, w)) { same(k, w, ctx); ok(k.getStatus() == PARSING_DONE, "status", ctx); outcome("split-read"); } else fail("invalid-encoding-accepted", ctx); } }; if (priv) run(use ? used<HDPrivateKey>() : HDPrivateKey()); else run(use ? used<HDPublicKey>() : HDPublicKey()); state(ref::fnv(ctx)); }
static void pieces() { bool priv = flip(); size_t c = 1 + choose(77); HD h = ref::hd_child(ref::hd_seed(repeat(16, 4)), 5); auto &ns = netspecs()[choose(2)]; bytes p = ref::hd_bytes(h, ref::be(priv ? ns.prv[1] : ns.pub[4], 4), priv); auto run = [&](auto k) { for (size_t i = 0; i < 78; i += c) { Exact e(sub(p, i, c)); eqn(k.parse(e.p, e.n), e.n, "bytes-read"); step(); } judge(k, p, priv, fmt("pieces of %zu", c)); }; if (priv) run(HDPrivateKey()); else run(HDPublicKey()); outcome("pieces"); // partial serialization
  HDPrivateKey k(ref::b58c(ref::hd_bytes(h, ref::be(ns.prv[1], 4), true)).c_str()); HDPublicKey q = k.xpub(); bytes all = priv ? ser(k) : ser(q), out; for (size_t i = 0; i < 78; i += c) { Exact e(c); size_t n = priv ? k.serialize(e.p, e.n, i) : q.serialize(e.p, e.n, i); eqn(n, std::min(c, 78 - i), "written", fmt("offset %zu", i)); bytes x = e.b(); x.resize(n); ref::app(out, x); } eq(out, all, "serialized-in-pieces", fmt("pieces of %zu", c)); }
static void anybyte() { bool priv = flip(); auto &ns = netspecs()[choose(2)]; HD h = ref::hd_child(ref::hd_seed(repeat(16, 4)), Hn + 1); int t = choose(thorough ? 5 : 2); bytes p = ref::hd_bytes(h, ref::be(priv ? ns.prv[t] : ns.pub[t], 4), priv); size_t pos = choose(78); static const uint8_t V[] = {0, 1, 2, 3, 4, 5, 0x7f, 0x80, 0xfe, 0xff}; p[pos] = thorough || pos < 4 || pos == 45 ? choose(256) : V[choose(10)]; if (priv) readall<HDPrivateKey>(p, true, fmt("byte %zu", pos)); else readall<HDPublicKey>(p, false, fmt("byte %zu", pos)); }
static void lengths() { bool priv = flip(); size_t n = choose(100); auto &ns = netspecs()[choose(2)]; HD h = ref::hd_child(ref::hd_seed(repeat(16, 4)), Hn + 1); bytes p = ref::hd_bytes(h, ref::be(priv ? ns.prv[0] : ns.pub[0], 4), priv); p.resize(n, 0x33); if (priv) readall<HDPrivateKey>(p, true, "length"); else readall<HDPublicKey>(p, false, "length"); // truncated binary forms are never reported as read
  if (n < 78) { auto run = [&](auto k) { Exact e(p); k.parse(e.p, e.n); if (n) ok(k.getStatus() != PARSING_DONE, "truncated-binary-accepted", fmt("%zu bytes", n)); step(); }; if (priv) { run(HDPrivateKey()); run(used<HDPrivateKey>()); } else { run(HDPublicKey()); run(used<HDPublicKey>()); } } }
static void secrets() { bool priv = flip(); auto &ns = netspecs()[choose(2)]; HD h = ref::hd_seed(repeat(16, 4)); bytes p = ref::hd_bytes(h, ref::be(priv ? ns.prv[0] : ns.pub[0], 4), priv); static const std::vector<std::string> E = {"0000000000000000000000000000000000000000000000000000000000000000", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"}; bytes b; if (flip()) { U x = ref::fromH(pick(E)), r; int d = choose(7); if (d < 3) ref::subb(r, x, U(d)); else ref::addc(r, x, U(d - 3)); b = ref::toB(r); } else b = ref::toB(U(choose(thorough ? 2000 : 200))); std::copy(b.begin(), b.end(), p.begin() + 46); if (!priv) p[45] = 2 + choose(2); if (priv) readall<HDPrivateKey>(p, true, "secret"); else readall<HDPublicKey>(p, false, "x coordinate"); }
// the wrong kind of key, and empty keys written out
static void kinds() { auto &ns = netspecs()[choose(4)]; int t = choose(5); HD h = ref::hd_seed(repeat(16, 4)); bytes a = ref::hd_bytes(h, ref::be(ns.prv[t], 4), true), b = ref::hd_bytes(h, ref::be(ns.pub[t], 4), false); readall<HDPrivateKey>(b, true, "public given as private"); readall<HDPublicKey>(a, false, "private given as public"); bytes c = ref::hd_bytes(h, ref::be(ns.prv[t], 4), false), d = ref::hd_bytes(h, ref::be(ns.pub[t], 4), true); readall<HDPrivateKey>(c, true, "public body"); readall<HDPublicKey>(d, false, "private body"); }
static void history() { std::string tr; HDPrivateKey k; HDPublicKey q; HD h1 = ref::hd_seed(repeat(16, 4)), h2 = ref::hd_child(h1, Hn + 1); std::vector<bytes> A = {ref::hd_bytes(h1, ref::be(0x0488ade4, 4), true), ref::hd_bytes(h2, ref::be(0x045f18bc, 4), true), ref::hd_bytes(h1, ref::be(0x0488ade5, 4), true), bytes(78, 0)}, B = {ref::hd_bytes(h1, ref::be(0x0488b21e, 4), false), ref::hd_bytes(h2, ref::be(0x045f1cf6, 4), false), ref::hd_bytes(h1, ref::be(0x0488b21f, 4), false), bytes(78, 0)}; for (int d = 0; d < 3; d++) { int c = choose(4), m = choose(3); tr += fmt(" %d.%d", c, m); if (m == 0) { k.fromString(ref::b58c(A[c]).c_str()); q.fromString(ref::b58c(B[c]).c_str()); } else { if (m == 2) { k.reset(); q.reset(); } else if (k.getStatus() == PARSING_FAILED) { k.setStatus(PARSING_DONE); q.setStatus(PARSING_DONE); } k.parse(A[c].data(), 78); q.parse(B[c].data(), 78); } if (c < 2) { judge(k, A[c], true, tr); judge(q, B[c], false, tr); } else { ok(k.getStatus() == PARSING_FAILED, "failed-status", tr); ok(q.getStatus() == PARSING_FAILED, "failed-status", tr); } } state(ref::fnv(tr)); outcome("history"); }
void define_spaces() { KS(); space("writes", 3, [] { writes(!thorough); }); space("splits", 3, [] { splits(); }); space("pieces", 2, [] { pieces(); }); space("any-byte", 3, [] { anybyte(); }); space("lengths", 2, [] { lengths(); }); space("secrets", 3, [] { secrets(); }); space("kinds", 1, [] { kinds(); }); space("history", 2, [] { history(); }); }
