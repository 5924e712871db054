// C18: BIP32 derivation. All paths up to a depth over an index set with every boundary (0, 1, 2^31-1, hardened ones,
// purposes and coin types), from several roots, stepping with every API (child, hardenedChild, derive on arrays) and
// switching to public derivation at every level; every seed length; boundary secrets, points and chain codes; the depth
// limit. Oracle: independent HMAC-SHA512 / curve model of BIP32 plus the purpose -> script type, coin -> network rules.
#include "lib.h"
using ref::U; using ref::Pt; using ref::HD;
static const uint32_t Hn = 0x80000000u;
struct Node { HD h; const Network *net; ScriptType ty; };
static Node step_model(const Node &p, uint32_t i) { Node c{ref::hd_child(p.h, i), p.net, p.ty}; if (i & Hn) { uint32_t k = i - Hn; if (p.h.depth == 0) { if (k == 44) c.ty = P2PKH; if (k == 49) c.ty = P2SH_P2WPKH; if (k == 84) c.ty = P2WPKH; if (k == 48) c.ty = MULTISIG; if (k == 45) c.ty = P2SH; } if (p.h.depth == 1) { if (k == 0) c.net = &Mainnet; if (k == 1 && p.net == &Mainnet) c.net = &Testnet; } if (p.h.depth == 3 && p.ty == MULTISIG) { if (k == 1) c.ty = P2SH_P2WSH; if (k == 2) c.ty = P2WSH; } } return c; }
// memoised: executions share path prefixes
static const Node &kid(const Node &p, uint32_t i) { static std::map<std::string, Node> m; std::string k = S2(ref::toB(p.h.k)) + S2(p.h.cc) + S2(p.h.pfp) + S2(ref::be(p.h.num, 4)) + fmt("%d %p %d %u", p.h.depth, (void *)p.net, p.ty, i); auto it = m.find(k); if (it == m.end()) { if (m.size() > 200000) m.clear(); it = m.emplace(k, step_model(p, i)).first; } return it->second; }
static bytes fp(const Pt &p) { return sub(ref::hash160(ref::sec(p)), 0, 4); }
static void same(const HDPrivateKey &k, const Node &n, const std::string &ctx) { ok(k.isValid(), "derived-key-invalid", ctx); eq(secretof(k), ref::toB(n.h.k), "secret", ctx); eq(pointof(k.publicKey()), pt64(n.h.K), "public-key", ctx); ok(k.publicKey().compressed, "compressed", ctx); eq(bytes(k.chainCode, k.chainCode + 32), n.h.cc, "chain-code", ctx); eqn(k.depth, n.h.depth, "depth", ctx); eq(bytes(k.parentFingerprint, k.parentFingerprint + 4), n.h.pfp, "parent-fingerprint", ctx); eqn(k.childNumber, n.h.num, "child-number", ctx); ok(k.network == n.net, "network", ctx + " got " + netname(k.network)); eqn(k.type, n.ty, "script-type", ctx); uint8_t f[4]; k.fingerprint(f); eq(bytes(f, f + 4), fp(n.h.K), "fingerprint", ctx); eq(k.fingerprint(), ref::hex(fp(n.h.K)), "fingerprint-text", ctx); step(); }
static void same(const HDPublicKey &k, const Node &n, const std::string &ctx) { ok(k.isValid(), "derived-public-key-invalid", ctx); eq(pointof(k), pt64(n.h.K), "public-point", ctx); ok(k.compressed, "public-compressed", ctx); eq(bytes(k.chainCode, k.chainCode + 32), n.h.cc, "public-chain-code", ctx); eqn(k.depth, n.h.depth, "public-depth", ctx); eq(bytes(k.parentFingerprint, k.parentFingerprint + 4), n.h.pfp, "public-parent-fingerprint", ctx); eqn(k.childNumber, n.h.num, "public-child-number", ctx); ok(k.network == n.net, "public-network", ctx); eqn(k.type, n.ty, "public-script-type", ctx); uint8_t f[4]; k.fingerprint(f); eq(bytes(f, f + 4), fp(n.h.K), "public-fingerprint", ctx); eq(k.fingerprint(), ref::hex(fp(n.h.K)), "public-fingerprint-text", ctx); step(); }
static void dead(const HDPrivateKey &k, const std::string &ctx) { ok(!k.isValid() && !bool(k), "should-be-invalid", ctx); eq(secretof(k), bytes(32, 0), "invalid-key-has-secret", ctx); ok(!k.publicKey().isValid(), "invalid-key-has-public-key", ctx); step(); }
static void dead(const HDPublicKey &k, const std::string &ctx) { ok(!k.isValid() && !bool(k), "public-should-be-invalid", ctx); step(); }
static HDPrivateKey child(const HDPrivateKey &k, uint32_t i, int api) { if (i >= Hn) switch (api) { case 0: return k.child(i); case 1: return k.hardenedChild(i - Hn); case 2: return k.child(i - Hn, true); default: return k.hardenedChild(i); } if (api < 2) return k.child(i); uint32_t a[1] = {i}; return k.derive(a, 1); }
static std::string show(const std::vector<uint32_t> &p) { std::string s = "m"; for (auto i : p) s += fmt(i & Hn ? "/%uh" : "/%u", i & ~Hn); return s; }
static const std::vector<uint32_t> &IX(int level) { static const std::vector<uint32_t> a = {0, 1, Hn - 1, Hn, Hn + 1, 0xffffffffu, Hn + 44, Hn + 45, Hn + 48, Hn + 49, Hn + 84, 44, 49, 84, 255, 256, 65535, 65536, Hn + 256}, b = {0, 1, Hn - 1, Hn, Hn + 1, Hn + 2, 0xffffffffu, 0x01020304, Hn + 0x01020304}, c = {0, Hn - 1, Hn, Hn + 1, Hn + 2}; return level == 0 ? a : level == 1 ? b : c; }
static bytes seed(int k) { return k == 0 ? ref::unhex("000102030405060708090a0b0c0d0e0f") : k == 1 ? repeat(64, 3) : k == 2 ? bytes(32, 0) : bytes(16, 0xff); }
static Node root(int k, const Network *n) { return Node{ref::hd_seed(seed(k)), n, UNKNOWN_TYPE}; }
static const std::vector<Node> &ROOTS() { static std::vector<Node> v; if (v.empty()) for (int k = 0; k < (thorough ? 4 : 2); k++) v.push_back(root(k, nets()[k])); return v; }
static HDPrivateKey load(const Node &n) { return HDPrivateKey(ref::toB(n.h.k).data(), n.h.cc.data(), n.h.depth, n.h.pfp.data(), n.h.num, n.net, n.ty); }
// one path, all stepping APIs, public switch at one level (or never)
static void paths(int depth, int dset) { int r = choose(ROOTS().size()); Node n = ROOTS()[r]; bytes sd = seed(r); HDPrivateKey k; eqn(k.fromSeed(sd.data(), sd.size(), n.net), 1, "fromSeed-result"); same(k, n, "root"); std::vector<uint32_t> p; int api = choose(depth > 2 ? 2 : 4); HDPrivateKey cur = k; std::vector<Node> tr{n};
  for (int d = 0; d < depth; d++) { uint32_t i = pick(IX(dset + d)); p.push_back(i); HDPrivateKey before = cur; HDPrivateKey nx = child(cur, i, api); same(cur, n, show(p) + " parent after deriving"); n = kid(n, i); same(nx, n, show(p)); tr.push_back(n); cur = nx; state(ref::fnv(ref::toB(n.h.k), n.h.depth)); }
  HDPrivateKey w = k.derive(p.data(), p.size()); same(w, n, show(p) + " derive(array)"); same(k.derive(p.data(), 0), tr[0], "empty path");
  // public derivation from every level
  for (int l = 0; l <= depth; l++) { HDPublicKey q = load(tr[l]).xpub(); same(q, tr[l], show(p) + fmt(" neutered at %d", l)); bool alive = true; HDPublicKey c = q; for (int d = l; d < depth; d++) { HDPublicKey nx = c.child(p[d]); if (alive && p[d] < Hn) { Node pn = tr[d + 1]; pn.ty = tr[l].ty; pn.net = tr[l].net; same(nx, pn, show(p) + fmt(" public from %d", l)); Node par = tr[d]; par.ty = tr[l].ty; par.net = tr[l].net; same(c, par, show(p) + " public parent after deriving"); } else { alive = false; dead(nx, show(p) + fmt(" hardened from public at %d", l)); } c = nx; } HDPublicKey v = q.derive(p.data() + l, depth - l); if (alive) { Node pn = tr[depth]; pn.ty = tr[l].ty; pn.net = tr[l].net; same(v, pn, show(p) + " public derive(array)"); } else dead(v, show(p) + " public derive(array)"); outcome(alive ? "public-path" : "public-refused"); }
  same(k, tr[0], "root after everything"); outcome("private-path"); }
// account paths to depth 5: purpose / coin / account / script / change
static void accounts() { static const std::vector<uint32_t> pu = {44, 45, 48, 49, 84, 86, 0}, co = {0, 1, 2}, sc = {0, 1, 2, 3}; bool h0 = flip(), h1 = flip(), h3 = flip(); auto &net = netspecs()[choose(4)]; std::vector<uint32_t> p = {pick(pu) + (h0 ? Hn : 0), pick(co) + (h1 ? Hn : 0), Hn + (uint32_t)choose(2), pick(sc) + (h3 ? Hn : 0), 7}; Node n = root(0, net.net); HDPrivateKey k = load(n); for (auto i : p) { n = kid(n, i); k = k.child(i); same(k, n, std::string(net.name) + " " + show(p)); } state(ref::fnv(k.xprv())); outcome("account"); }
static void seeds() { size_t len = choose(thorough ? 300 : 140); int pat = choose(4); auto &net = netspecs()[choose(4)]; bytes s = pat == 0 ? repeat(len, len) : bytes(len, pat == 1 ? 0 : pat == 2 ? 0xff : 0x36); Node n{ref::hd_seed(s), net.net, UNKNOWN_TYPE}; Exact e(s); HDPrivateKey k; k.fromSeed(e.p, e.n, net.net); same(k, n, fmt("seed of %zu bytes", len)); if (len == 64 && net.net == &Mainnet) { HDPrivateKey q; q.fromSeed(s.data(), 64); same(q, n, "default network"); } HDPrivateKey u = load(kid(root(1, &Testnet), Hn + 48)); u.fromSeed(e.p, e.n, net.net); same(u, n, "used object"); state(ref::fnv(s)); outcome("seed"); }
// boundary secrets and chain codes
static const std::vector<U> &SEC() { static std::vector<U> v; if (v.empty()) { for (uint64_t i : {1ull, 2ull, 255ull, 256ull, ~0ull}) { v.push_back(U(i)); U t; ref::subb(t, ref::N(), U(i)); v.push_back(t); } for (int b : {128, 248, 255}) { U x; x.v[b / 64] = 1ULL << (b % 64); v.push_back(x); } } return v; }
static void bounds() { Node n; n.h.k = pick(SEC()); n.h.K = ref::mulG(n.h.k); int c = choose(4); n.h.cc = c == 0 ? bytes(32, 0) : c == 1 ? bytes(32, 0xff) : c == 2 ? repeat(32, 1) : ref::cat(bytes(31, 0), {1}); static const int D[] = {0, 1, 127, 128, 253, 254}; n.h.depth = D[choose(6)]; n.h.pfp = choose(2) ? bytes{0xff, 0, 0x80, 1} : bytes(4, 0); n.h.num = Hn + 5; n.net = &Regtest; n.ty = P2WPKH; HDPrivateKey k = load(n); same(k, n, "constructed"); uint32_t i = pick(IX(2)); Node m = kid(n, i); std::string ctx = "boundary key " + ref::hex(ref::toB(n.h.k)) + fmt(" depth %d index %08x", n.h.depth, i); HDPrivateKey d = k.child(i); same(d, m, ctx); HDPublicKey P(pt64(n.h.K).data(), n.h.cc.data(), n.h.depth, n.h.pfp.data(), n.h.num, n.net, n.ty); same(P, n, "constructed public"); if (i < Hn) { Node pm = m; pm.ty = n.ty; pm.net = n.net; same(P.child(i), pm, ctx + " public"); } else dead(P.child(i), ctx + " public"); if (m.h.depth < 255) { Node g = kid(m, 1); same(d.child(1), g, ctx + "/1"); } else { dead(d.child(1), ctx + " beyond the depth limit"); dead(d.child(Hn), ctx + " beyond the depth limit"); dead(d.hardenedChild(0), ctx + " beyond the depth limit"); dead(d.xpub().child(1), ctx + " beyond the depth limit"); } state(ref::fnv(ctx)); outcome("boundary"); }
// many siblings: every index of a range through private and public derivation, leading zeros in secrets and chain codes appear here
static void siblings() { uint32_t base = choose(4) * 0x20000000u; uint32_t i = base + choose(thorough ? 4000 : 700); bool hd = flip(); static HDPrivateKey k = load(root(0, &Mainnet)); static HDPublicKey P = k.xpub(); Node n = step_model(root(0, &Mainnet), hd ? i | Hn : i); same(hd ? k.hardenedChild(i) : k.child(i), n, fmt("child %u%s", i, hd ? "h" : "")); if (!hd) same(P.child(i), n, fmt("public child %u", i)); if (!n.h.k.v[3]) outcome("short-secret"); state(ref::fnv(ref::toB(n.h.k))); outcome("sibling"); }
// keys that are not valid: constructed from bad secrets/points, failed texts, defaults
static void invalid() { int kind = choose(8); bytes cc = repeat(32, 1); HDPrivateKey k; std::string ctx = fmt("invalid key %d", kind); U big; ref::subb(big, U(0), U(1)); U n1; ref::addc(n1, ref::N(), U(1)); switch (kind) { case 1: k = HDPrivateKey("xprvnonsense"); break; case 2: k = HDPrivateKey(bytes(32, 0).data(), cc.data()); break; case 3: k = HDPrivateKey(ref::toB(ref::N()).data(), cc.data()); break; case 4: k = HDPrivateKey(ref::toB(n1).data(), cc.data()); break; case 5: k = HDPrivateKey(ref::toB(big).data(), cc.data(), 3, NULL, 4, &Testnet, P2WPKH); break; case 6: { HDPrivateKey r = load(root(0, &Mainnet)); k = HDPrivateKey(r.derive("m/x")); break; } case 7: { k = load(root(0, &Mainnet)); k.fromString("oops", 4); break; } } dead(k, ctx); int op = choose(6); static const uint32_t I[] = {0, Hn, 44 + Hn}; uint32_t i = I[choose(3)]; uint32_t a[2] = {i, 0}; if (op == 0) dead(k.child(i), ctx); if (op == 1) dead(k.hardenedChild(i), ctx); if (op == 2) dead(k.derive(a, 2), ctx); if (op == 3) dead(k.derive("m/0/1"), ctx); if (op == 4) dead(k.xpub(), ctx); if (op == 5) { dead(k.xpub().child(0), ctx); dead(k.xpub().derive(a + 1, 1), ctx); } outcome("invalid-parent"); state(kind * 100 + op); }
static void badpub() { int kind = choose(4); bytes pt = kind == 0 ? bytes(64, 0) : kind == 1 ? bytes(64, 0xff) : kind == 2 ? ref::cat(ref::toB(U(1)), ref::toB(U(1))) : repeat(64, 5); HDPublicKey P(pt.data(), repeat(32, 1).data(), 1, NULL, 0, &Mainnet, P2WPKH); std::string ctx = fmt("point %d", kind); dead(P, ctx); uint32_t i = choose(2) * (Hn - 1); dead(P.child(i), ctx); uint32_t a[1] = {i}; dead(P.derive(a, 1), ctx); dead(P.derive("m/0"), ctx); outcome("invalid-point"); }
// histories: one variable is overwritten again and again
static void history() { Node n = root(0, &Mainnet); HDPrivateKey k = load(n); HDPublicKey P = k.xpub(); Node pn = n; bool kv = true, pv = true; std::string tr; for (int d = 0; d < 4; d++) { int op = choose(6); tr += fmt(" %d", op); switch (op) { case 0: k = k.child(7); if (kv) n = kid(n, 7); break; case 1: k = k.hardenedChild(48); if (kv) n = kid(n, Hn + 48); break; case 2: P = P.child(3); if (pv) { Node t = kid(pn, 3); t.ty = pn.ty; t.net = pn.net; pn = t; } break; case 3: P = k.xpub(); pn = n; pv = kv; break; case 4: P = P.child(Hn); pv = false; break; case 5: k = k; P = P; break; } if (kv) same(k, n, tr); else dead(k, tr); if (pv) same(P, pn, tr); else dead(P, tr); } state(ref::fnv(tr)); outcome("history"); }
// script type and network after one step, from every level, script type and network
static void levels() { static const int D[] = {0, 1, 2, 3, 4, 5, 6, 7, 127, 128, 254}; static const std::vector<ScriptType> TY = {UNKNOWN_TYPE, P2PKH, P2SH, P2WPKH, P2WSH, P2SH_P2WPKH, P2SH_P2WSH, MULTISIG}; static const uint32_t IXS[] = {0, 1, 2, 3, 44, 45, 48, 49, 84, 86}; Node n = root(0, netspecs()[choose(4)].net); n.h.depth = D[choose(11)]; n.ty = pick(TY); n.h.pfp = bytes{1, 2, 3, 4}; n.h.num = Hn + 2; uint32_t i = IXS[choose(10)] + (flip() ? Hn : 0); std::string ctx = fmt("level %d type %d index %08x", n.h.depth, n.ty, i); HDPrivateKey k = load(n); same(k.child(i), kid(n, i), ctx); if (i >= Hn) same(k.hardenedChild(i - Hn), kid(n, i), ctx); if (i < Hn) { HDPublicKey P = k.xpub(); P.compressed = false; uint8_t f[4]; P.fingerprint(f); eq(bytes(f, f + 4), sub(ref::hash160(ref::sec(n.h.K)), 0, 4), "fingerprint-uncompressed", ctx); HDPublicKey c = P.child(i); c.compressed = true; same(c, kid(n, i), ctx + " from a key with the compressed flag off"); } state(ref::fnv(ctx + netname(n.net))); outcome("level"); }
// nothing computed for one key may show up in another that shares all but one of its components
static Node vary(int v) { Node n = root(0, &Mainnet); n.h.depth = 2; n.h.pfp = bytes{1, 2, 3, 4}; n.h.num = 9; n.ty = P2WPKH; if (v == 1 || v == 8) { n.h.k = U(77); n.h.K = ref::mulG(U(77)); } if (v == 2 || v == 8) n.h.cc = repeat(32, 9); if (v == 3) n.h.depth = 5; if (v == 4) n.net = &Testnet; if (v == 5) n.ty = P2PKH; if (v == 6) n.h.pfp = bytes{1, 2, 3, 5}; if (v == 7) n.h.num = 10; if (v == 9) { n.h.k = ref::negm(n.h.k, ref::N()); n.h.K = ref::neg(n.h.K); } return n; }
static void act(const Node &n, int op, const std::string &ctx) { HDPrivateKey k = load(n); auto pubnode = [&](Node t) { t.ty = n.ty; t.net = n.net; return t; }; uint32_t a[2] = {1, 2}; if (op >= 6) { HDPublicKey P = k.xpub(); same(P, n, ctx); switch (op) { case 6: { uint8_t f[4]; P.fingerprint(f); eq(bytes(f, f + 4), fp(n.h.K), "public-fingerprint", ctx); break; } case 7: same(P.child(5), pubnode(kid(n, 5)), ctx); break; case 8: same(P.child(6), pubnode(kid(n, 6)), ctx); break; case 9: same(P.derive(a, 2), pubnode(kid(kid(n, 1), 2)), ctx); break; } return; } switch (op) { case 0: { uint8_t f[4]; k.fingerprint(f); eq(bytes(f, f + 4), fp(n.h.K), "fingerprint", ctx); break; } case 1: same(k.child(5), kid(n, 5), ctx); break; case 2: same(k.hardenedChild(5), kid(n, Hn + 5), ctx); break; case 3: same(k.child(6), kid(n, 6), ctx); break; case 4: same(k.derive(a, 2), kid(kid(n, 1), 2), ctx); break; case 5: same(k.derive("m/5h/2"), kid(kid(n, Hn + 5), 2), ctx); break; } }
static void neighbours() { int a = choose(10), b = choose(10), oa = choose(10), ob = choose(10); if (!thorough && a && b && a != b) { outcome("n/a"); return; } std::string ctx = fmt("key %d op %d, key %d op %d", a, oa, b, ob); act(vary(a), oa, ctx); act(vary(b), ob, ctx + " second"); act(vary(a), oa, ctx + " again"); step(3); state(ref::fnv(ctx)); outcome("neighbours"); }
void define_spaces() { space("neighbours", 3, [] { neighbours(); }); space("levels", 3, [] { levels(); }); ROOTS(); SEC(); space("paths-1", 2, [] { paths(1, 0); }); space("paths-2", 3, [] { paths(2, 0); }); space("paths-3", 4, [] { paths(3, thorough ? 0 : 1); }); if (thorough) space("paths-4", 4, [] { paths(4, 1); }); space("accounts", 5, [] { accounts(); }); space("seeds", 1, [] { seeds(); }); space("bounds", 2, [] { bounds(); }); space("siblings", 2, [] { siblings(); }); space("invalid", 1, [] { invalid(); }); space("invalid-point", 1, [] { badpub(); }); space("history", 2, [] { history(); }); }
