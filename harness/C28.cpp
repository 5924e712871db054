// C28: WIF and key agreement. All networks x compression x boundary secrets are written and read back through every entry
// point; every payload length, version byte, flag byte and out-of-range secret with a right checksum is read into a fresh
// and into a used key; all pairs of a key set agree on the secret computed with independent arithmetic.
#include "lib.h"
using ref::U; using ref::Pt; using ref::N;
static U minus(const U &a, uint64_t d) { U r; ref::subb(r, a, U(d)); return r; }
static U plus(const U &a, uint64_t d) { U r; ref::addc(r, a, U(d)); return r; }
static const std::vector<U> &KEYS() { static std::vector<U> v; if (v.empty()) { for (uint64_t i : {1, 2, 3, 255, 256}) { v.push_back(U(i)); v.push_back(minus(N(), i)); } for (int b = 8; b < 256; b += 8) { U x; x.v[b / 64] = 1ULL << (b % 64); v.push_back(x); v.push_back(ref::modm(minus(x, 1), N())); } for (int i = 0; i < (thorough ? 200 : 12); i++) v.push_back(ref::modm(ref::fromB(ref::sha256(repeat(3, i))), N())); } return v; }
static std::string wif(const U &d, uint8_t ver, bool comp) { bytes p = ref::cat({ver}, ref::toB(d)); if (comp) p.push_back(1); return ref::b58c(p); }
static const Network *firstnet(uint8_t v) { for (auto &n : netspecs()) if (n.wif == v) return n.net; return nullptr; }
static void same(PrivateKey &k, const U &d, bool comp, const Network *net, const std::string &ctx) { ok(k.isValid(), "valid-key-rejected", ctx); eq(secretof(k), ref::toB(d), "secret", ctx); PublicKey p = k.publicKey(); eq(pointof(p), pt64(ref::mulG(d)), "public-key", ctx); eqn(p.compressed, comp, "compression", ctx); ok(k.network == net, "network", ctx + " got " + netname(k.network)); step(); }
static void dead(PrivateKey &k, const std::string &ctx) { ok(!k.isValid() && !bool(k), "invalid-text-accepted", ctx); eq(secretof(k), bytes(32, 0), "secret-left", ctx); ok(!k.publicKey().isValid(), "public-key-left", ctx); ok(netname(k.network)[0] != '?', "network-garbage", ctx); step(); }
static void good() { const U &d = pick(KEYS()); auto &ns = netspecs()[choose(4)]; bool comp = flip(); std::string ctx = "key " + ref::hex(ref::toB(d)) + " " + ns.name + (comp ? " compressed" : " uncompressed"), w = wif(d, ns.wif, comp); PrivateKey k(ref::toB(d).data(), comp, ns.net); same(k, d, comp, ns.net, ctx); eq(k.wif(), w, "wif", ctx); eq(k.toString(), w, "text", ctx); char b[64]; eqn(k.wif(b, sizeof b), w.size(), "wif-length", ctx); eq(std::string(b), w, "wif", ctx);
  const Network *fn = firstnet(ns.wif); { PrivateKey q(w); same(q, d, comp, fn, ctx + " constructor"); eq(q.wif(), w, "wif-again", ctx); } { PrivateKey q; Exact e(w); eqn(q.fromWIF(e.c(), e.n), 1, "fromWIF-result", ctx); same(q, d, comp, fn, ctx + " fromWIF"); } { PrivateKey q; ok(q.fromWIF(w.c_str()) != 0, "fromWIF-result", ctx); same(q, d, comp, fn, ctx + " fromWIF"); } { PrivateKey q; q.fromString(w.c_str()); same(q, d, comp, fn, ctx + " fromString"); }
  { PrivateKey q(ref::toB(U(77)).data(), !comp, &Mainnet); q.fromWIF(w.c_str()); same(q, d, comp, fn, ctx + " into used key"); PrivateKey c = q; same(c, d, comp, fn, ctx + " copy"); } { PrivateKey q; q.setSecret(ref::toB(d).data()); eq(secretof(q), ref::toB(d), "setSecret", ctx); eq(pointof(q.publicKey()), pt64(ref::mulG(d)), "setSecret-public-key", ctx); PrivateKey s = ECScalar(q); eq(secretof(s), ref::toB(d), "from-scalar", ctx); eq(pointof(s.publicKey()), pt64(ref::mulG(d)), "from-scalar-public-key", ctx); PrivateKey p; bytes raw = ref::toB(d); p.parse(raw.data(), 32); eq(secretof(p), raw, "parse", ctx); eq(pointof(p.publicKey()), pt64(ref::mulG(d)), "parse-public-key", ctx); eq(ser(p), raw, "serialize", ctx); }
  state(ref::fnv(w)); outcome("wif-ok"); }
// payload = version, secret, tail: all defects with a right checksum, read into a fresh or a used key
static void payload(const bytes &p, const std::string &how) { std::string t = ref::b58c(p); bool g = false, comp = false; U d; const Network *n = nullptr; if ((p.size() == 33 || (p.size() == 34 && p[33] == 1)) && (n = firstnet(p[0]))) { d = ref::fromB(sub(p, 1, 32)); g = !d.zero() && d < N(); comp = p.size() == 34; } std::string ctx = how + " payload " + ref::hex(p); int ent = choose(4);
  if (ent == 0) { PrivateKey q; Exact e(t); int r = q.fromWIF(e.c(), e.n); ok((r != 0) == g, "fromWIF-result", ctx); if (g) same(q, d, comp, n, ctx); else dead(q, ctx); } else if (ent == 1) { PrivateKey q(t); if (g) same(q, d, comp, n, ctx); else dead(q, ctx); } else { PrivateKey q(ref::toB(U(77)).data(), ent == 2, &Testnet); q.fromWIF(t.c_str()); if (g) same(q, d, comp, n, ctx); else dead(q, ctx + " into used key"); } state(ref::fnv(t, ent)); outcome(g ? "payload-accepted" : "payload-rejected"); }
static void versions() { int v = choose(256); bool c = flip(); bytes p = ref::cat({(uint8_t)v}, ref::toB(U(12345))); if (c) p.push_back(1); payload(p, "version"); }
static void flags() { bytes p = ref::cat({(uint8_t)(flip() ? 0x80 : 0xef)}, ref::toB(U(12345))); p.push_back(choose(256)); payload(p, "flag"); }
static void lengths() { size_t n = choose(60); bytes p = repeat(n, 0x21); if (n) p[0] = flip() ? 0x80 : 0xef; if (n > 33) p[33] = 1; payload(p, "length"); }
static void secrets() { static const std::vector<U> S = {U(0), U(1), minus(N(), 1), N(), plus(N(), 1), minus(ref::P(), 1), ref::P(), minus(U(0), 1), minus(U(0), 2)}; const U &d = pick(S); bytes p = ref::cat({(uint8_t)(flip() ? 0x80 : 0xef)}, ref::toB(d)); if (flip()) p.push_back(1); payload(p, "secret");
  bool g = !d.zero() && d < N(); std::string ctx = "secret " + ref::hex(ref::toB(d)); PrivateKey k(ref::toB(d).data(), true, &Regtest); if (g) same(k, d, true, &Regtest, ctx); else dead(k, ctx + " constructor"); PrivateKey q(ref::toB(U(5)).data()); q.setSecret(ref::toB(d).data()); if (g) eq(pointof(q.publicKey()), pt64(ref::mulG(d)), "setSecret-public-key", ctx); else dead(q, ctx + " setSecret"); PrivateKey r; bytes b = ref::toB(d); r.parse(b.data(), 32); ok((r.getStatus() == PARSING_DONE) == g, "parse-status", ctx); if (!g) dead(r, ctx + " parse"); }
static void texts() { static const std::vector<std::string> T = {"", "1", "5", "K", "0", "not a key", "bc1qw508d6qejxtdg4y5r3zarvary0c5xw7kv8f3t4", std::string(51, '1'), std::string(52, '5'), std::string(52, 'z'), std::string(200, 'K'), "KwDiBf89QgGbjEhKnhXJuH7LrciVrZi3qYjgd9M7rFU73sVHnoWm"}; const std::string &t = pick(T); PrivateKey q(t); dead(q, t); PrivateKey u(ref::toB(U(77)).data()); u.fromWIF(t.c_str()); dead(u, t + " into used key"); state(ref::fnv(t)); outcome("text-rejected"); }
static void history() { std::string tr; PrivateKey k; std::vector<std::string> W = {wif(U(7), 0x80, true), wif(U(8), 0xef, false), wif(U(0), 0x80, true), wif(N(), 0xef, true), "xyz", ref::b58c(ref::cat({0x81}, ref::toB(U(3))))}; for (int d = 0; d < 3; d++) { int c = choose(8); tr += fmt(" %d", c); if (c < 6) { k.fromWIF(W[c].c_str()); if (c == 0) same(k, U(7), true, &Mainnet, tr); else if (c == 1) same(k, U(8), false, &Testnet, tr); else dead(k, tr); } else if (c == 6) { PrivateKey q(ref::toB(U(9)).data(), false, &Regtest); k = q; same(k, U(9), false, &Regtest, tr); } else { PrivateKey q; k = q; dead(k, tr); } } state(ref::fnv(tr)); outcome("history"); }
static void ecdh() { const U &a = pick(KEYS()), &b = pick(KEYS()); bool h = flip(); std::string ctx = "keys " + ref::hex(ref::toB(a)) + " " + ref::hex(ref::toB(b)); Pt S = ref::mulG(ref::mulm(a, b, N())); bytes want = h ? ref::sha256(pt64(S)) : ref::toB(S.x); bool ca = flip(); PrivateKey x(ref::toB(a).data(), ca), y(ref::toB(b).data(), !ca); uint8_t o[32], q[32]; memset(o, 1, 32); memset(q, 2, 32); eqn(x.ecdh(y.publicKey(), o, h), 1, "ecdh-result", ctx); y.ecdh(x.publicKey(), q, h); eq(bytes(o, o + 32), want, "shared-secret", ctx); eq(bytes(q, q + 32), want, "shared-secret", ctx + " other side"); if (h) { x.ecdh(y.publicKey(), o); eq(bytes(o, o + 32), want, "shared-secret-default", ctx); } eq(secretof(x), ref::toB(a), "key-changed", ctx); step(2); state(ref::fnv(ref::cat(want, {(uint8_t)h}))); outcome("agreed"); }
static void ecdhbad() { int kind = choose(5); bool h = flip(); PrivateKey x(ref::toB(U(7)).data()); PublicKey p; bytes raw; if (kind == 1) p.parse(ref::cat({2}, ref::toB(U(5))).data(), 33); else if (kind == 2) p = PublicKey(ref::cat(ref::toB(U(1)), ref::toB(U(1))).data(), true); else if (kind == 3) p.parse(ref::sec(ref::G(), false).data(), 40); else if (kind == 4) { p = x.publicKey(); x = PrivateKey(); } uint8_t o[32]; memset(o, 0x5a, 32); int r = x.ecdh(p, o, h); eqn(r, 0, "agreement-with-invalid-key", fmt("kind %d", kind)); step(); outcome("refused"); }
void define_spaces() { KEYS(); space("wif", 1, [] { good(); }); space("versions", 1, [] { versions(); }); space("flags", 1, [] { flags(); }); space("lengths", 1, [] { lengths(); }); space("secrets", 1, [] { secrets(); }); space("texts", 1, [] { texts(); }); space("history", 2, [] { history(); }); space("ecdh", 2, [] { ecdh(); }); space("ecdh-invalid", 1, [] { ecdhbad(); }); }
