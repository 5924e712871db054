// C16: addresses and output scripts. Every network x script type x hash pattern (every byte value at every position) is
// converted script -> address -> script; keys through every address method of every key class; every witness version,
// program length and checksum constant; upper case and mixed case; scripts that are almost standard have no address.
// Oracle: independent Base58Check, Bech32 (BIP173) and Bech32m (BIP350) code with its own network constants.
#include "lib.h"
using ref::U; using ref::Pt;
static const uint32_t B32M = 0x2bc830a3;
enum { T_PKH, T_SH, T_WPKH, T_WSH };
static bytes scr(int t, const bytes &h) { return t == T_PKH ? ref::p2pkh(h) : t == T_SH ? ref::p2sh(h) : t == T_WPKH ? ref::p2wpkh(h) : ref::p2wsh(h); }
static std::string addr(int t, const bytes &h, const NetSpec &n) { return t == T_PKH ? ref::b58c(ref::cat({n.p2pkh}, h)) : t == T_SH ? ref::b58c(ref::cat({n.p2sh}, h)) : ref::segwit_addr(n.hrp, 0, h); }
static std::string upper(std::string s) { for (auto &c : s) c = toupper(c); return s; }
static void readaddr(const std::string &a, const bytes &want, const std::string &ctx) { Exact e(a + std::string(1, 0)); Script s(e.c()); eq(scriptbytes(s), want, want.empty() ? "invalid-address-accepted" : "script-of-address", ctx + " " + a); ok(bool(s) == !want.empty(), "script-bool", a); { std::string t = a; Script q(t); eq(scriptbytes(q), want, "script-of-address", ctx + " string " + a); } TxOut o(5000, e.c()); eq(scriptbytes(o.scriptPubkey), want, "output-of-address", ctx + " " + a); TxOut p(e.c(), 5000); eq(scriptbytes(p.scriptPubkey), want, "output-of-address", ctx + " " + a); eqn(o.amount, 5000, "output-amount", a); step(3); }
static void writeaddr(const bytes &sc, const std::string &want, const Network *net, const std::string &ctx) { Script s = mkscript(sc); eq(s.address(net), want, "address-of-script", ctx); char b[120]; memset(b, 'x', sizeof b); size_t l = s.address(b, sizeof b, net); eqn(l, want.size(), "address-length", ctx); eq(std::string(b, l), want, "address-of-script", ctx); if (l) eqn(b[l], 0, "address-terminated", ctx); TxOut o(7, s); eq(o.address(net), want, "address-of-output", ctx); if (net == &Mainnet) eq(s.address(), want, "address-default-network", ctx); step(2); }
static bytes hpat(size_t n) { int k = choose(thorough ? 5 : 3); if (k == 0) return bytes(n, choose(256)); bytes h = k == 1 ? repeat(n, 9) : bytes(n, k == 2 ? 0 : k == 3 ? 0xff : 0x80); size_t i = choose(n); if (k == 1 || thorough) h[i] = choose(256); else { static const uint8_t v[] = {1, 0x7f, 0x80, 0xff, 0x14, 0x20, 0x87, 0xac}; h[i] = v[choose(8)]; } return h; }
static void scripts() { int t = choose(4); auto &n = netspecs()[choose(4)]; bytes h = hpat(t == T_WSH ? 32 : 20), sc = scr(t, h); std::string a = addr(t, h, n), ctx = std::string(n.name) + " script " + ref::hex(sc); writeaddr(sc, a, n.net, ctx); readaddr(a, sc, ctx); Script s = mkscript(sc); static const ScriptType ty[] = {P2PKH, P2SH, P2WPKH, P2WSH}; ok(s.type() == ty[t], "type", ctx); if (t >= T_WPKH) readaddr(upper(a), sc, ctx + " upper case"); state(ref::fnv(a)); outcome(fmt("type-%d", t)); }
static std::vector<Pt> &KS() { static std::vector<Pt> v; if (v.empty()) { for (int i = 1; i <= (thorough ? 200 : 20); i++) v.push_back(ref::mulG(U(i))); v.push_back(ref::neg(v[0])); v.push_back(ref::neg(v[1])); } return v; }
static void check_buf(const std::string &want, const std::function<int(char *, size_t)> &f, const std::string &ctx) { char b[100]; memset(b, 'x', sizeof b); f(b, sizeof b); eq(std::string(b), want, "address-buffer", ctx); step(); }
static void keys() { size_t ki = choose(KS().size()); const Pt &p = KS()[ki]; auto &n = netspecs()[choose(4)]; bool comp = flip(); bytes sec = ref::sec(p, comp), h = ref::hash160(sec); std::string ctx = std::string(n.name) + " key " + ref::hex(sec); PublicKey q(pt64(p).data(), comp); const Network *N = n.net; std::string leg = addr(T_PKH, h, n), seg = addr(T_WPKH, h, n), nest = addr(T_SH, ref::hash160(ref::p2wpkh(h)), n);
  eq(q.legacyAddress(N), leg, "legacy-address", ctx); eq(q.address(N), leg, "key-address", ctx); check_buf(leg, [&](char *b, size_t l) { return q.legacyAddress(b, l, N); }, ctx); check_buf(leg, [&](char *b, size_t l) { return q.address(b, l, N); }, ctx); Script s1(q, P2PKH); eq(scriptbytes(s1), ref::p2pkh(h), "key-script", ctx); eq(s1.address(N), leg, "script-address", ctx); eq(scriptbytes(q.script()), ref::p2pkh(h), "key-script", ctx); if (N == &Mainnet) { eq(q.legacyAddress(), leg, "default-network", ctx); eq(q.address(), leg, "default-network", ctx); }
  if (comp) { eq(q.segwitAddress(N), seg, "segwit-address", ctx); eq(q.nestedSegwitAddress(N), nest, "nested-address", ctx); check_buf(seg, [&](char *b, size_t l) { return q.segwitAddress(b, l, N); }, ctx); check_buf(nest, [&](char *b, size_t l) { return q.nestedSegwitAddress(b, l, N); }, ctx); if (N == &Mainnet) { eq(q.segwitAddress(), seg, "default-network", ctx); eq(q.nestedSegwitAddress(), nest, "default-network", ctx); } Script s2(q, P2WPKH); eq(scriptbytes(s2), ref::p2wpkh(h), "key-script", ctx); eq(s2.address(N), seg, "script-address", ctx); eq(sh(wpkh(q)).address(N), nest, "script-address", ctx); readaddr(seg, ref::p2wpkh(h), ctx); readaddr(nest, ref::p2sh(ref::hash160(ref::p2wpkh(h))), ctx); }
  readaddr(leg, ref::p2pkh(h), ctx); if (ki < 20) { // private keys and extended keys of the same point
    U d(ki + 1); PrivateKey k(ref::toB(d).data(), comp, N); eq(k.address(), leg, "private-key-address", ctx); eq(k.legacyAddress(), leg, "private-key-address", ctx); check_buf(leg, [&](char *b, size_t l) { return k.legacyAddress(b, l); }, ctx); check_buf(leg, [&](char *b, size_t l) { return k.address(b, l); }, ctx); if (comp) { eq(k.segwitAddress(), seg, "private-key-address", ctx); eq(k.nestedSegwitAddress(), nest, "private-key-address", ctx); check_buf(seg, [&](char *b, size_t l) { return k.segwitAddress(b, l); }, ctx); check_buf(nest, [&](char *b, size_t l) { return k.nestedSegwitAddress(b, l); }, ctx);
      int t = choose(4); static const ScriptType ty[] = {P2PKH, P2SH_P2WPKH, P2WPKH, UNKNOWN_TYPE}; std::string w = t == 0 ? leg : t == 1 ? nest : seg; HDPrivateKey hk(ref::toB(d).data(), ref::sha256({2}).data(), 3, NULL, 7, N, ty[t]); eq(hk.address(), w, "hd-address", ctx + fmt(" type %d", t)); check_buf(w, [&](char *b, size_t l) { return hk.address(b, l); }, ctx); HDPublicKey hp = hk.xpub(); eq(hp.address(), w, "hd-public-address", ctx + fmt(" type %d", t)); check_buf(w, [&](char *b, size_t l) { return hp.address(b, l); }, ctx); eq(hp.segwitAddress(N), seg, "hd-public-address", ctx); } }
  state(ref::fnv(leg)); outcome("key-ok"); }
// every witness version x program length x checksum constant x case
static void witver() { int ver = choose(18); size_t len = choose(43); auto &n = netspecs()[choose(4)]; bool m = flip(); int cs = choose(3); bytes prog = repeat(len, ver * 3 + 1); std::string a = ref::segwit_addr(n.hrp, ver == 17 ? 31 : ver, prog, m ? B32M : 1); bool valid = ver <= 16 && len >= 2 && len <= 40 && (ver ? m : !m) && (ver || len == 20 || len == 32); std::string ctx = fmt("version %d length %zu %s", ver, len, m ? "bech32m" : "bech32"); if (cs == 1) a = upper(a); if (cs == 2) { a[0] = toupper(a[0]); valid = false; } bytes want; if (valid) { want = ref::cat({(uint8_t)(ver ? 0x50 + ver : 0), (uint8_t)len}, prog); } readaddr(a, want, ctx); state(ref::fnv(a)); outcome(valid ? "witness-accepted" : "witness-rejected"); }
// nested and native script hashes of all script sizes
static void wrapped() { static const std::vector<size_t> L = {0, 1, 2, 25, 34, 75, 76, 105, 255, 256, 519, 520, 521, 3600, 9999, 10000}; bytes sc = repeat(pick(L), 5); auto &n = netspecs()[choose(4)]; Script s = mkscript(sc); std::string ctx = fmt("script of %zu bytes", sc.size()); eq(sh(s).address(n.net), addr(T_SH, ref::hash160(sc), n), "sh", ctx); eq(wsh(s).address(n.net), addr(T_WSH, ref::sha256(sc), n), "wsh", ctx); eq(sh(wsh(s)).address(n.net), addr(T_SH, ref::hash160(ref::p2wsh(ref::sha256(sc))), n), "sh-wsh", ctx); eq(s.scriptPubkey().address(n.net), addr(T_SH, ref::hash160(sc), n), "scriptPubkey", ctx); eq(s.scriptPubkey(P2WSH).address(n.net), addr(T_WSH, ref::sha256(sc), n), "scriptPubkey-wsh", ctx); eq(Script(s, P2SH).address(n.net), addr(T_SH, ref::hash160(sc), n), "Script-P2SH", ctx); eq(scriptbytes(s), sc, "script-changed", ctx); step(6); state(ref::fnv(sc)); outcome("wrapped"); }
// scripts one byte away from a standard one
static void almost() { int t = choose(4); bytes h = repeat(t == T_WSH ? 32 : 20, 40), sc = scr(t, h); int k = choose(3); size_t i = choose(sc.size() + (k == 1)); if (k == 0) { std::vector<size_t> fixed; for (size_t j = 0; j < sc.size(); j++) { bytes x = scr(t, bytes(h.size(), 0)), y = scr(t, bytes(h.size(), 1)); if (x[j] == y[j]) fixed.push_back(j); } if (i >= fixed.size()) return; uint8_t v = choose(256); if (sc[fixed[i]] == v) return; sc[fixed[i]] = v; } else if (k == 1) sc.insert(sc.begin() + i, choose(256)); else sc.erase(sc.begin() + i);
  // a script of another standard shape may result only if the reference agrees
  auto cls = [](const bytes &s) { if (s.size() == 25 && s[0] == 0x76 && s[1] == 0xa9 && s[2] == 20 && s[23] == 0x88 && s[24] == 0xac) return 0; if (s.size() == 23 && s[0] == 0xa9 && s[1] == 20 && s[22] == 0x87) return 1; if (s.size() == 22 && s[0] == 0 && s[1] == 20) return 2; if (s.size() == 34 && s[0] == 0 && s[1] == 32) return 3; return -1; }; int c = cls(sc); auto &n = netspecs()[0]; std::string want; if (c >= 0) want = addr(c, c == 0 ? sub(sc, 3, 20) : sub(sc, 2, c == 3 ? 32 : 20), n); writeaddr(sc, want, n.net, "almost standard " + ref::hex(sc)); state(ref::fnv(sc)); outcome(c < 0 ? "no-address" : "still-standard"); }
static void odd() { static const std::vector<bytes> S = {{}, {0}, {0x6a}, {0x51}, ref::cat({0x51, 0x20}, bytes(32, 7)), ref::cat({0x01, 0x14}, bytes(20, 7)), ref::cat({0x00, 0x28}, bytes(40, 7)), bytes(22, 0), bytes(25, 0x76), bytes(10000, 0x51)}; const bytes &s = pick(S); auto &n = netspecs()[choose(4)]; writeaddr(s, "", n.net, "odd script"); Script x = mkscript(s); ok(x.type() == UNKNOWN_TYPE, "type", ref::hex(s)); outcome("no-address"); state(ref::fnv(s)); }
static void junk() { static const std::vector<std::string> T = {"", "b", "bc", "bc1", "tb1", "bcrt1", "bcrt", "t", "1", "3", "m", std::string(100, '1'), std::string(101, '1'), std::string(1000, 'b'), "bc1" + std::string(97, 'q'), "bc1" + std::string(87, 'q'), std::string(60, 'a') + "1" + std::string(39, 'q'), std::string(93, 'a') + "1qqqqqq", "bc" + std::string(91, 'x') + "1qqqqqq", "bc1qqqqqq", "bc1q", "BC1", "bC1qw508d6qejxtdg4y5r3zarvary0c5xw7kv8f3t4", "ltc1qw508d6qejxtdg4y5r3zarvary0c5xw7kgmn4n9", "lnbc1qw508d6qejxtdg4y5r3zarvary0c5xw7kygt080", " bc1qw508d6qejxtdg4y5r3zarvary0c5xw7kv8f3t4", "bc1qw508d6qejxtdg4y5r3zarvary0c5xw7kv8f3t4 "}; readaddr(pick(T), {}, "junk"); outcome("junk-rejected"); }
// valid Bech32 strings of every total length around the limits
static void longb() { size_t n = choose(100); std::string hrp = choose(2) ? "bc" : "tb"; bytes prog = repeat(n, 3); int ver = choose(2) ? 1 : 0; std::string a = ref::segwit_addr(hrp, ver, prog, ver ? B32M : 1); if (a.size() > 400) return; bool valid = n >= 2 && n <= 40 && (ver || n == 20 || n == 32); bytes w; if (valid) w = ref::cat({(uint8_t)(ver ? 0x51 : 0), (uint8_t)n}, prog); readaddr(a, w, fmt("program of %zu bytes", n)); state(ref::fnv(a)); outcome(valid ? "length-accepted" : "length-rejected"); }
static void history() { // one script object through several addresses: assignment keeps nothing of the old value
  std::vector<std::string> A = {"1BvBMSEYstWetqTFn5Au4m4GFg7xJaNVN2", "3J98t1WpEZ73CNmQviecrnyiWrnqRhWNLy", "bc1qw508d6qejxtdg4y5r3zarvary0c5xw7kv8f3t4", "tb1qrp33g0q5c5txsp9arysrx4k6zdkfs4nce4xj0gdcccefvpysxf3q0sl5k7", "nonsense"}; static const char *W[] = {"76a91477bff20c60e522dfaa3350c39b030a5d004e839a88ac", "a914b472a266d0bd89c13706a4132ccfb16f7c3b9fcb87", "0014751e76e8199196d454941c45d1b3a323f1433bd6", "00201863143c14c5166804bd19203356da136c985678cd4d27a1b8c6329604903262", ""}; Script s; std::string tr; for (int d = 0; d < 3; d++) { int c = choose(5); tr += fmt(" %d", c); s = Script(A[c].c_str()); eq(scriptbytes(s), ref::unhex(W[c]), "history", tr); if (c < 4) eq(s.address(c == 3 ? &Testnet : &Mainnet), A[c], "history-address", tr); } state(ref::fnv(tr)); outcome("history"); step(3); }
void define_spaces() { KS(); space("scripts", 3, [] { scripts(); }); space("keys", 2, [] { keys(); }); space("witness", 2, [] { witver(); }); space("wrapped", 1, [] { wrapped(); }); space("almost", 2, [] { almost(); }); space("odd", 1, [] { odd(); }); space("junk", 1, [] { junk(); }); space("long", 1, [] { longb(); }); space("history", 1, [] { history(); }); }
