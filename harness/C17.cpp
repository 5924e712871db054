// C17: corrupted texts. Representatives of every text format (addresses of every kind, WIF, all SLIP-132 private and
// public extended keys, on every network) under every one-character edit (substitution, insertion, deletion, neighbour
// transposition, case change), every pair of substitutions in a Bech32 address, every payload length and every version
// with a valid checksum; each corrupted text goes to every reader, into fresh and into used objects.
// Oracle: independent Base58Check/Bech32 decoders decide what a text stands for.
#include "lib.h"
using ref::U; using ref::Pt;
static const uint32_t B32M = 0x2bc830a3;
struct Text { std::string name, t; int kind; }; // kind 0 address, 1 WIF, 2 private extended, 3 public extended
static uint32_t be32(const bytes &b) { return (uint32_t)b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3]; }
static ref::HD HK() { ref::HD h = ref::hd_seed(repeat(16, 4)); return ref::hd_child(ref::hd_child(h, 0x80000054u), 3); }
static const std::vector<Text> &TX() { static std::vector<Text> v; if (!v.empty()) return v; ref::HD h = HK(); bytes h20 = repeat(20, 77), h32 = repeat(32, 13); bytes z20 = ref::cat(bytes(3, 0), repeat(17, 5)); auto add = [&](std::string n, std::string t, int k) { for (auto &x : v) if (x.t == t) return; v.push_back({n, t, k}); };
  for (auto &n : netspecs()) { std::string s = n.name; add(s + " P2PKH", ref::b58c(ref::cat({n.p2pkh}, h20)), 0); add(s + " P2PKH zeros", ref::b58c(ref::cat({n.p2pkh}, z20)), 0); add(s + " P2SH", ref::b58c(ref::cat({n.p2sh}, h20)), 0); add(s + " P2WPKH", ref::segwit_addr(n.hrp, 0, h20), 0); add(s + " P2WSH", ref::segwit_addr(n.hrp, 0, h32), 0); add(s + " P2TR", ref::segwit_addr(n.hrp, 1, h32, B32M), 0); add(s + " witness v2", ref::segwit_addr(n.hrp, 2, repeat(3, 1), B32M), 0);
    for (int c = 0; c < 2; c++) { bytes p = ref::cat({n.wif}, ref::toB(h.k)); if (c) p.push_back(1); add(s + " WIF", ref::b58c(p), 1); } for (int t = 0; t < 5; t++) { add(s + fmt(" private extended %d", t), ref::b58c(ref::hd_bytes(h, ref::be(n.prv[t], 4), true)), 2); add(s + fmt(" public extended %d", t), ref::b58c(ref::hd_bytes(h, ref::be(n.pub[t], 4), false)), 3); } } return v; }
// what a text stands for; sure=false when a valid text is followed by a character outside the alphabet (either answer is allowed)
struct Meaning { bytes script; bool wif = false, prv = false, pub = false; bytes val; bool sure = true; };
static bool isb58(char c) { return c && ref::A58.find(c) != std::string::npos; }
static Meaning meaning(const std::string &t) { Meaning m; std::string hrp; int ver; bytes prog;
  for (uint32_t k : {1u, B32M}) if (ref::segwit_dec(t, hrp, ver, prog, k) && t.size() <= 90) { bool net = false; for (auto &n : netspecs()) net |= hrp == n.hrp; if (net && ver <= 16 && prog.size() >= 2 && prog.size() <= 40 && (ver ? k == B32M : k == 1 && (prog.size() == 20 || prog.size() == 32))) { m.script = ref::cat({(uint8_t)(ver ? 0x50 + ver : 0), (uint8_t)prog.size()}, prog); return m; } }
  size_t n = 0; while (n < t.size() && isb58(t[n])) n++; bytes p; if (!ref::b58cdec(t.substr(0, n), p)) return m; m.sure = n == t.size(); 
  for (auto &x : netspecs()) { if (p.size() == 21 && p[0] == x.p2pkh) m.script = ref::p2pkh(sub(p, 1, 20)); if (p.size() == 21 && p[0] == x.p2sh) m.script = ref::p2sh(sub(p, 1, 20));
    if (!p.empty() && p[0] == x.wif && (p.size() == 33 || (p.size() == 34 && p[33] == 1))) { U d = ref::fromB(sub(p, 1, 32)); if (!d.zero() && d < ref::N()) { m.wif = true; m.val = ref::toB(d); } }
    if (p.size() == 78) for (int i = 0; i < 5; i++) { if (be32(p) == x.prv[i] && p[45] == 0) { U d = ref::fromB(sub(p, 46, 32)); if (!d.zero() && d < ref::N()) { m.prv = true; m.val = ref::toB(d); } } Pt q; if (be32(p) == x.pub[i] && ref::parse_sec(sub(p, 45, 33), q)) { m.pub = true; m.val = pt64(q); } } }
  return m; }
static const std::string GW = "KwDiBf89QgGbjEhKnhXJuH7LrciVrZi3qYjgd9M7rFU73sVHnoWn", GA = "1BvBMSEYstWetqTFn5Au4m4GFg7xJaNVN2";
// every reader judges the text; used objects hold another valid value before
static void judge(const std::string &t, int kind, bool all, const std::string &ctx) { Meaning m = meaning(t); Exact e(t + std::string(1, 0)); size_t len = strlen(e.c()); std::string c = ctx + " text '" + cutstr(t) + "'"; static const ref::HD h2 = ref::hd_seed(repeat(32, 9)); static const std::string gx = ref::b58c(ref::hd_bytes(h2, ref::be(0x0488ade4, 4), true)), gp = ref::b58c(ref::hd_bytes(h2, ref::be(0x0488b21e, 4), false));
  if (all || kind == 0) { Script s(e.c()); if (m.sure || s) eq(scriptbytes(s), m.script, "corrupted-address", c); TxOut o(5, e.c()); if (m.sure || o.scriptPubkey) eq(scriptbytes(o.scriptPubkey), m.script, "corrupted-address-output", c); step(2); }
  if (all || kind == 1) { PrivateKey k(e.c()), u(GW), f(GW); bool r = u.fromWIF(e.c()); f.fromString(e.c(), len); for (PrivateKey *q : {&k, &u, &f}) { if (m.sure) ok(q->isValid() == m.wif, "corrupted-wif", c); if (q->isValid()) eq(secretof(*q), m.val, "corrupted-wif-value", c); } if (m.sure) ok(r == m.wif, "wif-result", c); step(3); }
  if (all || kind == 2) { HDPrivateKey k(e.c()), u(gx.c_str()); u.fromString(e.c(), len); for (HDPrivateKey *q : {&k, &u}) { if (m.sure) ok(q->isValid() == m.prv, "corrupted-xprv", c); if (q->isValid()) eq(secretof(*q), m.val, "corrupted-xprv-value", c); } step(2); }
  if (all || kind == 3) { HDPublicKey k(e.c()), u(gp.c_str()); u.fromString(e.c(), len); for (HDPublicKey *q : {&k, &u}) { if (m.sure) ok(q->isValid() == m.pub, "corrupted-xpub", c); if (q->isValid()) eq(pointof(*q), m.val, "corrupted-xpub-value", c); } step(2); }
  bool v = !m.script.empty() || m.wif || m.prv || m.pub; state(ref::fnv(t)); outcome(!m.sure ? "trailing-character" : v ? "still-valid" : "rejected"); }
static char nth(int i) { // all bytes in the thorough tier; both alphabets, confusable characters and samples of every other class otherwise
  return (char)(i + 1); }
static const std::string &CH() { static std::string s; if (s.empty()) { for (int i = 0; i < 255; i++) s += nth(i); if (!thorough) { std::string q; for (int i = 1; i < 256; i++) if (isalnum(i) || strchr(" \n-+/.:'_", i) || i == 1 || i == 127 || i == 128 || i == 255 || i == (0x80 | 'q')) q += (char)i; s = q; } } return s; }
static const std::string &AL(int kind) { static std::string all; if (all.empty()) for (int i = 1; i < 256; i++) all += (char)i; return kind == 0 ? all : CH(); } // addresses: every byte
static void edits() { const Text &x = pick(TX()); std::string t = x.t; int op = choose(5); size_t n = t.size(); std::string how; size_t i = choose(n + (op == 1)); const std::string &A = AL(x.kind); if (op == 0) { char c = A[choose(A.size())]; if (t[i] == c) return; t[i] = c; how = "substitution"; } else if (op == 1) { t.insert(i, 1, A[choose(A.size())]); how = "insertion"; } else if (op == 2) { t.erase(i, 1); how = "deletion"; } else if (op == 3) { size_t j = i + 1 + choose(3); if (j >= n || t[i] == t[j]) return; std::swap(t[i], t[j]); how = "transposition"; } else { if (!isalpha(t[i])) return; t[i] ^= 0x20; how = "case"; } judge(t, x.kind, false, x.name + " " + how); }
// truncations, blocks removed or doubled, all-upper and all-lower case
static void blocks() { const Text &x = pick(TX()); std::string t = x.t; int op = choose(4); size_t i = choose(t.size()); if (op == 0) t = t.substr(0, i); else if (op == 1) t = t.substr(i); else if (op == 2) t.insert(i, t.substr(0, 1 + i)); else { for (size_t k = 0; k <= i; k++) t[k] = toupper(t[k]); } judge(t, x.kind, true, x.name + fmt(" block %d", op)); }
static void crossed() { const Text &x = pick(TX()); judge(x.t, 0, true, x.name + " given to every reader"); judge(x.t + (char)(32 + choose(95)), 0, true, x.name + " extended"); }
// two substitutions anywhere in the data part of one Bech32 address per checksum variant
static void pairs(int which) { static const char *cs = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"; std::string t = which == 0 ? ref::segwit_addr("bc", 0, repeat(20, 77)) : ref::segwit_addr("bcrt", 1, repeat(32, 3), B32M); size_t st = t.rfind('1') + 1; size_t i = st + choose(t.size() - st); char a = cs[choose(32)]; if (a == t[i]) return; size_t rest = t.size() - i - 1; if (!rest) return; std::string m = t; m[i] = a; size_t j = i + 1 + choose(rest); for (int b = 0; b < 32; b++) { if (cs[b] == t[j]) continue; m[j] = cs[b]; Exact e(m + std::string(1, 0)); Script s(e.c()); ok(!s, "corrupted-address", "two substitutions: " + m); step(); } state(ref::fnv(m)); outcome("rejected"); }
// right checksum, wrong payload: every length, every version
static void lengths() { size_t n = choose(thorough ? 130 : 96); int k = choose(8); static const std::vector<bytes> V = {{0}, {5}, {0x6f}, {0xc4}, {0x80}, {0xef}, ref::unhex("0488ade4"), ref::unhex("0488b21e")}; bytes p = V[k]; p.resize(4 + n > 4 ? std::max(p.size(), n) : p.size(), 0); bytes r = repeat(n, 1); for (size_t i = V[k].size(); i < n; i++) p[i] = r[i]; p.resize(n); if (k == 6 && n > 45) p[45] = 0; if (k == 7 && n >= 78) { bytes s = ref::sec(HK().K); std::copy(s.begin(), s.end(), p.begin() + 45); } judge(ref::b58c(p), 0, true, fmt("payload of %zu bytes", n)); }
static void versions1() { int v = choose(256); size_t n = choose(3); static const size_t L[] = {21, 33, 34}; bytes p = ref::cat({(uint8_t)v}, repeat(L[n] - 1, 7)); if (n == 2) p[33] = 1; judge(ref::b58c(p), 0, true, fmt("version %d", v)); }
static void versions4() { auto &n = netspecs()[choose(2)]; int t = choose(5); bool priv = flip(); uint32_t v = priv ? n.prv[t] : n.pub[t]; int how = choose(3); if (how == 0) v ^= 1u << choose(32); else if (how == 1) { int b = choose(4) * 8; v = (v & ~(0xffu << b)) | (uint32_t)choose(256) << b; } else v = priv ? n.pub[t] : n.prv[t]; judge(ref::b58c(ref::hd_bytes(HK(), ref::be(v, 4), priv)), 0, true, fmt("version %08x", v)); }
static void keybytes() { auto &n = netspecs()[choose(2)]; bool priv = flip(); bytes p = ref::hd_bytes(HK(), ref::be(priv ? n.prv[0] : n.pub[0], 4), priv); int how = choose(4); if (how == 0) p[45] = choose(256); else if (how == 1) { static const std::vector<std::string> X = {"0000000000000000000000000000000000000000000000000000000000000000", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364142", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2e", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc30"}; bytes b = ref::unhex(pick(X)); std::copy(b.begin(), b.end(), p.begin() + 46); } else if (how == 2) { bytes b = ref::toB(U(choose(64))); std::copy(b.begin(), b.end(), p.begin() + 46); } else p[4 + choose(41)] ^= 1 << choose(8); judge(ref::b58c(p), 0, true, "key bytes"); }
static void hrps() { static const std::vector<std::string> H = {"b", "bcr", "bcrt", "t", "tbc", "tb", "bc", "bcrtt", "ltc", "bcc", "lnbc", "BC", "sb", "bt", "cb", "1", "bc1", "a1bc"}; int ver = choose(2); bytes prog = repeat(flip() ? 20 : 32, 2); std::string h = pick(H); std::string t = ref::segwit_addr(h, ver, prog, ver ? B32M : 1); judge(t, 0, true, "prefix " + h); }
// every value of each checksum byte of every Base58Check text
static void checksums() { static std::vector<Text> v; if (v.empty()) for (auto &x : TX()) { bytes p; if (ref::b58cdec(x.t, p)) v.push_back(x); } const Text &x = pick(v); bytes p; ref::b58cdec(x.t, p); bytes c = sub(ref::dsha(p), 0, 4); int i = choose(4); int b = choose(thorough ? 255 : 17); int w = thorough ? b + 1 : b < 8 ? 1 << b : b == 8 ? 0xff : 3 << (b - 9) & 0xff; if (!w) return; c[i] ^= w; judge(ref::b58(ref::cat(p, c)), x.kind, false, x.name + fmt(" checksum byte %d ^ %02x", i, w)); }
// segwit addresses with any number of groups: padding bits, whole padding groups, cut programs; the checksum is always right
static void padding() { int ver = choose(4); static const int V[] = {0, 1, 2, 16}; ver = V[ver]; auto &n = netspecs()[choose(2)]; size_t g = choose(70); int fill = choose(3), last = choose(32), last2 = choose(2); std::vector<int> d{ver}; for (size_t i = 0; i < g; i++) d.push_back(fill == 0 ? 0 : fill == 1 ? 31 : (i * 7 + 3) & 31); if (g) d[g] = last; if (g > 1 && last2) d[g - 1] = 0; auto v = ref::hrpx(n.hrp); v.insert(v.end(), d.begin(), d.end()); v.insert(v.end(), 6, 0); uint32_t c = ref::polymod(v) ^ (ver ? B32M : 1); std::string t = std::string(n.hrp) + "1"; for (int q : d) t += ref::BC[q]; for (int i = 0; i < 6; i++) t += ref::BC[c >> (5 * (5 - i)) & 31]; judge(t, 0, false, fmt("version %d with %zu groups ending in %d", ver, g, last)); }
void define_spaces() { space("checksums", 2, [] { checksums(); }); space("padding", 2, [] { padding(); }); TX(); CH(); space("edits", 2, [] { edits(); }); space("blocks", 1, [] { blocks(); }); space("crossed", 1, [] { crossed(); }); space("pairs-bech32", 2, [] { pairs(0); }); if (thorough) space("pairs-bech32m", 2, [] { pairs(1); }); space("lengths", 1, [] { lengths(); }); space("versions", 1, [] { versions1(); }); space("versions-extended", 2, [] { versions4(); }); space("key-bytes", 2, [] { keybytes(); }); space("prefixes", 1, [] { hrps(); }); }
