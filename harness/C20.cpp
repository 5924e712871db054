// C20: derivation path texts. All texts up to a length over the path alphabet (digits of every class, separators, both
// hardened marks, m, and foreign characters), composed paths with boundary numbers in every position, every byte value
// at every position of a valid path; private and public keys. Oracle: an independent path grammar plus the BIP32 model.
#include "lib.h"
using ref::HD;
static const uint32_t Hn = 0x80000000u;
// grammar: [m] ["/"] component ("/" component)* ["/"]; returns false when the text is no path
static bool parse(std::string s, std::vector<uint32_t> &o, bool hard) { o.clear(); if (!s.empty() && s[0] == 'm') { if (s.size() == 1) return true; if (s[1] != '/') return false; s = s.substr(2); } if (s.empty()) return true; if (s.back() == '/') s.pop_back(); size_t i = 0; for (;;) { size_t j = i; uint64_t v = 0; while (j < s.size() && s[j] >= '0' && s[j] <= '9') { v = v * 10 + (s[j] - '0'); if (v >= Hn) return false; j++; } if (j == i) return false; if (hard && j < s.size() && (s[j] == 'h' || s[j] == '\'')) { v += Hn; j++; } o.push_back(v); if (j == s.size()) return true; if (s[j] != '/') return false; i = j + 1; } }
static const HD &ROOT() { static HD h = ref::hd_seed(repeat(16, 4)); return h; }
static const HD &at(const std::vector<uint32_t> &p) { static std::map<std::vector<uint32_t>, HD> m; auto it = m.find(p); if (it != m.end()) return it->second; if (m.size() > 100000) m.clear(); HD h = ROOT(); if (!p.empty()) { std::vector<uint32_t> q(p.begin(), p.end() - 1); h = ref::hd_child(at(q), p.back()); } return m[p] = h; }
static void judge(const std::string &t) { static HDPrivateKey k(ref::b58c(ref::hd_bytes(ROOT(), ref::be(0x0488ade4, 4), true)).c_str()); static HDPublicKey P = k.xpub(); static const std::string kx = k.xprv(), px = P.xpub(); Exact e(t + std::string(1, 0)); std::vector<uint32_t> p; std::string ctx = "path '" + cutstr(t) + "'";
  { HDPrivateKey c = k.derive(e.c()); bool g = parse(t, p, true); ok(c.isValid() == g, g ? "path-rejected" : "malformed-path-accepted", ctx); if (g) { const HD &h = at(p); eq(secretof(c), ref::toB(h.k), "derived-secret", ctx); eq(bytes(c.chainCode, c.chainCode + 32), h.cc, "derived-chain-code", ctx); eqn(c.depth, p.size(), "depth", ctx); eqn(c.childNumber, p.empty() ? 0 : p.back(), "child-number", ctx); eq(bytes(c.parentFingerprint, c.parentFingerprint + 4), h.pfp, "parent-fingerprint", ctx); } outcome(g ? fmt("private-%zu", std::min<size_t>(p.size(), 6)) : std::string("private-rejected")); step(); }
  { HDPublicKey c = P.derive(e.c()); bool g = parse(t, p, false); ok(c.isValid() == g, g ? "public-path-rejected" : "malformed-public-path-accepted", ctx); if (g) { const HD &h = at(p); eq(pointof(c), pt64(h.K), "derived-point", ctx); eqn(c.depth, p.size(), "public-depth", ctx); eqn(c.childNumber, p.empty() ? 0 : p.back(), "public-child-number", ctx); eq(bytes(c.chainCode, c.chainCode + 32), h.cc, "public-chain-code", ctx); } outcome(g ? fmt("public-%zu", std::min<size_t>(p.size(), 6)) : std::string("public-rejected")); step(); }
  state(ref::fnv(t)); }
static void all() { static const std::string A = "01/h'm92"; std::string t; size_t n = choose(thorough ? 8 : 7); size_t al = n >= 6 ? 6 : 8; for (size_t i = 0; i < n; i++) t += A[choose(al)]; judge(t); }
static void foreign() { static const std::vector<std::string> B = {"m/44h/0'/1", "0/1", "m/2147483647h/2147483647/", "m", "7", "m/0h/"}; std::string t = pick(B); int op = choose(3); size_t i = choose(t.size() + 1); if (op == 0) { t.insert(i, 1, (char)(1 + choose(255))); } else if (i == t.size()) return; else if (op == 1) t[i] = (char)(1 + choose(255)); else t.erase(i, 1); judge(t); }
static const std::vector<std::string> &NUM() { static const std::vector<std::string> v = {"0", "1", "9", "10", "00", "007", "2147483646", "2147483647", "2147483648", "2147483649", "2147483650", "2147483657", "2147483658", "4294967295", "4294967296", "4294967297", "6442450943", "6442450944", "8589934592", "9999999999", "21474836470", "18446744073709551615", "18446744073709551616", "00000000000000000000001", "02147483647", "02147483648", "214748364", "429496729", "4294967290", "99999999999999999999999999999999"}; return v; }
static void numbers() { int n = 1 + choose(2), pos = choose(n); std::string t = choose(3) == 0 ? "" : choose(2) ? "m/" : "0/"; static const std::vector<std::string> M = {"", "h", "'", "H", "hh", "h'", "''", "-", "*", "x"}; for (int i = 0; i < n; i++) { if (i) t += "/"; t += i == pos ? pick(NUM()) + pick(M) : std::string("5"); } if (flip()) t += "/"; judge(t); }
static void every() { // every index of ranges around decimal and binary boundaries
  static const uint64_t B[] = {0, 1000, 65536, 999999999, 1000000000, 2147483647 - 60, 2147483648ull + 40, 4294967296ull - 60, 4294967296ull + 20, 21474836480ull - 30}; uint64_t v = B[choose(10)] + choose(thorough ? 200 : 60); int m = choose(3); judge("m/" + std::to_string(v) + (m == 1 ? "h" : m == 2 ? "'" : "")); }
static void composed() { size_t n = choose(6); static const std::vector<std::string> C = {"0", "1h", "2'", "2147483647h", "12345678"}; std::string t = flip() ? "m/" : ""; for (size_t i = 0; i < n; i++) { if (i) t += "/"; t += C[n > 4 ? choose(3) : choose(5)]; } if (flip()) t += "/"; judge(t); }
static void longp() { size_t n = choose(8) == 7 ? 255 : 1 + choose(7) * 5; bool h = flip(); std::string t = "m"; for (size_t i = 0; i < n; i++) t += h ? "/1h" : "/1"; judge(t); if (n == 255) { std::string u = t + "/1"; HDPrivateKey k(ref::b58c(ref::hd_bytes(ROOT(), ref::be(0x0488ade4, 4), true)).c_str()); ok(!k.derive(u.c_str()).isValid(), "deeper-than-255"); } }
static void toodeep() { static const size_t N[] = {254, 255, 256, 257, 258, 300, 511, 512, 513, 767, 768, 65536, 65537}; size_t n = N[choose(13)]; int h = choose(2); std::string t; for (size_t i = 0; i < n; i++) t += h ? (i ? "/1h" : "m/1h") : (i ? "/1" : "1"); if (flip()) t += "/"; HDPrivateKey k(ref::b58c(ref::hd_bytes(ROOT(), ref::be(0x0488ade4, 4), true)).c_str()); HDPrivateKey c = k.derive(t.c_str()); ok(c.isValid() == (n <= 255), n <= 255 ? "path-rejected" : "deeper-than-255", fmt("%zu components", n)); if (n <= 255) { eqn(c.depth, n, "depth"); eqn(c.childNumber, h ? 0x80000001u : 1u, "child-number"); } HDPublicKey P = k.xpub().derive(t.c_str()); ok(P.isValid() == (n <= 255 && !h), "public-deeper-than-255", fmt("%zu components", n)); step(2); state(n * 2 + h); outcome("deep"); }
static void junk() { static const std::vector<std::string> J = {"mm", "m//", "//", "/", "m/m", "m0", "M/0", " m/0", "m/ 0", "m/0 ", "m/0x10", "m/+1", "m/-1", "m/1e3", "m/1.0", "m\\0", "m/h", "m/'", "'", "h", "0h0", "0h/h", "0//0", "0/", "/0", "/0/", "m/0/", "m/0//", "m/0h/", "m/0'h", "\n", "m/0\n", "m/\xff", "m/0\x80", "44", "m/44'/0'/0'/0/0", std::string(300, '0'), std::string(300, '9'), std::string(300, '/'), std::string(300, 'm'), std::string(200, '0') + "h"}; judge(pick(J)); }
void define_spaces() { ROOT(); space("all-texts", 3, [] { all(); }); space("foreign-characters", 3, [] { foreign(); }); space("numbers", 3, [] { numbers(); }); space("indices", 2, [] { every(); }); space("composed", 3, [] { composed(); }); space("long", 1, [] { longp(); }); space("too-deep", 1, [] { toodeep(); }); space("junk", 1, [] { junk(); }); }
