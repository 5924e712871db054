// C21: BIP39. All five entropy sizes with every bit and every value of every 11-bit group; every one-word replacement at
// every position; every word count, spacing defect and one-character edit; all entropy lengths and word counts; seeds for
// all passphrase and sentence lengths around the hash block sizes. Oracle: independent BIP39 encoder, decoder and
// PBKDF2-HMAC-SHA512, with a verified copy of the word list.
#include "lib.h"
#include "words.h"
extern "C" {
#include "utility/trezor/bip39.h"
}
static const std::vector<std::string> &W() { static std::vector<std::string> v; if (v.empty()) { std::string s = BIP39_WORDS, c; for (char x : s) if (x == ' ') { v.push_back(c); c = ""; } else c += x; } return v; }
static const std::map<std::string, int> &WI() { static std::map<std::string, int> m; if (m.empty()) for (size_t i = 0; i < W().size(); i++) m[W()[i]] = i; return m; }
static std::string sentence(const bytes &e) { bytes b = e; b.push_back(ref::sha256(e)[0]); std::string s; size_t n = e.size() * 3 / 4; for (size_t i = 0; i < n; i++) { int v = 0; for (size_t j = i * 11; j < i * 11 + 11; j++) v = v << 1 | (b[j / 8] >> (7 - j % 8) & 1); s += (i ? " " : "") + W()[v]; } return s; }
// 0 not a sentence, 1 words right but checksum wrong, 2 valid
static int decode(const std::string &s, bytes &e) { std::vector<int> ix; std::string c; for (char x : s + " ") if (x == ' ') { auto it = WI().find(c); if (it == WI().end()) return 0; ix.push_back(it->second); c = ""; } else c += x; size_t n = ix.size(); if (n < 12 || n > 24 || n % 3) return 0; bytes b(33, 0); for (size_t j = 0; j < n * 11; j++) if (ix[j / 11] >> (10 - j % 11) & 1) b[j / 8] |= 0x80 >> (j % 8); size_t l = n * 4 / 3; e = sub(b, 0, l); uint8_t m = 0xff << (8 - n / 3); return (ref::sha256(e)[0] & m) == (b[l] & m) ? 2 : 1; }
static void judge(const std::string &s, const std::string &ctx) { bytes e; int v = decode(s, e); std::string c = ctx + " '" + cutstr(s) + "'"; ok(checkMnemonic(s) == (v == 2), v == 2 ? "valid-sentence-rejected" : "invalid-sentence-accepted", c); Exact o(40); { Exact t(s); size_t n = mnemonicToEntropy(t.c(), t.n, o.p, o.n); if (v == 2 || (v == 1 && n)) { eqn(n, e.size(), "entropy-length", c); eq(sub(o.b(), 0, n), e, "entropy", c); } else eqn(n, 0, "entropy-of-invalid-sentence", c); } Exact o2(e.size()); if (v == 2) { eqn(mnemonicToEntropy(s, o2.p, o2.n), e.size(), "entropy-exact-buffer", c); eq(o2.b(), e, "entropy-exact-buffer", c); Exact o3(e.size() - 1); eqn(mnemonicToEntropy(s, o3.p, o3.n), 0, "entropy-small-buffer", c); } step(3); state(ref::fnv(s)); outcome(v == 2 ? "valid" : v == 1 ? "checksum-rejected" : "malformed-rejected"); }
static void enc(const bytes &e) { Exact x(e); const char *m = mnemonicFromEntropy(x.p, x.n); ok(m != nullptr, "no-sentence", ref::hex(e)); if (!m) return; std::string s = m; eq(s, sentence(e), "sentence", "entropy " + ref::hex(e)); step(); judge(s, "entropy " + ref::hex(e)); }
static void bitsp() { size_t n = 16 + 4 * choose(5); int base = choose(3); bytes e(n, base == 0 ? 0 : base == 1 ? 0xff : 0); if (base == 2) e = repeat(n, 11); size_t b = choose(n * 8 + 1); if (b < n * 8) e[b / 8] ^= 0x80 >> (b % 8); enc(e); }
static void groups() { size_t n = 16 + 4 * choose(5); size_t words = n * 3 / 4, w = choose(words); int v = choose(2048); if (!thorough && n != 16 && n != 32 && v % 8) return; bytes e = repeat(n, 3); for (int j = 0; j < 11; j++) { size_t p = w * 11 + j; if (p >= n * 8) break; uint8_t m = 0x80 >> (p % 8); e[p / 8] = (v >> (10 - j) & 1) ? e[p / 8] | m : e[p / 8] & ~m; } enc(e); }
static std::vector<std::string> split(const std::string &s) { std::vector<std::string> r; std::string c; for (char x : s + " ") if (x == ' ') { r.push_back(c); c = ""; } else c += x; return r; }
static std::string join(const std::vector<std::string> &w) { std::string s; for (size_t i = 0; i < w.size(); i++) s += (i ? " " : "") + w[i]; return s; }
static void replaced() { size_t n = 16 + 4 * choose(5); auto w = split(sentence(repeat(n, 3))); size_t i = thorough ? choose(w.size()) : choose(2) ? w.size() - 1 : choose(w.size() - 1); if (thorough || i + 1 == w.size() || n == 16) w[i] = W()[choose(2048)]; else w[i] = W()[choose(128) * 16 + i % 16]; judge(join(w), "replaced word"); }
static void swaps() { size_t n = 16 + 4 * choose(5); auto w = split(sentence(repeat(n, 3))); size_t i = choose(w.size()), j = choose(w.size()); std::swap(w[i], w[j]); judge(join(w), "swapped words"); }
static void counts() { size_t n = choose(50); int k = choose(4); std::vector<std::string> w; for (size_t i = 0; i < n; i++) w.push_back(k == 0 ? "abandon" : k == 1 ? "zoo" : W()[(i * 97 + 5) % 2048]); if (k == 3 && n >= 3) w.resize(n), w[n - 1] = "about"; judge(join(w), "word count"); }
// the standard sentences of all counts: n-1 times a word plus every last word
static void lastword() { static const int N[] = {9, 11, 12, 13, 15, 18, 21, 24, 27}; size_t n = N[choose(9)]; std::vector<std::string> w(n, choose(2) ? "abandon" : "zoo"); w[n - 1] = W()[choose(2048)]; judge(join(w), "last word"); }
static void spacing() { size_t n = 16 + 4 * choose(5); std::string s = sentence(repeat(n, 3)); size_t i = choose(s.size() + 1); int op = choose(3); static const char C[] = " \t\n\r,.-_aeAE0~\xff\x01"; if (op == 0) s.insert(i, 1, C[choose(16)]); else if (i == s.size()) { s += "  "; } else if (op == 1) s[i] = C[choose(16)]; else s.erase(i, 1); judge(s, "edited"); }
static void odd() { std::string v = "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about"; static std::vector<std::string> T; if (T.empty()) { T = {"", " ", "a", v, " " + v, v + " ", v + "  ", "  " + v, v + "\n", v + " about", "abandon", "ABANDON" + v.substr(7), "aban aban aban aban aban aban aban aban aban aban aban abou", std::string(11, ' '), std::string(12, ' '), std::string(23, ' '), std::string(1000, ' '), std::string(1000, 'a'), std::string(300, 'a') + " b", "abandonabandon " + v.substr(8), "abandonab " + v.substr(8), "abandona " + v.substr(8), v + " " + v, v + " " + v + " " + v}; std::string l; for (int i = 0; i < 200; i++) l += "abandon "; T.push_back(l); std::string q = v; for (auto &c : q) if (c == ' ') c = '\t'; T.push_back(q); } judge(pick(T), "odd"); }
static void badlen() { size_t n = choose(70); bytes e = repeat(n, 1); Exact x(e); const char *m = mnemonicFromEntropy(x.p, x.n); bool g = n >= 16 && n <= 32 && n % 4 == 0; ok((m != nullptr) == g, "entropy-size", fmt("%zu bytes", n)); if (m) eq(std::string(m), sentence(e), "sentence"); step(); outcome(g ? "size-ok" : "size-refused"); }
// words generated from a text, from data of any length, from the random source
static void generate() { int n = choose(256); bool g = n >= 12 && n <= 24 && n % 3 == 0; size_t dl = g ? choose(80) : choose(2) * 7; bytes d = repeat(dl, n); if (dl % 2) d[dl / 4] = 0; bytes h = sub(ref::sha256(d), 0, n * 4 / 3); std::string want = g ? sentence(h) : "", ctx = fmt("%d words from %zu bytes", n, dl); Exact x(d); const char *m = generateMnemonic((uint8_t)n, x.p, x.n); ok((m != nullptr) == g, "word-count", ctx); if (m && g) eq(std::string(m), want, "generated", ctx); m = generateMnemonic((uint8_t)n, S2(d)); ok((m != nullptr) == g, "word-count-text", ctx); if (m && g) eq(std::string(m), want, "generated-text", ctx); if (n == 24) { m = generateMnemonic(x.p, x.n); eq(std::string(m), want, "generated-default", ctx); m = generateMnemonic(S2(d)); eq(std::string(m), want, "generated-default-text", ctx); }
  std::set<std::string> seen; for (uint32_t s = 1; s <= 3; s++) { rng_seed(s); m = generateMnemonic((uint8_t)n); ok((m != nullptr) == g, "word-count-random", ctx); if (m && g) { std::string t = m; bytes e; eqn(decode(t, e), 2, "random-sentence-invalid", t); eqn(e.size(), n * 4 / 3, "random-sentence-size", t); ok(seen.insert(t).second, "random-sentence-repeats", t); judge(t, "random"); } } step(4); state(ref::fnv(want)); outcome(g ? "generated" : "count-refused"); }
static bytes seedof(const std::string &m, const std::string &p) { return ref::pbkdf2_512(ref::B(m), ref::B("mnemonic" + p), 2048); }
static float lastp; static bool badp; static void progress(float f) { if (f < lastp || f < 0 || f > 1) badp = true; lastp = f; }
static void root(const std::string &m, const std::string &p, const std::string &ctx) { bytes sd = seedof(m, p); ref::HD h = ref::hd_seed(sd); auto &ns = netspecs()[choose(2)]; auto chk = [&](HDPrivateKey &k, const char *how) { eq(secretof(k), ref::toB(h.k), "root-secret", ctx + " " + how); eq(bytes(k.chainCode, k.chainCode + 32), h.cc, "root-chain-code", ctx + " " + how); eq(pointof(k.publicKey()), pt64(h.K), "root-public-key", ctx + " " + how); eqn(k.depth, 0, "root-depth", ctx); eqn(k.childNumber, 0, "root-child", ctx); ok(k.network == ns.net, "root-network", ctx); eqn(k.type, UNKNOWN_TYPE, "root-type", ctx); step(); };
  Exact em(m), ep(p); { HDPrivateKey k(em.c(), em.n, ep.c(), ep.n, ns.net); chk(k, "buffers"); lastp = 0; badp = false; HDPrivateKey u = k.hardenedChild(49); u.fromMnemonic(em.c(), em.n, ep.c(), ep.n, ns.net, progress); chk(u, "used"); ok(!badp, "progress", ctx); } { HDPrivateKey k(m, p, ns.net); chk(k, "strings"); } { HDPrivateKey k; k.fromMnemonic(m, p, ns.net); chk(k, "fromMnemonic"); if (ns.net == &Mainnet) { HDPrivateKey q(m, p); chk(q, "default network"); } } if (p.size() <= 256 && p.find('\0') == std::string::npos) { uint8_t o[64]; mnemonic_to_seed(m.c_str(), p.c_str(), o, NULL); eq(bytes(o, o + 64), sd, "seed", ctx); mnemonic_to_seed(m.c_str(), p.c_str(), o, NULL); eq(bytes(o, o + 64), sd, "seed-again", ctx); } state(ref::fnv(sd)); outcome("root"); }
static std::string text(size_t n, int s) { std::string t; for (size_t i = 0; i < n; i++) t += (char)(33 + (i * 7 + s) % 90); return t; }
static void passphrases() { static const std::vector<size_t> L = {0, 1, 2, 7, 8, 62, 63, 64, 65, 107, 108, 109, 110, 111, 112, 115, 116, 119, 120, 121, 127, 128, 129, 235, 236, 240, 247, 248, 249, 255, 256, 257, 300}; size_t n = thorough ? choose(300) : pick(L); root(sentence(repeat(16, 5)), text(n, 1), fmt("passphrase of %zu", n)); }
static void keylens() { static const std::vector<size_t> L = {0, 1, 63, 64, 65, 110, 111, 112, 126, 127, 128, 129, 130, 200, 239, 255, 256, 257, 300}; size_t n = thorough ? choose(300) : pick(L); root(text(n, 3), "TREZOR", fmt("sentence of %zu characters", n)); }
static void sentences() { size_t n = 16 + 4 * choose(5); int e = choose(4); bytes x = e == 0 ? bytes(n, 0) : e == 1 ? bytes(n, 0x7f) : e == 2 ? bytes(n, 0xff) : repeat(n, 9); static const std::vector<std::string> P = {"", "TREZOR", "\xc3\xa9\xe2\x82\xac", std::string("a\0b", 3), std::string("\0", 1), "\xff\x80 \x01"}; root(sentence(x), pick(P), "sentence"); }
// the seed cache of the C layer: many different requests interleaved
static void cache() { static const std::vector<std::string> M = {"a", "b", "ab"}, P = {"", "a", "b"}; std::string tr; for (int i = 0; i < 4; i++) { int m = i < 2 ? choose(3) : (int)choose(2), p = i < 2 ? choose(2) : (int)choose(3); uint8_t o[64]; memset(o, 0, 64); mnemonic_to_seed(M[m].c_str(), P[p].c_str(), o, NULL); static std::map<int, bytes> memo; int k = m * 3 + p; if (!memo.count(k)) memo[k] = seedof(M[m], P[p]); tr += fmt(" %d", k); eq(bytes(o, o + 64), memo[k], "cached-seed", tr); step(); } state(ref::fnv(tr)); outcome("cache"); }
// root keys asked for one after the other: sentences and passphrases of equal length that share beginnings or ends
static void rootseq() { static const std::vector<std::pair<std::string, std::string>> Q = {{"legal winner", "aab"}, {"legal winner", "aac"}, {"legal winner", "bab"}, {"legal winnes", "aab"}, {"megal winner", "aab"}, {"legal winner", ""}, {"legal winneraab", ""}}; static std::map<size_t, ref::HD> memo; std::string tr; for (int i = 0; i < 3; i++) { size_t k = choose(Q.size()); const Network *net = nets()[choose(i ? 2 : 1)]; if (!memo.count(k)) memo[k] = ref::hd_seed(seedof(Q[k].first, Q[k].second)); const ref::HD &h = memo[k]; tr += fmt(" %zu", k); HDPrivateKey x; x.fromMnemonic(Q[k].first, Q[k].second, net); eq(secretof(x), ref::toB(h.k), "root-sequence", tr); eq(bytes(x.chainCode, x.chainCode + 32), h.cc, "root-sequence-chain-code", tr); ok(x.network == net, "root-sequence-network", tr); step(); } state(ref::fnv(tr)); outcome("sequence"); }
void define_spaces() { W(); WI(); { std::string l; for (auto &w : W()) l += w + "\n"; if (W().size() != 2048 || ref::hex(ref::sha256(ref::B(l))) != "2f5eed53a4727b4bf8880d8f3f199efc90e58503646d9ff8eff3a2ed3b24dbda") { fprintf(stderr, "word list of the model is damaged\n"); abort(); } }
  space("bits", 3, [] { bitsp(); }); space("groups", 2, [] { groups(); }); space("replaced", 3, [] { replaced(); }); space("swaps", 2, [] { swaps(); }); space("counts", 1, [] { counts(); }); space("last-word", 2, [] { lastword(); }); space("spacing", 2, [] { spacing(); }); space("odd", 1, [] { odd(); }); space("entropy-sizes", 1, [] { badlen(); }); space("generate", 1, [] { generate(); }); space("passphrases", 1, [] { passphrases(); }); space("key-lengths", 1, [] { keylens(); }); space("sentences", 2, [] { sentences(); }); space("root-sequence", 2, [] { rootseq(); }); space("cache", 2, [] { cache(); }); }
