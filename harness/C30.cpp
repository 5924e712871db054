// C30: output descriptor checksums (BIP 380). The reference expands the text into 5-bit symbols and divides by the
// generator polynomial over GF(32); every text of the enumerated spaces must get exactly that checksum, texts with any
// character outside the descriptor alphabet and buffers that are too small give nothing.
#include "lib.h"
#include "PSBT.h"
static const std::string AL = "0123456789()[],'/*abcdefgh@:$%{}IJKLMNOPQRSTUVWXYZ&+-.;<=>?!^_|~ijklmnopqrstuvwxyzABCDEFGH`#\"\\ ";
static uint64_t pm(const std::vector<int> &sy) { static const uint64_t g[5] = {0xf5dee51989ull, 0xa9fdca3312ull, 0x1bab10e32dull, 0x3706b1677aull, 0x644d626ffdull}; uint64_t c = 1; for (int v : sy) { int top = (int)(c >> 35); c = ((c & 0x7ffffffffull) << 5) ^ v; for (int i = 0; i < 5; i++) if ((top >> i) & 1) c ^= g[i]; } return c; }
static std::string want(const std::string &s) { std::vector<int> sy, gr; for (char ch : s) { size_t p = AL.find(ch); if (p == std::string::npos) return ""; sy.push_back(p & 31); gr.push_back(p >> 5); if (gr.size() == 3) { sy.push_back(gr[0] * 9 + gr[1] * 3 + gr[2]); gr.clear(); } } if (gr.size() == 1) sy.push_back(gr[0]); if (gr.size() == 2) sy.push_back(gr[0] * 3 + gr[1]); sy.insert(sy.end(), 8, 0); uint64_t c = pm(sy) ^ 1; std::string r; for (int i = 0; i < 8; i++) r += ref::BC[(c >> (5 * (7 - i))) & 31]; return r; }
static std::string got(const std::string &s, size_t n = 9) { Exact in(s), o(n); size_t r = descriptorChecksum(in.c(), s.size(), o.c(), n); step(); ok(r == 0 || r == 8, "returned-length", fmt("%zu", r)); if (!r) return ""; ok(n >= 8, "small-buffer", fmt("%zu", n)); if (n > 8) ok(o.p[8] == 0, "not-terminated", fmt("%zu", n)); return std::string(o.c(), 8); }
static void judge(const std::string &s, bool str) { std::string w = want(s); if (w.empty() && !s.empty()) outcome("rejected"); else outcome("checksum"); eq(got(s), w, "checksum", "text '" + cutstr(s, 200) + "' " + ref::hex(ref::B(s))); if (str) eq(descriptorChecksum(s), w, "checksum-string", s); state(ref::fnv(w)); }
static void shorts() { int n = choose(4); std::string s; if (n == 3) { if (thorough) { s += AL[choose(95)]; s += AL[choose(95)]; for (char c : AL) judge(s + c, false); } else { s += AL[choose(24) * 4]; s += AL[choose(95)]; for (char c : AL) judge(s + c, false); } return; } for (int i = 0; i < n; i++) s += (char)choose(256); judge(s, true); }
static const std::vector<std::string> &descs() { static std::vector<std::string> v = {"raw(deadbeef)", "pkh([d34db33f/44'/0'/0']xpub6ERApfZwUNrhLCkDtcHTcxd75RbzS1ed54G1LkBUHQVHQKqhMkhgbmJbZRkrgZw4koxb5JaHWkY4ALHY2grBGRjaDMzQLcgJvLJuZZvRcEL/1/*)", "wsh(sortedmulti(2,02c6047f9441ed7d6d3045406e95c07cd85c778e4b8cef3ca7abac09b95c709ee5,03f9308a019258c31049344f85f8b0f9d9d1ac6a3a1d2a4a4a3c6b7a5e1b3c4d5e))", "tr(50929b74c1a04954b78b4b6035e97a5e078a5a0f28ec96d547bfee9ace803ac0,{pk(A),pk(B)})"}; return v; }
static void anchors() { static const std::vector<std::pair<std::string, std::string>> A = {{"raw(deadbeef)", "89f8spxm"}}; auto &a = pick(A); eq(want(a.first), a.second, "reference-vector", a.first); eq(got(a.first), a.second, "published-vector", a.first); outcome("vector"); }
static void subst() { std::string s = pick(descs()); size_t i = choose(s.size()); int c = choose(256); std::string b = want(s); if ((uint8_t)s[i] == c) { outcome("same"); return; } s[i] = (char)c; judge(s, true); ok(got(s) != b, "error-undetected", s); }
static void swaps() { std::string s = pick(descs()); std::string b = want(s); size_t i = choose(s.size()), j = choose(s.size()); if (s[i] == s[j]) { outcome("same"); return; } std::swap(s[i], s[j]); judge(s, false); ok(got(s) != b, "transposition-undetected", s); }
static void lengths() { size_t n = choose(thorough ? 1200 : 500); int k = choose(4); std::string s; for (size_t i = 0; i < n; i++) s += AL[(i * (7 + 10 * k) + k * 31) % 95]; judge(s, true); }
static void longs() { static const size_t N[] = {1023, 1024, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 65538, 70000, 131071, 131073, 200000}; size_t n = N[choose(15)]; int k = choose(4); std::string s; for (size_t i = 0; i < n; i++) s += AL[(i * (7 + 10 * k) + k * 31) % 95]; judge(s, true); }
static void buffers() { const std::string &s = pick(descs()); size_t n = choose(20); Exact o(n); Exact in(s); size_t r = descriptorChecksum(in.c(), s.size(), o.c(), n); step(); eqn(r, n < 8 ? 0 : 8, "buffer-result", fmt("%zu", n)); if (n >= 8) eq(std::string(o.c(), 8), want(s), "buffer-content", fmt("%zu", n)); state(n); outcome("buffer"); }
void define_spaces() { space("long", 1, longs); space("anchors", 1, anchors); space("short-texts", 2, shorts); space("substitutions", 2, subst); space("transpositions", 2, swaps); space("lengths", 2, lengths); space("buffer-sizes", 2, buffers); }
