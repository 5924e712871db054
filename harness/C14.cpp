// C14: hex, binary and Base64 codecs. All byte strings up to a length and all texts up to a length over the
// alphabet plus foreign characters, larger shapes, and all output buffer sizes; inputs and outputs live in
// exactly sized heap blocks.
#include "lib.h"
#include "Conversion.h"
static int hv(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static const uint8_t BV[] = {0x00, 0x01, 0x0f, 0x10, 0x3e, 0x3f, 0x7f, 0x80, 0x9a, 0xa9, 0xfb, 0xff};
static bytes anybytes(size_t maxfull, size_t maxlen) { size_t l = choose(maxlen + 1); bytes b; for (size_t i = 0; i < l; i++) b.push_back(l <= maxfull || i == 0 ? choose(256) : BV[choose(12)]); return b; }
static bytes shape(size_t maxlen) { size_t n = choose(maxlen + 1); int p = choose(6); bytes b(n); for (size_t i = 0; i < n; i++) b[i] = p == 0 ? 0 : p == 1 ? 0xff : p == 2 ? i * 37 + 11 : p == 3 ? 0xfb ^ (i & 4) : p == 4 ? (i % 3 ? 0x00 : 0x80) : 255 - i; return b; }
// ---- hex
static void hexenc(const bytes &b, size_t osz) { std::string want = ref::hex(b), ctx = fmt("%s into %zu", want.c_str(), osz); Exact in(b), out(osz); size_t n = toHex(in.p, in.n, out.c(), osz); step(); if (osz < want.size()) { eqn(n, 0, "hex-too-small", ctx); outcome("hex-too-small"); } else { eqn(n, want.size(), "hex-length", ctx); eq(std::string(out.c(), n), want, "hex", ctx); if (osz > n) ok(out.p[n] == 0, "hex-terminator", ctx); outcome("hex-ok"); } eq(toHex(in.p, in.n), want, "hex-string", ctx); state(ref::fnv(b, 1 + osz * 7)); }
// leading foreign characters are skipped, then pairs until the first foreign character or the end
static void hexdec(const std::string &t, size_t osz) {
  size_t o = 0; while (o < t.size() && hv(t[o]) < 0) o++; bytes w; for (; o + 1 < t.size() && hv(t[o]) >= 0 && hv(t[o + 1]) >= 0; o += 2) w.push_back(hv(t[o]) * 16 + hv(t[o + 1])); std::string ctx = fmt("'%s' (%s) into %zu", t.c_str(), ref::hex(ref::B(t)).c_str(), osz); Exact in(t), out(osz);
  size_t n = fromHex(in.c(), in.n, out.p, osz); step(); state(ref::fnv(t, 2 + osz * 7));
  if (osz < w.size()) { ok(n == 0, "unhex-too-small", ctx + fmt(" returned %zu", n)); outcome("unhex-too-small"); return; } // does not fit: nothing may be reported
  eqn(n, w.size(), "unhex-length", ctx); eq(sub(out.b(), 0, n), w, "unhex", ctx); outcome("unhex-ok"); Exact o2(osz); eqn(fromHex(t, o2.p, osz), w.size(), "unhex-string", ctx); eq(sub(o2.b(), 0, n), w, "unhex-string", ctx);
}
static void hextexts() { static const std::string al("0123456789abcdefABCDEFgG/:@`\0 \xff\xb0", 32); size_t l = choose(thorough ? 6 : 5); std::string t; for (size_t i = 0; i < l; i++) t += i < 3 || thorough ? al[choose(al.size())] : al[choose(8) * 4]; hexdec(t, l); }
static void hexchars() { std::string t = "12ab"; t[choose(4)] = choose(256); hexdec(t, 4); }
static void hexsizes() { bytes b = shape(9); size_t k = choose(2 * b.size() + 4); hexenc(b, k); std::string t = ref::hex(b); if (flip()) t = "x:" + t; if (flip()) t += "0"; hexdec(t, choose(b.size() + 3)); }
// ---- binary digits
static void binenc(const bytes &b, size_t osz) { std::string want; for (uint8_t c : b) for (int j = 7; j >= 0; j--) want += (c >> j & 1) ? '1' : '0'; std::string ctx = fmt("%s into %zu", ref::hex(b).c_str(), osz); Exact in(b), out(osz); size_t n = toBin(in.p, in.n, out.c(), osz); step(); if (osz < want.size()) eqn(n, 0, "bin-too-small", ctx); else { eqn(n, want.size(), "bin-length", ctx); eq(std::string(out.c(), n), want, "bin", ctx); } eq(toBin(in.p, in.n), want, "bin-string", ctx); Exact o(b.size()), tt(want); eqn(fromBin(tt.c(), tt.n, o.p, o.n), b.size(), "unbin-length", ctx); eq(o.b(), b, "unbin", ctx); state(ref::fnv(b, 3 + osz)); outcome("bin-ok"); }
static void bindec(const std::string &t, size_t osz) { bool good = true; for (char c : t) good &= c == '0' || c == '1'; size_t len = (t.size() + 7) / 8; std::string p = std::string(len * 8 - t.size(), '0') + t; bytes w(len, 0); for (size_t i = 0; i < p.size(); i++) if (p[i] == '1') w[i / 8] |= 0x80 >> (i % 8); std::string ctx = fmt("'%s' into %zu", t.c_str(), osz); Exact in(t), out(osz); size_t n = fromBin(in.c(), in.n, out.p, osz); step(); state(ref::fnv(t, 4 + osz)); if (!good || osz < len) { eqn(n, 0, good ? "unbin-too-small" : "unbin-bad-character", ctx); outcome(good ? "unbin-too-small" : "unbin-rejected"); return; } eqn(n, len, "unbin-length", ctx); eq(sub(out.b(), 0, n), w, "unbin", ctx); Exact o2(osz); eqn(fromBin(t, o2.p, osz), len, "unbin-string", ctx); outcome("unbin-ok"); }
static void bintexts() { size_t l = choose(20); std::string t; for (size_t i = 0; i < l; i++) t += l <= 8 ? '0' + choose(2) : (i * 5 + l) % 3 ? '1' : '0'; int k = choose(3); if (k && l) { size_t p = choose(l); if (k == 2) t[p] = choose(256); } bindec(t, choose(5)); }
static void binlong() { size_t l = 2000 + choose(110), k = choose(3); std::string t(l, '0'); for (size_t i = 0; i < l; i += 1 + k * 3) t[i] = '1'; bindec(t, 300); }
// ---- base64
static const int FL[] = {BASE64_STANDARD, BASE64_NOPADDING, BASE64_URLSAFE, BASE64_NOPADDING | BASE64_URLSAFE};
static void b64enc(const bytes &b, int fl, size_t osz) {
  std::string want = ref::b64(b, fl & 1, fl & 2), ctx = fmt("%s flags %d into %zu", cutstr(ref::hex(b)).c_str(), fl, osz); Exact in(b), out(osz); eqn(toBase64Length(in.p, in.n, fl), want.size(), "b64-announced-length", ctx); size_t n = toBase64(in.p, in.n, out.c(), osz, fl); step(); state(ref::fnv(b, 5 + fl * 131 + osz));
  if (osz < want.size()) { eqn(n, 0, "b64-too-small", ctx); outcome("b64-too-small"); } else { eqn(n, want.size(), "b64-length", ctx); eq(std::string(out.c(), n), want, "b64", ctx); if (osz > n) ok(out.p[n] == 0, "b64-terminator", ctx); outcome("b64-ok"); } }
// accepted: any number of complete groups, last one possibly padded (or shortened when padding is off; padding stays allowed there)
static bool b64model(const std::string &t, int fl, bytes &w) {
  w.clear(); std::string s = t; bool np = fl & 1; if (!np && s.size() % 4) return false; if (s.size() % 4 == 0) { int e = 0; while (e < 2 && !s.empty() && s.back() == '=') { s.pop_back(); e++; } } if (s.size() % 4 == 1) return false;
  uint32_t acc = 0; int bits = 0; for (char c : s) { int v = c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' || (c == '-' && (fl & 2)) ? 62 : c == '/' || (c == '_' && (fl & 2)) ? 63 : -1; if (v < 0) return false; acc = (acc << 6 | v) & 0xffffff; bits += 6; if (bits >= 8) { bits -= 8; w.push_back(acc >> bits & 255); } } return true;
}
static void b64dec(const std::string &t, int fl, size_t osz) {
  bytes w; bool good = b64model(t, fl, w); std::string ctx = fmt("'%s' (%s) flags %d into %zu", cutstr(t, 100).c_str(), cutstr(ref::hex(ref::B(t)), 100).c_str(), fl, osz); Exact in(t), out(osz); size_t n = fromBase64(in.c(), in.n, out.p, osz, fl); step(); state(ref::fnv(t, 6 + fl * 131 + osz));
  if ((fl & 1) && t.find('=') != std::string::npos) { ok(n == 0 || (good && n == w.size() && sub(out.b(), 0, n) == w), "unb64-padded-in-unpadded", ctx); outcome("unb64-padded-in-unpadded"); return; }
  if (!good) { eqn(n, 0, "unb64-malformed", ctx); outcome("unb64-rejected"); return; } if (osz < w.size()) { eqn(n, 0, "unb64-too-small", ctx); outcome("unb64-too-small"); return; }
  eqn(n, w.size(), "unb64-length", ctx); eq(sub(out.b(), 0, n), w, "unb64", ctx); eqn(fromBase64Length(in.c(), in.n, fl), w.size(), "unb64-announced-length", ctx); Exact o2(osz); eqn(fromBase64(t, o2.p, osz, fl), n, "unb64-string", ctx); eq(sub(o2.b(), 0, n), w, "unb64-string", ctx); outcome("unb64-ok");
}
static void b64small() { int fl = FL[choose(4)]; bytes b = anybytes(2, thorough ? 5 : 4); std::string t = ref::b64(b, fl & 1, fl & 2); b64enc(b, fl, t.size() + 1); b64dec(t, fl, b.size()); Exact in(b); eq(toBase64(in.p, in.n, fl), t, "b64-string", ref::hex(b)); }
static void b64shapes() { int fl = FL[choose(4)]; bytes b = shape(thorough ? 200 : 70); std::string t = ref::b64(b, fl & 1, fl & 2); b64enc(b, fl, t.size()); b64dec(t, fl, b.size()); eq(base64ToHex(t, fl), ref::hex(b), "base64ToHex", t); eq(hexToBase64(ref::hex(b), fl), t, "hexToBase64", t); }
static void b64sizes() { int fl = FL[choose(4)]; bytes b = shape(11); std::string t = ref::b64(b, fl & 1, fl & 2); size_t k = choose(t.size() + 4 + b.size() + 3); if (k < t.size() + 4) b64enc(b, fl, k); else b64dec(t, fl, k - t.size() - 4); }
static void b64texts() { int fl = FL[choose(4)]; static const std::string al("AZaz09+/-_=\0 B", 14); size_t l = choose(thorough ? 7 : 6); std::string t; if (flip()) t = "QUJD"; for (size_t i = 0; i < l; i++) t += al[choose(al.size())]; b64dec(t, fl, t.size()); }
static void b64chars() { int fl = FL[choose(4)]; std::string t = choose(2) ? "TWFuTQ==" : "TWFuTWE="; if (fl & 1) while (t.back() == '=') t.pop_back(); t[choose(t.size())] = choose(256); b64dec(t, fl, 8); }
static void b64pad() { int fl = FL[choose(4)]; std::string t = "TWFuTWFuTWFu"; unsigned m = choose(4096); for (int i = 0; i < 12; i++) if (m >> i & 1) t[i] = '='; b64dec(t.substr(0, 4 + choose(9)), fl, 12); }
// lengths at which 8-, 13- and 16-bit counters of bytes or characters would wrap
static void longs() { static const size_t L[] = {127, 128, 255, 256, 257, 4095, 4096, 8191, 8192, 8193, 16383, 16384, 32767, 32768, 32769, 49151, 49152, 49153, 65535, 65536, 65537}; size_t n = L[choose(21)]; int what = choose(6); bytes b = repeat(n, n); for (size_t i = 1; i < n; i++) b[i] = b[i - 1] * 5 + 7 + (i >> 8); if (what == 0) { hexenc(b, 2 * n); hexdec(ref::hex(b), n); } else if (what == 1) binenc(b, 8 * n); else { int fl = FL[what - 2]; std::string t = ref::b64(b, fl & 1, fl & 2); b64enc(b, fl, t.size() + 1); b64dec(t, fl, n); eq(base64ToHex(t, fl), ref::hex(b), "base64ToHex", fmt("%zu bytes", n)); eq(hexToBase64(ref::hex(b), fl), t, "hexToBase64", fmt("%zu bytes", n)); } state(ref::fnv(fmt("long%zu %d", n, what))); outcome("long"); }
void define_spaces() {
  space("long", 2, [] { longs(); });
  space("hex-small", 2, [] { bytes b = anybytes(2, 4); hexenc(b, 2 * b.size() + 1); hexdec(ref::hex(b), b.size()); }); space("hex-texts", 3, [] { hextexts(); }); space("hex-chars", 1, [] { hexchars(); }); space("hex-sizes", 3, [] { hexsizes(); });
  space("bin-small", 2, [] { bytes b = anybytes(2, 4); binenc(b, 8 * b.size()); }); space("bin-sizes", 2, [] { bytes b = shape(6); binenc(b, choose(8 * b.size() + 3)); }); space("bin-texts", 3, [] { bintexts(); }); space("bin-long", 2, [] { binlong(); });
  space("b64-small", 3, [] { b64small(); }); space("b64-shapes", 2, [] { b64shapes(); }); space("b64-sizes", 3, [] { b64sizes(); }); space("b64-texts", 4, [] { b64texts(); }); space("b64-chars", 2, [] { b64chars(); }); space("b64-pad", 2, [] { b64pad(); });
}
