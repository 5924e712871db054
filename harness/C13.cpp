// C13: Base58 / Base58Check / Base43. All byte strings and texts up to a length, all (leading zero count,
// body pattern) shapes at larger lengths, all output buffer sizes, all single-character changes of Base58Check
// texts; judged against a big-number radix converter.
#include "lib.h"
#include "Conversion.h"
struct Codec { const char *name; std::string al; size_t (*enc)(const uint8_t *, size_t, char *, size_t); size_t (*elen)(const uint8_t *, size_t); std::string (*encs)(const uint8_t *, size_t); size_t (*dec)(const char *, size_t, uint8_t *, size_t); size_t (*decs)(std::string, uint8_t *, size_t); size_t (*dlen)(const char *, size_t); };
static const Codec C58{"58", ref::A58, toBase58, toBase58Length, toBase58, fromBase58, fromBase58, fromBase58Length}, C43{"43", ref::A43, toBase43, toBase43Length, toBase43, fromBase43, fromBase43, fromBase43Length};
// the text before the first character outside the alphabet is what is decoded
static bytes dec_want(const Codec &c, const std::string &s) { size_t n = 0; while (n < s.size() && s[n] && c.al.find(s[n]) != std::string::npos) n++; bytes b; ok(ref::radix_dec(s.substr(0, n), c.al, b), "model"); return b; }
static void encode(const Codec &c, const bytes &b, size_t osz, const std::string &ctx) {
  std::string want = ref::radix_enc(b, c.al); Exact in(b), out(osz); size_t n = c.enc(in.p, in.n, out.c(), osz); step(); size_t need = c.elen(in.p, in.n); ok(need >= want.size(), std::string("length") + c.name, ctx);
  if (osz < want.size()) { eqn(n, 0, std::string("too-small") + c.name, ctx); outcome("enc-too-small"); return; }
  if (n == 0 && osz < need && !want.empty()) { outcome("enc-refused-below-estimate"); return; }
  eqn(n, want.size(), std::string("encode-length") + c.name, ctx); eq(std::string(out.c(), n), want, std::string("encode") + c.name, ctx); if (osz > n) ok(out.p[n] == 0, std::string("terminator") + c.name, ctx); outcome("enc-ok");
}
static void decode(const Codec &c, const std::string &t, size_t osz, const std::string &ctx) {
  bytes want = dec_want(c, t); Exact in(t), out(osz); size_t n = c.dec(in.c(), in.n, out.p, osz); step(); if (osz < want.size()) { eqn(n, 0, std::string("dec-too-small") + c.name, ctx); outcome("dec-too-small"); return; }
  eqn(n, want.size(), std::string("decode-length") + c.name, ctx); eq(sub(out.b(), 0, n), want, std::string("decode") + c.name, ctx); outcome("dec-ok");
}
static void both(const Codec &c, const bytes &b) { std::string ctx = ref::hex(b), t = ref::radix_enc(b, c.al); Exact in(b); encode(c, b, c.elen(in.p, in.n) + 1, ctx); eq(c.encs(in.p, in.n), t, std::string("encode-string") + c.name, ctx); decode(c, t, b.size(), ctx); Exact o2(b.size() + 8); eqn(c.decs(t, o2.p, o2.n), b.size(), std::string("decode-string") + c.name, ctx); eq(sub(o2.b(), 0, b.size()), b, std::string("decode-string") + c.name, ctx); state(ref::fnv(b, c.al.size())); }
static bytes body(size_t n, int p) { bytes b(n); for (size_t i = 0; i < n; i++) switch (p) { case 0: b[i] = 0xff; break; case 1: b[i] = i == 0; break; case 2: b[i] = i == 0 ? 0x80 : 0; break; case 3: b[i] = 1 + i * 7; break; case 4: b[i] = i + 1 == n ? 0xff : i == 0 ? 1 : 0; break; case 5: b[i] = 57 + 0 * i; break; default: b[i] = 0x9d ^ (i * 151); } if (n && !b[0]) b[0] = 1; return b; }
static void small(const Codec &c) { size_t l = choose(4); bytes b; static const uint8_t v[] = {0, 1, 42, 43, 57, 58, 127, 128, 254, 255}; for (size_t i = 0; i < l; i++) b.push_back(l < 3 || i == 0 || thorough ? choose(256) : v[choose(10)]); both(c, b); }
static void shapes(const Codec &c) { size_t z = choose(thorough ? 80 : 42), n = choose(thorough ? 132 : 72); int p = choose(7); both(c, ref::cat(bytes(z, 0), body(n, p))); }
static void manyzero(const Codec &c) { static const size_t zs[] = {126, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513}; size_t z = zs[choose(13)], n = choose(6); int p = choose(7); both(c, ref::cat(bytes(z, 0), body(n, p))); }
static void sizes(const Codec &c) { size_t z = choose(6), n = choose(20); int p = choose(7); bytes b = ref::cat(bytes(z, 0), body(n, p)); std::string t = ref::radix_enc(b, c.al); size_t k = choose(t.size() + 5 + b.size() + 3); state(ref::fnv(b, 777 + k)); if (k < t.size() + 5) encode(c, b, k, fmt("%s into %zu", ref::hex(b).c_str(), k)); else decode(c, t, k - t.size() - 5, fmt("'%s' into %zu", t.c_str(), k - t.size() - 5)); }
static void texts(const Codec &c) { size_t l = choose(thorough ? 5 : 4); std::string al = c.al + std::string("\0", 1) + (c.al.size() == 58 ? "0OIl \xff" : "a~ \xff"), t; for (size_t i = 0; i < l; i++) t += i < 3 ? al[choose(al.size())] : al[choose(9) * al.size() / 9]; decode(c, t, 8, ref::hex(ref::B(t))); state(ref::fnv(t, c.al.size() * 3)); }
static void stops(const Codec &c) { // a text followed by, or interrupted by, characters outside the alphabet
  bytes b = ref::cat(bytes(choose(4), 0), body(choose(9), choose(7))); std::string t = ref::radix_enc(b, c.al); size_t pos = choose(t.size() + 1); int ch = choose(256); t.insert(pos, 1, (char)ch); decode(c, t, 24, ref::hex(ref::B(t))); state(ref::fnv(t, 99)); }
static bytes pay(size_t n, int p) { bytes b = body(n, p); if (p == 1 && n) b[0] = 0; return b; }
static void check1(bool subst) {
  size_t n = choose(subst ? 5 : thorough ? 90 : 60); static const size_t ln[] = {0, 1, 21, 34, 78}; if (subst) n = ln[n]; bytes b = subst ? pay(n, choose(3)) : ref::cat(bytes(choose(4), 0), pay(n, choose(7))); std::string t = ref::b58c(b), ctx = ref::hex(b); n = b.size();
  if (!subst) { Exact in(b); eq(toBase58Check(in.p, in.n), t, "check-encode-string", ctx); Exact o(t.size() + 4); size_t l = toBase58Check(in.p, in.n, o.c(), o.n); eq(std::string(o.c(), l), t, "check-encode", ctx); for (size_t osz = n > 3 ? n - 3 : 0; osz <= n + 6; osz++) { Exact out(osz), tt(t); size_t r = fromBase58Check(tt.c(), tt.n, out.p, osz); step(); if (osz < n) eqn(r, 0, "check-too-small", ctx); else { eqn(r, n, "check-decode-length", ctx); eq(sub(out.b(), 0, n), b, "check-decode", ctx); } } Exact out(n); eqn(fromBase58Check(t, out.p, n), n, "check-decode-string", ctx); eq(out.b(), b, "check-decode-string", ctx); state(ref::fnv(b, 5)); outcome("check-ok"); return; }
  size_t pos = choose(t.size()); int op = choose(3); std::string m = t; if (op == 0) m[pos] = ref::A58[choose(58)]; else if (op == 1) m.insert(pos, 1, ref::A58[choose(58)]); else m.erase(pos, 1);
  bytes want; bool good = ref::b58cdec(m, want); Exact in(m), out(100); size_t r = fromBase58Check(in.c(), in.n, out.p, out.n); step(); if (good) { eqn(r, want.size(), "check-accepts", m); eq(sub(out.b(), 0, r), want, "check-accepts", m); outcome("check-changed-valid"); } else { eqn(r, 0, "check-accepts-corrupted", m); outcome("check-rejected"); } state(ref::fnv(m, 6));
}
// long strings: sizes around powers of two and where products with the size constants pass 16 bits
static void longs(const Codec &c) { static const std::vector<size_t> L = {100, 132, 133, 134, 135, 181, 182, 183, 188, 189, 249, 250, 255, 256, 257, 299, 358, 359, 478, 511, 512, 513, 640, 963, 964, 1024, 1170, 1171}; size_t n = L[choose(thorough ? L.size() : L.size() - 4)]; size_t z = choose(3); int p = choose(7); both(c, ref::cat(bytes(z, 0), body(n, p))); }
// right text form, wrong checksum: every value of each of its bytes
static void checksum() { static const size_t ln[] = {0, 1, 20, 21, 33, 34, 78}; bytes b = pay(ln[choose(7)], choose(3)), c = ref::dsha(b); int i = choose(4), v = choose(256); bool good = c[i] == v; c[i] = v; std::string t = ref::b58(ref::cat(b, sub(c, 0, 4))), ctx = fmt("checksum byte %d = %02x, ", i, v) + t; Exact in(t), out(100); size_t r = fromBase58Check(in.c(), in.n, out.p, out.n); eqn(r, good ? b.size() : 0, "check-one-byte", ctx); eqn(fromBase58Check(t, out.p, out.n), good ? b.size() : 0, "check-one-byte-string", ctx); step(2); state(ref::fnv(t, 8)); outcome(good ? "check-ok" : "check-rejected"); }
void define_spaces() {
  for (auto *c : {&C58, &C43}) { std::string n = c->name; space("small" + n, 2, [=] { small(*c); }); space("shapes" + n, 2, [=] { shapes(*c); }); space("manyzero" + n, 2, [=] { manyzero(*c); }); space("sizes" + n, 2, [=] { sizes(*c); }); space("texts" + n, 2, [=] { texts(*c); }); space("stops" + n, 3, [=] { stops(*c); }); }
  for (auto *c : {&C58, &C43}) { std::string n = c->name; space("long" + n, 2, [=] { longs(*c); }); } space("checksum", 2, [] { checksum(); }); space("check", 2, [] { check1(false); }); space("check-changed", 3, [] { check1(true); });
}
