// C26: DER and fixed-size codecs of signatures. All pairs of byte lengths with and without the high bit are encoded and
// decoded; every combination of the three length bytes, every byte substitution, truncation and extension is decoded
// through every entry point and judged against an independent strict DER decoder.
#include "lib.h"
using ref::U;
struct D { int v = 0; size_t used = 0; bytes r, s; }; // v: 1 accepted, 0 incomplete, -1 malformed
static bool intv(const bytes &b, bytes &out) { if (b.empty() || (b[0] & 0x80)) return false; if (b.size() > 1 && b[0] == 0 && !(b[1] & 0x80)) return false; bytes t = b; if (t.size() == 33) { if (t[0]) return false; t.erase(t.begin()); } if (t.size() > 32) return false; out = bytes(32 - t.size(), 0); ref::app(out, t); return true; }
static D dec(const bytes &b) { D d; size_t n = b.size(), p = 0; auto bad = [&] { d.v = -1; return d; }; if (n > 0 && b[0] != 0x30) return bad(); if (n < 2) return d; size_t L = b[1]; if (n > 2 && b[2] != 2) return bad(); if (n < 4) return d; size_t lr = b[3]; p = 4; if (lr == 0 || lr > 33 || lr + 5 > L) return bad(); // no room for s
  if (n < p + lr) { d.v = 0; return d; } if (!intv(sub(b, p, lr), d.r)) return bad(); p += lr; if (n > p && b[p] != 2) return bad(); if (n < p + 2) return d; size_t ls = b[p + 1]; if (ls == 0 || ls > 33 || L != 4 + lr + ls) return bad(); p += 2; if (n < p + ls) return d; if (!intv(sub(b, p, ls), d.s)) return bad(); d.v = 1; d.used = p + ls; return d; }
static void same(Signature &g, const D &w, const char *how, const bytes &in) { std::string ctx = std::string(how) + " of " + ref::hex(in); step(); parse_status st = g.getStatus();
  if (w.v == 1) { ok(st == PARSING_DONE, "valid-encoding-rejected", ctx); eq(binof(g), ref::cat(w.r, w.s), "decoded", ctx); bytes e = sub(in, 0, w.used); eq(derof(g), e, "re-encoded", ctx); eq(ser(g), e, "serialized", ctx); eqn(g.length(), e.size(), "length", ctx); outcome("accepted"); }
  else { ok(st != PARSING_DONE, "malformed-encoding-accepted", ctx); ok(!g.isValid() && !bool(g), "rejected-but-valid", ctx); outcome(w.v ? "malformed" : "incomplete"); } }
static void entry(const bytes &b, bool full) { D w = dec(b); state(b);
  { Exact e(b); Signature g; size_t n = g.fromDer(e.p, e.n); ok(n <= b.size(), "consumed", ref::hex(b)); if (w.v == 1) eqn(n, w.used, "consumed", ref::hex(b)); same(g, w, "fromDer", b); }
  { Exact e(b); Signature g(e.p, e.n); same(g, w, "Signature(bytes, length)", b); }
  if (full) { std::string h = ref::hex(b); Signature g(h.c_str()); same(g, w, "Signature(text)", b); Signature q; q.parse(h); same(q, w, "parse text", b); if (b.size() >= 2 && b.size() >= (size_t)b[1] + 2) { Exact e(b); Signature p((const uint8_t *)e.p); same(p, dec(sub(b, 0, b[1] + 2)), "Signature(bytes)", b); }
    if (w.v == 1) { Signature x(w.r.data(), w.s.data()); ok(x == q && !(x != q), "equality", h); eq(x.toString(), ref::hex(sub(b, 0, w.used)), "text", h); } } }
static bytes num(int len, int hi, int fillk) { bytes b(32, 0); for (int i = 32 - len; i < 32; i++) b[i] = fillk == 0 ? 0 : fillk == 1 ? 0xff : (uint8_t)(i * 29 + 3); if (len) b[32 - len] = hi == 0 ? 0x01 : hi == 1 ? 0x7f : hi == 2 ? 0x80 : 0xff; return b; }
static void lens() { int lr = choose(33), hr = lr ? choose(4) : 0, ls = choose(33), hs = ls ? choose(4) : 0, f = choose(3); bytes r = num(lr, hr, f), s = num(ls, hs, (f + 1) % 3); Signature g(r.data(), s.data()); bytes want = ref::der(ref::fromB(r), ref::fromB(s)); std::string ctx = ref::hex(r) + " " + ref::hex(s); eq(derof(g), want, "encoded", ctx); eqn(g.length(), want.size(), "length", ctx); eq(ser(g), want, "serialized", ctx); ok(g.isValid() == (lr || ls), "isValid", ctx); eq(binof(g), ref::cat(r, s), "binary", ctx);
  D w = dec(want); ok(w.v == 1 && w.r == r && w.s == s, "model", ctx); Signature q; q.fromDer(want.data(), want.size()); ok(q.getStatus() == PARSING_DONE, "valid-encoding-rejected", ctx); eq(binof(q), ref::cat(r, s), "decoded", ctx); ok(q == g, "equality", ctx); if (f == 2) { bytes t = want; t.push_back(1); entry(t, true); } step(2); state(want); }
static void bufs() { static const int L[] = {0, 1, 31, 32}; bytes r = num(L[choose(4)], choose(4), 2), s = num(L[choose(4)], choose(4), 2); Signature g(r.data(), s.data()); bytes want = ref::der(ref::fromB(r), ref::fromB(s)); size_t n = choose(want.size() + 4); Exact b(n); size_t k = g.der(b.p, n); std::string ctx = fmt("buffer %zu ", n) + ref::hex(want); if (n < want.size()) eqn(k, 0, "short-buffer", ctx); else { eqn(k, want.size(), "returned", ctx); eq(sub(b.b(), 0, k), want, "encoded", ctx); } step(); state(ref::fnv(want, n)); outcome(k ? "fits" : "too-small"); }
static void bin() { bytes r = num(choose(33), 2, 2), s = num(choose(33), 1, 2); uint8_t ix = choose(4); size_t n = choose(70); bytes all = ref::cat(ref::cat(r, s), {ix}); Signature g(r.data(), s.data()); g.index = ix; Exact b(n, 0xAB); g.bin(b.p, n); bytes want = sub(all, 0, n); bytes got = sub(b.b(), 0, std::min<size_t>(n, 65)); eq(got, want, "binary-form", fmt("size %zu", n)); step();
  Exact in(sub(all, 0, n)); Signature q; int before = choose(n >= 64 ? 5 : 1); { static const bytes old = ref::der(ref::fromB(repeat(32, 4)), ref::fromB(repeat(31, 9))); if (before == 1) q.fromDer(old.data(), old.size()); if (before == 2) q.fromDer(old.data(), 20); if (before == 3) { bytes bad = old; bad[2] = 3; q.fromDer(bad.data(), bad.size()); } if (before == 4) { bytes f(65, 3); q.fromBin(f.data(), 65); } } q.fromBin(in.p, in.n); uint8_t o[65]; q.bin(o, 65); bytes w = sub(all, 0, n); w.resize(65, 0); size_t cmp = before && n < 65 ? 64 : 65; eq(bytes(o, o + cmp), sub(w, 0, cmp), "from-binary", fmt("size %zu, object state %d", n, before)); if (n >= 64) { ok(q == g, "equality", ""); ok(q.isValid() == (r != bytes(32, 0) || s != bytes(32, 0)), "isValid", ""); eq(derof(q), ref::der(ref::fromB(r), ref::fromB(s)), "encoded", ""); } state(ref::fnv(ref::cat(w, {(uint8_t)n}))); outcome("binary"); }
static std::vector<bytes> &ENC() { static std::vector<bytes> v; if (v.empty()) { for (int a : {0, 1, 2, 31, 32}) for (int h : {0, 2}) for (int b : {1, 32}) for (int k : {0, 3}) v.push_back(ref::der(ref::fromB(num(a, h, 2)), ref::fromB(num(b, k, 1)))); } return v; }
static void subst() { bytes e = pick(ENC()); size_t i = choose(e.size()); e[i] = choose(256); bool t = flip(); if (t) e.push_back(0x01); entry(e, t); }
static void cut() { bytes e = pick(ENC()); size_t i = choose(e.size() + 8); if (i < e.size()) e.resize(i); else while (e.size() < i) e.push_back(choose(3)); entry(e, true); }
static void indel() { bytes e = pick(ENC()); size_t i = choose(e.size() + 1); int k = choose(6); static const uint8_t iv[] = {0, 1, 2, 0x30, 0x80}; if (k == 5) { if (i < e.size()) e.erase(e.begin() + i); } else e.insert(e.begin() + i, iv[k]); int fix = choose(3); if (fix && e.size() > 3) { e[1] = e.size() - 2; if (fix == 2) e[3] += k == 5 ? -1 : 1; } entry(e, true); }
// all combinations of the three lengths
static void triple() { int L = choose(thorough ? 256 : 80), lr = choose(thorough ? 80 : 38), k = choose(4); for (int ls = 0; ls < (thorough ? 80 : 38); ls++) { auto body = [&](int n) { bytes b(n, 0x55); if (n > 0) b[0] = k == 0 ? 1 : k == 1 ? 0x80 : 0; if (n > 1) b[1] = k == 2 ? 0x80 : k == 3 ? 0x7f : 0x11; return b; }; bytes e = {0x30, (uint8_t)L, 2, (uint8_t)lr}; ref::app(e, body(lr)); ref::app(e, {2, (uint8_t)ls}); ref::app(e, body(ls)); entry(e, false); } }
static void history() { std::vector<bytes> C = {ENC()[0], ENC()[6], ENC()[18], {0x30, 0x06, 0x02, 0x02, 0, 1}, sub(ENC()[6], 0, 20), {0x31}}; Signature g; std::string tr; for (int d = 0; d < 3; d++) { int c = choose(6); tr += fmt(" %d", c); if (g.getStatus() != PARSING_DONE) g.reset(); g.parse(C[c].data(), C[c].size()); D w = dec(C[c]); if (g.getStatus() == PARSING_DONE && w.v == 1) same(g, w, "history", C[c]); else ok((g.getStatus() == PARSING_DONE) == (w.v == 1), "history-verdict", tr); } state(ref::fnv(tr)); }
void define_spaces() { ENC(); space("lengths", 2, [] { lens(); }); space("buffers", 2, [] { bufs(); }); space("binary", 2, [] { bin(); }); space("substitute", 2, [] { subst(); }); space("cut", 2, [] { cut(); }); space("insert-delete", 2, [] { indel(); }); space("length-triples", 1, [] { triple(); }); space("history", 1, [] { history(); }); }
