// Catalogue of well-formed encodings per object type (all built by the reference model).
#pragma once
#include "lib.h"
using ref::RTx; using ref::RIn; using ref::ROut;
inline RIn rin(uint8_t s, size_t siglen, uint32_t idx, uint32_t seq, std::vector<bytes> w = {}) { return RIn{repeat(32, s), idx, repeat(siglen, s + 1), seq, w}; }
inline ROut rout(uint64_t a, size_t n, uint8_t s = 9) { return ROut{a, repeat(n, s)}; }
inline std::vector<RTx> tx_catalog(bool big = false) {
  std::vector<RTx> v; RTx t;
  t = RTx(); t.ver = 1; t.in = {rin(1, 0, 0, 0xffffffff)}; t.out = {rout(0, 0)}; t.lock = 0; v.push_back(t);
  t = RTx(); t.ver = 2; t.in = {rin(2, 3, 0x01020304, 0xfffffffe)}; t.out = {rout(0x0102030405060708ULL, 2)}; t.lock = 0x89abcdef; v.push_back(t);
  t = RTx(); t.ver = 0xf1f2f3f4; t.in = {rin(3, 0, 0xffffffff, 0x80000000), rin(4, 1, 7, 1)}; t.out = {rout(1, 1), rout(0xffffffffffffffffULL, 0)}; t.lock = 1; v.push_back(t);
  t = RTx(); t.ver = 2; t.in = {rin(5, 0, 1, 0, {repeat(2, 1)})}; t.out = {rout(5, 3)}; t.lock = 500000; v.push_back(t);
  t = RTx(); t.ver = 2; t.in = {rin(6, 0, 1, 0, {repeat(1, 1), repeat(0, 0), repeat(3, 7)}), rin(7, 2, 2, 3, {})}; t.out = {rout(5, 1)}; t.lock = 7; v.push_back(t);
  t = RTx(); t.ver = 1; t.in = {rin(8, 1, 1, 0, {}), rin(9, 0, 2, 3, {repeat(1, 5)})}; t.out = {rout(5, 1), rout(6, 2)}; t.lock = 9; v.push_back(t);
  t = RTx(); t.ver = 1; t.in = {rin(8, 1, 1, 0, {repeat(2, 4)}), rin(9, 0, 2, 3, {repeat(1, 5), repeat(1, 6)}), rin(10, 0, 0, 9, {repeat(0, 0)})}; t.out = {rout(5, 1), rout(6, 2)}; t.lock = 9; v.push_back(t);
  t = RTx(); t.ver = 1; t.in = {rin(8, 1, 1, 0)}; t.out = {}; t.lock = 2; v.push_back(t);
  if (big) {
    t = RTx(); t.in = {rin(1, 252, 0, 0), rin(2, 253, 0, 0)}; t.out = {rout(1, 252), rout(2, 253)}; v.push_back(t);
    t = RTx(); t.in = {rin(1, 0, 0, 0, {repeat(252, 2), repeat(253, 3)}), rin(2, 256, 1, 1, {repeat(520, 4)})}; t.out = {rout(1, 256), rout(2, 600)}; v.push_back(t);
    t = RTx(); for (int i = 0; i < 5; i++) { t.in.push_back(rin(i, i, i, i)); t.out.push_back(rout(i, i)); } v.push_back(t);
  }
  return v;
}
inline ref::U key_u(int i) { static const char *k[] = {"0000000000000000000000000000000000000000000000000000000000000001", "00000000000000000000000000000000000000000000000000000000deadbeef", "6a5b4c3d2e1f00112233445566778899aabbccddeeff0123456789abcdef0011", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140", "c90fdaa22168c234c4c6628b80dc1cd129024e088a67cc74020bbea63b14e5c9", "7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a0"}; return ref::fromH(k[i]); }
enum { NKEYS = 6 };
inline bytes key_b(int i) { return ref::toB(key_u(i)); }
// ---- PSBT model
struct RKV { bytes k, v; };
inline bytes ser_map(const std::vector<RKV> &m) { bytes r; for (auto &e : m) { ref::app(r, ref::varbytes(e.k)); ref::app(r, ref::varbytes(e.v)); } r.push_back(0); return r; }
struct RPsbt { RTx tx; std::vector<RKV> glob; std::vector<std::vector<RKV>> in, out; };
inline bytes ser_psbt(const RPsbt &p) { bytes r{0x70, 0x73, 0x62, 0x74, 0xff}; std::vector<RKV> g{{bytes{0}, ref::ser_tx(p.tx, false)}}; g.insert(g.end(), p.glob.begin(), p.glob.end()); ref::app(r, ser_map(g)); for (auto &m : p.in) ref::app(r, ser_map(m)); for (auto &m : p.out) ref::app(r, ser_map(m)); return r; }
inline RKV kv_deriv(uint8_t t, const bytes &sec, const bytes &fp, const std::vector<uint32_t> &path) { bytes v = fp; for (uint32_t x : path) ref::app(v, ref::le(x, 4)); return {ref::cat({t}, sec), v}; }
inline RKV kv_sig(const bytes &sec, const bytes &der) { return {ref::cat({2}, sec), ref::cat(der, {1})}; }
// What the library keeps when it serializes a parsed PSBT: the unsigned transaction and the partial signatures
// (documented scope); everything else belongs to the creator of the PSBT and is not echoed.
struct Rd { const bytes &b; size_t p; uint8_t u8() { return b.at(p++); } uint64_t vi() { uint8_t c = u8(); int n = c < 0xfd ? 0 : c == 0xfd ? 2 : c == 0xfe ? 4 : 8; if (!n) return c; uint64_t v = 0; for (int i = 0; i < n; i++) v |= (uint64_t)u8() << (8 * i); return v; } bytes take(size_t n) { bytes r = sub(b, p, n); p += n; return r; } };
inline bytes psbt_expected(const bytes &e) {
  Rd r{e, 5}; bytes out{0x70, 0x73, 0x62, 0x74, 0xff}; std::vector<std::vector<RKV>> maps; while (r.p < e.size()) { std::vector<RKV> m; for (;;) { uint64_t n = r.vi(); if (!n) break; bytes k = r.take(n); uint64_t l = r.vi(); m.push_back({k, r.take(l)}); } maps.push_back(m); }
  Rd t{maps[0][0].v, 4}; size_t nin = t.vi(); for (size_t i = 0; i < maps.size(); i++) { std::vector<RKV> keep; for (auto &kv : maps[i]) if ((i == 0 && kv.k == bytes{0}) || (i >= 1 && i <= nin && kv.k[0] == 2)) keep.push_back(kv); ref::app(out, ser_map(keep)); }
  return out;
}
