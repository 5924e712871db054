// C15: integer and varint codecs: all 16/17-bit values, all values around powers of two, all byte patterns of
// the boundary alphabet, all buffer sizes.
#include "lib.h"
#include "Conversion.h"
static uint64_t value() { int k = choose(4); if (k == 0) return choose(thorough ? 1u << 22 : 70000); if (k == 1) { int b = choose(64), d = choose(9); return (1ULL << b) + d - 4; } if (k == 2) { uint64_t v = 0; static const uint8_t a[] = {0, 0x7f, 0x80, 0xff}; for (int i = 0; i < 8; i++) v = v << 8 | a[choose(4)]; return v; } return (uint64_t)choose(65536) << (1 + 16 * choose(3) - 1) | 0; }
static void ends() { uint64_t v = value(); for (int n = 0; n <= 8; n++) { std::string ctx = fmt("%llx in %d bytes", (unsigned long long)v, n); uint64_t m = n == 8 ? v : v & ((1ULL << (8 * n)) - 1); Exact l(n), b(n); intToLittleEndian(v, l.p, n); intToBigEndian(v, b.p, n); step(4); eq(l.b(), ref::le(v, n), "little", ctx); eq(b.b(), ref::be(v, n), "big", ctx); eqn(littleEndianToInt(l.p, n), m, "from-little", ctx); eqn(bigEndianToInt(b.p, n), m, "from-big", ctx); } state(v * 3 + 1); outcome("int-ok"); }
static void vi() { uint64_t v = value(); bytes w = ref::varint(v); std::string ctx = fmt("%llx", (unsigned long long)v); eqn(lenVarInt(v), w.size(), "varint-length", ctx); for (size_t n = 0; n <= 11; n++) { Exact o(n); size_t r = writeVarInt(v, o.p, n); step(); if (n < w.size()) { eqn(r, 0, "varint-too-small", ctx); for (size_t i = 0; i < n; i++) ok(o.p[i] == 0xC3, "varint-partial", ctx); } else { eqn(r, w.size(), "varint-write", ctx); eq(sub(o.b(), 0, r), w, "varint-write", ctx); for (size_t i = r; i < n; i++) ok(o.p[i] == 0xC3, "varint-writes-beyond", ctx); }
    Exact in(sub(ref::cat(w, repeat(4, 0x77)), 0, n)); uint64_t g = readVarInt(in.p, in.n); step(); if (n < w.size()) eqn(g, 0, "varint-read-short", ctx + fmt(" from %zu", n)); else eqn(g, v, "varint-read", ctx + fmt(" from %zu", n)); } state(v * 5 + 2); outcome("varint-ok"); }
static void raw() { bytes b; int f = choose(256); b.push_back(f); static const uint8_t a[] = {0, 1, 0x80, 0xff}; size_t need = f < 0xfd ? 1 : f == 0xfd ? 3 : f == 0xfe ? 5 : 9; int p = choose(4); for (int i = 0; i < 8; i++) b.push_back(a[(p + i * (p + 1)) & 3]); size_t n = choose(10); b.resize(n); Exact in(b); uint64_t g = readVarInt(in.p, n); step(); uint64_t w = 0; if (n >= need) { if (need == 1) w = f; else for (size_t i = need; i-- > 1;) w = w << 8 | b[i]; } eqn(g, w, "varint-any-bytes", ref::hex(b)); state(ref::fnv(b, 9)); outcome("raw-ok"); }
void define_spaces() { space("endian", 2, [] { ends(); }); space("varint", 2, [] { vi(); }); space("varint-bytes", 2, [] { raw(); }); }
