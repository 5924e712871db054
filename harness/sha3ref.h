// SHA-3 / Keccak from FIPS 202: round constants from the LFSR, offsets from the (x,y) walk.
#pragma once
#include "ref.h"
namespace ref {
inline bytes sha3(const bytes &m, int bits, uint8_t pad) {
  size_t rate = 200 - bits / 4; bytes d = m; d.push_back(pad); while (d.size() % rate) d.push_back(0); d.back() |= 0x80;
  static uint64_t RC[24]; static int rot[5][5]; static bool init = false;
  if (!init) { uint8_t l = 1; for (int r = 0; r < 24; r++) { RC[r] = 0; for (int j = 0; j < 7; j++) { if (l & 1) RC[r] |= 1ULL << ((1 << j) - 1); l = (l << 1) ^ (l & 0x80 ? 0x71 : 0); } } int x = 1, y = 0; rot[0][0] = 0; for (int t = 0; t < 24; t++) { rot[x][y] = (t + 1) * (t + 2) / 2 % 64; int n = (2 * x + 3 * y) % 5; x = y; y = n; } init = true; }
  uint64_t a[5][5]; memset(a, 0, sizeof a); auto rl = [](uint64_t v, int n) { return n ? v << n | v >> (64 - n) : v; };
  for (size_t o = 0; o < d.size(); o += rate) {
    for (size_t i = 0; i < rate; i++) a[i / 8 % 5][i / 40] ^= (uint64_t)d[o + i] << (8 * (i % 8));
    for (int r = 0; r < 24; r++) { uint64_t c[5], b[5][5];
      for (int x = 0; x < 5; x++) { c[x] = 0; for (int y = 0; y < 5; y++) c[x] ^= a[x][y]; }
      for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) b[y][(2 * x + 3 * y) % 5] = rl(a[x][y] ^ c[(x + 4) % 5] ^ rl(c[(x + 1) % 5], 1), rot[x][y]);
      for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) a[x][y] = b[x][y] ^ (~b[(x + 1) % 5][y] & b[(x + 2) % 5][y]);
      a[0][0] ^= RC[r]; } }
  bytes out; for (int i = 0; i < bits / 8; i++) out.push_back((uint8_t)(a[i / 8 % 5][i / 40] >> (8 * (i % 8)))); return out; }
}
