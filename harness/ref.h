// Independent reference model. Written from the public specifications (FIPS 180-4, RIPEMD-160, RFC 2104,
// RFC 2898, SEC1/SEC2, RFC 6979, BIP32/39/66/67/143/173/174/340), sharing no code with /repo.
// Deliberately slow and boring. tools/selftest.py cross-checks it against Python's hashlib and big integers.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <array>
#include <algorithm>
#include <map>

namespace ref {
typedef std::vector<uint8_t> bytes;
#ifdef __SIZEOF_INT128__
typedef unsigned __int128 u128;
#else // 32-bit targets
struct u128 { uint64_t lo, hi; u128(uint64_t l = 0, uint64_t h = 0) : lo(l), hi(h) {} explicit operator uint64_t() const { return lo; }
  u128 operator+(const u128 &o) const { u128 r(lo + o.lo, hi + o.hi); if (r.lo < lo) r.hi++; return r; } u128 operator-(const u128 &o) const { u128 r(lo - o.lo, hi - o.hi); if (lo < o.lo) r.hi--; return r; }
  u128 operator*(uint64_t b) const { uint64_t a = lo, al = (uint32_t)a, ah = a >> 32, bl = (uint32_t)b, bh = b >> 32, p = al * bl, q = al * bh, s = ah * bl, t = ah * bh, m = (p >> 32) + (uint32_t)q + (uint32_t)s; return u128((m << 32) | (uint32_t)p, t + (q >> 32) + (s >> 32) + (m >> 32)); } // hi of the left operand is 0 wherever this is used
  u128 &operator+=(const u128 &o) { return *this = *this + o; } u128 operator>>(int) const { return u128(hi); } u128 &operator>>=(int) { lo = hi; hi = 0; return *this; } }; // shifts are by 64
#endif

inline bytes B(const uint8_t *p, size_t n) { return bytes(p, p + n); }
inline bytes B(const std::string &s) { return bytes(s.begin(), s.end()); }
inline bytes cat(const bytes &a, const bytes &b) { bytes r = a; r.insert(r.end(), b.begin(), b.end()); return r; }
inline void app(bytes &a, const bytes &b) { a.insert(a.end(), b.begin(), b.end()); }
inline std::string hex(const bytes &b) {
  static const char *d = "0123456789abcdef";
  std::string s;
  for (uint8_t c : b) { s += d[c >> 4]; s += d[c & 15]; }
  return s;
}
inline std::string hex(const uint8_t *p, size_t n) { return hex(B(p, n)); }
inline bytes unhex(const std::string &s) {
  bytes r;
  auto v = [](char c) -> int { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
  for (size_t i = 0; i + 1 < s.size(); i += 2) r.push_back(v(s[i]) * 16 + v(s[i + 1]));
  return r;
}
inline bytes le(uint64_t v, int n) { bytes r; for (int i = 0; i < n; i++) r.push_back((uint8_t)(v >> (8 * i))); return r; }
inline bytes be(uint64_t v, int n) { bytes r = le(v, n); std::reverse(r.begin(), r.end()); return r; }
inline bytes varint(uint64_t v) {
  if (v < 0xfd) return bytes{(uint8_t)v};
  if (v <= 0xffff) return cat({0xfd}, le(v, 2));
  if (v <= 0xffffffffULL) return cat({0xfe}, le(v, 4));
  return cat({0xff}, le(v, 8));
}
inline bytes rev(bytes b) { std::reverse(b.begin(), b.end()); return b; }
inline bytes varbytes(const bytes &b) { return cat(varint(b.size()), b); }

// ---------------------------------------------------------------- hashes (constants derived from primes)
inline bool is_prime(int n) { for (int i = 2; i * i <= n; i++) if (n % i == 0) return false; return n > 1; }
// floor(frac(p^(1/k)) * 2^bits) by integer bisection on x^k <= p * 2^(k*bits), computed with big limbs
struct Big { // small non-negative bignum, 32-bit limbs
  std::vector<uint32_t> d;
  Big(uint64_t v = 0) { while (v) { d.push_back((uint32_t)v); v >>= 32; } }
  void trim() { while (!d.empty() && !d.back()) d.pop_back(); }
  static int cmp(const Big &a, const Big &b) {
    if (a.d.size() != b.d.size()) return a.d.size() < b.d.size() ? -1 : 1;
    for (size_t i = a.d.size(); i-- > 0;) if (a.d[i] != b.d[i]) return a.d[i] < b.d[i] ? -1 : 1;
    return 0;
  }
  Big operator*(const Big &o) const {
    Big r; r.d.assign(d.size() + o.d.size() + 1, 0);
    for (size_t i = 0; i < d.size(); i++) { uint64_t c = 0;
      for (size_t j = 0; j < o.d.size() || c; j++) { uint64_t t = r.d[i + j] + c + (j < o.d.size() ? (uint64_t)d[i] * o.d[j] : 0); r.d[i + j] = (uint32_t)t; c = t >> 32; } }
    r.trim(); return r;
  }
  Big shl(int n) const { Big r; r.d.assign(d.size() + n / 32 + 2, 0);
    for (size_t i = 0; i < d.size(); i++) { uint64_t t = (uint64_t)d[i] << (n % 32); r.d[i + n / 32] |= (uint32_t)t; r.d[i + n / 32 + 1] |= (uint32_t)(t >> 32); }
    r.trim(); return r; }
  void setbit(int n) { if (d.size() <= (size_t)n / 32) d.resize(n / 32 + 1, 0); d[n / 32] |= 1u << (n % 32); }
  bool bit(int n) const { return (size_t)n / 32 < d.size() && (d[n / 32] >> (n % 32) & 1); }
  void clrbit(int n) { if ((size_t)n / 32 < d.size()) d[n / 32] &= ~(1u << (n % 32)); trim(); }
};
inline uint64_t fracroot(int p, int k, int bits) {
  Big target = Big(p).shl(k * bits), x;
  for (int b = bits + 5; b >= 0; b--) {
    Big y = x; y.setbit(b);
    Big pw = y * y; if (k == 3) pw = pw * y;
    if (Big::cmp(pw, target) <= 0) x = y;
  }
  uint64_t r = 0;
  for (int b = 0; b < bits; b++) if (x.bit(b)) r |= 1ULL << b;
  return r;
}
struct Consts {
  uint32_t k256[64], h256[8]; uint64_t k512[80], h512[8];
  Consts() {
    int n = 0;
    for (int p = 2; n < 80; p++) if (is_prime(p)) {
      if (n < 64) k256[n] = (uint32_t)fracroot(p, 3, 32);
      k512[n] = fracroot(p, 3, 64);
      if (n < 8) { h256[n] = (uint32_t)fracroot(p, 2, 32); h512[n] = fracroot(p, 2, 64); }
      n++;
    }
  }
};
inline const Consts &C() { static Consts c; return c; }

inline bytes sha256(const bytes &m) {
  const Consts &c = C(); uint32_t h[8]; memcpy(h, c.h256, sizeof h);
  bytes d = m; d.push_back(0x80); while (d.size() % 64 != 56) d.push_back(0); app(d, be((uint64_t)m.size() * 8, 8));
  auto rr = [](uint32_t x, int n) { return (x >> n) | (x << (32 - n)); };
  for (size_t o = 0; o < d.size(); o += 64) {
    uint32_t w[64];
    for (int i = 0; i < 16; i++) w[i] = (uint32_t)d[o + 4 * i] << 24 | d[o + 4 * i + 1] << 16 | d[o + 4 * i + 2] << 8 | d[o + 4 * i + 3];
    for (int i = 16; i < 64; i++) w[i] = (rr(w[i - 2], 17) ^ rr(w[i - 2], 19) ^ (w[i - 2] >> 10)) + w[i - 7] + (rr(w[i - 15], 7) ^ rr(w[i - 15], 18) ^ (w[i - 15] >> 3)) + w[i - 16];
    uint32_t s[8]; memcpy(s, h, sizeof s);
    for (int i = 0; i < 64; i++) {
      uint32_t t1 = s[7] + (rr(s[4], 6) ^ rr(s[4], 11) ^ rr(s[4], 25)) + ((s[4] & s[5]) ^ (~s[4] & s[6])) + c.k256[i] + w[i];
      uint32_t t2 = (rr(s[0], 2) ^ rr(s[0], 13) ^ rr(s[0], 22)) + ((s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]));
      for (int j = 7; j > 0; j--) s[j] = s[j - 1];
      s[4] += t1; s[0] = t1 + t2;
    }
    for (int i = 0; i < 8; i++) h[i] += s[i];
  }
  bytes r; for (int i = 0; i < 8; i++) app(r, be(h[i], 4)); return r;
}
inline bytes sha512(const bytes &m) {
  const Consts &c = C(); uint64_t h[8]; memcpy(h, c.h512, sizeof h);
  bytes d = m; d.push_back(0x80); while (d.size() % 128 != 112) d.push_back(0); app(d, be(0, 8)); app(d, be((uint64_t)m.size() * 8, 8));
  auto rr = [](uint64_t x, int n) { return (x >> n) | (x << (64 - n)); };
  for (size_t o = 0; o < d.size(); o += 128) {
    uint64_t w[80];
    for (int i = 0; i < 16; i++) { w[i] = 0; for (int j = 0; j < 8; j++) w[i] = w[i] << 8 | d[o + 8 * i + j]; }
    for (int i = 16; i < 80; i++) w[i] = (rr(w[i - 2], 19) ^ rr(w[i - 2], 61) ^ (w[i - 2] >> 6)) + w[i - 7] + (rr(w[i - 15], 1) ^ rr(w[i - 15], 8) ^ (w[i - 15] >> 7)) + w[i - 16];
    uint64_t s[8]; memcpy(s, h, sizeof s);
    for (int i = 0; i < 80; i++) {
      uint64_t t1 = s[7] + (rr(s[4], 14) ^ rr(s[4], 18) ^ rr(s[4], 41)) + ((s[4] & s[5]) ^ (~s[4] & s[6])) + c.k512[i] + w[i];
      uint64_t t2 = (rr(s[0], 28) ^ rr(s[0], 34) ^ rr(s[0], 39)) + ((s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]));
      for (int j = 7; j > 0; j--) s[j] = s[j - 1];
      s[4] += t1; s[0] = t1 + t2;
    }
    for (int i = 0; i < 8; i++) h[i] += s[i];
  }
  bytes r; for (int i = 0; i < 8; i++) app(r, be(h[i], 8)); return r;
}
inline bytes rmd160(const bytes &m) {
  static const int rho[16] = {7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8};
  static const int shifts[5][16] = {{11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8}, {12, 13, 11, 15, 6, 9, 9, 7, 12, 15, 11, 13, 7, 8, 7, 7},
    {13, 15, 14, 11, 7, 7, 6, 8, 13, 14, 13, 12, 5, 5, 6, 9}, {14, 11, 12, 14, 8, 6, 5, 5, 15, 12, 15, 14, 9, 9, 8, 6}, {15, 12, 13, 13, 9, 5, 8, 6, 14, 11, 12, 11, 8, 6, 5, 5}};
  static const uint32_t K[2][5] = {{0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E}, {0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0}};
  uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
  bytes d = m; d.push_back(0x80); while (d.size() % 64 != 56) d.push_back(0); app(d, le((uint64_t)m.size() * 8, 8));
  auto rl = [](uint32_t x, int n) { return (x << n) | (x >> (32 - n)); };
  auto f = [](int j, uint32_t x, uint32_t y, uint32_t z) -> uint32_t { switch (j) { case 0: return x ^ y ^ z; case 1: return (x & y) | (~x & z); case 2: return (x | ~y) ^ z; case 3: return (x & z) | (y & ~z); default: return x ^ (y | ~z); } };
  for (size_t o = 0; o < d.size(); o += 64) {
    uint32_t X[16]; for (int i = 0; i < 16; i++) X[i] = d[o + 4 * i] | d[o + 4 * i + 1] << 8 | d[o + 4 * i + 2] << 16 | (uint32_t)d[o + 4 * i + 3] << 24;
    uint32_t res[2][5];
    for (int line = 0; line < 2; line++) {
      int idx[16]; for (int i = 0; i < 16; i++) idx[i] = line ? (9 * i + 5) % 16 : i;
      uint32_t a = h[0], b = h[1], c = h[2], dd = h[3], e = h[4];
      for (int r = 0; r < 5; r++) {
        for (int i = 0; i < 16; i++) {
          uint32_t t = rl(a + f(line ? 4 - r : r, b, c, dd) + X[idx[i]] + K[line][r], shifts[r][idx[i]]) + e;
          a = e; e = dd; dd = rl(c, 10); c = b; b = t;
        }
        int n[16]; for (int i = 0; i < 16; i++) n[i] = rho[idx[i]];
        memcpy(idx, n, sizeof n);
      }
      uint32_t v[5] = {a, b, c, dd, e}; memcpy(res[line], v, sizeof v);
    }
    uint32_t t = h[1] + res[0][2] + res[1][3];
    h[1] = h[2] + res[0][3] + res[1][4]; h[2] = h[3] + res[0][4] + res[1][0]; h[3] = h[4] + res[0][0] + res[1][1]; h[4] = h[0] + res[0][1] + res[1][2]; h[0] = t;
  }
  bytes r; for (int i = 0; i < 5; i++) app(r, le(h[i], 4)); return r;
}
inline bytes dsha(const bytes &m) { return sha256(sha256(m)); }
inline bytes hash160(const bytes &m) { return rmd160(sha256(m)); }
inline bytes tagged(const std::string &tag, const bytes &m) { bytes t = sha256(B(tag)); return sha256(cat(cat(t, t), m)); }
template <class H> bytes hmac_(H h, size_t block, bytes key, const bytes &m) {
  if (key.size() > block) key = h(key);
  key.resize(block, 0);
  bytes i = key, o = key; for (auto &c : i) c ^= 0x36; for (auto &c : o) c ^= 0x5c;
  return h(cat(o, h(cat(i, m))));
}
inline bytes hmac256(const bytes &k, const bytes &m) { return hmac_(sha256, 64, k, m); }
inline bytes hmac512(const bytes &k, const bytes &m) { return hmac_(sha512, 128, k, m); }
inline bytes pbkdf2_512(const bytes &pw, const bytes &salt, int rounds, size_t len = 64) {
  bytes out;
  for (uint32_t blk = 1; out.size() < len; blk++) {
    bytes u = hmac512(pw, cat(salt, be(blk, 4))), t = u;
    for (int i = 1; i < rounds; i++) { u = hmac512(pw, u); for (size_t j = 0; j < t.size(); j++) t[j] ^= u[j]; }
    app(out, t);
  }
  out.resize(len); return out;
}

// ---------------------------------------------------------------- 256-bit integers
struct U { uint64_t v[4]; U(uint64_t x = 0) { v[0] = x; v[1] = v[2] = v[3] = 0; }
  bool operator==(const U &o) const { return !memcmp(v, o.v, 32); } bool operator!=(const U &o) const { return !(*this == o); }
  bool zero() const { return !(v[0] | v[1] | v[2] | v[3]); } bool odd() const { return v[0] & 1; }
  bool bit(int i) const { return v[i / 64] >> (i % 64) & 1; } };
inline int cmp(const U &a, const U &b) { for (int i = 3; i >= 0; i--) if (a.v[i] != b.v[i]) return a.v[i] < b.v[i] ? -1 : 1; return 0; }
inline bool operator<(const U &a, const U &b) { return cmp(a, b) < 0; }
inline uint64_t addc(U &r, const U &a, const U &b) { u128 c = 0; for (int i = 0; i < 4; i++) { c += (u128)a.v[i] + b.v[i]; r.v[i] = (uint64_t)c; c >>= 64; } return (uint64_t)c; }
inline uint64_t subb(U &r, const U &a, const U &b) { uint64_t br = 0; for (int i = 0; i < 4; i++) { u128 t = (u128)a.v[i] - b.v[i] - br; r.v[i] = (uint64_t)t; br = (uint64_t)(t >> 64) & 1; } return br; }
inline U fromB(const bytes &b) { U r; size_t n = b.size(); for (size_t i = 0; i < n && i < 32; i++) { size_t k = n - 1 - i; r.v[i / 8] |= (uint64_t)b[k] << (8 * (i % 8)); } return r; }
inline U fromB(const uint8_t *p) { return fromB(B(p, 32)); }
inline bytes toB(const U &a) { bytes r(32); for (int i = 0; i < 32; i++) r[31 - i] = (uint8_t)(a.v[i / 8] >> (8 * (i % 8))); return r; }
inline U fromH(const std::string &h) { return fromB(unhex(h)); }
inline const U &P() { static U p = fromH("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"); return p; }
inline const U &N() { static U n = fromH("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"); return n; }
inline U neg2(const U &m) { U r, z; subb(r, z, m); return r; } // 2^256 - m
inline U modm(const U &a, const U &m) { U r = a; while (!(r < m)) { U t; subb(t, r, m); r = t; } return r; }
inline U addm(const U &a, const U &b, const U &m) { U r; uint64_t c = addc(r, a, b); if (c || !(r < m)) { U t; subb(t, r, m); r = t; } return r; }
inline U negm(const U &a, const U &m) { if (a.zero()) return a; U r; subb(r, m, a); return r; }
inline U subm(const U &a, const U &b, const U &m) { return addm(a, negm(b, m), m); }
inline U mulm(const U &a, const U &b, const U &m) {
  uint64_t w[9] = {0};
  for (int i = 0; i < 4; i++) { u128 c = 0; for (int j = 0; j < 4; j++) { c += (u128)a.v[i] * b.v[j] + w[i + j]; w[i + j] = (uint64_t)c; c >>= 64; } w[i + 4] += (uint64_t)c; }
  U c = neg2(m);
  for (;;) {
    U lo, hi; memcpy(lo.v, w, 32); memcpy(hi.v, w + 4, 32);
    if (hi.zero()) return modm(lo, m);
    uint64_t x[9] = {0};
    for (int i = 0; i < 4; i++) { u128 k = 0; for (int j = 0; j < 4; j++) { k += (u128)hi.v[i] * c.v[j] + x[i + j]; x[i + j] = (uint64_t)k; k >>= 64; } x[i + 4] += (uint64_t)k; }
    u128 k = 0; for (int i = 0; i < 8; i++) { k += (u128)x[i] + (i < 4 ? lo.v[i] : 0); w[i] = (uint64_t)k; k >>= 64; }
  }
}
inline U powm(const U &a, const U &e, const U &m) { U r(1); for (int i = 255; i >= 0; i--) { r = mulm(r, r, m); if (e.bit(i)) r = mulm(r, a, m); } return r; }
inline U invm(const U &a, const U &m) { U e; subb(e, m, U(2)); return powm(a, e, m); }

// ---------------------------------------------------------------- secp256k1
struct Pt { U x, y; bool inf; Pt() : inf(true) {} Pt(const U &a, const U &b) : x(a), y(b), inf(false) {} bool operator==(const Pt &o) const { return inf == o.inf && (inf || (x == o.x && y == o.y)); } };
inline Pt G() { return Pt(fromH("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"), fromH("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")); }
inline bool oncurve(const U &x, const U &y) { const U &p = P(); if (!(x < p) || !(y < p)) return false; return mulm(y, y, p) == addm(mulm(mulm(x, x, p), x, p), U(7), p); }
struct J { U x, y, z; };
inline J jdbl(const J &a) { const U &p = P(); if (a.z.zero() || a.y.zero()) return J{U(1), U(1), U(0)};
  U A = mulm(a.x, a.x, p), Bq = mulm(a.y, a.y, p), Cq = mulm(Bq, Bq, p);
  U t = addm(a.x, Bq, p); t = mulm(t, t, p); U D = subm(subm(t, A, p), Cq, p); D = addm(D, D, p);
  U E = addm(addm(A, A, p), A, p), F = mulm(E, E, p);
  J r; r.x = subm(F, addm(D, D, p), p); U c8 = addm(Cq, Cq, p); c8 = addm(c8, c8, p); c8 = addm(c8, c8, p);
  r.y = subm(mulm(E, subm(D, r.x, p), p), c8, p); r.z = mulm(a.y, a.z, p); r.z = addm(r.z, r.z, p); return r; }
inline J jadd(const J &a, const J &b) { const U &p = P(); if (a.z.zero()) return b; if (b.z.zero()) return a;
  U z1 = mulm(a.z, a.z, p), z2 = mulm(b.z, b.z, p), u1 = mulm(a.x, z2, p), u2 = mulm(b.x, z1, p), s1 = mulm(mulm(a.y, b.z, p), z2, p), s2 = mulm(mulm(b.y, a.z, p), z1, p);
  if (u1 == u2) { if (s1 == s2) return jdbl(a); return J{U(1), U(1), U(0)}; }
  U h = subm(u2, u1, p), r = subm(s2, s1, p), h2 = mulm(h, h, p), h3 = mulm(h2, h, p), v = mulm(u1, h2, p);
  J o; o.x = subm(subm(mulm(r, r, p), h3, p), addm(v, v, p), p); o.y = subm(mulm(r, subm(v, o.x, p), p), mulm(s1, h3, p), p); o.z = mulm(mulm(a.z, b.z, p), h, p); return o; }
inline J toJ(const Pt &a) { return a.inf ? J{U(1), U(1), U(0)} : J{a.x, a.y, U(1)}; }
inline Pt fromJ(const J &a) { if (a.z.zero()) return Pt(); const U &p = P(); U zi = invm(a.z, p), z2 = mulm(zi, zi, p); return Pt(mulm(a.x, z2, p), mulm(a.y, mulm(z2, zi, p), p)); }
inline Pt add(const Pt &a, const Pt &b) { return fromJ(jadd(toJ(a), toJ(b))); }
inline Pt neg(const Pt &a) { if (a.inf) return a; return Pt(a.x, negm(a.y, P())); }
inline Pt mul(const U &k, const Pt &a) { J r{U(1), U(1), U(0)}, b = toJ(a); for (int i = 255; i >= 0; i--) { r = jdbl(r); if (k.bit(i)) r = jadd(r, b); } return fromJ(r); }
inline Pt mulG(const U &k) { // cached: the checks reuse a handful of keys
  static std::map<bytes, Pt> cache; bytes kb = toB(k); auto it = cache.find(kb); if (it != cache.end()) return it->second;
  Pt r = mul(k, G()); if (cache.size() < 20000) cache[kb] = r; return r; }
inline bool lift(const U &x, bool odd, Pt &out) { const U &p = P(); if (!(x < p)) return false; U c = addm(mulm(mulm(x, x, p), x, p), U(7), p);
  U e = p; // (p+1)/4
  U q; addc(q, p, U(1)); for (int i = 0; i < 4; i++) e.v[i] = (q.v[i] >> 2) | (i < 3 ? q.v[i + 1] << 62 : 0);
  U y = powm(c, e, p); if (mulm(y, y, p) != c) return false; if (y.odd() != odd) y = negm(y, p); out = Pt(x, y); return true; }
inline bytes sec(const Pt &a, bool comp = true) { if (comp) return cat({(uint8_t)(a.y.odd() ? 3 : 2)}, toB(a.x)); return cat(cat({4}, toB(a.x)), toB(a.y)); }
inline bool parse_sec(const bytes &b, Pt &out) { if (b.size() == 33 && (b[0] == 2 || b[0] == 3)) return lift(fromB(B(&b[1], 32)), b[0] == 3, out);
  if (b.size() == 65 && b[0] == 4) { U x = fromB(&b[1]), y = fromB(&b[33]); if (!oncurve(x, y)) return false; out = Pt(x, y); return true; } return false; }

// ---------------------------------------------------------------- ECDSA / RFC6979 / Schnorr
struct Sig { U r, s; };
inline U rfc6979(const U &x, const bytes &h1, int skip = 0) {
  bytes V(32, 1), K(32, 0), xb = toB(x), hb = toB(modm(fromB(h1), N()));
  K = hmac256(K, cat(cat(cat(V, {0}), xb), hb)); V = hmac256(K, V); K = hmac256(K, cat(cat(cat(V, {1}), xb), hb)); V = hmac256(K, V);
  for (;;) { V = hmac256(K, V); U k = fromB(V); if (!k.zero() && k < N()) { if (skip-- == 0) return k; } K = hmac256(K, cat(V, {0})); V = hmac256(K, V); }
}
inline bool half_or_less(const U &s) { U t = negm(s, N()); return !(t < s); }
inline Sig ecdsa_sign(const U &d, const bytes &h) { const U &n = N();
  for (int skip = 0;; skip++) { U k = rfc6979(d, h, skip); Pt R = mulG(k); U r = modm(R.x, n); if (r.zero()) continue;
    U s = mulm(invm(k, n), addm(modm(fromB(h), n), mulm(r, d, n), n), n); if (s.zero()) continue; if (!half_or_less(s)) s = negm(s, n); return Sig{r, s}; } }
inline bool ecdsa_verify(const Pt &Q, const bytes &h, const U &r, const U &s) { const U &n = N(); if (Q.inf || !oncurve(Q.x, Q.y)) return false; if (r.zero() || s.zero() || !(r < n) || !(s < n)) return false;
  U w = invm(s, n), u1 = mulm(modm(fromB(h), n), w, n), u2 = mulm(r, w, n); Pt X = add(mulG(u1), mul(u2, Q)); if (X.inf) return false; return modm(X.x, n) == r; }
inline bool schnorr_verify(const U &px, const bytes &m, const U &r, const U &s) { Pt Pk; if (!lift(px, false, Pk)) return false; if (!(r < P()) || !(s < N())) return false;
  U e = modm(fromB(tagged("BIP0340/challenge", cat(cat(toB(r), toB(px)), m))), N()); Pt R = add(mulG(s), neg(mul(e, Pk))); if (R.inf || R.y.odd()) return false; return R.x == r; }
inline bytes derint(const U &v) { bytes b = toB(v); size_t i = 0; while (i < 31 && b[i] == 0) i++; bytes o(b.begin() + i, b.end()); if (o[0] & 0x80) o.insert(o.begin(), 0); return cat({2, (uint8_t)o.size()}, o); }
inline bytes der(const U &r, const U &s) { bytes b = cat(derint(r), derint(s)); return cat({0x30, (uint8_t)b.size()}, b); }

// ---------------------------------------------------------------- text encodings
inline std::string radix_enc(const bytes &b, const std::string &alpha) {
  size_t z = 0; while (z < b.size() && !b[z]) z++;
  std::vector<int> d; unsigned base = alpha.size();
  for (size_t i = z; i < b.size(); i++) { unsigned c = b[i]; for (auto &x : d) { c += x * 256; x = c % base; c /= base; } while (c) { d.push_back(c % base); c /= base; } }
  std::string s(z, alpha[0]); for (size_t i = d.size(); i-- > 0;) s += alpha[d[i]]; return s;
}
inline bool radix_dec(const std::string &s, const std::string &alpha, bytes &out) {
  size_t z = 0; while (z < s.size() && s[z] == alpha[0]) z++;
  std::vector<unsigned> d; unsigned base = alpha.size();
  for (size_t i = z; i < s.size(); i++) { size_t q = s[i] ? alpha.find(s[i]) : std::string::npos; if (q == std::string::npos) return false; unsigned c = q; for (auto &x : d) { c += x * base; x = c & 255; c >>= 8; } while (c) { d.push_back(c & 255); c >>= 8; } }
  out.assign(z, 0); for (size_t i = d.size(); i-- > 0;) out.push_back(d[i]); return true;
}
static const std::string A58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
static const std::string A43 = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ$*+-./:";
inline std::string b58(const bytes &b) { return radix_enc(b, A58); }
inline std::string b58c(const bytes &b) { bytes c = dsha(b); return b58(cat(b, bytes(c.begin(), c.begin() + 4))); }
inline bool b58cdec(const std::string &s, bytes &out) { bytes b; if (!radix_dec(s, A58, b) || b.size() < 4) return false; bytes p(b.begin(), b.end() - 4), c = dsha(p); if (memcmp(&c[0], &b[b.size() - 4], 4)) return false; out = p; return true; }
inline std::string b64(const bytes &b, bool nopad = false, bool url = false) {
  std::string al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"; al += url ? "-_" : "+/";
  std::string s; for (size_t i = 0; i < b.size(); i += 3) { uint32_t v = b[i] << 16 | (i + 1 < b.size() ? b[i + 1] << 8 : 0) | (i + 2 < b.size() ? b[i + 2] : 0); int n = std::min<size_t>(3, b.size() - i);
    for (int j = 0; j < 4; j++) { if (j <= n) s += al[v >> (18 - 6 * j) & 63]; else if (!nopad) s += '='; } } return s; }
// bech32 (BIP173)
static const char *BC = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
inline uint32_t polymod(const std::vector<int> &v) { static const uint32_t g[5] = {0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3}; uint32_t c = 1; for (int x : v) { int t = c >> 25; c = (c & 0x1ffffff) << 5 ^ x; for (int i = 0; i < 5; i++) if (t >> i & 1) c ^= g[i]; } return c; }
inline std::vector<int> hrpx(const std::string &h) { std::vector<int> r; for (char c : h) r.push_back((uint8_t)c >> 5); r.push_back(0); for (char c : h) r.push_back(c & 31); return r; }
inline std::string segwit_addr(const std::string &hrp, int ver, const bytes &prog, uint32_t konst = 1) {
  std::vector<int> d{ver}; int acc = 0, bits = 0; for (uint8_t b : prog) { acc = acc << 8 | b; bits += 8; while (bits >= 5) { bits -= 5; d.push_back(acc >> bits & 31); } acc &= (1 << bits) - 1; } if (bits) d.push_back(acc << (5 - bits) & 31);
  auto v = hrpx(hrp); v.insert(v.end(), d.begin(), d.end()); v.insert(v.end(), 6, 0); uint32_t p = polymod(v) ^ konst; std::string s = hrp + "1"; for (int x : d) s += BC[x]; for (int i = 0; i < 6; i++) s += BC[p >> (5 * (5 - i)) & 31]; return s; }
inline bool segwit_dec(const std::string &addr, std::string &hrp, int &ver, bytes &prog, uint32_t konst = 1) {
  bool lo = false, up = false; for (char c : addr) { if (c < 33 || c > 126) return false; if (c >= 'a' && c <= 'z') lo = true; if (c >= 'A' && c <= 'Z') up = true; } if (lo && up) return false;
  std::string s = addr; for (auto &c : s) c = tolower(c); size_t p = s.rfind('1'); if (p == std::string::npos || p < 1 || p + 7 > s.size() || s.size() > 90) return false;
  hrp = s.substr(0, p); std::vector<int> d; for (size_t i = p + 1; i < s.size(); i++) { const char *q = strchr(BC, s[i]); if (!q) return false; d.push_back(q - BC); }
  auto v = hrpx(hrp); v.insert(v.end(), d.begin(), d.end()); if (polymod(v) != konst) return false; d.resize(d.size() - 6); if (d.empty()) return false; ver = d[0]; if (ver > 16) return false;
  prog.clear(); int acc = 0, bits = 0; for (size_t i = 1; i < d.size(); i++) { acc = acc << 5 | d[i]; bits += 5; if (bits >= 8) { bits -= 8; prog.push_back(acc >> bits & 255); } acc &= (1 << bits) - 1; } if (bits >= 5 || acc) return false;
  if (prog.size() < 2 || prog.size() > 40) return false; if (ver == 0 && prog.size() != 20 && prog.size() != 32) return false; return true; }

// ---------------------------------------------------------------- transactions
struct RIn { bytes hash; uint32_t idx; bytes sig; uint32_t seq; std::vector<bytes> wit; };
struct ROut { uint64_t amount; bytes spk; };
struct RTx { uint32_t ver = 1, lock = 0; std::vector<RIn> in; std::vector<ROut> out; };
inline bytes ser_in(const RIn &i) { return cat(cat(cat(i.hash, le(i.idx, 4)), varbytes(i.sig)), le(i.seq, 4)); }
inline bytes ser_out(const ROut &o) { return cat(le(o.amount, 8), varbytes(o.spk)); }
inline bytes ser_wit(const std::vector<bytes> &w) { bytes r = varint(w.size()); for (auto &e : w) app(r, varbytes(e)); return r; }
inline bool has_wit(const RTx &t) { for (auto &i : t.in) if (!i.wit.empty()) return true; return false; }
inline bytes ser_tx(const RTx &t, bool wit) { bytes r = le(t.ver, 4); if (wit) app(r, {0, 1}); app(r, varint(t.in.size())); for (auto &i : t.in) app(r, ser_in(i)); app(r, varint(t.out.size())); for (auto &o : t.out) app(r, ser_out(o)); if (wit) for (auto &i : t.in) app(r, ser_wit(i.wit)); app(r, le(t.lock, 4)); return r; }
inline bytes ser_tx(const RTx &t) { return ser_tx(t, has_wit(t)); }
// type: 1 ALL, 2 NONE, 3 SINGLE (original algorithm; SINGLE without a matching output hashes to the number one)
inline bytes sighash_legacy(const RTx &t, size_t n, const bytes &code, uint32_t type = 1) {
  if (type == 3 && n >= t.out.size()) { bytes one(32, 0); one[0] = 1; return one; }
  RTx c = t; for (size_t i = 0; i < c.in.size(); i++) { c.in[i].wit.clear(); c.in[i].sig = i == n ? code : bytes(); if (i != n && type != 1) c.in[i].seq = 0; }
  if (type == 2) c.out.clear(); if (type == 3) { c.out.resize(n + 1); for (size_t i = 0; i < n; i++) c.out[i] = ROut{~0ULL, bytes()}; }
  return dsha(cat(ser_tx(c, false), le(type, 4))); }
inline bytes sighash_segwit(const RTx &t, size_t n, const bytes &code, uint64_t amount, uint32_t type = 1) { bytes a, b, o, z(32, 0); for (auto &i : t.in) { app(a, i.hash); app(a, le(i.idx, 4)); app(b, le(i.seq, 4)); } for (auto &x : t.out) app(o, ser_out(x));
  bytes ho = type == 1 ? dsha(o) : type == 3 && n < t.out.size() ? dsha(ser_out(t.out[n])) : z;
  bytes r = le(t.ver, 4); app(r, dsha(a)); app(r, type == 1 ? dsha(b) : z); app(r, t.in[n].hash); app(r, le(t.in[n].idx, 4)); app(r, varbytes(code)); app(r, le(amount, 8)); app(r, le(t.in[n].seq, 4)); app(r, ho); app(r, le(t.lock, 4)); app(r, le(type, 4)); return dsha(r); }
inline bytes p2pkh(const bytes &h) { return cat(cat({0x76, 0xa9, 0x14}, h), {0x88, 0xac}); }
inline bytes p2sh(const bytes &h) { return cat(cat({0xa9, 0x14}, h), {0x87}); }
inline bytes p2wpkh(const bytes &h) { return cat({0x00, 0x14}, h); }
inline bytes p2wsh(const bytes &h) { return cat({0x00, 0x20}, h); }

// ---------------------------------------------------------------- BIP32
struct HD { bool priv = true; U k; Pt K; bytes cc; uint8_t depth = 0; bytes pfp = bytes(4, 0); uint32_t num = 0; };
inline HD hd_seed(const bytes &seed) { bytes I = hmac512(B("Bitcoin seed"), seed); HD h; h.k = fromB(bytes(I.begin(), I.begin() + 32)); h.K = mulG(h.k); h.cc = bytes(I.begin() + 32, I.end()); return h; }
inline HD hd_child(const HD &p, uint32_t i) { bytes d = (i >> 31) ? cat({0}, toB(p.k)) : sec(p.K); app(d, be(i, 4)); bytes I = hmac512(p.cc, d); U l = fromB(bytes(I.begin(), I.begin() + 32)); HD c; c.priv = p.priv;
  if (p.priv) { c.k = addm(modm(l, N()), p.k, N()); c.K = mulG(c.k); } else c.K = add(mulG(modm(l, N())), p.K);
  c.cc = bytes(I.begin() + 32, I.end()); c.depth = p.depth + 1; bytes f = hash160(sec(p.K)); c.pfp = bytes(f.begin(), f.begin() + 4); c.num = i; return c; }
inline bytes hd_bytes(const HD &h, const bytes &ver, bool priv) { bytes r = ver; r.push_back(h.depth); app(r, h.pfp); app(r, be(h.num, 4)); app(r, h.cc); if (priv) { r.push_back(0); app(r, toB(h.k)); } else app(r, sec(h.K)); return r; }

inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) { const uint8_t *c = (const uint8_t *)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; } h ^= h >> 29; return h; }
inline uint64_t fnv(const bytes &b, uint64_t h = 1469598103934665603ULL) { return fnv(b.data(), b.size(), h); }
inline uint64_t fnv(const std::string &b, uint64_t h = 1469598103934665603ULL) { return fnv(b.data(), b.size(), h); }
} // namespace ref
