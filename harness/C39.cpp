// C39: the bundled C primitives (hashes, key derivation, deterministic and platform randomness, text codecs) compute the
// functions their standards define. Every length across every block boundary, every alignment, every way of feeding the data,
// every output size and buffer size, every kind of damaged text, and histories of the stateful ones (the seed cache, reused
// contexts). Oracle: the independent reference (with SHA-3 added here and validated by setup.py).
// LIBFLAGS: -DUSE_KECCAK=1 -DUSE_ETHEREUM=1 -DUSE_GRAPHENE=1
#define USE_KECCAK 1
#define USE_ETHEREUM 1
#define USE_GRAPHENE 1
#include "lib.h"
#include "words.h"
#include "sha3ref.h"
extern "C" {
#include "utility/trezor/hasher.h"
#include "utility/trezor/sha2.h"
#include "utility/trezor/sha3.h"
#include "utility/trezor/ripemd160.h"
#include "utility/trezor/hmac.h"
#include "utility/trezor/pbkdf2.h"
#include "utility/trezor/rfc6979.h"
#include "utility/trezor/rand.h"
#include "utility/trezor/memzero.h"
#include "utility/trezor/base58.h"
#include "utility/trezor/address.h"
#include "utility/trezor/bip39.h"
#include "utility/trezor/ecdsa.h"
#include "utility/trezor/secp256k1.h"
#include "utility/segwit_addr.h"
}
using ref::U; using ref::Pt;
// ---------------------------------------------------------------- hashes
struct HAlg { const char *name; size_t out; bytes (*model)(const bytes &); std::function<void *()> mk; std::function<void(void *)> init; std::function<void(void *, const uint8_t *, size_t)> upd; std::function<void(void *, uint8_t *)> fin; std::function<void(const uint8_t *, size_t, uint8_t *)> raw; };
template <class C> static HAlg H_(const char *n, size_t out, bytes (*m)(const bytes &), void (*i)(C *), void (*u)(C *, const uint8_t *, size_t), void (*f)(C *, uint8_t *), void (*r)(const uint8_t *, size_t, uint8_t *)) { HAlg a; a.name = n; a.out = out; a.model = m; a.mk = [] { return malloc(sizeof(C)); }; a.init = [i](void *c) { i((C *)c); }; a.upd = [u](void *c, const uint8_t *d, size_t l) { u((C *)c, d, l); }; a.fin = [f](void *c, uint8_t *o) { f((C *)c, o); }; a.raw = [r](const uint8_t *d, size_t l, uint8_t *o) { if (r) r(d, l, o); }; if (!r) a.raw = nullptr; return a; }
static bytes s3(const bytes &m, int bits, uint8_t pad) { return ref::sha3(m, bits, pad); }
static HAlg hasher(const char *n, size_t out, bytes (*m)(const bytes &), HasherType t) { HAlg a; a.name = n; a.out = out; a.model = m; a.mk = [] { return malloc(sizeof(Hasher)); }; a.init = [t](void *c) { hasher_Init((Hasher *)c, t); }; a.upd = [](void *c, const uint8_t *d, size_t l) { hasher_Update((Hasher *)c, d, l); }; a.fin = [](void *c, uint8_t *o) { uint8_t b[32]; hasher_Final((Hasher *)c, b); memcpy(o, b, 20); memcpy(o, b, 32); }; a.raw = [t](const uint8_t *d, size_t l, uint8_t *o) { hasher_Raw(t, d, l, o); }; return a; }
static std::vector<HAlg> &HA() { static std::vector<HAlg> v; if (v.empty()) {
  v.push_back(H_<SHA256_CTX>("sha256", 32, ref::sha256, sha256_Init, sha256_Update, sha256_Final, sha256_Raw));
  v.push_back(H_<SHA512_CTX>("sha512", 64, ref::sha512, sha512_Init, sha512_Update, sha512_Final, sha512_Raw));
  v.push_back(H_<RIPEMD160_CTX>("ripemd160", 20, ref::rmd160, ripemd160_Init, [](RIPEMD160_CTX *c, const uint8_t *d, size_t l) { ripemd160_Update(c, d, (uint32_t)l); }, ripemd160_Final, [](const uint8_t *d, size_t l, uint8_t *o) { ripemd160(d, (uint32_t)l, o); }));
  v.push_back(H_<SHA3_CTX>("sha3-224", 28, [](const bytes &m) { return s3(m, 224, 6); }, sha3_224_Init, sha3_Update, sha3_Final, nullptr));
  v.push_back(H_<SHA3_CTX>("sha3-256", 32, [](const bytes &m) { return s3(m, 256, 6); }, sha3_256_Init, sha3_Update, sha3_Final, sha3_256));
  v.push_back(H_<SHA3_CTX>("sha3-384", 48, [](const bytes &m) { return s3(m, 384, 6); }, sha3_384_Init, sha3_Update, sha3_Final, nullptr));
  v.push_back(H_<SHA3_CTX>("sha3-512", 64, [](const bytes &m) { return s3(m, 512, 6); }, sha3_512_Init, sha3_Update, sha3_Final, sha3_512));
  v.push_back(H_<SHA3_CTX>("keccak-256", 32, [](const bytes &m) { return s3(m, 256, 1); }, keccak_256_Init, keccak_Update, keccak_Final, keccak_256));
  v.push_back(H_<SHA3_CTX>("keccak-512", 64, [](const bytes &m) { return s3(m, 512, 1); }, keccak_512_Init, keccak_Update, keccak_Final, keccak_512));
  v.push_back(hasher("hasher-sha2", 32, ref::sha256, HASHER_SHA2)); v.push_back(hasher("hasher-sha2d", 32, ref::dsha, HASHER_SHA2D)); v.push_back(hasher("hasher-hash160", 20, ref::hash160, HASHER_SHA2_RIPEMD)); v.push_back(hasher("hasher-sha3", 32, [](const bytes &m) { return s3(m, 256, 6); }, HASHER_SHA3)); v.push_back(hasher("hasher-keccak", 32, [](const bytes &m) { return s3(m, 256, 1); }, HASHER_SHA3K)); } return v; }
struct Ctx { const HAlg &a; void *p; Ctx(const HAlg &h) : a(h), p(h.mk()) { memset(p, 0xA7, 1); a.init(p); } ~Ctx() { free(p); } void upd(const bytes &b, size_t al = 0) { Exact e(al + b.size()); if (b.size()) memcpy(e.p + al, b.data(), b.size()); a.upd(p, e.p + al, b.size()); step(); } bytes fin() { uint8_t o[96]; memset(o, 0x5c, sizeof o); a.fin(p, o); bool h = !strncmp(a.name, "hasher", 6); if (!h) for (size_t i = a.out; i < sizeof o; i++) ok(o[i] == 0x5c, std::string(a.name) + "-writes-past-its-digest"); return bytes(o, o + a.out); } };
static void lengths(const HAlg &a) { size_t n = choose(thorough ? 420 : 300), al = choose(8); bytes m = repeat(n, 3); std::string ctx = fmt("%s length %zu alignment %zu", a.name, n, al); Ctx c(a); c.upd(m, al); bytes w = a.model(m); eq(c.fin(), w, std::string(a.name), ctx); if (a.raw) { Exact e(al + n); if (n) memcpy(e.p + al, m.data(), n); uint8_t o[64]; a.raw(e.p + al, n, o); eq(bytes(o, o + a.out), w, std::string(a.name) + "-one-shot", ctx); } state(ref::fnv(ctx)); outcome("hash-ok"); }
static void longer(const HAlg &a) { int k = 9 + choose(thorough ? 13 : 10); size_t n = ((size_t)1 << k) - 1 + choose(3), al = choose(2) * 3; bytes m = repeat(n, 5), w = a.model(m); std::string ctx = fmt("%s length %zu alignment %zu", a.name, n, al); Ctx c(a); c.upd(m, al); eq(c.fin(), w, std::string(a.name), ctx); Ctx d(a); size_t h = n / 2 + choose(2); d.upd(sub(m, 0, h), 1); d.upd(sub(m, h, n - h), 0); eq(d.fin(), w, std::string(a.name) + "-halves", ctx); if (a.raw) { Exact e(al + n); memcpy(e.p + al, m.data(), n); uint8_t o[64]; a.raw(e.p + al, n, o); eq(bytes(o, o + a.out), w, std::string(a.name) + "-one-shot", ctx); } state(ref::fnv(ctx, h)); outcome("hash-ok"); }
static void cuts(const HAlg &a) { static const size_t L[] = {1, 55, 64, 71, 72, 73, 104, 105, 111, 128, 136, 137, 144, 145, 200, 289}; size_t n = L[choose(16)], i = choose(n + 1), j = choose(3); size_t k = j == 0 ? i : j == 1 ? i + (n - i) / 2 : n; bytes m = repeat(n, 9); std::string ctx = fmt("%s length %zu cut %zu %zu", a.name, n, i, k); Ctx c(a); c.upd(sub(m, 0, i), i % 8); c.upd(sub(m, i, k - i), 0); c.upd(sub(m, k, n - k), 1); eq(c.fin(), a.model(m), std::string(a.name) + "-chunks", ctx); state(ref::fnv(ctx)); outcome("chunks-ok"); }
static void contexts(const HAlg &a) { Ctx x(a), y(a); bytes mx, my; std::string tr; for (int d = 0; d < 4; d++) { int op = choose(6); tr += fmt(" %d", op); static const size_t L[] = {1, 63, 137}; bytes b = repeat(L[op % 3], d); if (op < 3) { x.upd(b); ref::app(mx, b); } else { y.upd(b, 3); ref::app(my, b); } } eq(x.fin(), a.model(mx), std::string(a.name) + "-interleaved", tr); eq(y.fin(), a.model(my), std::string(a.name) + "-interleaved", tr); a.init(x.p); x.upd(my); eq(x.fin(), a.model(my), std::string(a.name) + "-reused-context", tr); state(ref::fnv(tr)); outcome("contexts-ok"); }
static void texts() { size_t n = choose(140); bytes m = repeat(n, 1); { Exact e(m), o(SHA256_DIGEST_STRING_LENGTH); sha256_Data(e.p, n, o.c()); eq(std::string(o.c()), ref::hex(ref::sha256(m)), "sha256-text"); } { Exact e(m), o(SHA512_DIGEST_STRING_LENGTH); sha512_Data(e.p, n, o.c()); eq(std::string(o.c()), ref::hex(ref::sha512(m)), "sha512-text"); } { SHA256_CTX c; sha256_Init(&c); sha256_Update(&c, m.data(), n); Exact o(SHA256_DIGEST_STRING_LENGTH); sha256_End(&c, o.c()); eq(std::string(o.c()), ref::hex(ref::sha256(m)), "sha256-end"); } { SHA512_CTX c; sha512_Init(&c); sha512_Update(&c, m.data(), n); Exact o(SHA512_DIGEST_STRING_LENGTH); sha512_End(&c, o.c()); eq(std::string(o.c()), ref::hex(ref::sha512(m)), "sha512-end"); }
  Hasher h; for (HasherType t : {HASHER_SHA2, HASHER_SHA2D, HASHER_SHA2_RIPEMD, HASHER_SHA3, HASHER_SHA3K}) { hasher_Init(&h, t); hasher_Update(&h, m.data(), n); hasher_Reset(&h); hasher_Update(&h, (const uint8_t *)"abc", 3); uint8_t o[32]; memset(o, 0, 32); hasher_Final(&h, o); bytes a = ref::B("abc"), w = t == HASHER_SHA2 ? ref::sha256(a) : t == HASHER_SHA2D ? ref::dsha(a) : t == HASHER_SHA2_RIPEMD ? ref::hash160(a) : s3(a, 256, t == HASHER_SHA3 ? 6 : 1); eq(bytes(o, o + w.size()), w, "hasher-reset", fmt("type %d after %zu bytes", t, n)); } step(8); state(n + 7000); outcome("text-ok"); }
// ---------------------------------------------------------------- key derivation
static bytes pb(bool big, const bytes &pw, const bytes &salt, int it, size_t len, uint32_t first = 1) { bytes out; auto mac = [&](const bytes &m) { return big ? ref::hmac512(pw, m) : ref::hmac256(pw, m); }; for (uint32_t b = first; out.size() < len; b++) { bytes u = mac(ref::cat(salt, ref::be(b, 4))), t = u; for (int i = 1; i < it; i++) { u = mac(u); for (size_t j = 0; j < t.size(); j++) t[j] ^= u[j]; } ref::app(out, t); } out.resize(len); return out; }
static void kdf() { bool big = flip(); static const std::vector<size_t> PL = {0, 1, 31, 63, 64, 65, 127, 128, 129, 200}, SL = {0, 1, 8, 51, 52, 55, 59, 60, 63, 64, 107, 108, 111, 123, 124, 127, 128, 200}, KL = {1, 31, 32, 33, 63, 64, 65, 100, 128, 129}; size_t p = pick(PL), s = pick(SL), k = pick(KL); int it = 1 + choose(3); bytes pw = repeat(p, 5), sa = repeat(s, 77); std::string ctx = fmt("%s password %zu salt %zu iterations %d key %zu", big ? "sha512" : "sha256", p, s, it, k); Exact ep(pw), es(sa), ek(k); if (big) pbkdf2_hmac_sha512(ep.p, p, es.p, s, it, ek.p, k); else pbkdf2_hmac_sha256(ep.p, p, es.p, s, it, ek.p, k); eq(ek.b(), pb(big, pw, sa, it, k), "pbkdf2", ctx); step(); state(ref::fnv(ctx)); outcome("pbkdf2-ok"); }
// the iterations done in any number of updates
static void kdfsteps() { bool big = flip(); int a = 1 + choose(6), b = choose(7), c = choose(4); uint32_t blk = 1 + choose(3) * 128; bytes pw = repeat(20, 1), sa = repeat(30, 2), want = pb(big, pw, sa, a + b + c, big ? 64 : 32, blk); std::string ctx = fmt("%d block %u updates %d %d %d", big, blk, a, b, c); Exact o(big ? 64 : 32); if (big) { PBKDF2_HMAC_SHA512_CTX x; pbkdf2_hmac_sha512_Init(&x, pw.data(), pw.size(), sa.data(), sa.size(), blk); for (int i : {a, b, c}) pbkdf2_hmac_sha512_Update(&x, i); pbkdf2_hmac_sha512_Final(&x, o.p); } else { PBKDF2_HMAC_SHA256_CTX x; pbkdf2_hmac_sha256_Init(&x, pw.data(), pw.size(), sa.data(), sa.size(), blk); for (int i : {a, b, c}) pbkdf2_hmac_sha256_Update(&x, i); pbkdf2_hmac_sha256_Final(&x, o.p); } eq(o.b(), want, "pbkdf2-steps", ctx); step(3); state(ref::fnv(ctx)); outcome("pbkdf2-steps-ok"); }
static void macs() { bool big = flip(); size_t k = choose(150), m = pick(std::vector<size_t>{0, 1, 20, 55, 56, 64, 119, 128, 129}); int how = choose(3); bytes key = repeat(k, 2), msg = repeat(m, 9); std::string ctx = fmt("hmac%d key %zu message %zu way %d", big, k, m, how); Exact ek(key), em(msg), o(big ? 64 : 32); if (how == 0) { if (big) ubtc_hmac_sha512(ek.p, k, em.p, m, o.p); else ubtc_hmac_sha256(ek.p, k, em.p, m, o.p); } else { size_t cut = how == 1 ? m / 2 : 0; if (big) { HMAC_SHA512_CTX c; ubtc_hmac_sha512_Init(&c, ek.p, k); ubtc_hmac_sha512_Update(&c, em.p, cut); ubtc_hmac_sha512_Update(&c, em.p + cut, m - cut); ubtc_hmac_sha512_Final(&c, o.p); } else { HMAC_SHA256_CTX c; ubtc_hmac_sha256_Init(&c, ek.p, k); ubtc_hmac_sha256_Update(&c, em.p, cut); ubtc_hmac_sha256_Update(&c, em.p + cut, m - cut); ubtc_hmac_sha256_Final(&c, o.p); } } eq(o.b(), big ? ref::hmac512(key, msg) : ref::hmac256(key, msg), "hmac", ctx); step(); state(ref::fnv(ctx)); outcome("hmac-ok"); }
// ---------------------------------------------------------------- randomness
static void nonce() { static const std::vector<bytes> K = {bytes(32, 0), ref::toB(U(1)), repeat(32, 1), repeat(32, 200), bytes(32, 0xff)}; bytes k = pick(K), h = pick(K); bool num = flip(); std::string ctx = ref::hex(k) + " " + ref::hex(h); bytes V(32, 1), Q(32, 0); Q = ref::hmac256(Q, ref::cat(ref::cat(ref::cat(V, {0}), k), h)); V = ref::hmac256(Q, V); Q = ref::hmac256(Q, ref::cat(ref::cat(ref::cat(V, {1}), k), h)); V = ref::hmac256(Q, V); rfc6979_state st; init_rfc6979(k.data(), h.data(), &st); for (int i = 0; i < (thorough ? 40 : 8); i++) { V = ref::hmac256(Q, V); uint8_t o[32]; if (num) { bignum256 b; generate_k_rfc6979(&b, &st); bn_write_be(&b, o); } else generate_rfc6979(o, &st); eq(bytes(o, o + 32), V, "rfc6979-sequence", ctx + fmt(" output %d", i)); Q = ref::hmac256(Q, ref::cat(V, {0})); V = ref::hmac256(Q, V); step(); } state(ref::fnv(ctx, num)); outcome("rfc6979-ok"); }
static void uniform() { static const std::vector<uint32_t> N_ = {1, 2, 3, 5, 6, 7, 10, 16, 58, 100, 255, 256, 257, 1000, 65535, 65536, 0x7fffffff, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu}; uint32_t n = pick(N_); std::string ctx = fmt("bound %u", n); for (uint32_t s = 0; s < 400; s++) { rng_seed(s + 1); uint32_t r = random_uniform(n); ok(r < n, "random-out-of-range", ctx); step(); } state(n); outcome("uniform-ok"); }
static void permute() { size_t n = choose(9); std::string s = std::string("abcdefgh").substr(0, n); std::map<std::string, int> seen; size_t f = 1; for (size_t i = 2; i <= n; i++) f *= i; for (uint32_t i = 0; i < (n <= 5 ? 6000 : 600); i++) { rng_seed(i + 3); Exact e(s); random_permute(e.c(), n); bytes b = e.b(); std::string t(b.begin(), b.end()), q = t; std::sort(q.begin(), q.end()); eq(q, s, "permute-loses-elements"); seen[t]++; step(); } if (n <= 5) eqn(seen.size(), f, "permutation-never-produced", fmt("length %zu", n)); state(n + 91); outcome("permute-ok"); }
static void buffer() { size_t n = choose(70); rng_seed(n); uint64_t c0 = rng::calls; Exact e(n, 0); random_buffer(e.p, n); size_t need = (n + 3) / 4; eqn(rng::calls - c0, need, "random-words-used", fmt("%zu bytes", n)); rng_seed(n); bytes w; for (size_t i = 0; i < n; i += 4) { bytes q = ref::le(random32(), 4); ref::app(w, sub(q, 0, n - i)); } eq(e.b(), w, "random-buffer", fmt("%zu bytes", n)); state(n + 555); step(); outcome("buffer-ok"); }
static void zero() { size_t off = choose(20), n = choose(80); bytes b(120, 0x77); memzero(b.data() + off, n); for (size_t i = 0; i < b.size(); i++) ok((b[i] == 0) == (i >= off && i < off + n), "memzero", fmt("offset %zu length %zu byte %zu", off, n, i)); step(); state(off * 1000 + n); outcome("memzero-ok"); }
// ---------------------------------------------------------------- base58
static bytes hashed(HasherType t, const bytes &a) { return t == HASHER_SHA2 ? ref::sha256(a) : t == HASHER_SHA2D ? ref::dsha(a) : t == HASHER_SHA2_RIPEMD ? ref::hash160(a) : s3(a, 256, t == HASHER_SHA3 ? 6 : 1); }
static bytes pl(size_t n, int z, int fillv) { bytes b = fillv == 0 ? bytes(n, 0) : fillv == 1 ? bytes(n, 0xff) : repeat(n, 7); for (size_t i = 0; i < (size_t)z && i < n; i++) b[i] = 0; return b; }
static void b58raw() { size_t n = choose(thorough ? 140 : 60); int z = choose(4), f = choose(3); bytes b = pl(n, z, f); std::string t = ref::b58(b), ctx = ref::hex(b); int d = (int)choose(5) - 2; size_t cap = (long)t.size() + 1 + d < 0 ? 0 : t.size() + 1 + d; { Exact e(b), o(cap); size_t sz = cap; bool r = b58enc(o.c(), &sz, e.p, n); ok(r == (cap > t.size()), "encode-result", ctx + fmt(" buffer %zu", cap)); eqn(sz, t.size() + 1, "encode-size", ctx + fmt(" buffer %zu", cap)); if (r) eq(std::string(o.c()), t, "encode", ctx); } { long c2 = (long)n + d; if (c2 < 0) c2 = 0; Exact e(t + std::string(1, 0)), o(c2); size_t sz = c2; bool r = b58tobin(o.p, &sz, e.c()); bool want = c2 > 0 && (size_t)c2 >= n; ok(r == want, "decode-result", t + fmt(" into %ld bytes, needs %zu", c2, n)); if (r) { eqn(sz, n, "decode-size", t + fmt(" into %ld bytes", c2)); bytes g = o.b(); eq(sub(g, c2 - n, n), b, "decode", t); } } step(2); state(ref::fnv(b, cap)); outcome("base58-ok"); }
static void b58chk() { size_t n = choose(thorough ? 132 : 45); int z = choose(3), f = choose(3); HasherType t = (HasherType)choose(6); bool gph = t == 5; bytes b = pl(n, z, f), h = gph ? ref::rmd160(b) : hashed(t, b); std::string want = ref::b58(ref::cat(b, sub(h, 0, 4))), ctx = fmt("type %d ", t) + ref::hex(b); bool fits = n <= 128; for (long d = -1; d <= 1; d++) { long cap = (long)want.size() + 1 + d; Exact e(b), o(cap); int r = gph ? base58gph_encode_check(e.p, n, o.c(), cap) : base58_encode_check(e.p, n, t, o.c(), cap); if (d < 0 || !fits) eqn(r, 0, "check-encode-result", ctx); else { eqn(r, want.size() + 1, "check-encode-result", ctx); eq(std::string(o.c()), want, "check-encode", ctx); } }
  for (long d = -1; d <= 2; d++) { long cap = (long)n + d; if (cap < 0) continue; Exact e(want + std::string(1, 0)), o(cap); int r = gph ? base58gph_decode_check(e.c(), o.p, cap) : base58_decode_check(e.c(), t, o.p, cap); if (d < 0 || cap > 128) eqn(r, 0, "check-decode-result", ctx + fmt(" into %ld", cap)); else { eqn(r, n, "check-decode-result", ctx + fmt(" into %ld", cap)); eq(sub(o.b(), 0, n), b, "check-decode", ctx); } step(2); } state(ref::fnv(b, t)); outcome("base58check-ok"); }
static void b58bad() { size_t n = pick(std::vector<size_t>{0, 1, 4, 20, 21, 25, 34, 78}); bytes b = pl(n, choose(3), choose(3)); std::string t = ref::b58c(b); size_t pos = choose(t.size() + 1); int v = choose(thorough ? 255 : 64); char c = thorough ? (char)(v + 1) : v < 58 ? ref::A58[v] : "0OIl \xff"[v - 58]; std::string s = t; if (pos == t.size()) s += c; else s[pos] = c; Exact e(s + std::string(1, 0)), o(n + 3); bytes back; bool want = ref::b58cdec(s, back) && back.size() <= n + 3; int r = base58_decode_check(e.c(), HASHER_SHA2D, o.p, n + 3); if (!want) eqn(r, 0, "damaged-text-accepted", s); else { eqn(r, back.size(), "check-decode-result", s); eq(sub(o.b(), 0, r), back, "check-decode", s); } step(); state(ref::fnv(s)); outcome(want ? "base58-unchanged" : "base58-rejected"); }
static void ones() { size_t z = choose(140), cap = choose(40); std::string s(z, '1'); bool tail = flip(); if (tail) s += "2g"; Exact e(s + std::string(1, 0)), o(cap); size_t sz = cap; bool r = b58tobin(o.p, &sz, e.c()); size_t need = z + (tail ? 1 : 0); bool want = cap > 0 && need <= cap; ok(r == want, "decode-result", s + fmt(" into %zu bytes, needs %zu", cap, need)); if (r) eqn(sz, need, "decode-size", s); Exact d(cap); int q = base58_decode_check(e.c(), HASHER_SHA2D, d.p, cap); eqn(q, 0, "damaged-text-accepted", s); step(2); state(z * 1000 + cap); outcome("ones"); }
static void verify() { size_t n = choose(40); bytes b = pl(n, choose(3), choose(3)); bytes full = ref::cat(b, sub(ref::dsha(b), 0, 4)); std::string t = ref::b58(full); int how = choose(5); std::string ctx = ref::hex(b) + fmt(" %d", how); Exact ef(full); if (how == 0) { Exact e(t + std::string(1, 0)); eqn(b58check(ef.p, ef.n, HASHER_SHA2D, e.c()), full[0], "b58check", ctx); } else if (how == 1) { std::string u = "1" + t; Exact e(u + std::string(1, 0)); ok(b58check(ef.p, ef.n, HASHER_SHA2D, e.c()) < 0, "b58check-zeros", ctx); } else if (how == 2) { ef.p[choose(full.size())] ^= 1 << choose(8); ok(b58check(ef.p, ef.n, HASHER_SHA2D, t.c_str()) < 0, "b58check-damaged", ctx); } else if (how == 3) { size_t k = choose(4); Exact s(sub(full, 0, k)); ok(b58check(s.p, k, HASHER_SHA2D, "") < 0, "b58check-short", ctx); } else if (full[0] == 0) { std::string u = t.substr(1); ok(b58check(ef.p, ef.n, HASHER_SHA2D, u.c_str()) < 0, "b58check-zeros", ctx); } step(); state(ref::fnv(ctx)); outcome("b58check-ok"); }
// ---------------------------------------------------------------- addresses
static const std::vector<uint32_t> AV = {0, 1, 5, 0x6f, 0x80, 0xfe, 0xff, 0x100, 0x101, 0x1cb8, 0xfffe, 0xffff, 0x10000, 0x10203, 0xffffff, 0x1000000, 0x1020304, 0x80000000u, 0xffffffffu};
static bytes vpre(uint32_t v) { bytes b = ref::be(v, 4); size_t i = 0; while (i < 3 && !b[i]) i++; return sub(b, i, 4); }
static void prefixes() { uint32_t v = pick(AV); bytes p = vpre(v); std::string ctx = fmt("version %x", v); eqn(address_prefix_bytes_len(v), p.size(), "prefix-length", ctx); Exact o(p.size()); address_write_prefix_bytes(v, o.p); eq(o.b(), p, "prefix", ctx); { Exact e(p); ok(address_check_prefix(e.p, v), "prefix-not-recognised", ctx); } size_t i = choose(p.size()); int x = 1 + choose(255); bytes q = p; q[i] ^= x; Exact e(q); ok(!address_check_prefix(e.p, v), "wrong-prefix-accepted", ctx + " " + ref::hex(q)); step(4); state(ref::fnv(q, v)); outcome("prefix-ok"); }
static void addrs() { uint32_t v = pick(AV); int kind = choose(4); static const HasherType HT_[] = {HASHER_SHA2_RIPEMD, HASHER_SHA2, HASHER_SHA3}, HB[] = {HASHER_SHA2D, HASHER_SHA2, HASHER_SHA3K}; HasherType hp = HT_[choose(3)], hb = HB[choose(3)]; U k = pick(std::vector<U>{U(1), U(2), U(77)}); Pt P = ref::mulG(k); bytes pub = kind == 0 ? ref::sec(P, true) : kind == 1 ? ref::sec(P, false) : kind == 2 ? bytes{0} : ref::sec(ref::neg(P), true); std::string ctx = fmt("version %x kind %d hash %d/%d", v, kind, hp, hb); bytes h = sub(hashed(hp, pub), 0, 20), p = vpre(v), raw = ref::cat(p, h); auto text = [&](const bytes &b) { return ref::b58(ref::cat(b, sub(hashed(hb, b), 0, 4))); }; Exact e(pub); { Exact o(20); ecdsa_get_pubkeyhash(e.p, hp, o.p); eq(o.b(), h, "pubkey-hash", ctx); } { Exact o(raw.size()); ecdsa_get_address_raw(e.p, v, hp, o.p); eq(o.b(), raw, "address-raw", ctx); } std::string t = text(raw); { Exact o(MAX_ADDR_SIZE); ecdsa_get_address(e.p, v, hp, hb, o.c(), MAX_ADDR_SIZE); eq(std::string(o.c()), t, "address", ctx); }
  if (hp == HASHER_SHA2_RIPEMD) { bytes rd = ref::cat(p, sub(hashed(hp, ref::cat({0, 20}, h)), 0, 20)); Exact o(MAX_ADDR_RAW_SIZE); ecdsa_get_address_segwit_p2sh_raw(e.p, v, hp, o.p); eq(sub(o.b(), 0, rd.size()), rd, "nested-address-raw", ctx); Exact q(MAX_ADDR_SIZE); ecdsa_get_address_segwit_p2sh(e.p, v, hp, hb, q.c(), MAX_ADDR_SIZE); eq(std::string(q.c()), text(rd), "nested-address", ctx); }
  { Exact o(raw.size()); ok(ecdsa_address_decode(t.c_str(), v, hb, o.p), "address-not-decoded", ctx); eq(o.b(), raw, "address-decoded", ctx); } { Exact o(64); uint32_t w = v ^ (1u << choose(32)); bytes wp = vpre(w); bool want = wp == p; ok(!!ecdsa_address_decode(t.c_str(), w, hb, o.p) == want, "address-of-other-version-accepted", ctx + fmt(" read as %x", w)); } { bytes key = ref::toB(k), wr = ref::cat(ref::cat(p, key), {1}); Exact o(MAX_WIF_SIZE); ecdsa_get_wif(key.data(), v, hb, o.c(), MAX_WIF_SIZE); eq(std::string(o.c()), text(wr), "wif", ctx); } eqn(ecdsa_address_decode(nullptr, v, hb, nullptr), 0, "null-address"); step(8); state(ref::fnv(ctx)); outcome("address-ok"); }
static void ethereum() { bytes a = choose(2) ? repeat(20, choose(64)) : sub(ref::sha256(ref::be(choose(64), 4)), 0, 20); int r = choose(6); static const uint32_t CH[] = {0, 1, 30, 31, 4294967295u}; std::string h = ref::hex(a), pre_ = r ? std::to_string(CH[r - 1]) + "0x" : ""; bytes k = s3(ref::B(pre_ + h), 256, 1); std::string w = h; for (int i = 0; i < 40; i++) if (w[i] >= 'a' && (k[i / 2] >> (i % 2 ? 3 : 7) & 1)) w[i] -= 32; Exact o(41); ethereum_address_checksum(a.data(), o.c(), r > 0, r ? CH[r - 1] : 0); eq(std::string(o.c()), w, "ethereum-checksum", fmt("chain %d", r)); step(); state(ref::fnv(w)); outcome("ethereum-ok"); }
// ---------------------------------------------------------------- mnemonics
static const std::vector<std::string> &W() { static std::vector<std::string> v; if (v.empty()) { std::string s = BIP39_WORDS, c; for (char ch : s) if (ch == ' ') { if (c.size()) v.push_back(c); c.clear(); } else c += ch; if (c.size()) v.push_back(c); } return v; }
static std::string mnem(const bytes &e) { bytes b = ref::cat(e, ref::sha256(e)); std::string r; for (size_t i = 0; i < e.size() * 3 / 4; i++) { int x = 0; for (int j = 0; j < 11; j++) x = x << 1 | (b[(i * 11 + j) / 8] >> (7 - (i * 11 + j) % 8) & 1); r += (i ? " " : "") + W()[x]; } return r; }
static std::vector<std::string> words(const std::string &s) { std::vector<std::string> v(1); for (char c : s) if (c == ' ') v.push_back(""); else v.back() += c; return v; }
static bool entropy(const std::string &s, bytes &bits, size_t &n) { auto v = words(s); n = v.size(); if (n < 12 || n > 24 || n % 3) return false; static std::map<std::string, int> ix; if (ix.empty()) for (size_t i = 0; i < W().size(); i++) ix[W()[i]] = i; bits.assign(33, 0); size_t k = 0; for (auto &w : v) { auto it = ix.find(w); if (it == ix.end()) return false; for (int j = 10; j >= 0; j--, k++) if (it->second >> j & 1) bits[k / 8] |= 0x80 >> (k % 8); } return true; }
static void judgem(const std::string &s) { bytes bits; size_t n = 0; bool g = entropy(s, bits, n), chk = false; if (g) { bytes e = sub(bits, 0, n * 4 / 3), h = ref::sha256(e); chk = !((h[0] ^ bits[n * 4 / 3]) & (uint8_t)(0xff << (8 - n / 3))); } Exact e(s + std::string(1, 0)), o(33); int r = mnemonic_to_entropy(e.c(), o.p); eqn(r, g ? n * 11 : 0, "entropy-bits", s); if (g) eq(o.b(), bits, "entropy", s); ok(!!mnemonic_check(e.c()) == chk, chk ? "valid-mnemonic-rejected" : "invalid-mnemonic-accepted", s); step(2); state(ref::fnv(s)); outcome(chk ? "mnemonic-valid" : "mnemonic-invalid"); }
static void mfrom() { int len = choose(40); int f = choose(4); bytes e = f == 0 ? bytes(len, 0) : f == 1 ? bytes(len, 0xff) : f == 2 ? bytes(len, 0x80) : repeat(len, 5); Exact x(e); const char *r = mnemonic_from_data(x.p, len); bool good = len % 4 == 0 && len >= 16 && len <= 32; ok(!!r == good, "mnemonic-result", fmt("%d bytes", len)); if (r) { std::string s = mnem(e), g = r; eq(g, s, "mnemonic", ref::hex(e)); mnemonic_clear(); ok(!*r, "mnemonic-not-cleared"); judgem(s); auto v = words(s); size_t i = choose(v.size()); int how = choose(6); if (how == 0) v[i] = v[i] == "zoo" ? "zone" : "zoo"; else if (how == 1) v.erase(v.begin() + i); else if (how == 2) v[i] += "x"; else if (how == 3) v[i] = ""; else if (how == 4) v[i] = v[i].substr(0, 4) == v[i] ? v[i].substr(0, 2) : v[i].substr(0, 4); else v.insert(v.begin() + i, {"zoo", "zoo", "abandon"}); std::string t; for (size_t k = 0; k < v.size(); k++) t += (k ? " " : "") + v[k]; judgem(t); } }
static void mwords() { int n = choose(8) * 3 + 3; int i = choose(2048); std::vector<std::string> v(n, W()[(i * 7 + n) % 2048]); v.back() = W()[i]; std::string t; for (size_t k = 0; k < v.size(); k++) t += (k ? " " : "") + v[k]; judgem(t); }
static void mgen() { int s = choose(300); rng_seed(s); const char *r = mnemonic_generate(s); bool good = s % 32 == 0 && s >= 128 && s <= 256; ok(!!r == good, "generated", fmt("strength %d", s)); if (r) { std::string t = r; rng_seed(s); bytes b; for (int i = 0; i < 8; i++) ref::app(b, ref::le(random32(), 4)); eq(t, mnem(sub(b, 0, s / 8)), "generated-mnemonic", fmt("strength %d", s)); } const char *const *w = mnemonic_wordlist(); if (!s) { for (size_t i = 0; i < 2048; i++) eq(std::string(w[i]), W()[i], "word-list"); ok(!w[2048], "word-list-end"); } step(); state(s + 313); outcome("generate-ok"); }
// the seed cache: every history of requests
static uint32_t prog_last; static int prog_n; static void progress(uint32_t c, uint32_t t) { prog_last = c; prog_n++; if (t != 2048) prog_n = -1000; }
static void seeds() { static const std::vector<std::string> M = {mnem(bytes(16, 0)), mnem(repeat(16, 1)), mnem(repeat(32, 5))}, PP = {"", "TREZOR", std::string(63, 'a'), std::string(64, 'b'), std::string(256, 'c'), std::string(257, 'd'), std::string(300, 'e')}; static std::map<std::string, bytes> memo; std::string tr; int n = thorough ? 3 : 2; for (int i = 0; i < n; i++) { int a = choose(3), p = choose(i ? 4 : 7); std::string pw = PP[p]; if (i == 1 && choose(2)) { for (int k = 0; k < 4; k++) { uint8_t o[64]; mnemonic_to_seed(M[0].c_str(), fmt("x%d", k).c_str(), o, nullptr); } tr += " fill"; } std::string used = pw.substr(0, 256); bytes &w = memo[M[a] + "|" + used]; if (w.empty()) w = ref::pbkdf2_512(ref::B(M[a]), ref::B("mnemonic" + used), 2048); tr += fmt(" %d.%zu", a, pw.size()); Exact em(M[a] + std::string(1, 0)), ep(pw + std::string(1, 0)), o(64); prog_n = 0; prog_last = 0; mnemonic_to_seed(em.c(), ep.c(), o.p, choose(2) ? progress : nullptr); eq(o.b(), w, "seed", tr); ok(prog_n == 0 || (prog_n > 0 && prog_last == 2048), "progress", tr); step(); } state(ref::fnv(tr)); outcome("seed-ok"); }
// ---------------------------------------------------------------- bech32
static void bits() { int ib = 1 + choose(8), ob = 1 + choose(8), padv = choose(2); size_t n = choose(12); int f = choose(3); bytes in(n); for (size_t i = 0; i < n; i++) in[i] = (f == 0 ? 0 : f == 1 ? 0xff : (uint8_t)(i * 37 + 11)) & ((1 << ib) - 1); std::string ctx = fmt("%d -> %d pad %d ", ib, ob, padv) + ref::hex(in); std::vector<int> bv; for (uint8_t c : in) for (int j = ib - 1; j >= 0; j--) bv.push_back(c >> j & 1); bytes w; size_t full = bv.size() / ob, rest = bv.size() % ob; for (size_t i = 0; i < full; i++) { int x = 0; for (int j = 0; j < ob; j++) x = x << 1 | bv[i * ob + j]; w.push_back(x); } int tail = 0; for (size_t j = 0; j < rest; j++) tail = tail << 1 | bv[full * ob + j]; bool good = true; if (padv) { if (rest) w.push_back(tail << (ob - rest)); } else if (tail || (int)rest >= ib) good = false; Exact e(in), o(w.size()); size_t ol = 0; int r = convert_bits(o.p, &ol, ob, e.p, n, ib, padv); ok(!!r == good, "convert-result", ctx); eqn(ol, w.size(), "convert-length", ctx); eq(o.b(), w, "convert", ctx); step(); state(ref::fnv(ctx)); outcome(good ? "convert-ok" : "convert-rejected"); }
static std::string benc(const std::string &hrp, const bytes &d, uint32_t konst = 1) { auto v = ref::hrpx(hrp); v.insert(v.end(), d.begin(), d.end()); v.insert(v.end(), 6, 0); uint32_t p = ref::polymod(v) ^ konst; std::string s = hrp + "1"; for (int x : d) s += ref::BC[x]; for (int i = 0; i < 6; i++) s += ref::BC[p >> (5 * (5 - i)) & 31]; return s; }
static const std::vector<std::string> &HR() { static const std::vector<std::string> v = {"a", "bc", "tb", "bcrt", "lnbc20m", "1", "a1b", "!~{", std::string(83, 'q')}; return v; }
static void benc_() { const std::string &h = pick(HR()); size_t n = choose(thorough ? 200 : 70); bytes d(n); int f = choose(3); for (size_t i = 0; i < n; i++) d[i] = f == 0 ? 0 : f == 1 ? 31 : (i * 7 + n) % 32; std::string want = benc(h, d); { Exact o(h.size() + n + 8), ed(d); int r = bech32_encode(o.c(), h.c_str(), ed.p, n); ok(r, "bech32-encode-result", want); eq(std::string(o.c()), want, "bech32-encode", want); } std::string t = want; if (choose(2)) for (auto &c : t) c = toupper(c); { Exact e(t + std::string(1, 0)), eh(t.size() - 6), ed(t.size() - 8 ? t.size() - 8 : 0); size_t dl = 0; int r = bech32_decode(eh.c(), ed.p, &dl, e.c()); ok(r, "bech32-decode-result", t); eq(std::string(eh.c()), h, "bech32-prefix", t); eq(sub(ed.b(), 0, dl), d, "bech32-data", t); } step(2); state(ref::fnv(want)); outcome("bech32-ok"); }
static void blimits() { size_t hl = 1 + choose(3) * 41, tot = 990 + choose(20); if (tot < hl + 7) return; size_t n = tot - hl - 7; std::string h(hl, 'z'); bytes d(n, 3); std::string want = benc(h, d); Exact o(h.size() + n + 8); int r = bech32_encode(o.c(), h.c_str(), d.data(), n); ok(!!r == (tot <= 1000), "bech32-length-limit", fmt("%zu characters", tot)); if (r) eq(std::string(o.c()), want, "bech32-encode"); Exact e(want + std::string(1, 0)), eh(want.size() - 6), ed(want.size() - 8); size_t dl; ok(!!bech32_decode(eh.c(), ed.p, &dl, e.c()) == (tot <= 1000), "bech32-length-limit", fmt("decoding %zu characters", tot)); for (int c = 1; c < 256; c++) { std::string hh(1, (char)c); bytes dd{1, 2, 3}; Exact oo(16); bool good = c >= 33 && c <= 126 && !(c >= 'A' && c <= 'Z'); ok(!!bech32_encode(oo.c(), hh.c_str(), dd.data(), 3) == good, "bech32-prefix-character", fmt("%d", c)); dd[1] = c; ok(!!bech32_encode(oo.c(), "a", dd.data(), 3) == (c < 32), "bech32-data-value", fmt("%d", c)); } step(2); state(tot * 200 + hl); outcome("bech32-limits"); }
static bool bdec(const std::string &a, std::string &hrp, bytes &d) { bool lo = false, up = false; for (char c : a) { if (c < 33 || c > 126) return false; if (c >= 'a' && c <= 'z') lo = true; if (c >= 'A' && c <= 'Z') up = true; } if (lo && up) return false; std::string s = a; for (auto &c : s) c = tolower(c); size_t p = s.rfind('1'); if (p == std::string::npos || p < 1 || p + 7 > s.size() || s.size() > 1000) return false; hrp = s.substr(0, p); d.clear(); for (size_t i = p + 1; i < s.size(); i++) { const char *q = strchr(ref::BC, s[i]); if (!q) return false; d.push_back(q - ref::BC); } auto v = ref::hrpx(hrp); v.insert(v.end(), d.begin(), d.end()); if (ref::polymod(v) != 1) return false; d.resize(d.size() - 6); return true; }
static void bedit() { static const std::vector<std::string> V = {benc("a", {}), benc("bc", bytes{0, 14, 20, 15}), benc("a1b", bytes{1, 2, 3, 4, 5, 6}), benc("tb", bytes(33, 7)), benc("x", bytes{31}, 0x2bc830a3)}; std::string s = pick(V); size_t pos = choose(s.size()); int op = choose(3); if (op == 0) s[pos] = (char)(1 + choose(255)); else if (op == 1) s.erase(pos, 1 + choose(std::min<size_t>(8, s.size() - pos))); else s.insert(pos, 1, "1qpQ!"[choose(5)]); std::string h; bytes d; bool good = bdec(s, h, d); Exact e(s + std::string(1, 0)), eh(s.size() < 8 ? 1 : s.size() - 6), ed(s.size() < 8 ? 1 : s.size() - 8); size_t dl = 0; int r = bech32_decode(eh.c(), ed.p, &dl, e.c()); ok(!!r == good, good ? "bech32-valid-rejected" : "bech32-invalid-accepted", s); if (r) { eq(std::string(eh.c()), h, "bech32-prefix", s); eq(sub(ed.b(), 0, dl), d, "bech32-data", s); } step(); state(ref::fnv(s)); outcome(good ? "bech32-valid" : "bech32-rejected"); }
static void segwit() { int ver = choose(19); size_t n = choose(44); std::string h = pick(std::vector<std::string>{"bc", "tb", "bcrt"}); bytes p = repeat(n, ver); bool good = ver <= 16 && n >= 2 && n <= 40 && (ver || n == 20 || n == 32); uint32_t k = ver ? 0x2bc830a3 : 1; std::string ctx = fmt("%s version %d length %zu", h.c_str(), ver, n); Exact e(p), o(73 + h.size()); int r = segwit_addr_encode(o.c(), h.c_str(), ver, e.p, n); ok(!!r == good, "segwit-encode-result", ctx); std::string t; if (r) { t = o.c(); eq(t, ref::segwit_addr(h, ver, p, k), "segwit-encode", ctx); } else { if (ver > 31) return; t = ref::segwit_addr(h, ver, p, k); } for (int c = 0; c < 3; c++) { std::string x = c == 1 ? ref::segwit_addr(h, ver, p, k == 1 ? 0x2bc830a3 : 1) : t; std::string hh = c == 2 ? "b" : h; Exact ex(x + std::string(1, 0)), pr(41 + 24); int v = -1; size_t l = 0; int q = segwit_addr_decode(&v, pr.p, &l, hh.c_str(), ex.c()); ok(!!q == (good && c == 0), q ? "segwit-invalid-accepted" : "segwit-valid-rejected", ctx + fmt(" variant %d", c)); if (q) { eqn(v, ver, "segwit-version", ctx); eq(sub(pr.b(), 0, l), p, "segwit-program", ctx); } step(); } state(ref::fnv(ctx)); outcome(good ? "segwit-ok" : "segwit-rejected"); }
void define_spaces() { W(); HA(); for (auto &a : HA()) { const HAlg *p = &a; std::string n = a.name; space("lengths." + n, 2, [=] { lengths(*p); }); space("long." + n, 2, [=] { longer(*p); }); space("cuts." + n, 2, [=] { cuts(*p); }); space("contexts." + n, 2, [=] { contexts(*p); }); } space("texts", 1, [] { texts(); }); space("hmac", 3, [] { macs(); }); space("pbkdf2", 3, [] { kdf(); }); space("pbkdf2-steps", 3, [] { kdfsteps(); }); space("rfc6979", 2, [] { nonce(); }); space("uniform", 1, [] { uniform(); }); space("permute", 1, [] { permute(); }); space("buffer", 1, [] { buffer(); }); space("memzero", 1, [] { zero(); });
  space("base58", 2, [] { b58raw(); }); space("base58check", 3, [] { b58chk(); }); space("base58-damage", 3, [] { b58bad(); }); space("ones", 2, [] { ones(); }); space("b58check", 2, [] { verify(); }); space("prefixes", 1, [] { prefixes(); }); space("addresses", 2, [] { addrs(); }); space("ethereum", 2, [] { ethereum(); }); space("mnemonic", 2, [] { mfrom(); }); space("mnemonic-words", 2, [] { mwords(); }); space("generate", 1, [] { mgen(); }); space("seeds", 4, [] { seeds(); }); space("bits", 3, [] { bits(); }); space("bech32", 2, [] { benc_(); }); space("bech32-limits", 2, [] { blimits(); }); space("bech32-edits", 2, [] { bedit(); }); space("segwit", 2, [] { segwit(); }); }
