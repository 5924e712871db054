// C22: hash objects. For every algorithm: all message lengths across several blocks, all two-cut splits and all
// constant strides, one-shot overloads, all operation histories (begin/write/end/reuse) up to a depth, all
// interleavings of two live objects; judged against independent implementations of the standards.
#include "lib.h"
#include "Hash.h"
struct IH { virtual ~IH() {} virtual void begin(const bytes &key) = 0; virtual void write(const uint8_t *p, size_t n) = 0; virtual void write(uint8_t b) = 0; virtual bytes end() = 0; virtual IH *clone() = 0; };
template <class T, int N> struct HP : IH { T h; void begin(const bytes &) override { h.begin(); } void write(const uint8_t *p, size_t n) override { eqn(h.write(p, n), n, "write-returns"); } void write(uint8_t b) override { eqn(h.write(b), 1, "write-returns"); } bytes end() override { Exact o(N); eqn(h.end(o.p), N, "end-returns"); return o.b(); } IH *clone() override { return new HP(*this); } };
template <class T, int N> struct HM : IH { T h; void begin(const bytes &k) override { Exact e(k); h.beginHMAC(e.p, e.n); } void write(const uint8_t *p, size_t n) override { h.write(p, n); } void write(uint8_t b) override { h.write(b); } bytes end() override { Exact o(N); eqn(h.endHMAC(o.p), N, "end-returns"); return o.b(); } IH *clone() override { return new HM(*this); } };
struct Alg { const char *name; bool mac; IH *(*mk)(); bytes (*model)(const bytes &key, const bytes &m); bytes (*one)(const bytes &key, const bytes &m, int variant); };
template <int N, class F> bytes run(F f) { Exact o(N); eqn(f(o.p), N, "one-shot-returns"); return o.b(); }
#define ONE(fn, N) [](const bytes &, const bytes &m, int v) -> bytes { Exact e(m); return v == 0 ? run<N>([&](uint8_t *o) { return fn((const uint8_t *)e.p, e.n, o); }) : v == 1 ? run<N>([&](uint8_t *o) { return fn((const char *)e.p, e.n, o); }) : run<N>([&](uint8_t *o) { return fn(S2(m), o); }); }
static const Alg A[] = {
  {"SHA256", false, [] { return (IH *)new HP<SHA256, 32>; }, [](const bytes &, const bytes &m) { return ref::sha256(m); }, ONE(sha256, 32)},
  {"DoubleSha", false, [] { return (IH *)new HP<DoubleSha, 32>; }, [](const bytes &, const bytes &m) { return ref::dsha(m); }, ONE(doubleSha, 32)},
  {"RMD160", false, [] { return (IH *)new HP<RMD160, 20>; }, [](const bytes &, const bytes &m) { return ref::rmd160(m); }, ONE(rmd160, 20)},
  {"Hash160", false, [] { return (IH *)new HP<Hash160, 20>; }, [](const bytes &, const bytes &m) { return ref::hash160(m); }, ONE(hash160, 20)},
  {"SHA512", false, [] { return (IH *)new HP<SHA512, 64>; }, [](const bytes &, const bytes &m) { return ref::sha512(m); }, ONE(sha512, 64)},
  {"HMAC256", true, [] { return (IH *)new HM<SHA256, 32>; }, [](const bytes &k, const bytes &m) { return ref::hmac256(k, m); }, [](const bytes &k, const bytes &m, int) -> bytes { Exact e(m), f(k); return run<32>([&](uint8_t *o) { return sha256Hmac(f.p, f.n, e.p, e.n, o); }); }},
  {"HMAC512", true, [] { return (IH *)new HM<SHA512, 64>; }, [](const bytes &k, const bytes &m) { return ref::hmac512(k, m); }, [](const bytes &k, const bytes &m, int) -> bytes { Exact e(m), f(k); return run<64>([&](uint8_t *o) { return sha512Hmac(f.p, f.n, e.p, e.n, o); }); }},
};
static bytes msg(size_t n, int p) { bytes b(n); for (size_t i = 0; i < n; i++) b[i] = p == 0 ? i * 37 + 11 : p == 1 ? 0 : p == 2 ? 0xff : 0x80 >> (i & 7); return b; }
static const size_t KL[] = {0, 1, 20, 32, 63, 64, 65, 127, 128, 129, 200};
static bytes key(const Alg &a) { return a.mac ? msg(KL[choose(11)], 0) : bytes(); }
static void put(IH &h, const bytes &m, size_t from, size_t to) { Exact e(sub(m, from, to - from)); h.write(e.p, e.n); step(); }
static void lengths(const Alg &a) { bytes k = key(a); size_t n = choose(thorough ? 1100 : 400); bytes m = msg(n, choose(4)); bytes w = a.model(k, m); std::string ctx = fmt("%s length %zu key %zu", a.name, n, k.size()); for (int v = 0; v < (a.mac ? 1 : 3); v++) { eq(a.one(k, m, v), w, "one-shot", ctx + fmt(" variant %d", v)); step(); } std::unique_ptr<IH> h(a.mk()); if (a.mac) h->begin(k); for (uint8_t c : m) h->write(c); eq(h->end(), w, "bytewise", ctx); state(ref::fnv(w)); outcome("length-ok"); }
static void cuts(const Alg &a) { bytes k = a.mac ? msg(KL[4 + choose(3)], 0) : bytes(); static const size_t L[] = {63, 64, 65, 119, 127, 128, 129, 150}; size_t n = thorough ? choose(270) : L[choose(8)]; bytes m = msg(n, 0); size_t i = choose(n + 1), j = i + choose(n + 1 - i); std::unique_ptr<IH> h(a.mk()); h->begin(k); put(*h, m, 0, i); put(*h, m, i, j); put(*h, m, j, n); eq(h->end(), a.model(k, m), "split", fmt("%s length %zu cut at %zu and %zu", a.name, n, i, j)); state((uint64_t)n << 32 | i << 16 | j | (uint64_t)(&a - A) << 56); outcome("split-ok"); }
static void strides(const Alg &a) { bytes k = a.mac ? msg(40, 0) : bytes(); size_t n = 1 + choose(thorough ? 700 : 300), s = 1 + choose(thorough ? 270 : 140); bytes m = msg(n, 0); std::unique_ptr<IH> h(a.mk()); h->begin(k); for (size_t p = 0; p < n; p += s) put(*h, m, p, std::min(n, p + s)); eq(h->end(), a.model(k, m), "stride", fmt("%s length %zu stride %zu", a.name, n, s)); state((uint64_t)n << 32 | s | (uint64_t)(&a - A) << 57); outcome("stride-ok"); }
static void history(const Alg &a) { // reuse after any history: begin at any time restarts; end gives the digest of what was written since
  std::unique_ptr<IH> h(a.mk()); bytes k = a.mac ? msg(40, 0) : bytes(), acc; bool live = !a.mac; if (a.mac) { h->begin(k); live = true; } int depth = thorough ? 7 : 5; static const size_t W[] = {0, 1, 63, 64, 130}; std::string tr;
  for (int d = 0; d < depth; d++) { int o = choose(live ? 8 : 1); if (o == 0) { h->begin(k); acc.clear(); live = true; tr += "B"; } else if (o < 6) { bytes m = msg(W[o - 1], 0); put(*h, m, 0, m.size()); ref::app(acc, m); tr += 'a' + o; } else if (o == 6) { eq(h->end(), a.model(k, acc), "history", std::string(a.name) + " " + tr + "E"); step(); live = false; tr += "E"; } else { std::unique_ptr<IH> c(h->clone()); bytes m = msg(70, 2); put(*c, m, 0, 70); eq(c->end(), a.model(k, ref::cat(acc, m)), "copy", std::string(a.name) + " " + tr); step(); tr += "C"; } }
  if (live) eq(h->end(), a.model(k, acc), "history", std::string(a.name) + " " + tr + "E"); state(ref::fnv(tr, &a - A + 1)); outcome("history-ok");
}
static void inter() { // two live objects, all interleavings of 4 operations each; one-shot calls in between
  int x = choose(7), y = choose(7); std::unique_ptr<IH> h[2] = {std::unique_ptr<IH>(A[x].mk()), std::unique_ptr<IH>(A[y].mk())}; const Alg *al[2] = {A + x, A + y}; bytes k[2] = {msg(10, 0), msg(140, 2)}; bytes m[2] = {msg(150, 0), msg(131, 3)}; int pos[2] = {0, 0}; size_t cut[2][3] = {{0, 65, 150}, {0, 3, 131}}; std::string tr;
  while (pos[0] < 4 || pos[1] < 4) { int w = pos[0] == 4 ? 1 : pos[1] == 4 ? 0 : choose(2); int &p = pos[w]; tr += "01"[w]; if (p == 0) h[w]->begin(k[w]); else if (p < 3) put(*h[w], m[w], cut[w][p - 1], cut[w][p]); else eq(h[w]->end(), al[w]->model(al[w]->mac ? k[w] : bytes(), m[w]), "interleaved", std::string(al[0]->name) + "/" + al[1]->name + " " + tr); step(); p++; if (p == 2) { bytes z = msg(5, 0); eq(al[1 - w]->one(k[0], z, 0), al[1 - w]->model(k[0], z), "one-shot-between", tr); } }
  state(ref::fnv(tr, x * 7 + y)); outcome("interleave-ok");
}
static void tag() { static const char *T[] = {"BIP0340/challenge", "TapLeaf", "", "a", "0123456789012345678901234567890123456789012345678901234567890123456789"}; const char *t = T[choose(5)]; bytes m = msg(choose(200), choose(3)); bytes w = ref::tagged(t, m); std::string ctx = fmt("tag '%s' length %zu", t, m.size()); Exact e(m); eq(run<32>([&](uint8_t *o) { return tagged_hash(t, (const uint8_t *)e.p, e.n, o); }), w, "tagged", ctx); eq(run<32>([&](uint8_t *o) { return tagged_hash(t, (const char *)e.p, e.n, o); }), w, "tagged-char", ctx); eq(run<32>([&](uint8_t *o) { return tagged_hash(std::string(t), S2(m), o); }), w, "tagged-string", ctx); TaggedHash h(t); size_t i = m.size() / 3; Exact a(sub(m, 0, i)), b(sub(m, i, m.size())); h.write(a.p, a.n); h.write(b.p, b.n); eq(run<32>([&](uint8_t *o) { return h.end(o); }), w, "tagged-object", ctx); state(ref::fnv(w)); step(4); outcome("tag-ok"); }
static void huge(const Alg &a) { // length counter beyond 2^32 bits
  size_t n = ((size_t)1 << 29) + choose(2) * 77; bytes m(n, 0x5a), k = a.mac ? msg(10, 0) : bytes(); std::unique_ptr<IH> h(a.mk()); h->begin(k); for (size_t p = 0; p < n; p += 1 << 20) h->write(m.data() + p, std::min(n - p, (size_t)1 << 20)); step(n >> 20); eq(h->end(), a.model(k, m), "huge", fmt("%s length %zu", a.name, n)); eq(a.one(k, m, 0), a.model(k, m), "huge-one-shot", fmt("%s length %zu", a.name, n)); state(n + (&a - A)); outcome("huge-ok"); }
// lengths around every power of two up to 16 MB (also through one-shot calls)
static void pow2(const Alg &a) { int k = 8 + choose(thorough ? 17 : 14); size_t n = ((size_t)1 << k) - 1 + choose(3); bytes m = msg(n, 0), key = a.mac ? msg(10, 0) : bytes(), w = a.model(key, m); std::string ctx = fmt("%s length %zu", a.name, n); eq(a.one(key, m, 0), w, "one-shot", ctx); static const size_t ST[] = {4096, 65536, 65537, 1 << 20}; size_t st = ST[choose(4)]; std::unique_ptr<IH> h(a.mk()); h->begin(key); for (size_t p = 0; p < n; p += st) put(*h, m, p, std::min(n, p + st)); eq(h->end(), w, "blocks", ctx + fmt(" in pieces of %zu", st)); state((uint64_t)n << 24 | st << 3 | (&a - A)); outcome("long-ok"); }
// the length counter beyond 2^32 bits: 2^29 + 77 bytes of 0x5a, digests computed with Python's hashlib
static void counter() { int i = choose(3); static const int ix[] = {0, 2, 4}; static const char *D[] = {"a6a6469d84a4643950ff2319adfdaa6d9d59828fe84167f4ec05134565982dbc", "26c5fed949c187663161a94902bdf8411d19654e", "dfd664b17de2000272619e1ef367d9fcadf6598304e2701975e7e7b6d232f36e033f785f9b8817e824c79de73c8b42783a6c67c9c267315b7e9619b8ed33efdd"}; const Alg &a = A[ix[i]]; bytes m(1 << 20, 0x5a); size_t n = ((size_t)1 << 29) + 77; std::unique_ptr<IH> h(a.mk()); h->begin({}); for (size_t p = 0; p < n; p += m.size()) { h->write(m.data(), std::min(n - p, m.size())); step(); } bytes d = h->end(); ok(ref::hex(d) == D[i], "length-counter", fmt("%s of 2^29+77 bytes: %s", a.name, ref::hex(d).c_str())); state(d); outcome("counter-ok"); }
// keys of every length, and very long ones
static void keys(const Alg &a) { static const size_t X[] = {1023, 1024, 1025, 4096, 32768, 65535, 65536, 65537, 66000}; int i = choose((thorough ? 1100 : 600) + 9); size_t kl = i < 9 ? X[i] : i - 9; bytes k = msg(kl, choose(2) * 2), m = msg(choose(2) * 77, 0), w = a.model(k, m); std::string ctx = fmt("%s key %zu message %zu", a.name, kl, m.size()); eq(a.one(k, m, 0), w, "one-shot", ctx); std::unique_ptr<IH> h(a.mk()); h->begin(k); put(*h, m, 0, m.size()); eq(h->end(), w, "key-length", ctx); step(2); state(ref::fnv(ctx, k.empty() ? 0 : k[0])); outcome("key-ok"); }
static void taglens() { static const size_t X[] = {1024, 65535, 65536, 65537}; int i = choose(304); size_t n = i < 4 ? X[i] : i - 4; std::string t; for (size_t j = 0; j < n; j++) t += (char)('!' + j % 90); bytes m = msg(choose(2) * 70, 0), w = ref::tagged(t.c_str(), m); std::string ctx = fmt("tag of %zu characters", n); Exact e(m); eq(run<32>([&](uint8_t *o) { return tagged_hash(t.c_str(), e.p, e.n, o); }), w, "tag-length", ctx); TaggedHash h(t.c_str()); h.write(e.p, e.n); Exact o(32); h.end(o.p); eq(o.b(), w, "tag-length-object", ctx); step(2); state(ref::fnv(ctx, m.size())); outcome("tag-ok"); }
void define_spaces() { hang_s = 600; space("counter", 1, [] { counter(); });
  for (auto &a : A) { std::string n = a.name; const Alg *p = &a; space("powers-of-two." + n, 2, [=] { pow2(*p); }); space("lengths." + n, 2, [=] { lengths(*p); }); space("cuts." + n, 2, [=] { cuts(*p); }); space("strides." + n, 2, [=] { strides(*p); }); space("history." + n, 3, [=] { history(*p); }); if (thorough) space("huge." + n, 0, [=] { huge(*p); }); }
  for (auto &a : A) if (a.mac) { const Alg *p = &a; space(std::string("keys.") + a.name, 2, [=] { keys(*p); }); } space("tag-lengths", 1, [] { taglens(); }); space("interleave", 3, [] { inter(); }); space("tagged", 2, [] { tag(); });
}
