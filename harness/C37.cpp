// C37: secrets do not outlive the key. Every kind of private key is built in every way in prepared memory, used by every
// operation, and ended in every way (destruction, reset, new value of every kind, failed parse); afterwards the object's
// storage is searched for the old secret, and every heap block the library frees on the way is searched for the secret,
// its text forms and the chain code. Oracle: known secret values; no window of them may appear.
#include "lib.h"
#include <sanitizer/allocator_interface.h>
#include <new>
using ref::U; using ref::HD;
static bool in_lib = false, hit = false; static std::string hitmsg; static std::vector<std::pair<std::string, bytes>> needles;
static const size_t WIN = 10;
static const char *contains(const uint8_t *p, size_t n) { if (n < WIN) return nullptr; for (auto &nd : needles) for (size_t i = 0; i + WIN <= nd.second.size(); i++) for (const uint8_t *q = p; (q = (const uint8_t *)memchr(q, nd.second[i], p + n - q)); q++) { if (q + WIN > p + n) break; if (!memcmp(q, &nd.second[i], WIN)) return nd.first.c_str(); } return nullptr; }
static void on_malloc(const volatile void *, size_t) {}
static void on_free(const volatile void *p) { if (!in_lib || hit || !p) return; in_lib = false; size_t n = __sanitizer_get_allocated_size((const void *)p); if (const char *w = contains((const uint8_t *)p, n)) { hit = true; hitmsg = fmt("freed block of %zu bytes holds the ", n) + w; } in_lib = true; }
// string objects (operator new) belong to the text interface and its caller; the library's working buffers come from malloc
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { bool b = in_lib; in_lib = false; free(p); in_lib = b; }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
static bool installed = false;
struct Lib { Lib() { if (!installed) { installed = true; __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); } in_lib = true; } ~Lib() { in_lib = false; } };
template <class F> static void lib(F f, const std::string &ctx) { hit = false; { Lib l; f(); } step(); ok(!hit, "secret-in-freed-memory", ctx + ": " + hitmsg); }
static bytes secret_(int i) { return ref::sha256({(uint8_t)i, 7}); }
static void need(const bytes &sec, const bytes *cc, int net) { needles.clear(); auto &n = netspecs()[net]; needles.push_back({"secret", sec}); needles.push_back({"reversed secret", ref::rev(sec)}); for (int c = 0; c < 2; c++) needles.push_back({"WIF", sub(ref::B(ref::b58c(ref::cat(ref::cat({n.wif}, sec), c ? bytes{1} : bytes()))), 4, 60)}); needles.push_back({"hex of the secret", ref::B(ref::hex(sec))}); if (cc) { HD h; h.k = ref::fromB(sec); h.K = ref::mulG(h.k); h.cc = *cc; needles.push_back({"chain code", *cc}); } }
static void scan(const void *p, size_t n, const std::string &key, const std::string &ctx) { const char *w = contains((const uint8_t *)p, n); ok(!w, key, ctx + ": " + (w ? w : "")); step(); }
static const std::string SEN = "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about";
template <class K> struct Mem { alignas(16) uint8_t m[sizeof(K) + 32]; Mem() { memset(m, 0xA5, sizeof m); } void *at() { return m + 16; } };
// keys with a secret
static void priv() { int how = choose(6), use = choose(10), end = choose(8), net = choose(2); bool comp = flip(); bytes s = secret_(how); std::string wif = ref::b58c(ref::cat(ref::cat({netspecs()[net].wif}, s), comp ? bytes{1} : bytes())); need(s, nullptr, net); Mem<PrivateKey> mem; PrivateKey *k = nullptr; std::string ctx = fmt("PrivateKey built %d used %d ended %d", how, use, end); bytes other = secret_(99), msg = ref::sha256({3}); std::string hx = ref::hex(s), owif = ref::b58c(ref::cat(ref::cat({0x80}, other), {1}));
  lib([&] { switch (how) { case 0: k = new (mem.at()) PrivateKey(s.data(), comp, netspecs()[net].net); break; case 1: k = new (mem.at()) PrivateKey(wif.c_str()); break; case 2: k = new (mem.at()) PrivateKey(); k->parse(s.data(), 32); break; case 3: k = new (mem.at()) PrivateKey(); k->setSecret(s.data()); break; case 4: { PrivateKey t(s.data(), comp, netspecs()[net].net); k = new (mem.at()) PrivateKey(t); break; } case 5: k = new (mem.at()) PrivateKey(); k->fromWIF(wif.c_str()); break; } }, ctx); ok(k->isValid(), "built", ctx); eq(secretof(*k), s, "built-secret", ctx);
  static char tb_[200]; static uint8_t bb[200]; std::string *keep = nullptr; alignas(std::string) static uint8_t ks[sizeof(std::string)];
  lib([&] { switch (use) { case 0: break; case 1: k->wif(tb_, 100); break; case 2: keep = new (ks) std::string(k->wif()); break; case 3: keep = new (ks) std::string(k->toString()); break; case 4: k->sign(msg.data()); break; case 5: k->schnorr_sign(msg.data()); break; case 6: k->serialize(bb, 32); break; case 7: k->ecdh(PublicKey(ref::sec(ref::mulG(U(5))).data()), bb); break; case 8: { PrivateKey b = -*k; PrivateKey c = b; break; } case 9: keep = new (ks) std::string(k->serialize()); break; } }, ctx); if (keep) { keep->~basic_string(); memset(ks, 0, sizeof ks); } memset(tb_, 0, sizeof tb_); memset(bb, 0, sizeof bb);
  lib([&] { switch (end) { case 0: k->~PrivateKey(); break; case 1: k->reset(); break; case 2: *k = PrivateKey(); break; case 3: k->setSecret(other.data()); break; case 4: k->fromWIF("nonsense"); break; case 5: k->fromWIF(owif.c_str()); break; case 6: k->parse(other.data(), 32); break; case 7: { bytes bad(32, 0xff); k->parse(bad.data(), 32); break; } } }, ctx); scan(mem.m, sizeof mem.m, "secret-in-object", ctx); if (end) k->~PrivateKey(); state(((how * 10 + use) * 8 + end) * 4 + net * 2 + comp); outcome(end ? "replaced" : "destroyed"); }
static void hdpriv() { int how = choose(6), use = choose(11), end = choose(8), net = choose(2); bytes seed = ref::sha256({9}); HD h = how == 1 ? ref::hd_seed(seed) : how == 2 ? ref::hd_seed(ref::pbkdf2_512(ref::B(SEN), ref::B("mnemonicpw"), 2048)) : how == 3 ? ref::hd_child(ref::hd_child(ref::hd_seed(seed), 0x80000005u), 3) : ref::hd_seed(ref::sha256({1, 2})); bytes s = ref::toB(h.k); need(s, &h.cc, net); auto &ns = netspecs()[net]; std::string xp = ref::b58c(ref::hd_bytes(h, ref::be(ns.prv[0], 4), true)); needles.push_back({"xprv", sub(ref::B(xp), 60, 60)}); HD o = ref::hd_seed(ref::sha256({4})); std::string oxp = ref::b58c(ref::hd_bytes(o, ref::be(ns.prv[0], 4), true)); bytes raw = ref::hd_bytes(h, ref::be(ns.prv[0], 4), true), oraw = ref::hd_bytes(o, ref::be(ns.prv[0], 4), true), msg = ref::sha256({3}); if (how == 2) needles.push_back({"seed", ref::pbkdf2_512(ref::B(SEN), ref::B("mnemonicpw"), 2048)});
  Mem<HDPrivateKey> mem; HDPrivateKey *k = nullptr; std::string ctx = fmt("HDPrivateKey built %d used %d ended %d", how, use, end);
  lib([&] { switch (how) { case 0: k = new (mem.at()) HDPrivateKey(s.data(), h.cc.data(), h.depth, NULL, 0, ns.net); break; case 1: k = new (mem.at()) HDPrivateKey(); k->fromSeed(seed.data(), 32, ns.net); break; case 2: k = new (mem.at()) HDPrivateKey(SEN.c_str(), SEN.size(), "pw", 2, ns.net); break; case 3: { HDPrivateKey r; r.fromSeed(seed.data(), 32, ns.net); k = new (mem.at()) HDPrivateKey(r.derive("m/5h/3")); break; } case 4: k = new (mem.at()) HDPrivateKey(xp.c_str()); break; case 5: k = new (mem.at()) HDPrivateKey(); k->parse(raw.data(), 78); break; } }, ctx); ok(k->isValid(), "built", ctx); eq(secretof(*k), s, "built-secret", ctx); eq(bytes(k->chainCode, k->chainCode + 32), h.cc, "built-chain-code", ctx);
  static char tb_[200]; static uint8_t bb[200]; std::string *keep = nullptr; alignas(std::string) static uint8_t ks[sizeof(std::string)]; uint32_t path[2] = {1, 0x80000002u};
  lib([&] { switch (use) { case 0: break; case 1: k->xprv(tb_, 120); break; case 2: keep = new (ks) std::string(k->xprv()); break; case 3: keep = new (ks) std::string(k->toString()); break; case 4: k->sign(msg.data()); break; case 5: k->serialize(bb, 78); break; case 6: k->child(1); break; case 7: k->hardenedChild(1); break; case 8: k->derive(path, 2); break; case 9: { HDPrivateKey c = *k; HDPrivateKey d; d = c; break; } case 10: keep = new (ks) std::string(k->serialize()); break; } }, ctx); if (keep) { keep->~basic_string(); memset(ks, 0, sizeof ks); } memset(tb_, 0, sizeof tb_); memset(bb, 0, sizeof bb);
  lib([&] { switch (end) { case 0: k->~HDPrivateKey(); break; case 1: *k = HDPrivateKey(); break; case 2: k->fromSeed(oraw.data(), 32, ns.net); break; case 3: k->fromString("nonsense"); break; case 4: k->fromString(oxp.c_str()); break; case 5: k->parse(oraw.data(), 78); break; case 6: *k = k->derive("m/0h/1"); break; case 7: k->fromMnemonic(SEN.c_str(), SEN.size(), "", 0, ns.net); break; } }, ctx); scan(mem.m, sizeof mem.m, "secret-in-object", ctx); if (end) k->~HDPrivateKey(); state((((how * 11 + use) * 8 + end) * 2 + net) + 100000); outcome(end ? "hd-replaced" : "hd-destroyed"); }
static void scalars() { int how = choose(4), end = choose(4); bytes s = secret_(how + 40), z = secret_(77); need(s, nullptr, 0); Mem<ECScalar> mem; ECScalar *k = nullptr; std::string ctx = fmt("ECScalar built %d ended %d", how, end); lib([&] { switch (how) { case 0: k = new (mem.at()) ECScalar(s.data(), 32); break; case 1: k = new (mem.at()) ECScalar(); k->setSecret(s.data()); break; case 2: k = new (mem.at()) ECScalar(); k->parse(s.data(), 32); break; case 3: { ECScalar a(s.data(), 32); k = new (mem.at()) ECScalar(a); break; } } }, ctx); eq(secretof(*k), s, "built-secret", ctx); lib([&] { switch (end) { case 0: k->~ECScalar(); break; case 1: k->reset(); break; case 2: *k = ECScalar(); break; case 3: k->setSecret(z.data()); break; } }, ctx); scan(mem.m, sizeof mem.m, "secret-in-object", ctx); if (end) k->~ECScalar(); state(how * 4 + end + 200000); outcome("scalar"); }
// text forms of a secret written and read by the conversion functions
static void texts() { size_t n = 12 + choose(70); int op = choose(13); bytes d = repeat(n, 0x31); needles.clear(); needles.push_back({"data", d}); std::string t = op < 5 ? "" : op == 5 ? ref::b58c(d) : op == 6 ? ref::b58(d) : op == 7 ? ref::hex(d) : op == 8 ? ref::b64(d) : ref::b58c(d); if (op == 9 || op == 10) t[t.size() - (op == 9 ? 1 : 3)] ^= 1; needles.push_back({"Base58Check text", sub(ref::B(ref::b58c(d)), 2, 200)}); std::string *keep = nullptr; alignas(std::string) static uint8_t ks[sizeof(std::string)]; std::string ctx = fmt("operation %d on %zu bytes", op, n); static uint8_t b[300]; static char c[600];
  lib([&] { switch (op) { case 0: keep = new (ks) std::string(toBase58Check(d.data(), n)); break; case 1: toBase58Check(d.data(), n, c, sizeof c); break; case 2: keep = new (ks) std::string(toHex(d.data(), n)); break; case 3: keep = new (ks) std::string(toBase58(d.data(), n)); break; case 4: toHex(d.data(), n, c, sizeof c); break; case 5: fromBase58Check(t.c_str(), t.size(), b, sizeof b); break; case 6: fromBase58(t.c_str(), t.size(), b, sizeof b); break; case 7: fromHex(t.c_str(), t.size(), b, sizeof b); break; case 8: fromBase64(t.c_str(), t.size(), b, sizeof b); break; case 9: case 10: fromBase58Check(t.c_str(), t.size(), b, sizeof b); break; case 11: fromBase58Check(t.c_str(), t.size(), b, n - 1); break; case 12: fromBase58(t.c_str(), t.size(), b, n); break; } }, ctx); if (keep) keep->~basic_string(); memset(b, 0, sizeof b); memset(c, 0, sizeof c); state(n * 13 + op + 300000); outcome("text"); }
void define_spaces() { space("private-keys", 3, priv); space("hd-keys", 3, hdpriv); space("scalars", 2, scalars); space("texts", 2, texts); }
