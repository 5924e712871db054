// C41: a missing (null) buffer is refused by every text codec and byte source: every function, every subset of its pointer
// arguments set to null, every size. The result is "nothing" (zero or the empty text), the buffers that are there stay untouched,
// and a later call with real buffers works as ever.
#include "lib.h"
#include "Conversion.h"
struct Enc { const char *n; std::function<size_t(const uint8_t *, size_t, char *, size_t)> f; std::function<std::string(const uint8_t *, size_t)> s; std::function<size_t(const uint8_t *, size_t)> len; };
struct Dec { const char *n; std::function<size_t(const char *, size_t, uint8_t *, size_t)> f; std::function<size_t(std::string, uint8_t *, size_t)> s; std::function<size_t(const char *, size_t)> len; };
static const std::vector<Enc> &encs() { static std::vector<Enc> v; if (v.empty()) { typedef const uint8_t *B_;
  v.push_back({"base58", [](B_ a, size_t n, char *o, size_t m) { return toBase58(a, n, o, m); }, [](B_ a, size_t n) { return toBase58(a, n); }, [](B_ a, size_t n) { return toBase58Length(a, n); }});
  v.push_back({"base58check", [](B_ a, size_t n, char *o, size_t m) { return toBase58Check(a, n, o, m); }, [](B_ a, size_t n) { return toBase58Check(a, n); }, nullptr});
  v.push_back({"base43", [](B_ a, size_t n, char *o, size_t m) { return toBase43(a, n, o, m); }, [](B_ a, size_t n) { return toBase43(a, n); }, [](B_ a, size_t n) { return toBase43Length(a, n); }});
  v.push_back({"hex", [](B_ a, size_t n, char *o, size_t m) { return toHex(a, n, o, m); }, [](B_ a, size_t n) { return toHex(a, n); }, nullptr});
  v.push_back({"bin", [](B_ a, size_t n, char *o, size_t m) { return toBin(a, n, o, m); }, [](B_ a, size_t n) { return toBin(a, n); }, nullptr});
  for (int fl = 0; fl < 4; fl++) v.push_back({"base64", [fl](B_ a, size_t n, char *o, size_t m) { return toBase64(a, n, o, m, fl); }, [fl](B_ a, size_t n) { return toBase64(a, n, fl); }, [fl](B_ a, size_t n) { return toBase64Length(a, n, fl); }}); } return v; }
static const std::vector<Dec> &decs() { static std::vector<Dec> v; if (v.empty()) {
  v.push_back({"base58", [](const char *a, size_t n, uint8_t *o, size_t m) { return fromBase58(a, n, o, m); }, [](std::string s, uint8_t *o, size_t m) { return fromBase58(s, o, m); }, [](const char *a, size_t n) { return fromBase58Length(a, n); }});
  v.push_back({"base58check", [](const char *a, size_t n, uint8_t *o, size_t m) { return fromBase58Check(a, n, o, m); }, [](std::string s, uint8_t *o, size_t m) { return fromBase58Check(s, o, m); }, nullptr});
  v.push_back({"base43", [](const char *a, size_t n, uint8_t *o, size_t m) { return fromBase43(a, n, o, m); }, [](std::string s, uint8_t *o, size_t m) { return fromBase43(s, o, m); }, [](const char *a, size_t n) { return fromBase43Length(a, n); }});
  v.push_back({"hex", [](const char *a, size_t n, uint8_t *o, size_t m) { return fromHex(a, n, o, m); }, [](std::string s, uint8_t *o, size_t m) { return fromHex(s, o, m); }, nullptr});
  v.push_back({"bin", [](const char *a, size_t n, uint8_t *o, size_t m) { return fromBin(a, n, o, m); }, [](std::string s, uint8_t *o, size_t m) { return fromBin(s, o, m); }, nullptr});
  for (int fl = 0; fl < 4; fl++) v.push_back({"base64", [fl](const char *a, size_t n, uint8_t *o, size_t m) { return fromBase64(a, n, o, m, fl); }, [fl](std::string s, uint8_t *o, size_t m) { return fromBase64(s, o, m, fl); }, [fl](const char *a, size_t n) { return fromBase64Length(a, n, fl); }}); } return v; }
static const size_t SZ[] = {0, 1, 2, 3, 4, 5, 8, 31, 32, 33, 100, 1000, 65536};
static void untouched(const Exact &e, const char *n) { for (size_t i = 0; i < e.n; i++) ok(e.p[i] == 0xC3, std::string("touched-") + n); }
static void encode() { int ci = choose(encs().size()); const Enc &c = encs()[ci]; size_t n = SZ[choose(13)], m = SZ[choose(13)]; int w = 1 + choose(3); std::string ctx = fmt("%s sizes %zu %zu null %d", c.n, n, m, w); Exact in(repeat(n, 1)), out(m); size_t r = c.f(w & 1 ? nullptr : in.p, n, w & 2 ? nullptr : out.c(), m); eqn(r, 0, std::string("null-encode-") + c.n, ctx); untouched(out, c.n); if (w == 1) { eq(c.s(nullptr, n), std::string(), std::string("null-text-") + c.n, ctx); if (c.len) eqn(c.len(nullptr, n), 0, std::string("null-length-") + c.n, ctx); } bytes b = repeat(5, 3); Exact i2(b); std::string t = c.s(i2.p, 5); ok(!t.empty(), "usable-after", ctx); step(2); state(ref::fnv(ctx, ci)); outcome("encode-refused"); }
static void decode() { int ci = choose(decs().size()); const Dec &c = decs()[ci]; size_t n = SZ[choose(12)], m = SZ[choose(12)]; int w = 1 + choose(3); std::string ctx = fmt("%s sizes %zu %zu null %d", c.n, n, m, w); static const std::string T[] = {"1", "0", "A"}; std::string t; for (size_t i = 0; i < n; i++) t += T[i % 3]; if (!strcmp(c.n, "base58check")) t = ref::b58c(repeat(n > 200 ? 200 : n, 1)); if (!strcmp(c.n, "bin")) for (auto &x : t) x = x == 'A' ? '0' : x; Exact in(t), out(m); size_t r = c.f(w & 1 ? nullptr : in.c(), t.size(), w & 2 ? nullptr : out.p, m); eqn(r, 0, std::string("null-decode-") + c.n, ctx); untouched(out, c.n); if (w == 2) eqn(c.s(t, nullptr, m), 0, std::string("null-decode-text-") + c.n, ctx); if (w == 1 && c.len) eqn(c.len(nullptr, n), 0, std::string("null-decode-length-") + c.n, ctx); step(2); state(ref::fnv(ctx + "d", ci)); outcome("decode-refused"); }
// byte sources and the objects that read from them
static void source() { size_t n = SZ[choose(13)]; int how = choose(3); ParseByteStream *s = how == 0 ? new ParseByteStream((const uint8_t *)nullptr, n) : how == 1 ? new ParseByteStream((const uint8_t *)nullptr, n, HEX_ENCODING) : new ParseByteStream((const char *)nullptr); std::string ctx = fmt("size %zu way %d", n, how); std::string tr; for (int i = 0; i < 4; i++) { int op = choose(3); tr += fmt(" %d", op); if (op == 0) eqn(s->available(), 0, "null-available", ctx + tr); else if (op == 1) eqn(s->read(), -1, "null-read", ctx + tr); else { Exact o(8); eqn(s->read(o.p, 8), 0, "null-read-many", ctx + tr); untouched(o, "stream"); } step(); } eqn(s->getLast(), -1, "null-last", ctx); delete s; state(ref::fnv(ctx + tr)); outcome("source-empty"); }
template <class O> static void object(const char *name, const bytes &good) { size_t n = SZ[choose(13)]; int how = choose(2); O x; std::string ctx = fmt("%s size %zu way %d", name, n, how); ParseByteStream s((const uint8_t *)nullptr, n, how ? HEX_ENCODING : RAW); size_t r = s.parse(&x); eqn(r, 0, "null-parse", ctx); bool part = choose(2); size_t cutp = part ? good.size() / 2 : 0; x.reset(); if (part) { x.parse(good.data(), cutp); ok(x.getStatus() == PARSING_INCOMPLETE, "half-incomplete", ctx); size_t q = s.parse(&x); eqn(q, 0, "null-parse-in-the-middle", ctx); ok(x.getStatus() == PARSING_INCOMPLETE, "still-incomplete", ctx); } size_t q = x.parse(good.data() + cutp, good.size() - cutp); ok(x.getStatus() == PARSING_DONE, "done-after", ctx); eqn(q, good.size() - cutp, "read-after", ctx); Exact o(good.size()); x.serialize(o.p, o.n); eq(o.b(), good, "object-after", ctx); step(3); state(ref::fnv(ctx + (part ? "p" : ""))); outcome("object-ok"); }
void define_spaces() { space("encode", 2, [] { encode(); }); space("decode", 2, [] { decode(); }); space("source", 2, [] { source(); }); space("script", 1, [] { object<Script>("script", ref::cat({25}, repeat(25, 1))); }); space("tx", 1, [] { ref::RTx t; t.ver = 2; t.lock = 7; t.in.push_back(ref::RIn{repeat(32, 1), 3, repeat(10, 2), 0xfffffffd, {repeat(4, 1)}}); t.out.push_back(ref::ROut{5000, repeat(22, 3)}); object<Tx>("tx", ref::ser_tx(t)); }); space("txin", 1, [] { object<TxIn>("txin", ref::cat(ref::cat(repeat(32, 1), ref::le(3, 4)), ref::cat(ref::cat({4}, repeat(4, 1)), ref::le(5, 4)))); }); space("txout", 1, [] { object<TxOut>("txout", ref::cat(ref::le(77, 8), ref::cat({4}, repeat(4, 1)))); }); }
