// C34: byte streams. All histories of stream operations up to a depth against a cursor model, in raw and hex form,
// with every bad character position, odd lengths and every buffer size; several objects through one stream.
#include "objects.h"
struct RM { bytes b; size_t pos = 0; bool hex; int last = -1; // reference reader: bytes that can be delivered
  int next() { if (pos >= b.size()) return -1; return last = b[pos++]; } };
static bytes deliverable(const std::string &t) { bytes o; for (size_t i = 0; i + 1 < t.size(); i += 2) { auto v = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }; int a = v(t[i]), b = v(t[i + 1]); if (a < 0 || b < 0) break; o.push_back(a * 16 + b); } return o; }
static void reads(const bytes &raw, const std::string &text, bool hex, int ctor, int depth, const std::string &ctx0) {
  RM m; m.hex = hex; m.b = hex ? deliverable(text) : raw; Exact src(hex ? ref::B(text) : raw); std::string z = hex ? text : S2(raw); std::unique_ptr<ParseByteStream> s(ctor ? new ParseByteStream(z.c_str(), hex ? HEX_ENCODING : RAW) : new ParseByteStream(src.p, src.n, hex ? HEX_ENCODING : RAW)); bool clean = !hex || deliverable(text).size() == text.size() / 2; std::string ctx = ctx0 + (ctor ? " text constructor" : "");
  for (int d = 0; d < depth; d++) { int op = choose(6); ctx += fmt(" op%d", op); size_t av = s->available(), rest = m.b.size() - m.pos; ok((av == 0) == (rest == 0), "available", ctx + fmt(": %zu, %zu left", av, rest)); if (clean) eqn(av, rest, "available-count", ctx); else ok(av >= rest && av <= (text.size() + 1) / 2 - m.pos, "available-count", ctx + fmt(": %zu, %zu left", av, rest));
    if (op == 0) { int w = m.next(); eqn(s->read(), w, "read", ctx); } else if (op == 5) eqn(s->getLast(), m.last, "last", ctx); else { size_t k = op - 1; Exact o(k); size_t n = s->read(o.p, k); bytes want; while (want.size() < k) { int v = m.next(); if (v < 0) break; want.push_back(v); } eqn(n, want.size(), "read-count", ctx); eq(bytes(o.p, o.p + std::min(n, k)), want, "read-bytes", ctx); for (size_t i = n; i < k; i++) ok(o.p[i] == 0xC3, "read-wrote-more", ctx); } step(); }
  ok((s->available() == 0) == (m.pos == m.b.size()), "available-end", ctx); state(ref::fnv(ctx)); outcome(m.pos == m.b.size() ? "exhausted" : "more"); }
static void raw() { size_t n = choose(6); static const uint8_t seeds[] = {0, 0x80, 0xf5}; bytes b = repeat(n, seeds[choose(3)]); reads(b, "", false, 0, thorough ? 6 : 5, "raw " + ref::hex(b)); }
static void rawtext() { size_t n = choose(4); bytes b; for (size_t i = 0; i < n; i++) b.push_back("a\xff" "1"[choose(3)]); reads(b, "", false, 1, 3, "raw " + ref::hex(b)); }
static void hex() { size_t n = choose(9); std::string h = ref::hex(repeat(4, 0xab)).substr(0, n); if (flip()) for (auto &c : h) c = toupper(c); int bad = choose(n + 1); static const char cs[] = {'g', '/', ':', '@', 'G', '`', ' ', '\xff', '\n'}; if (bad < (int)n) h[bad] = cs[choose(9)]; reads({}, h, true, choose(2), thorough ? 5 : 3, "hex '" + h + "'"); }
static void everychar() { int c1 = choose(256), c2 = choose(256); std::string t; t += (char)c1; t += (char)c2; bytes want = deliverable(t); Exact b(ref::B(t)); ParseByteStream s(b.p, 2, HEX_ENCODING); std::string ctx = fmt("%02x %02x", c1, c2); eqn(s.available(), want.size(), "available", ctx); eqn(s.read(), want.empty() ? -1 : want[0], "read", ctx); eqn(s.read(), -1, "read-end", ctx); eqn(s.getLast(), want.empty() ? -1 : want[0], "last", ctx); step(4); state(c1 * 256 + c2); outcome(want.empty() ? "end" : "byte"); Exact r(ref::B(t)); ParseByteStream q(r.p, 2, RAW); eqn(q.read(), c1, "raw", ctx); eqn(q.read(), c2, "raw", ctx); eqn(q.read(), -1, "raw", ctx); }
static void writes() { size_t n = choose(thorough ? 11 : 9); bool hx = flip(), chr = flip(); std::string ctx = fmt("buffer %zu %s%s", n, hx ? "hex" : "raw", chr ? " char" : ""); Exact o(n); std::unique_ptr<SerializeByteStream> s(chr ? new SerializeByteStream((char *)o.p, n, hx ? HEX_ENCODING : RAW) : new SerializeByteStream(o.p, n, hx ? HEX_ENCODING : RAW)); size_t cap = hx ? n / 2 : n; bytes w; static const uint8_t src[] = {0x0f, 0xa9, 0xff, 0x00, 0x9a}; size_t k = 0; int depth = thorough ? 6 : 5;
  for (int d = 0; d < depth; d++) { int op = choose(5); ctx += fmt(" op%d", op); eqn(s->available(), cap - w.size(), "write-available", ctx); if (op == 0) { uint8_t b = src[k++ % 5]; size_t r = s->write(b); eqn(r, w.size() < cap, "write-one", ctx); if (w.size() < cap) w.push_back(b); } else { size_t l = op - 1; Exact in(l); for (size_t i = 0; i < l; i++) in.p[i] = src[k++ % 5]; size_t want = std::min(l, cap - w.size()); eqn(s->write(in.p, l), want, "write-many", ctx); w.insert(w.end(), in.p, in.p + want); } step(); }
  bytes full = hx ? ref::B(ref::hex(w)) : w; full.resize(n, 0); eq(bytes(o.p, o.p + n), full, "written", ctx); state(ref::fnv(ctx)); outcome(w.size() == cap ? "full" : "room"); }
static void everybyte() { int b = choose(256); uint8_t o[3] = {1, 1, 1}; SerializeByteStream s((char *)o, 3); eqn(s.write((uint8_t)b), 1, "write", ""); eqn(s.write((uint8_t)b), 0, "write-full", ""); eq(bytes(o, o + 3), ref::cat(ref::B(ref::hex(bytes{(uint8_t)b})), {0}), "hex-of-byte", fmt("%02x", b)); step(2); state(b); outcome("byte"); }
// several objects written to one stream and read from one stream
static void objects() { std::vector<std::string> ty = {"Script", "TxOut", "Signature", "PublicKey", "Witness"}; int n = 1 + choose(3); std::vector<std::string> t; bytes all; std::vector<bytes> es; for (int i = 0; i < n; i++) { t.push_back(pick(ty)); auto &c = cat_[t.back()]; const bytes &e = c[choose(std::min<size_t>(3, c.size()))]; es.push_back(e); ref::app(all, e); } bool hx = flip(); bytes src = hx ? ref::B(ref::hex(all)) : all; std::string ctx; for (auto &x : t) ctx += x + " "; Exact b(src); ParseByteStream s(b.p, b.n, hx ? HEX_ENCODING : RAW); std::vector<std::unique_ptr<IObj>> os; for (int i = 0; i < n; i++) { os.emplace_back(reg[t[i]]()); size_t r = s.parse(os[i]->base()); eqn(r, es[i].size(), "stream-consumed", ctx); ok(os[i]->st() == PARSING_DONE, "stream-status", ctx); std::unique_ptr<IObj> q(reg[t[i]]()); q->feed(es[i].data(), es[i].size(), false); eq(os[i]->obs(), q->obs(), "stream-object", ctx); step(); } eqn(s.available(), 0, "stream-rest", ctx);
  size_t sz = choose(3) == 0 ? src.size() : src.size() - std::min<size_t>(src.size(), choose(n == 3 && !thorough ? 6 : 40) * (n == 3 ? 7 : 1)); Exact o(sz); SerializeByteStream w(o.p, sz, hx ? HEX_ENCODING : RAW); size_t tot = 0; for (int i = 0; i < n; i++) { tot += w.serialize(os[i]->base(), 0); step(); } bytes want = sub(src, 0, hx ? sz / 2 * 2 : sz); want.resize(sz, 0); eqn(tot, hx ? sz / 2 : sz, "stream-written", ctx); eq(bytes(o.p, o.p + sz), want, "stream-output", ctx + fmt(" into %zu", sz)); state(ref::fnv(all, sz)); outcome("objects"); }
// long streams: sizes around 256 and 65536, read and written in blocks
static void longs() { static const size_t N[] = {255, 256, 257, 32767, 32768, 65535, 65536, 65537, 66000, 131072, 140001}; size_t n = N[choose(11)]; static const size_t B[] = {1, 255, 256, 4096, 32768, 65535, 65536, 65537, 140001}; size_t k = B[choose(9)]; bool hx = flip(); bytes b = repeat(n, 5); std::string ctx = fmt("%zu bytes %s in blocks of %zu", n, hx ? "hex" : "raw", k); bytes src = hx ? ref::B(ref::hex(b)) : b; Exact in(src); std::string z = S2(src); bool txt = hx && flip(); ParseByteStream s1(in.p, in.n, hx ? HEX_ENCODING : RAW), s2(z.c_str(), HEX_ENCODING); ParseByteStream &s = txt ? s2 : s1; size_t pos = 0; while (true) { eqn(s.available(), n - pos, "available", ctx); Exact o(k); size_t r = s.read(o.p, k), w = std::min(k, n - pos); eqn(r, w, "read-count", ctx + fmt(" at %zu", pos)); ok(memcmp(o.p, b.data() + pos, w) == 0, "read-bytes", ctx + fmt(" at %zu", pos)); pos += w; step(); if (w < k || pos == n) break; } eqn(s.read(), -1, "read-end", ctx); eqn(s.getLast(), b.back(), "last", ctx);
  size_t cap = n - choose(3), sz = (hx ? 2 : 1) * cap; Exact o(sz); SerializeByteStream w(o.p, sz, hx ? HEX_ENCODING : RAW); pos = 0; while (pos < n) { size_t l = std::min(k, n - pos), can = std::min(l, cap - std::min(cap, pos)); eqn(w.available(), cap - std::min(cap, pos), "write-available", ctx); eqn(w.write(b.data() + pos, l), can, "write-count", ctx + fmt(" at %zu", pos)); pos += l; step(); } bytes want = sub(src, 0, sz); ok(memcmp(o.p, want.data(), sz) == 0, "written", ctx); state(ref::fnv(ctx, cap)); outcome("long"); }
// objects read from a text object (binary or hex), whole and cut at every place
static void strings() { std::vector<std::string> ty; for (auto &r : reg) ty.push_back(r.first); const std::string &t = pick(ty); auto &c = cat_[t]; const bytes &e = c[choose(c.size())]; bool hx = flip(); size_t cut = e.size() > 400 ? e.size() : choose(e.size() + 1); bytes part = sub(e, 0, cut); std::string z = hx ? ref::hex(part) : S2(part), ctx = fmt("%s, %zu of %zu bytes as %s text object", t.c_str(), cut, e.size(), hx ? "hex" : "binary"); std::unique_ptr<IObj> o(reg[t]()), q(reg[t]()); size_t w = q->feed(part.data(), part.size(), false), r = o->base()->parse(z, hx ? HEX_ENCODING : RAW); eqn(r, w, "string-consumed", ctx); eqn((int)o->st(), (int)q->st(), "string-status", ctx); eq(o->obs(), q->obs(), "string-object", ctx); step(2); state(ref::fnv(ctx)); outcome("string"); }
void define_spaces() { build_objects(); space("long", 3, longs); space("strings", 2, strings); space("raw-reads", 2, raw); space("raw-text", 1, rawtext); space("hex-reads", 2, hex); space("character-pairs", 1, everychar); space("writes", 2, writes); space("bytes", 1, everybyte); space("objects", 2, objects); }
