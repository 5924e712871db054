// C02: serialization windows. For every object of the catalogue, every offset and every window length (raw and
// hex, buffers of exactly the window size): the bytes are exactly that slice of the full encoding, the count is
// exact, length() is the exact size, and the concatenation of consecutive windows gives the whole encoding.
#include "objects.h"
static std::vector<std::pair<std::string, bytes>> all; static std::map<std::string, std::vector<size_t>> bytype;
static std::unique_ptr<IObj> load(const std::string &t, const bytes &e) { std::unique_ptr<IObj> o(reg[t]()); size_t r = o->feed(e.data(), e.size(), false); ok(r == e.size() && o->st() == PARSING_DONE, "load", t + " does not parse"); return o; }
static bytes full(const std::string &t, const bytes &e) { // expected serialization
  if (t != "PSBT") return e; static std::map<bytes, bytes> memo; auto it = memo.find(e); if (it != memo.end()) return it->second;
  return memo[e] = psbt_expected(e);
}
static void window(const std::string &t) {
  auto &v = cat_[t]; size_t ei = choose(v.size()); bool hx = flip(); auto o = load(t, v[ei]); bytes want = full(t, v[ei]); size_t L = want.size(); std::string c0 = t + fmt(" #%zu %s", ei, hx ? "hex" : "raw");
  eqn(o->length(), L, "length", c0);
  size_t off = choose(L + 3); size_t lim = L + 3 - std::min(off, L); bool small = L <= (thorough ? 700u : 150u);
  for (size_t n = 0; n <= lim; n++) { if (!small && n > 12 && n + 12 < lim && n % 16) continue;
    for (int odd = 0; odd < (hx ? 2 : 1); odd++) { size_t sz = hx ? 2 * n + odd : n; Exact b(sz); size_t r = o->out(b.p, sz, off, hx); bytes exp = sub(want, off, n); std::string ctx = c0 + fmt(" offset %zu window %zu(+%d)", off, n, odd);
      eqn(r, exp.size(), "count", ctx); if (hx) { std::string h = ref::hex(exp); eq(std::string(b.c(), h.size()), h, "hex-window", ctx); } else eq(sub(b.b(), 0, exp.size()), exp, "window", ctx); } }
  if (off <= L && hx) { eq(o->outs(off, 0), ref::hex(sub(want, off, L)), "string-to-end", c0 + fmt(" offset %zu", off)); for (size_t n : {1, 2, 3, 7}) if (off + n <= L) eq(o->outs(off, n), ref::hex(sub(want, off, n)), "string-window", c0 + fmt(" offset %zu len %zu", off, n)); }
  state(ref::fnv(want, off * 2 + hx)); outcome("window-ok");
}
static void chunks(const std::string &t) { auto &v = cat_[t]; size_t ei = choose(v.size()); bytes want = full(t, v[ei]); size_t L = want.size(); size_t k = 1 + choose(std::min<size_t>(L, 80)); auto o = load(t, v[ei]); bytes got; size_t off = 0, guard = 0;
  while (off < L && guard++ < 10000) { Exact b(k); size_t r = o->out(b.p, k, off, false); ok(r > 0 && r <= k, "chunk-progress", t + fmt(" #%zu chunk %zu at %zu returned %zu", ei, k, off, r)); got.insert(got.end(), b.p, b.p + r); off += r; } eq(got, want, "chunk-concat", t + fmt(" #%zu chunk %zu", ei, k)); state(ref::fnv(want, 999983 * k)); outcome("chunks-ok"); }
static void big() { std::vector<std::string> ty; for (auto &k : big_objects()) ty.push_back(k.first); std::string t = pick(ty); auto &v = big_objects().at(t); size_t ei = choose(v.size()); static std::map<std::string, std::pair<std::unique_ptr<IObj>, bytes>> memo; auto &mo = memo[t + fmt("%zu", ei)]; if (!mo.first) { mo.first = load(t, v[ei]); mo.second = full(t, v[ei]); } IObj &o = *mo.first; const bytes &want = mo.second; size_t L = want.size(); auto P = big_positions(L); size_t off = P[choose(P.size())]; bool hx = flip(); eqn(o.length(), L, "length", t);
  for (size_t n : {(size_t)1, (size_t)255, (size_t)256, (size_t)65535, (size_t)65536, (size_t)65537, L, L + 2}) { size_t sz = hx ? 2 * n : n; Exact b(sz); size_t r = o.out(b.p, sz, off, hx); bytes exp = sub(want, off, n); std::string ctx = t + fmt(" long#%zu %s offset %zu window %zu", ei, hx ? "hex" : "raw", off, n); eqn(r, exp.size(), "count", ctx); if (hx) { std::string h = ref::hex(exp); ok(std::string(b.c(), h.size()) == h, "hex-window", ctx); } else ok(sub(b.b(), 0, exp.size()) == exp, "window", ctx); } state(ref::fnv(t, ei * 1000003 + off * 2 + hx)); outcome("window-ok"); }
void define_spaces() { build_objects(); space("long", 3, big); for (auto &kv : reg) { std::string t = kv.first; space("window." + t, 3, [=] { window(t); }); space("chunks." + t, 2, [=] { chunks(t); }); } }
