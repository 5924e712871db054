// C32: every operation that writes into a caller's buffer, with every buffer size from zero to more than enough. The buffer
// is an exact heap block, so any write outside it is caught by the address sanitizer. Kinds: T text with terminator (0 or
// the whole text; whole text for every size from `must` on), E binary all-or-nothing, S stream (a prefix of the full output).
#include "psbtkit.h"
#include "Hash.h"
struct Wr { std::string name; char kind; bytes want; size_t must; std::function<size_t(uint8_t *, size_t)> f; };
static std::vector<Wr> ops;
static void T_(const std::string &n, const std::string &w, size_t must, std::function<int(char *, size_t)> f) { ops.push_back({n, 'T', ref::B(w), must, [f](uint8_t *p, size_t k) { return (size_t)f((char *)p, k); }}); }
static void E_(const std::string &n, const bytes &w, std::function<size_t(uint8_t *, size_t)> f) { ops.push_back({n, 'E', w, w.size(), f}); }
static void S_(const std::string &n, const bytes &w, std::function<size_t(uint8_t *, size_t)> f) { ops.push_back({n, 'S', w, w.size(), f}); }
static bytes hx(const bytes &b) { return ref::B(ref::hex(b)); }
static void build() {
  for (auto &ns : netspecs()) for (int i = 0; i < 4; i++) for (int c = 0; c < 2; c++) { std::string id = fmt(" key %d %s %s", i, c ? "compressed" : "uncompressed", ns.name); ref::Pt q = ref::mulG(key_u(i)); bytes sec = ref::sec(q, c), h = ref::hash160(sec); PublicKey pub(pt64(q).data(), c); bytes kb = key_b(i); PrivateKey prv(kb.data(), c, ns.net); const Network *net = ns.net;
      std::string leg = ref::b58c(ref::cat({ns.p2pkh}, h)), nest = ref::b58c(ref::cat({ns.p2sh}, ref::hash160(ref::p2wpkh(h)))), sw = ref::segwit_addr(ns.hrp, 0, h), wif = ref::b58c(ref::cat(ref::cat({ns.wif}, kb), c ? bytes{1} : bytes{}));
      T_("PublicKey::legacyAddress" + id, leg, 40, [=](char *p, size_t n) { return pub.legacyAddress(p, n, net); }); T_("PublicKey::address" + id, leg, 40, [=](char *p, size_t n) { return pub.address(p, n, net); }); if (c) T_("PublicKey::nestedSegwitAddress" + id, nest, 40, [=](char *p, size_t n) { return pub.nestedSegwitAddress(p, n, net); }); if (c) T_("PublicKey::segwitAddress" + id, sw, 76, [=](char *p, size_t n) { return pub.segwitAddress(p, n, net); });
      T_("PrivateKey::legacyAddress" + id, leg, 40, [=](char *p, size_t n) { return prv.legacyAddress(p, n); }); T_("PrivateKey::address" + id, leg, 40, [=](char *p, size_t n) { return prv.address(p, n); }); if (c) T_("PrivateKey::nestedSegwitAddress" + id, nest, 40, [=](char *p, size_t n) { return prv.nestedSegwitAddress(p, n); }); if (c) T_("PrivateKey::segwitAddress" + id, sw, 76, [=](char *p, size_t n) { return prv.segwitAddress(p, n); }); T_("PrivateKey::wif" + id, wif, 53, [=](char *p, size_t n) { return prv.wif(p, n); }); T_("PrivateKey::toString" + id, wif, 53, [=](char *p, size_t n) { return prv.toString(p, n); });
      if (ns.net == &Mainnet) { S_("PublicKey::sec" + id, sec, [=](uint8_t *p, size_t n) { return pub.sec(p, n); }); S_("PublicKey::serialize" + id, sec, [=](uint8_t *p, size_t n) { return pub.serialize(p, n); }); S_("PublicKey::toString" + id, hx(sec), [=](uint8_t *p, size_t n) { return pub.toString((char *)p, n); }); S_("ECScalar::serialize" + id, kb, [=](uint8_t *p, size_t n) { return prv.serialize(p, n); }); }
      Script a = pub.script(P2PKH), b = pub.script(P2WPKH), d = pub.script(P2SH_P2WPKH), w(a, P2WSH); T_("Script::address p2pkh" + id, leg, 40, [=](char *p, size_t n) { return a.address(p, n, net); }); if (c) T_("Script::address p2sh" + id, nest, 40, [=](char *p, size_t n) { return d.address(p, n, net); }); if (c) T_("Script::address p2wpkh" + id, sw, 76, [=](char *p, size_t n) { return b.address(p, n, net); }); T_("Script::address p2wsh" + id, ref::segwit_addr(ns.hrp, 0, ref::sha256(ref::p2pkh(h))), 76, [=](char *p, size_t n) { return w.address(p, n, net); }); TxOut o(5, b); if (c) T_("TxOut::address" + id, sw, 76, [=](char *p, size_t n) { return o.address(p, n, net); }); }
  for (auto &ns : netspecs()) for (int ty = 0; ty < 5; ty++) { static const ScriptType TY[] = {UNKNOWN_TYPE, P2SH_P2WPKH, P2WPKH, P2SH_P2WSH, P2WSH}; const HD &h = hdp(wallet(ty % 3), {hard(84), 7}); HDPrivateKey k = lhd(h, ns.net); k.type = TY[ty]; HDPublicKey q = lhdpub(h, ns.net); q.type = TY[ty]; std::string id = fmt(" type %d %s", ty, ns.name); bytes xb = ref::hd_bytes(h, ref::be(ns.prv[ty], 4), true), pb = ref::hd_bytes(h, ref::be(ns.pub[ty], 4), false); std::string xp = ref::b58c(xb), pp = ref::b58c(pb); bytes hh = ref::hash160(ref::sec(h.K)); std::string ad = ty == 1 ? ref::b58c(ref::cat({ns.p2sh}, ref::hash160(ref::p2wpkh(hh)))) : ref::segwit_addr(ns.hrp, 0, hh);
      T_("HDPrivateKey::xprv" + id, xp, 112, [=](char *p, size_t n) { return k.xprv(p, n); }); T_("HDPrivateKey::toString" + id, xp, 112, [=](char *p, size_t n) { return k.toString(p, n); }); T_("HDPrivateKey::xpub" + id, pp, 112, [=](char *p, size_t n) { return k.xpub(p, n); }); T_("HDPublicKey::xpub" + id, pp, 112, [=](char *p, size_t n) { return q.xpub(p, n); }); T_("HDPublicKey::toString" + id, pp, 112, [=](char *p, size_t n) { return q.toString(p, n); });
      if (ty < 3) { T_("HDPrivateKey::address" + id, ad, 76, [=](char *p, size_t n) { return k.address(p, n); }); T_("HDPublicKey::address" + id, ad, 76, [=](char *p, size_t n) { return q.address(p, n); }); }
      S_("HDPrivateKey::serialize" + id, xb, [=](uint8_t *p, size_t n) { return k.serialize(p, n); }); S_("HDPublicKey::serialize" + id, pb, [=](uint8_t *p, size_t n) { return q.serialize(p, n); }); }
  for (int i = 0; i < 16; i++) { static const std::vector<ref::U> R = {ref::U(1), ref::U(0x80), ref::fromH("7fff000000000000000000000000000000000000000000000000000000000001"), ref::fromH("80ff000000000000000000000000000000000000000000000000000000000001")}; ref::U r = R[i % 4], s = R[i / 4]; bytes rs = ref::cat(ref::toB(r), ref::toB(s)); Signature g(ref::toB(r).data(), ref::toB(s).data()); std::string id = fmt(" %d", i); E_("Signature::der" + id, ref::der(r, s), [=](uint8_t *p, size_t n) { return g.der(p, n); }); S_("Signature::serialize" + id, ref::der(r, s), [=](uint8_t *p, size_t n) { return g.serialize(p, n); }); S_("Signature::toString" + id, hx(ref::der(r, s)), [=](uint8_t *p, size_t n) { return g.toString((char *)p, n); }); S_("Signature::bin" + id, rs, [=](uint8_t *p, size_t n) { g.bin(p, n); return std::min<size_t>(n, 64); }); SchnorrSignature sg(ref::toB(r).data(), ref::toB(s).data()); S_("SchnorrSignature::serialize" + id, rs, [=](uint8_t *p, size_t n) { return sg.serialize(p, n); }); }
  { auto cat = tx_catalog(); for (size_t i = 0; i < cat.size(); i++) { bytes e = ref::ser_tx(cat[i]); if (e.size() > 700) continue; Tx x = mktx(cat[i]); S_(fmt("Tx::serialize %zu", i), e, [=](uint8_t *p, size_t n) { return x.serialize(p, n); }); S_(fmt("Tx::toString %zu", i), hx(e), [=](uint8_t *p, size_t n) { return x.toString((char *)p, n); }); } }
  for (size_t w = 12; w <= 24; w += 3) { bytes en = repeat(w * 4 / 3, w); std::string m = mnemonicFromEntropy(en.data(), en.size()); E_(fmt("mnemonicToEntropy %zu", w), en, [=](uint8_t *p, size_t n) { return mnemonicToEntropy(m.c_str(), m.size(), p, n); }); }
  for (size_t l : {1, 2, 3, 7, 20, 21, 33}) { bytes d = repeat(l, l); if (l > 2) d[0] = 0; std::string id = fmt(" %zu bytes", l); T_("toHex" + id, ref::hex(d), 2 * l + 1, [=](char *p, size_t n) { return toHex(d.data(), d.size(), p, n); }); T_("toBase58" + id, ref::b58(d), l * 138 / 100 + 4, [=](char *p, size_t n) { return toBase58(d.data(), d.size(), p, n); }); T_("toBase58Check" + id, ref::b58c(d), (l + 4) * 138 / 100 + 4, [=](char *p, size_t n) { return toBase58Check(d.data(), d.size(), p, n); }); T_("toBase64" + id, ref::b64(d), (l + 2) / 3 * 4 + 1, [=](char *p, size_t n) { return toBase64(d.data(), d.size(), p, n); });
    std::string h = ref::hex(d), b = ref::b58(d), bc = ref::b58c(d), b6 = ref::b64(d); E_("fromBase58" + id, d, [=](uint8_t *p, size_t n) { return fromBase58(b.c_str(), b.size(), p, n); }); ops.back().must = b.size() + 1; E_("fromBase58Check" + id, d, [=](uint8_t *p, size_t n) { return fromBase58Check(bc.c_str(), bc.size(), p, n); }); ops.back().must = bc.size() + 1; S_("fromHex" + id, d, [=](uint8_t *p, size_t n) { return fromHex(h.c_str(), h.size(), p, n); }); E_("fromBase64" + id, d, [=](uint8_t *p, size_t n) { return fromBase64(b6.c_str(), b6.size(), p, n); }); ops.back().must = l + 3; }
}
static void run() { const Wr &o = ops[choose(ops.size())]; size_t n = choose(o.want.size() + (o.kind == 'S' && o.want.size() > 300 ? 3 : 90)); Exact b(n); size_t r = o.f(b.p, n); step(); std::string ctx = o.name + fmt(", buffer %zu, full length %zu, returned %zu", n, o.want.size(), r); const bytes &w = o.want; size_t L = w.size();
  if (o.kind == 'T') { if (r == 0 && L > 0) { ok(n < o.must, "refused", ctx); outcome("refused"); } else { eqn(r, L, "returned-length", ctx); ok(n >= L, "claims-more-than-buffer", ctx); eq(sub(b.b(), 0, L), w, "text", ctx); if (L && n > L) ok(b.p[L] == 0, "not-terminated", ctx); outcome("text"); } }
  else if (o.kind == 'E') { if (r == 0 && L > 0) { ok(n < o.must, "refused", ctx); outcome("refused"); } else { eqn(r, L, "returned-length", ctx); ok(n >= L, "claims-more-than-buffer", ctx); eq(sub(b.b(), 0, L), w, "content", ctx); outcome("content"); } }
  else { ok(r <= L, "returned-length", ctx); if (n >= L) { size_t full = o.name.find("toString") != std::string::npos ? r : L; eqn(r, full, "returned-length", ctx); eq(sub(b.b(), 0, L), w, "content", ctx); } else { bool text = o.name.find("toString") != std::string::npos; size_t m = text ? n / 2 * 2 : std::min(n, L); if (r) eq(sub(b.b(), 0, m), sub(w, 0, m), "prefix", ctx); ok(text ? r <= n : r <= n, "claims-more-than-buffer", ctx); } outcome("stream"); }
  state(ref::fnv(o.name, n)); }
void define_spaces() { build(); space("buffer-sizes", 1, run); }
