// C33: allocation failure. Every allocation that the library makes through malloc/calloc/realloc in a scenario is a fault
// point; the scenario is executed with the k-th allocation failing (only that one, or that one and all later ones) for
// every k. The result must be the fault-free one or a reported failure / empty result; memory errors are caught by ASan
// and the heap must be balanced afterwards.
// LDFLAGS: -Wl,--wrap=malloc -Wl,--wrap=calloc -Wl,--wrap=realloc
#include "objects.h"
#include "electrum.h"
namespace fault { static bool on = false; static long n = 0, at = -1, at2 = -1; static bool forever = false; static bool hit() { if (!on) return false; long i = n++; return i == at || i == at2 || (forever && at >= 0 && i >= at); } }
extern "C" { void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
void *__wrap_malloc(size_t n) { return fault::hit() ? NULL : __real_malloc(n); } void *__wrap_calloc(size_t a, size_t b) { return fault::hit() ? NULL : __real_calloc(a, b); } void *__wrap_realloc(void *p, size_t n) { return fault::hit() ? NULL : __real_realloc(p, n); } }
struct Off { bool was; Off() : was(fault::on) { fault::on = false; } ~Off() { fault::on = was; } };
typedef std::pair<bool, bytes> Res; // (claims a complete result, the result)
struct Scn { std::string name; std::function<Res()> f; };
static std::vector<Scn> scns;
static void add(const std::string &n, std::function<Res()> f) { scns.push_back({n, f}); }
static Res str(const std::string &s) { return Res(!s.empty(), ref::B(s)); }
static Res scr(const Script &s) { Off o; return Res(s.scriptLen > 0, scriptbytes(s)); }
static void build() { build_objects();
  for (auto &r : reg) { std::string t = r.first; auto &c = cat_[t]; std::vector<size_t> which; if (c.size() <= 4) for (size_t i = 0; i < c.size(); i++) which.push_back(i); else which = {0, 1, c.size() / 2, c.size() - 1};
    for (size_t i : which) { bytes e = c[i]; if (e.size() > 2000) continue; for (int ch = 0; ch < 2; ch++) add("parse " + t + fmt(" %zu%s", i, ch ? " in pieces" : ""), [t, e, ch] { IObj *x; { Off o; x = reg[t](); } if (!ch) x->feed(e.data(), e.size(), false); else for (size_t p = 0; p < e.size() && x->st() != PARSING_FAILED; p += 7) { if (p && x->st() == PARSING_DONE) break; bytes s; { Off o; s = sub(e, p, 7); } x->feed(s.data(), s.size(), false); } Off o; Res q(x->st() == PARSING_DONE, {}); if (q.first) q.second = x->obs(); else { x->reset(); x->feed(e.data(), e.size(), false); if (x->st() != PARSING_DONE) q = Res(true, ref::B("not usable after a failed allocation")); } delete x; return q; });
      add("text of " + t + fmt(" %zu", i), [t, e] { IObj *x; { Off o; x = reg[t](); x->feed(e.data(), e.size(), false); } std::string s = x->str(); Off o; delete x; return str(s); });
      add("hex piece of " + t + fmt(" %zu", i), [t, e] { IObj *x; { Off o; x = reg[t](); x->feed(e.data(), e.size(), false); } std::string s = x->outs(0, e.size()); Off o; delete x; return str(s); });
      bool container = t == "Tx" || t == "TxIn" || t == "TxOut" || t == "PSBT"; add("copy of " + t + fmt(" %zu", i), [t, e, container] { IObj *x, *y, *z; { Off o; x = reg[t](); x->feed(e.data(), e.size(), false); z = reg[t](); z->feed(e.data(), e.size(), false); } y = x->clone(); z->assign(x); Off o; bytes a = y->obs(), b = z->obs(), w = x->obs(), f; { std::unique_ptr<IObj> q(x->fresh()); f = q->obs(); } delete x; delete y; delete z; if (container) return Res(false, {}); if (a != w && a != f) return Res(true, ref::cat({1}, a)); if (b != w && b != f) return Res(true, ref::cat({2}, b)); return Res(false, {}); }); } }
  PrivateKey pk(key_b(1).data()); PublicKey pub = pk.publicKey(); const char *adr[] = {"1BvBMSEYstWetqTFn5Au4m4GFg7xJaNVN2", "3J98t1WpEZ73CNmQviecrnyiWrnqRhWNLy", "bc1qw508d6qejxtdg4y5r3zarvary0c5xw7kv8f3t4", "bc1qrp33g0q5c5txsp9arysrx4k6zdkfs4nce4xj0gdcccefvpysxf3qccfmv3"};
  for (auto a : adr) add(std::string("script of address ") + a, [a] { Script s(a); return scr(s); });
  for (ScriptType ty : {P2PKH, P2WPKH, P2SH_P2WPKH}) { add(fmt("script of key, type %d", (int)ty), [=] { Script s(pub, ty); return scr(s); }); add(fmt("PublicKey::script type %d", (int)ty), [=] { return scr(pub.script(ty)); }); }
  for (ScriptType ty : {P2SH, P2WSH}) add(fmt("scriptPubkey type %d", (int)ty), [=] { Script *s; { Off o; s = new Script(pub, P2PKH); } Script r(*s, ty); Res q = scr(r); Off o; delete s; return q; });
  add("script from bytes", [] { bytes b; { Off o; b = repeat(50, 3); } Script s(b.data(), b.size()); Res r = scr(s); return r; });
  for (int k = 0; k < 4; k++) add(fmt("push %d on a script", k), [=] { Script *s; { Off o; s = new Script(); if (k > 1) s->push((uint8_t)0x51); } size_t r = k % 2 ? s->push((uint8_t)0xac) : s->push(pub); Off o; bytes b = scriptbytes(*s); bool full = r > 0; if (!full && b.size() > (k > 1)) { delete s; return Res(true, ref::B("failed push left data")); } s->clear(); s->push((uint8_t)0x51); bool usable = scriptbytes(*s) == bytes{0x51}; delete s; return usable ? Res(full, b) : Res(true, ref::B("unusable")); });
  for (int k = 0; k < 6; k++) add(fmt("push %d on a witness", k), [=] { Witness *w; Script *sc; { Off o; w = new Witness(); sc = new Script(pub, P2PKH); if (k > 2) w->push((const uint8_t *)"ab", 2); } size_t r = k % 3 == 0 ? w->push((const uint8_t *)"xyz", 3) : k % 3 == 1 ? w->push(pub) : w->push(*sc); Off o; bytes b = ser(*w); bytes was = ref::ser_wit(k > 2 ? std::vector<bytes>{ref::B("ab")} : std::vector<bytes>{}); bytes empty{0}; Res q(r > 0, b); if (!r && b != was && b != empty) q = Res(true, ref::B("failed push left " + ref::hex(b))); delete w; delete sc; return q; });
  for (size_t l : {1, 21, 34, 78}) { std::string id = fmt(" %zu", l); auto d = [l] { Off o; return repeat(l, 5); }; add("toHex" + id, [=] { bytes b = d(); return str(toHex(b.data(), b.size())); }); add("toBin" + id, [=] { bytes b = d(); return str(toBin(b.data(), b.size())); }); add("toBase58" + id, [=] { bytes b = d(); return str(toBase58(b.data(), b.size())); }); add("toBase58Check" + id, [=] { bytes b = d(); return str(toBase58Check(b.data(), b.size())); }); add("toBase64" + id, [=] { bytes b = d(); return str(toBase64(b.data(), b.size())); }); add("toBase43" + id, [=] { bytes b = d(); return str(toBase43(b.data(), b.size())); });
    std::string b58 = ref::b58(repeat(l, 5)), bc = ref::b58c(repeat(l, 5)), b43 = ref::radix_enc(repeat(l, 5), ref::A43), b64 = ref::b64(repeat(l, 5)); auto from = [=](std::function<size_t(uint8_t *, size_t)> f) { uint8_t buf[300]; size_t n = f(buf, 300); Off o; return Res(n > 0, bytes(buf, buf + std::min<size_t>(n, 300))); };
    add("fromBase58" + id, [=] { return from([=](uint8_t *p, size_t n) { return fromBase58(b58.c_str(), b58.size(), p, n); }); }); add("fromBase58Check" + id, [=] { return from([=](uint8_t *p, size_t n) { return fromBase58Check(bc.c_str(), bc.size(), p, n); }); }); add("fromBase43" + id, [=] { return from([=](uint8_t *p, size_t n) { return fromBase43(b43.c_str(), b43.size(), p, n); }); }); add("fromBase64" + id, [=] { return from([=](uint8_t *p, size_t n) { return fromBase64(b64.c_str(), b64.size(), p, n); }); });
    add("base64ToHex" + id, [=] { return str(base64ToHex(b64)); }); std::string h = ref::hex(repeat(l, 5)); add("hexToBase64" + id, [=] { return str(hexToBase64(h)); }); }
  add("wif", [=] { return str(pk.wif()); }); add("legacy address", [=] { return str(pub.legacyAddress()); }); add("nested address", [=] { return str(pub.nestedSegwitAddress()); }); add("segwit address", [=] { return str(pub.segwitAddress()); }); std::string wif = ref::b58c(ref::cat(ref::cat({0x80}, key_b(1)), {1})); add("fromWIF", [=] { PrivateKey k; int r = k.fromWIF(wif.c_str()); return Res(r > 0 || k.isValid(), secretof(k)); });
  add("xprv", [] { HDPrivateKey k = lhd(wallet(0)); return str(k.xprv()); }); add("xpub", [] { HDPublicKey k = lhdpub(wallet(0)); return str(k.xpub()); }); std::string xp = ref::b58c(ref::hd_bytes(wallet(0), ref::be(0x0488ade4, 4), true)); add("xprv from text", [=] { HDPrivateKey k(xp.c_str()); return Res(k.isValid(), secretof(k)); }); std::string xq = ref::b58c(ref::hd_bytes(wallet(0), ref::be(0x0488b21e, 4), false)); add("xpub from text", [=] { HDPublicKey k(xq.c_str()); return Res(k.isValid(), pointof(k)); });
  add("derive path", [] { HDPrivateKey k = lhd(wallet(0)).derive("m/84h/0h/1"); return Res(k.isValid(), secretof(k)); }); add("derive public path", [] { HDPublicKey k = lhdpub(wallet(0)).derive("m/1/2/3"); return Res(k.isValid(), pointof(k)); });
  add("multi", [=] { PublicKey a[3] = {pub, pub + pub, pub}; Script s = multi(2, a, 3); Res r = scr(s); return r; });
  for (int k = 0; k < 2; k++) add(k ? "PSBT from base64" : "PSBT to base64", [=] { bytes e; std::string b; PSBT *p; { Off o; e = cat_["PSBT"].back(); b = ref::b64(e); p = new PSBT(); if (!k) p->parse(e.data(), e.size()); } Res r; if (k) { p->parseBase64(b); Off o; r = Res(p->getStatus() == PARSING_DONE && p->tx.inputsNumber > 0, {}); if (r.first) r.second = observe(*p); } else r = str(p->toBase64()); Off o; delete p; return r; });
  for (int sg = 0; sg < 2; sg++) { ETx e; e.segwit = sg; e.in = {EIn{rin(1, 0, 0, 1), wallet(0), sg ? ZPUB : XPUB, {1, 2}, 100}}; e.out = {rout(5, 22)}; bytes b = ser_etx(e); add(fmt("parse Electrum %d", sg), [=] { ElectrumTx *x; { Off o; x = new ElectrumTx(); } x->parse(b.data(), b.size()); Off o; Res r(x->getStatus() == PARSING_DONE, {}); if (r.first) { r.second = ser(*x); HDPublicKey h = x->txInsMeta[0].hd; ref::app(r.second, ser(h)); } delete x; return r; }); }
  // memory safety only: signing and transaction building have no channel for reporting a lost script
  add("sign inputs", [=] { Tx *t; { Off o; RTx r; r.in = {rin(1, 0, 0, 1), rin(2, 0, 0, 1)}; r.out = {rout(5, 22)}; t = new Tx(mktx(r)); } t->signInput(0, pk); t->signSegwitInput(1, pk, 500, P2SH_P2WPKH); std::string a = t->txid(); Off o; ser(*t); delete t; return Res(false, {}); });
  add("add inputs and outputs", [=] { Tx *t; RTx r; { Off o; r.in = {rin(1, 5, 0, 1)}; r.out = {rout(5, 22)}; t = new Tx(mktx(r)); } t->addInput(t->txIns[0]); t->addOutput(t->txOuts[0]); t->addInput(t->txIns[0]); Off o; ser(*t); delete t; return Res(false, {}); });
  add("sign PSBT", [=] { PSBT *p; HDPrivateKey *hk; { Off o; ref::HD root = wallet(0), leaf = hdp(root, {hard(84), 1}); bytes k = ref::sec(leaf.K), fp = hd_fp(root); RPsbt q; q.tx.in = {rin(1, 0, 0, 1)}; q.tx.out = {rout(1000, 22)}; q.in = {{{bytes{1}, ref::ser_out(ROut{5000, ref::p2wpkh(ref::hash160(k))})}, kv_deriv(6, k, fp, {hard(84), 1})}}; q.out = {{kv_deriv(2, k, fp, {hard(84), 1})}}; bytes e = ser_psbt(q); p = new PSBT(); p->parse(e.data(), e.size()); hk = new HDPrivateKey(lhd(root)); } p->sign(*hk); p->isMine(0, *hk); p->fee(); Off o; ser(*p); delete p; delete hk; return Res(false, {}); });
}
static Res go(const Scn &s, long at, bool forever, long at2) { fault::n = 0; fault::at = at; fault::at2 = at2; fault::forever = forever; fault::on = true; Res r = s.f(); fault::on = false; step(); return r; }
static long count(const Scn &s, bytes &base) { Res r = go(s, -1, false, -1); base = r.second; return fault::n; }
static void run() { size_t si = choose(scns.size()); const Scn &s = scns[si]; bytes base; static std::map<size_t, std::pair<long, bytes>> memo; auto it = memo.find(si); if (it == memo.end()) { count(s, base); long n = count(s, base); it = memo.emplace(si, std::make_pair(n, base)).first; } long n = it->second.first; base = it->second.second;
  if (n == 0) { outcome("no-allocation"); return; } long k = choose(n); int mode = choose(thorough && n <= 60 ? 3 : 2); long k2 = -1; if (mode == 2) k2 = k + 1 + choose(n); std::string ctx = s.name + fmt(": allocation %ld of %ld fails%s", k + 1, n, mode == 1 ? " and all later ones" : mode == 2 ? fmt(" and number %ld", k2 + 1).c_str() : ""); Res r = go(s, k, mode == 1, k2); if (r.first) { eq(r.second, base, "wrong-result", ctx); outcome("right-result"); } else outcome("reported-or-empty");
  noleak("leak", [&] { go(s, k, mode == 1, k2); }, ctx); Res c = go(s, -1, false, -1); eq(c.second, base, "later-result", ctx); state(ref::fnv(s.name, k * 1000 + k2 * 7 + mode)); }
void define_spaces() { build(); space("faults", 2, run); }
