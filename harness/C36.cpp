// C36: one behaviour in every build configuration. The library is built three times from the working tree - with
// std::string, without any string class, and as on Arduino (String, Stream and Print from arduino/Arduino.h) - and the
// text-facing operations of all three are run on every input of the enumerated sets. Oracle: the independent reference.
// MODULE: std conf.cpp: -DUSE_STDONLY
// MODULE: nostr conf.cpp: -DUSE_STDONLY -DUSE_STD_STRING=0
// MODULE: arduino conf.cpp: -DARDUINO=100 -I@/arduino
#include "lib.h"
#include "words.h"
#include "conf.h"
#include "electrum.h"
#include <dlfcn.h>
using ref::U; using ref::Pt; using ref::HD;
struct Mod { const char *name; conf_fn f; };
static Mod *mods() { static Mod m[3]; if (!m[0].f) { const char *p[3][2] = {{"std::string", MODULE_std}, {"no strings", MODULE_nostr}, {"Arduino", MODULE_arduino}}; for (int i = 0; i < 3; i++) { m[i].name = p[i][0]; if (!*p[i][1]) { m[i].f = [](int, const uint8_t *, size_t, int, uint8_t *, size_t) -> size_t { return (size_t)-1; }; continue; } void *h = dlopen(p[i][1], RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(3); } m[i].f = (conf_fn)dlsym(h, "conf_call"); } } return m; }
static const size_t CAP = 20000;
static bytes call(int mi, int op, const bytes &in, int arg, bool &has) { static std::vector<uint8_t> out(CAP); Exact e(in); size_t n = mods()[mi].f(op, e.p, e.n, arg, out.data(), CAP); has = n != (size_t)-1; step(); return has ? bytes(out.begin(), out.begin() + std::min(n, CAP)) : bytes(); }
static bytes all(int op, const char *name, const bytes &in, int arg, const bytes *want) { bytes first; bool any = false; for (int i = 0; i < 3; i++) { bool has; bytes g = call(i, op, in, arg, has); if (!has) continue; std::string ctx = std::string(name) + " " + mods()[i].name + fmt(" arg %d in ", arg) + cutstr(ref::hex(in)) + " '" + cutstr(S2(g), 200) + "'"; if (want) eq(g, *want, std::string("configuration:") + name, ctx); else if (!any) { first = g; any = true; } else eq(g, first, std::string("configurations-differ:") + name, ctx); } state(ref::fnv(in, op * 1000 + arg)); outcome(name); return want ? *want : first; }
static bytes tb(const std::string &s) { return ref::B(s); }
static bytes all(int op, const char *name, const bytes &in, int arg, const std::string &want) { bytes w = tb(want); return all(op, name, in, arg, &w); }
static bytes same(int op, const char *name, const bytes &in, int arg = 0) { return all(op, name, in, arg, (const bytes *)nullptr); }
static std::string bin(const bytes &b) { std::string s; for (uint8_t c : b) for (int i = 7; i >= 0; i--) s += '0' + (c >> i & 1); return s; }
static bytes data(size_t maxn) { size_t n = choose(maxn + 1); int k = choose(5); bytes b = k == 0 ? bytes(n, 0) : k == 1 ? bytes(n, 0xff) : repeat(n, k == 2 ? 3 : 200); if (k == 4 && n > 2) b[0] = b[1] = 0; return b; }
static std::vector<std::string> edits(const std::string &t, const char *repl) { std::vector<std::string> v = {t}; for (size_t i = 0; i < t.size(); i++) { v.push_back(t.substr(0, i)); for (const char *c = repl; *c; c++) { std::string s = t; s[i] = *c; v.push_back(s); } std::string s = t; s.erase(i, 1); v.push_back(s); s = t; s.insert(i, 1, t[i]); v.push_back(s); } return v; }
static void encodings() { bytes d = data(48); all(C_HEX, "hex", d, 0, ref::hex(d)); all(C_BIN, "bin", d, 0, bin(d)); all(C_B58, "base58", d, 0, ref::b58(d)); all(C_B58C, "base58check", d, 0, ref::b58c(d)); all(C_B43, "base43", d, 0, ref::radix_enc(d, ref::A43)); for (int f = 0; f < 4; f++) { same(C_HEXB64, "hex-to-base64", tb(ref::hex(d)), f); bytes t = same(C_B64, "base64", d, f); bool has; all(C_UNB64, "from-base64", t, f, &d); bytes hx = tb(ref::hex(d)); bytes w; for (int i : {0, 2}) { bytes g = call(i, C_B64HEX, t, f, has); if (has) eq(g, hx, "configuration:base64-to-hex", mods()[i].name); } }
  all(C_UNHEX, "from-hex", tb(ref::hex(d)), 0, &d); all(C_UNBIN, "from-bin", tb(bin(d)), 0, &d); all(C_UNB58, "from-base58", tb(ref::b58(d)), 0, &d); all(C_UNB58C, "from-base58check", tb(ref::b58c(d)), 0, &d); all(C_UNB43, "from-base43", tb(ref::radix_enc(d, ref::A43)), 0, &d); }
static void hashes() { bytes d = data(thorough ? 300 : 140); for (auto &c : d) if (!c) c = 1; auto w = [&](int op, const char *n, const bytes &r) { all(op, n, d, 0, &r); }; w(C_SHA256, "sha256", ref::sha256(d)); w(C_RMD, "rmd160", ref::rmd160(d)); w(C_H160, "hash160", ref::hash160(d)); w(C_DSHA, "double-sha", ref::dsha(d)); w(C_SHA512, "sha512", ref::sha512(d)); w(C_TAGGED, "tagged", ref::tagged("tag", d)); }
static void badtext() { static std::vector<std::pair<int, std::string>> v; if (v.empty()) { bytes d = repeat(9, 3); for (auto &s : edits(ref::hex(d), "g0 F")) v.push_back({C_UNHEX, s}); for (auto &s : edits(bin(sub(d, 0, 2)), "2 x")) v.push_back({C_UNBIN, s}); for (auto &s : edits(ref::b58(d), "0Il1z")) v.push_back({C_UNB58, s}); for (auto &s : edits(ref::b58c(d), "0Il1z")) v.push_back({C_UNB58C, s}); for (auto &s : edits(ref::radix_enc(d, ref::A43), "a0:$")) v.push_back({C_UNB43, s}); for (auto &s : edits(ref::b64(d), "=-_A+/ ")) v.push_back({C_UNB64, s}); for (auto &s : edits(ref::b64(sub(d, 0, 8)), "=-_A")) v.push_back({C_UNB64, s}); } auto &c = pick(v); for (int f = 0; f < (c.first == C_UNB64 ? 4 : 1); f++) same(c.first, "damaged-text", tb(c.second), f); }
static std::vector<U> &KS() { static std::vector<U> v; if (v.empty()) { for (int i = 1; i <= (thorough ? 60 : 12); i++) v.push_back(U(i)); U t; ref::subb(t, ref::N(), U(1)); v.push_back(t); v.push_back(ref::fromB(ref::sha256({1}))); } return v; }
static void keys() { const U &k = pick(KS()); int ni = choose(4); auto &n = netspecs()[ni]; Pt p = ref::mulG(k); bytes raw = pt64(p), sec = ref::sec(p), h = ref::hash160(sec), kb = ref::toB(k); std::string leg = ref::b58c(ref::cat({n.p2pkh}, h)), seg = ref::segwit_addr(n.hrp, 0, h), nest = ref::b58c(ref::cat({n.p2sh}, ref::hash160(ref::p2wpkh(h)))); all(C_LEGACY, "legacy-address", sec, ni, leg); all(C_SEGWIT, "segwit-address", sec, ni, seg); all(C_NESTED, "nested-address", sec, ni, nest); all(C_SEC, "sec", sec, 0, ref::hex(sec)); all(C_XONLY, "x-only", sec, 0, ref::hex(ref::toB(p.x))); all(C_PUBTEXT, "public-key-text", tb(ref::hex(sec)), 0, ref::hex(sec)); all(C_PUBTEXT, "public-key-text", tb(ref::hex(ref::sec(p, false))), 0, ref::hex(ref::sec(p, false)));
  std::string wif = ref::b58c(ref::cat(ref::cat({n.wif}, kb), {1})), wifu = ref::b58c(ref::cat({n.wif}, kb)); all(C_WIF, "wif", kb, ni, wif); all(C_WIF, "wif", kb, ni | 4, wifu); bytes c = ref::cat(kb, {1}), u = ref::cat(kb, {0}); all(C_FROMWIF, "from-wif", tb(wif), 0, &c); all(C_FROMWIF, "from-wif", tb(wifu), 0, &u); all(C_PADDR, "private-key-addresses", kb, ni, leg + " " + leg + " " + seg + " " + nest); all(C_FROMADDR, "script-of-address", tb(leg), 0, S2(ref::p2pkh(h))); all(C_FROMADDR, "script-of-address", tb(seg), 0, S2(ref::p2wpkh(h))); for (auto &a : {leg, seg, nest}) { all(C_OUTADDR, "output-address", tb(a), ni, a); } all(C_ADDR, "address-of-script", ref::p2pkh(h), ni, leg); all(C_ADDR, "address-of-script", ref::p2wpkh(h), ni, seg);
  ref::Sig s = ref::ecdsa_sign(k, ref::sha256(kb)); std::string d = ref::hex(ref::der(s.r, s.s)); all(C_SIGTEXT, "signature-text", tb(d), 0, d); std::string sn = ref::hex(ref::cat(ref::toB(p.x), ref::toB(k))); all(C_SCHNORRTEXT, "schnorr-text", tb(sn), 0, sn); }
static void badkeys() { static std::vector<std::pair<int, std::string>> v; if (v.empty()) { Pt p = ref::mulG(U(7)); bytes kb = ref::toB(U(7)), h = ref::hash160(ref::sec(p)); auto add = [&](int op, const std::string &t, const char *r) { for (auto &s : edits(t, r)) v.push_back({op, s}); }; add(C_FROMWIF, ref::b58c(ref::cat(ref::cat({0x80}, kb), {1})), "1z"); add(C_FROMADDR, ref::b58c(ref::cat({0}, h)), "1z"); add(C_FROMADDR, ref::segwit_addr("bc", 0, h), "qB"); add(C_PUBTEXT, ref::hex(ref::sec(p)), "0fg"); ref::Sig s = ref::ecdsa_sign(U(7), ref::sha256(kb)); add(C_SIGTEXT, ref::hex(ref::der(s.r, s.s)), "08g"); add(C_SCHNORRTEXT, ref::hex(ref::cat(ref::toB(p.x), kb)), "f"); HD hd = ref::hd_seed(kb); add(C_FROMXPRV, ref::b58c(ref::hd_bytes(hd, ref::be(0x0488ade4, 4), true)), "1"); add(C_FROMXPUB, ref::b58c(ref::hd_bytes(hd, ref::be(0x0488b21e, 4), false)), "1"); } auto &c = pick(v); same(c.first, "damaged-key-text", tb(c.second)); }
static HD fixedseed() { bytes s(32); for (int i = 0; i < 32; i++) s[i] = i * 7 + 1; return ref::hd_seed(s); }
static void hd() { bytes seed = repeat(16 + choose(49), choose(thorough ? 8 : 3) * 31); int ni = choose(4); auto &n = netspecs()[ni]; HD h = ref::hd_seed(seed); bytes prv = ref::hd_bytes(h, ref::be(n.prv[0], 4), true), pub = ref::hd_bytes(h, ref::be(n.pub[0], 4), false); all(C_XPRV, "xprv", seed, ni, ref::b58c(prv)); all(C_XPUB, "xpub", seed, ni, ref::b58c(pub)); all(C_FROMXPRV, "from-xprv", tb(ref::b58c(prv)), 0, &prv); all(C_FROMXPUB, "from-xpub", tb(ref::b58c(pub)), 0, &pub); std::string fp = ref::hex(sub(ref::hash160(ref::sec(h.K)), 0, 4)); all(C_FPR, "fingerprint", seed, ni, fp); all(C_FPRPUB, "fingerprint", seed, ni, fp); }
static void paths() { static const std::vector<std::pair<std::string, uint32_t>> SEG = {{"0", 0}, {"1", 1}, {"44'", 0x80000000u + 44}, {"49h", 0x80000000u + 49}, {"2147483647", 0x7fffffffu}, {"0'", 0x80000000u}}; static const std::vector<std::string> PRE = {"m/", "", "/"}; int ni = choose(2); std::string t = pick(PRE); HD h = fixedseed(); size_t n = choose(4); bool pub = true; for (size_t i = 0; i < n; i++) { auto &s = pick(SEG); t += (i ? "/" : "") + s.first; h = ref::hd_child(h, s.second); pub = pub && !(s.second >> 31); }
  bytes w = same(C_DERIVE, "derive", tb(t), ni); if (n && t[0] != '/') { auto &ns = netspecs()[ni]; bool m4 = false; (void)m4; eq(sub(w, 4, 74), sub(ref::hd_bytes(h, ref::be(ns.prv[0], 4), true), 4, 74), "configuration:derive", t); same(C_HDADDR, "hd-address", tb(t), ni); same(C_HDADDRPUB, "hd-address-public", tb(t), ni); } bytes q = same(C_DERIVEPUB, "derive-public", tb(t), ni); if (pub && n && t[0] != '/') eq(sub(q, 4, 74), sub(ref::hd_bytes(h, ref::be(netspecs()[ni].pub[0], 4), false), 4, 74), "configuration:derive-public", t); }
static void badpaths() { static const std::vector<std::string> P = {"m", "m/", "/", "", "x", "m/x", "m//1", "m/1/", "m/2147483648", "m/2147483648'", "m/4294967296", "m/99999999999999999999", "m/-1", "m/1''", "m/'", "m/1h/", "1", "1/", "M/1", "m/1 ", " m/1", "m/0x1", "m/84h/0'/0H"}; same(C_DERIVE, "damaged-path", tb(pick(P)), choose(2)); same(C_DERIVEPUB, "damaged-path", tb(pick(P)), choose(2)); }
static const std::vector<std::string> &W() { static std::vector<std::string> v; if (v.empty()) { std::string s = BIP39_WORDS, c; for (char x : s) if (x == ' ') { v.push_back(c); c = ""; } else c += x; } return v; }
static std::string sentence(const bytes &e) { bytes b = e; b.push_back(ref::sha256(e)[0]); std::string s; size_t n = e.size() * 3 / 4; for (size_t i = 0; i < n; i++) { int v = 0; for (size_t j = i * 11; j < i * 11 + 11; j++) v = v << 1 | (b[j / 8] >> (7 - j % 8) & 1); s += (i ? " " : "") + W()[v]; } return s; }
static void phrases() { size_t n = 16 + 4 * choose(5); bytes e = repeat(n, choose(thorough ? 64 : 16) * 4); std::string s = sentence(e); all(C_MNEMO, "sentence", e, 0, s); bytes one = {1}; all(C_CHECK, "check-sentence", tb(s), 0, &one); all(C_ENTROPY, "entropy", tb(s), 0, &e); bytes d = repeat(20, e[0]); for (auto &c : d) if (!c) c = 1; all(C_GEN, "generate", d, n * 3 / 4, sentence(sub(ref::sha256(d), 0, n))); }
static void badphrases() { static std::vector<std::string> v; if (v.empty()) v = edits(sentence(repeat(16, 1)), " az"); bytes t = tb(pick(v)); same(C_CHECK, "damaged-sentence", t); same(C_ENTROPY, "damaged-sentence", t); }
static void seeds() { std::string s = sentence(repeat(16 + 4 * choose(5), 2)); static const std::vector<std::string> PW = {"", "a", "TREZOR", "pass phrase", std::string(100, 'x')}; std::string pw = pick(PW); int ni = choose(2); HD h = ref::hd_seed(ref::pbkdf2_512(tb(s), tb("mnemonic" + pw), 2048)); bytes w = ref::hd_bytes(h, ref::be(netspecs()[ni].prv[0], 4), true); all(C_SEED, "key-of-sentence", tb(s + "|" + pw), ni, &w); }
static ref::RTx mktxr() { ref::RTx t; t.ver = 1 + choose(2); int ni = 1 + choose(2), no = 1 + choose(2), w = choose(3); for (int i = 0; i < ni; i++) { ref::RIn in; in.hash = repeat(32, i + 1); in.idx = i; in.sig = repeat(choose(2) * 107, 9); in.seq = 0xfffffffeu + i; if (w == 1 || (w == 2 && i == 0)) in.wit = {repeat(71, 2), repeat(33, 3)}; t.in.push_back(in); } for (int i = 0; i < no; i++) t.out.push_back({1000u + i, i ? ref::p2wpkh(repeat(20, 7)) : ref::p2pkh(repeat(20, 8))}); t.lock = choose(2) * 500000; return t; }
static void txs() { ref::RTx t = mktxr(); bytes b = ref::ser_tx(t); bytes hx = tb(ref::hex(b)); all(C_TXTEXT, "transaction-text", hx, 0, ref::hex(b)); all(C_TXID, "txid", hx, 0, ref::hex(ref::rev(ref::dsha(ref::ser_tx(t, false))))); all(C_WTXID, "wtxid", hx, 0, ref::hex(ref::rev(ref::dsha(b)))); }
static void slices() { ref::RTx t; ref::RIn in; in.hash = repeat(32, 1); in.idx = 0; in.seq = 5; t.in.push_back(in); t.out.push_back({7, ref::p2wpkh(repeat(20, 7))}); bytes b = ref::ser_tx(t); size_t off = choose(b.size()), len = choose(b.size() + 2); if (off + len > b.size() + 1) return; size_t e = len ? len : b.size() - off; all(C_SLICE, "text-slice", tb(ref::hex(b)), off | len << 8, ref::hex(sub(b, off, e))); }
static void damagedtx() { static std::vector<std::string> v; if (v.empty()) { ref::RTx t; ref::RIn in; in.hash = repeat(32, 1); in.idx = 0; in.seq = 5; in.wit = {repeat(3, 1)}; t.in.push_back(in); t.out.push_back({7, ref::p2wpkh(repeat(20, 7))}); v = edits(ref::hex(ref::ser_tx(t)), "0fg"); } bytes t = tb(pick(v)); same(C_TXTEXT, "damaged-transaction", t); same(C_TXID, "damaged-transaction", t); }
static void electrum() { ETx e; int n = 1 + choose(2); e.segwit = flip(); for (int i = 0; i < n; i++) { EIn in; in.in.hash = repeat(32, i); in.in.idx = i; in.in.seq = 0xfffffffe; in.acct = ref::hd_child(fixedseed(), i); in.ver = e.segwit ? 0x04b24746 : 0x0488b21e; in.d[0] = choose(2); in.d[1] = choose(3); in.amount = e.segwit ? 5000 : 0; e.in.push_back(in); } e.out.push_back({99, ref::p2wpkh(repeat(20, 7))}); bytes b = ser_etx(e); same(C_ELECTRUM, "electrum-text", tb(ref::hex(b))); }
static void psbts() { ref::RTx t = mktxr(); for (auto &i : t.in) { i.sig.clear(); i.wit.clear(); } bytes b = ref::B("psbt"); b.push_back(0xff); bytes raw = ref::ser_tx(t, false); ref::app(b, {1, 0}); ref::app(b, ref::varbytes(raw)); b.push_back(0); bytes w = b; w.resize(w.size() + t.in.size() + t.out.size(), 0); for (size_t i = 0; i < t.in.size(); i++) { if (choose(2)) { ref::app(b, {1, 1}); ref::app(b, ref::varbytes(ref::cat(ref::le(77777, 8), ref::varbytes(ref::p2wpkh(repeat(20, 4)))))); } b.push_back(0); } for (size_t i = 0; i < t.out.size(); i++) b.push_back(0); all(C_PSBT64, "psbt-base64", tb(ref::b64(b)), 0, ref::b64(w)); } // the library writes the transaction and the signatures only
static std::string desc(const std::string &s) { static const std::string IC = "0123456789()[],'/*abcdefgh@:$%{}IJKLMNOPQRSTUVWXYZ&+-.;<=>?!^_|~ijklmnopqrstuvwxyzABCDEFGH`#\"\\ "; auto pm = [](uint64_t c, int v) { uint8_t c0 = c >> 35; c = ((c & 0x7ffffffffull) << 5) ^ v; if (c0 & 1) c ^= 0xf5dee51989ull; if (c0 & 2) c ^= 0xa9fdca3312ull; if (c0 & 4) c ^= 0x1bab10e32dull; if (c0 & 8) c ^= 0x3706b1677aull; if (c0 & 16) c ^= 0x644d626ffdull; return c; }; uint64_t c = 1; int cls = 0, cc = 0; for (char ch : s) { size_t pos = IC.find(ch); if (pos == std::string::npos) return ""; c = pm(c, pos & 31); cls = cls * 3 + (pos >> 5); if (++cc == 3) { c = pm(c, cls); cls = cc = 0; } } if (cc > 0) c = pm(c, cls); for (int j = 0; j < 8; j++) c = pm(c, 0); c ^= 1; std::string r; for (int j = 0; j < 8; j++) r += ref::BC[(c >> (5 * (7 - j))) & 31]; return r; }
static void descs() { static const std::vector<std::string> D = {"pkh(02c6047f9441ed7d6d3045406e95c07cd85c778e4b8cef3ca7abac09b95c709ee5)", "wpkh([d34db33f/44'/0'/0']xpub6ERApfZwUNrhLCkDtcHTcxd75RbzS1ed54G1LkBUHQVHQKqhMkhgbmJbZRkrgZw4koxb5JaHWkY4ALHY2grBGRjaDMzQLcgJvLJuZZvRcEL/0/*)", "", "a", "ab", "abc", "wsh(multi(1,a,b))"}; std::string s = pick(D); if (s.size() && choose(2)) s[choose(s.size())] = "h#@~"[choose(4)]; std::string w = desc(s); all(C_DESC, "descriptor-checksum", tb(s), 0, w); }
void define_spaces() { mods(); KS(); space("encodings", 1, [] { encodings(); }); space("hashes", 1, [] { hashes(); }); space("damaged-text", 1, [] { badtext(); }); space("keys", 1, [] { keys(); }); space("damaged-keys", 1, [] { badkeys(); }); space("hd", 2, [] { hd(); }); space("paths", 3, [] { paths(); }); space("damaged-paths", 2, [] { badpaths(); }); space("phrases", 2, [] { phrases(); }); space("damaged-phrases", 1, [] { badphrases(); }); space("seeds", 2, [] { seeds(); }); space("transactions", 4, [] { txs(); }); space("slices", 1, [] { slices(); }); space("damaged-tx", 1, [] { damagedtx(); }); space("electrum", 3, [] { electrum(); }); space("psbt", 3, [] { psbts(); }); space("descriptors", 2, [] { descs(); }); }
