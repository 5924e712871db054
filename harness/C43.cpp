// C43: results do not depend on what was computed before. A catalogue of calls into every part of the library, in families
// whose inputs differ in one component only, so that anything kept from an earlier call and used for a later one shows.
// The result of every call alone in a fresh process is the oracle; then for every call `a` one fresh process runs
// a b a c a d ... over all calls of the same part of the library (thorough: over all calls), every ordered pair of calls in
// direct succession, and for every two parts one process runs all calls of one, of the other and of the first again; every
// result must be the same as alone.
#include "electrum.h"
#include "Hash.h"
#include "Conversion.h"
#include "OpCodes.h"
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>
using ref::U; using ref::Pt; using ref::HD;
struct Call { std::string name; std::function<bytes()> f; int fam; };
static int fam = 0;
static std::vector<Call> calls; static std::vector<bytes> expected;
static void add(const std::string &n, std::function<bytes()> f) { calls.push_back({n, f, fam}); }
static bytes tb(const std::string &s) { return ref::B(s); }
static bytes obj(const Streamable &s) { return ser(s); }
static bytes one(bool b) { return {(uint8_t)b}; }
// ---- inputs
static HD keyvar(int v) { HD h = ref::hd_seed(repeat(32, 7)); h.depth = 2; h.pfp = bytes{1, 2, 3, 4}; h.num = 9; if (v == 1) { h.k = U(77); h.K = ref::mulG(U(77)); } if (v == 2) h.cc = repeat(32, 9); if (v == 3) h.depth = 0; if (v == 4) h.pfp[3]++; if (v == 5) h.num++; if (v == 6) { h.k = ref::negm(h.k, ref::N()); h.K = ref::neg(h.K); } return h; }
static HDPrivateKey hdk(int v) { HD h = keyvar(v); bytes k = ref::toB(h.k); return HDPrivateKey(k.data(), h.cc.data(), h.depth, h.pfp.data(), h.num, v == 7 ? &Testnet : &Mainnet, v == 8 ? P2PKH : P2WPKH); }
static HDPublicKey hdq(int v) { HD h = keyvar(v); bytes k = pt64(h.K); return HDPublicKey(k.data(), h.cc.data(), h.depth, h.pfp.data(), h.num, v == 7 ? &Testnet : &Mainnet, v == 8 ? P2PKH : P2WPKH); }
static bytes hd1(const HDPrivateKey &k) { bytes r = obj(k); uint8_t n = 0; for (; n < networks_len; n++) if (networks[n] == k.network) break; r.push_back(n); r.push_back(k.type); ref::app(r, pointof(k.publicKey())); return r; }
static bytes hd2(const HDPublicKey &k) { bytes r = obj(k); uint8_t n = 0; for (; n < networks_len; n++) if (networks[n] == k.network) break; r.push_back(n); r.push_back(k.type); return r; }
static bytes msg(int i) { bytes b = ref::sha256({5}); if (i == 1) b[31] ^= 1; if (i == 2) b[0] ^= 1; return b; }
static PrivateKey prv(int i) { bytes s = ref::toB(i & 1 ? U(78) : U(77)); return PrivateKey(s.data(), !(i & 2), i & 4 ? &Testnet : &Mainnet); }
static PublicKey pub(int i) { Pt p = ref::mulG(i & 1 ? U(78) : U(77)); if (i & 4) p = ref::neg(p); bytes s = ref::sec(p, !(i & 2)); return PublicKey(s.data()); }
static RTx txvar(int v) { RTx t; t.ver = 2; t.lock = 100; for (int i = 0; i < 2; i++) { RIn in = rin(i + 1, 0, i, 0xfffffffd); t.in.push_back(in); t.out.push_back(rout(i, 3 + i)); } if (v == 1) t.ver = 1; if (v == 2) t.lock = 101; if (v == 3) t.in[1].seq--; if (v == 4) t.in[1].idx++; if (v == 5) t.in[1].hash[31] ^= 1; if (v == 6) t.out[1].amount++; if (v == 7) t.out[1].spk.back() ^= 1; if (v == 8) std::swap(t.in[0], t.in[1]); if (v == 9) t.out.pop_back(); if (v == 10) t.in.pop_back(); return t; }
static RPsbt psbtvar(int v) { const HD &w = wallet(0); HD k = hdp(w, {1, 7}), c = hdp(w, {1, 8}), k2 = hdp(w, {1, 9}); RPsbt p; p.tx.ver = 2; p.tx.in = {rin(1, 0, 0, 1), rin(2, 0, 1, 1)}; p.tx.out = {rout(1, 2), ROut{700, ref::p2wpkh(ref::hash160(ref::sec(c.K)))}}; uint64_t amt = v == 1 ? 5001 : 5000; const HD &own = v == 2 ? k2 : k; p.in = {{{bytes{1}, ref::ser_out(ROut{amt, ref::p2wpkh(ref::hash160(ref::sec(own.K)))})}, kv_deriv(6, ref::sec(own.K), v == 3 ? bytes{9, 9, 9, 9} : hd_fp(w), v == 2 ? std::vector<uint32_t>{1, 9} : std::vector<uint32_t>{1, 7})}, {{bytes{1}, ref::ser_out(ROut{9000, repeat(22, 3)})}}}; p.out = {{}, {kv_deriv(2, ref::sec(c.K), v == 4 ? bytes{9, 9, 9, 9} : hd_fp(w), {1, 8})}}; if (v == 5) p.tx.out[0].amount++; if (v == 6) p.tx.lock = 7; if (v == 7) p.in[1].clear(); return p; }
static ETx etx(int v) { ETx e; e.segwit = v & 1; e.ver = 2; e.lock = v == 2 ? 5 : 4; for (int i = 0; i < 2; i++) { EIn in; in.in = rin(i + 1, 0, i, 1); in.acct = hdp(wallet(0), {(uint32_t)(v == 4 ? 6 : 5)}); in.ver = e.segwit ? ZPUB : XPUB; in.d[0] = 0; in.d[1] = v == 6 ? i + 1 : i; in.amount = e.segwit ? 100 + (v == 3) : 0; e.in.push_back(in); } e.out = {rout(1, 1)}; return e; }
static void build() {
  fam++; for (int v = 0; v < 9; v++) { std::string n = fmt(" of HD key %d", v); add("fingerprint" + n, [=] { uint8_t f[4]; hdk(v).fingerprint(f); return bytes(f, f + 4); }); add("child 5" + n, [=] { return hd1(hdk(v).child(5)); }); add("child 5h" + n, [=] { return hd1(hdk(v).hardenedChild(5)); }); add("path" + n, [=] { return hd1(hdk(v).derive("m/1h/2")); }); add("xprv" + n, [=] { return tb(hdk(v).xprv()); }); add("xpub" + n, [=] { return hd2(hdk(v).xpub()); }); add("address" + n, [=] { return tb(hdk(v).address()); });
    add("public fingerprint" + n, [=] { uint8_t f[4]; hdq(v).fingerprint(f); return bytes(f, f + 4); }); add("public child 5" + n, [=] { return hd2(hdq(v).child(5)); }); add("public path" + n, [=] { return hd2(hdq(v).derive("m/1/2")); }); add("public text" + n, [=] { return tb(hdq(v).xpub()); }); add("public address" + n, [=] { return tb(hdq(v).address()); }); std::string x = ref::b58c(ref::hd_bytes(keyvar(v), ref::be(0x0488ade4, 4), true)), y = ref::b58c(ref::hd_bytes(keyvar(v), ref::be(0x0488b21e, 4), false)); add("from xprv" + n, [=] { return hd1(HDPrivateKey(x.c_str())); }); add("from xpub" + n, [=] { return hd2(HDPublicKey(y.c_str())); }); }
  add("child 6 of HD key 0", [] { return hd1(hdk(0).child(6)); }); add("public child 6 of HD key 0", [] { return hd2(hdq(0).child(6)); }); add("path 2 of HD key 0", [] { return hd1(hdk(0).derive("m/1h/3")); });
  fam++; for (int i = 0; i < 8; i++) { std::string n = fmt(" of key %d", i); add("wif" + n, [=] { return tb(prv(i).wif()); }); add("addresses" + n, [=] { PrivateKey k = prv(i); return tb(k.legacyAddress() + " " + k.segwitAddress() + " " + k.nestedSegwitAddress()); }); add("public point" + n, [=] { return obj(prv(i).publicKey()); }); std::string w = ref::b58c(ref::cat(ref::cat({(uint8_t)(i & 4 ? 0xef : 0x80)}, ref::toB(i & 1 ? U(78) : U(77))), i & 2 ? bytes() : bytes{1})); add("from wif" + n, [=] { PrivateKey k(w); return ref::cat(secretof(k), tb(k.legacyAddress())); }); if (i < 4) for (int m = 0; m < 3; m++) { add("sign" + n + fmt(" message %d", m), [=] { Signature s = prv(i).sign(msg(m).data()); bytes b(65); s.bin(b.data(), 65); return b; }); if (i < 2) add("schnorr sign" + n + fmt(" message %d", m), [=] { return obj(prv(i).schnorr_sign(msg(m).data())); }); } }
  fam++; for (int i = 0; i < 2; i++) for (int j = 0; j < 8; j++) for (int h = 0; h < 2; h++) add(fmt("ecdh %d %d %d", i, j, h), [=] { uint8_t o[32]; int r = prv(i).ecdh(pub(j), o, h); return ref::cat(bytes(o, o + 32), one(r)); });
  fam++; for (int k = 0; k < 2; k++) { U d = k ? U(78) : U(77); ref::Sig s = ref::ecdsa_sign(d, msg(0)); for (int v = 0; v < 6; v++) { bytes r = ref::toB(s.r), q = ref::toB(s.s); if (v == 4) r[31] ^= 1; if (v == 5) q[31] ^= 1; int key = v == 3 ? 4 + k : v == 2 ? 1 - k : k, m = v == 1; add(fmt("verify by key %d, message %d, signature of key %d form %d", key, m, k, v), [=] { return one(pub(key).verify(Signature(r.data(), q.data()), msg(m).data())); }); } }
  fam++; for (int k = 0; k < 2; k++) { PrivateKey *none = nullptr; (void)none; for (int v = 0; v < 6; v++) add(fmt("schnorr verify %d %d", k, v), [=] { SchnorrSignature g = prv(k).schnorr_sign(msg(0).data()); bytes b = obj(g); if (v == 4) b[31] ^= 1; if (v == 5) b[63] ^= 1; int key = v == 3 ? 4 + k : v == 2 ? 1 - k : k; return one(pub(key).schnorr_verify(SchnorrSignature(b.data()), msg(v == 1).data())); }); }
  fam++; { static const std::vector<std::pair<std::string, std::string>> Q = {{"legal winner", "aab"}, {"legal winner", "aac"}, {"legal winnes", "aab"}, {"legal winner", ""}}; for (auto &q : Q) { std::string m = q.first, p = q.second; add("root of " + m + "/" + p, [=] { HDPrivateKey k; k.fromMnemonic(m, p); return hd1(k); }); } for (int v = 0; v < 4; v++) add(fmt("seed %d", v), [=] { bytes s = repeat(v == 1 ? 31 : 32, 4); if (v == 2) s[31] ^= 1; HDPrivateKey k; k.fromSeed(s.data(), s.size(), v == 3 ? &Testnet : &Mainnet); return hd1(k); });
    for (int v = 0; v < 4; v++) { bytes e = repeat(v == 1 ? 32 : 16, 4); if (v == 2) e[15] ^= 1; if (v == 3) e[0] ^= 1; add(fmt("sentence %d", v), [=] { return tb(mnemonicFromEntropy(e.data(), e.size())); }); add(fmt("generated sentence %d", v), [=] { return tb(generateMnemonic(v == 1 ? 24 : 12, e.data(), e.size())); }); } static const std::string A11 = "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon "; for (const char *l : {"about", "above", "abandon", "zoo", "aboutx"}) { std::string s = A11 + l; add("check " + s, [=] { return one(checkMnemonic(s)); }); add("entropy " + s, [=] { bytes o(40); o.resize(mnemonicToEntropy(s, o.data(), 40)); return o; }); } }
  fam++; for (int ty = 0; ty < 4; ty++) for (int v = 0; v < 4; v++) { bytes h = repeat(20, 4); if (v == 1) h[19] ^= 1; if (v == 2) h[0] ^= 1; auto &n = netspecs()[v == 3]; bytes s = ty == 0 ? ref::p2pkh(h) : ty == 1 ? ref::p2sh(h) : ty == 2 ? ref::p2wpkh(h) : ref::p2wsh(ref::cat(h, repeat(12, 1))); std::string a = ty == 0 ? ref::b58c(ref::cat({n.p2pkh}, h)) : ty == 1 ? ref::b58c(ref::cat({n.p2sh}, h)) : ref::segwit_addr(n.hrp, 0, ty == 2 ? h : ref::cat(h, repeat(12, 1))); const Network *net = n.net; std::string id = fmt(" type %d form %d", ty, v); add("address" + id, [=] { return tb(mkscript(s).address(net)); }); add("script" + id, [=] { Script t(a); return obj(t); }); std::string bad = a; bad[bad.size() - 2] = bad[bad.size() - 2] == 'q' ? 'p' : 'q'; add("damaged address" + id, [=] { Script t(bad); return obj(t); }); }
  fam++; for (int v = 0; v < 4; v++) { bytes d = repeat(v == 1 ? 24 : 25, 4); if (v == 2) d[24] ^= 1; if (v == 3) d[0] = 0; std::string id = fmt(" %d", v), h = ref::hex(d), b = ref::b58(d), c = ref::b58c(d), q = ref::b64(d), z = ref::radix_enc(d, ref::A43), x = c; x[5] = x[5] == '2' ? '3' : '2'; add("to text" + id, [=] { return tb(toHex(d.data(), d.size()) + " " + toBase58(d.data(), d.size()) + " " + toBase58Check(d.data(), d.size()) + " " + toBase64(d.data(), d.size()) + " " + toBase43(d.data(), d.size())); }); auto dec = [](std::function<size_t(uint8_t *, size_t)> f) { bytes o(80); o.resize(f(o.data(), 80)); return o; }; add("from hex" + id, [=] { return dec([&](uint8_t *p, size_t n) { return fromHex(h, p, n); }); }); add("from base58" + id, [=] { return dec([&](uint8_t *p, size_t n) { return fromBase58(b, p, n); }); }); add("from base58check" + id, [=] { return dec([&](uint8_t *p, size_t n) { return fromBase58Check(c, p, n); }); }); add("damaged base58check" + id, [=] { return dec([&](uint8_t *p, size_t n) { return fromBase58Check(x, p, n); }); }); add("from base64" + id, [=] { return dec([&](uint8_t *p, size_t n) { return fromBase64(q, p, n); }); }); add("from base43" + id, [=] { return dec([&](uint8_t *p, size_t n) { return fromBase43(z, p, n); }); });
    add("hashes" + id, [=] { bytes r(32 + 20 + 20 + 32 + 64); sha256(d.data(), d.size(), &r[0]); rmd160(d.data(), d.size(), &r[32]); hash160(d.data(), d.size(), &r[52]); doubleSha(d.data(), d.size(), &r[72]); sha512(d.data(), d.size(), &r[104]); return r; }); add("hmac" + id, [=] { bytes r(96), k = repeat(20, 2); sha256Hmac(k.data(), 20, d.data(), d.size(), &r[0]); sha512Hmac(k.data(), 20, d.data(), d.size(), &r[32]); return r; }); add("hmac key" + id, [=] { bytes r(96), k = repeat(20, 2); sha256Hmac(d.data(), d.size(), k.data(), 20, &r[0]); sha512Hmac(d.data(), d.size(), k.data(), 20, &r[32]); return r; }); add("tagged" + id, [=] { bytes r(32); static char tag[8]; strcpy(tag, v == 1 ? "Tag/a" : "Tag/b"); tagged_hash(tag, d.data(), d.size(), r.data()); return r; }); }
  fam++; for (const char *s : {"raw(deadbeef)", "raw(deadbeee)", "saw(deadbeef)", "raw(deadbeefff)", "raw(\x01)"}) { std::string t = s; add("checksum of " + t, [=] { return tb(descriptorChecksum(t)); }); }
  fam++; for (int v = 0; v < 11; v++) { RTx t = txvar(v); bytes e = ref::ser_tx(t); std::string id = fmt(" of transaction %d", v); add("id" + id, [=] { Tx x; x.parse(e.data(), e.size()); return tb(x.txid()); }); for (int ty = 1; ty <= 3; ty++) { if (v && ty == 2) continue; add(fmt("segwit digest %d", ty) + id, [=] { Tx x; x.parse(e.data(), e.size()); bytes h(32); x.sigHashSegwit(h.data(), 0, mkscript(ref::p2pkh(repeat(20, 1))), 5000, (SigHashType)ty); return h; }); add(fmt("digest %d", ty) + id, [=] { Tx x; x.parse(e.data(), e.size()); bytes h(32); x.sigHash(h.data(), 0, mkscript(ref::p2pkh(repeat(20, 1))), (SigHashType)ty); return h; }); } if (v % 3 == 0) { add("segwit signed" + id, [=] { Tx x; x.parse(e.data(), e.size()); x.signSegwitInput(0, prv(0), 5000); return obj(x); }); add("signed" + id, [=] { Tx x; x.parse(e.data(), e.size()); x.signInput(0, prv(0)); return obj(x); }); } }
  { bytes e = ref::ser_tx(txvar(0)); for (int v = 1; v < 4; v++) add(fmt("segwit digest with other input, script or amount %d", v), [=] { Tx x; x.parse(e.data(), e.size()); bytes h(32); x.sigHashSegwit(h.data(), v == 1, mkscript(ref::p2pkh(repeat(20, v == 2 ? 2 : 1))), v == 3 ? 5001 : 5000); return h; }); for (int v = 1; v < 3; v++) add(fmt("digest with other input or script %d", v), [=] { Tx x; x.parse(e.data(), e.size()); bytes h(32); x.sigHash(h.data(), v == 1, mkscript(ref::p2pkh(repeat(20, v == 2 ? 2 : 1)))); return h; }); }
  fam++; for (int v = 0; v < 8; v++) { bytes e = ser_psbt(psbtvar(v)); std::string id = fmt(" PSBT %d", v); add("fee" + id, [=] { PSBT p; p.parse(e.data(), e.size()); return ref::le(p.fee(), 8); }); add("text" + id, [=] { PSBT p; p.parse(e.data(), e.size()); return tb(p.toBase64()); }); add("change" + id, [=] { PSBT p; p.parse(e.data(), e.size()); return bytes{p.isMine(0, lhd(wallet(0))), p.isMine(1, lhd(wallet(0))), p.isMine(1, lhd(wallet(1)))}; }); for (int w = 0; w < (v ? 1 : 2); w++) add(fmt("signed by wallet %d", w) + id, [=] { PSBT p; p.parse(e.data(), e.size()); int n = p.sign(lhd(wallet(w))); return ref::cat({(uint8_t)n}, obj(p)); }); }
  fam++; for (int v = 0; v < 7; v++) { bytes e = ser_etx(etx(v)); add(fmt("Electrum transaction %d", v), [=] { ElectrumTx x; x.parse(e.data(), e.size()); return ref::cat(ref::le(x.fee(), 8), obj(x.tx)); }); if (v < 5) add(fmt("signed Electrum transaction %d", v), [=] { ElectrumTx x; x.parse(e.data(), e.size()); int n = x.sign(lhd(hdp(wallet(0), {5}))); return ref::cat({(uint8_t)n}, obj(x.tx)); }); }
  fam++; for (int v = 0; v < 4; v++) add(fmt("multisig %d", v), [=] { PublicKey k[3] = {pub(0), pub(v == 1 ? 5 : 1), pub(v == 2 ? 2 : 4)}; Script s = multi(v == 3 ? 1 : 2, k, 3), t = sortedmulti(v == 3 ? 1 : 2, k, 3); return ref::cat(obj(s), ref::cat(obj(t), obj(wsh(t)))); });
  fam++; for (int v = 0; v < 6; v++) add(fmt("arithmetic %d", v), [=] { ECScalar a((uint32_t)(v == 1 ? 8 : 7)), b((uint32_t)(v == 2 ? 10 : 9)); PublicKey p = pub(v == 3 ? 1 : v == 4 ? 4 : v == 5 ? 2 : 0); bytes r = secretof(a * b); ref::app(r, secretof(a / b)); ref::app(r, secretof(a - b)); ref::app(r, pointof(a * p)); ref::app(r, pointof(p + b * p)); ref::app(r, pointof(-p)); return r; });
  fam++; for (int v = 0; v < 5; v++) { bytes s = ref::sec(ref::mulG(U(77)), v != 4); if (v == 1) s[0] ^= 1; if (v == 2) s[32] ^= 7; if (v == 3) s[0] = 5; add(fmt("public key from %d", v), [=] { PublicKey p; p.parse(s.data(), s.size()); return ref::cat(pointof(p), one(p.isValid())); }); }
}
// ---- processes
static std::string child(std::function<std::string()> f) { int fd[2]; if (pipe(fd)) abort(); fflush(stdout); fflush(stderr); pid_t p = fork(); if (p == 0) { close(fd[0]); std::string s = "#" + f(); size_t o = 0; while (o < s.size()) { ssize_t w = write(fd[1], s.data() + o, s.size() - o); if (w <= 0) break; o += w; } _exit(0); } close(fd[1]); std::string r; char b[4096]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) r.append(b, n); close(fd[0]); int st; waitpid(p, &st, 0); if (r.empty()) return "process died"; return r; }
static std::string guarded(int i, bytes &out) { try { out = calls[i].f(); return ""; } catch (...) { return "exception in " + calls[i].name; } }
static void prepare() { build(); expected.resize(calls.size()); int W = 8; std::vector<int> fds; std::vector<pid_t> ps; for (int w = 0; w < W; w++) { int fd[2]; if (pipe(fd)) abort(); pid_t p = fork(); if (!p) { close(fd[0]); for (size_t i = w; i < calls.size(); i += W) { std::string r = child([&] { bytes o; std::string e = guarded(i, o); return e.empty() ? S2(o) : "?" + e; }); uint32_t l = r.size(); r = std::string((char *)&l, 4) + r; if (write(fd[1], r.data(), r.size()) != (ssize_t)r.size()) _exit(1); } _exit(0); } close(fd[1]); fds.push_back(fd[0]); ps.push_back(p); }
  for (int w = 0; w < W; w++) { std::string all; char b[65536]; ssize_t n; while ((n = read(fds[w], b, sizeof b)) > 0) all.append(b, n); close(fds[w]); int st; waitpid(ps[w], &st, 0); size_t o = 0; for (size_t i = w; i < calls.size(); i += W) { uint32_t l = 0; if (o + 4 > all.size()) { expected[i] = tb("process died"); continue; } memcpy(&l, &all[o], 4); std::string r = all.substr(o + 4, l); o += 4 + l; expected[i] = r.size() && r[0] == '#' ? tb(r.substr(1)) : tb(r); } } }
static std::string judge1(int i, const char *after, const std::string &prev) { bytes o; std::string e = guarded(i, o); if (!e.empty()) return e; if (o != expected[i]) return calls[i].name + after + prev + ": got " + cutstr(ref::hex(o), 400) + " want " + cutstr(ref::hex(expected[i]), 400); return ""; }
static void pairs() { size_t a = choose(calls.size()); std::string r = child([&] { std::string e = judge1(a, "", " alone"); if (!e.empty()) return e; for (size_t b = 0; b < calls.size(); b++) { if (!thorough && calls[b].fam != calls[a].fam) continue; e = judge1(b, " after ", calls[a].name); if (!e.empty()) return e; e = judge1(a, " after ", calls[b].name); if (!e.empty()) return e; } return std::string(); }); if (r != "#") ok(false, "depends-on-history", r.size() > 1 ? r.substr(r[0] == '#') : r); else ok(true, "depends-on-history", ""); state(ref::fnv(calls[a].name)); for (size_t b = 0; b < calls.size(); b++) if (thorough || calls[b].fam == calls[a].fam) { step(2); state(ref::fnv(calls[a].name + "/" + calls[b].name)); } outcome("pairs"); }
// every part of the library after every other part: all calls of one family, then all of another, then the first again
static void parts() { int f = 1 + choose(fam), g = 1 + choose(fam); std::string r = child([&] { for (int x : {f, g, f}) for (size_t b = 0; b < calls.size(); b++) if (calls[b].fam == x) { std::string e = judge1(b, " after ", x == g ? "the calls of part " + std::to_string(f) : "the calls of part " + std::to_string(g)); if (!e.empty()) return e; } return std::string(); }); if (r != "#") ok(false, "depends-on-history", r.substr(r[0] == '#')); step(3 * calls.size() / fam); state(ref::fnv(fmt("parts %d %d", f, g))); }
// thorough: every ordered pair in a process of its own
static void isolated() { size_t a = choose(calls.size()), b = choose(calls.size()); std::string r = child([&] { std::string e = judge1(a, "", " alone"); if (!e.empty()) return e; e = judge1(b, " after ", calls[a].name); if (!e.empty()) return e; return judge1(a, " after ", calls[b].name); }); if (r != "#") ok(false, "depends-on-history", r.substr(r[0] == '#')); step(3); state(ref::fnv(calls[a].name, b)); outcome("isolated"); }
void define_spaces() { hang_s = 300; prepare(); space("pairs", 1, pairs); space("parts", 2, parts); if (thorough) space("isolated-pairs", 2, isolated); }
