// Configuration module: the library's text API as one build configuration of the library offers it, behind a C function.
// Built with the library's sources once per configuration: std::string, no strings at all, Arduino (see arduino/Arduino.h).
#include "conf.h"
#include "Bitcoin.h"
#include "Hash.h"
#include "PSBT.h"
#include "Electrum.h"
#include "Networks.h"
#include <stdlib.h>
#include <string.h>
#if USE_ARDUINO_STRING || USE_STD_STRING
#define STR 1
#if USE_STD_STRING
typedef std::string Str;
#else
typedef String Str;
#endif
#else
#define STR 0
#endif
extern "C" uint32_t random32(void) { static uint32_t s = 1; return s = s * 1664525u + 1013904223u; }
static uint8_t *o_; static size_t cap_;
static size_t put(const void *p, size_t n) { if (n > cap_) n = cap_; memcpy(o_, p, n); return n; }
static size_t puts_(const char *s) { return put(s, strlen(s)); }
#if STR
static size_t puts_(const Str &s) { return put(s.c_str(), s.length()); }
#define TXT(t) Str(t)
#else
#define TXT(t) (t)
#endif
static const Network *net(int a) { const Network *v[] = {&Mainnet, &Testnet, &Regtest, &Signet}; return v[a & 3]; }
#ifdef ARDUINO
struct Sink : Print { std::string s; size_t write(uint8_t b) { s += (char)b; return 1; } };
// printing must give the same text as the string
static bool printed(const Readable &r) { Sink k; size_t n = r.printTo(k); Str w = r.toString(); return k.s == std::string(w.c_str()) && n == k.s.size(); }
#define PRINTED(x) (printed(x))
#else
#define PRINTED(x) true
#endif
static HDPrivateKey hd(const uint8_t *in, size_t n, int arg) { HDPrivateKey k; k.fromSeed(in, n, net(arg)); return k; }
static HDPrivateKey fixed(int arg) { uint8_t s[32]; for (int i = 0; i < 32; i++) s[i] = i * 7 + 1; return hd(s, 32, arg); }
#define SKIP ((size_t)-1)
#if STR
#define PAIR(call_str, call_buf) return puts_(call_str);
#else
#define PAIR(call_str, call_buf) { char b[600] = {0}; call_buf; return puts_(b); }
#endif
extern "C" __attribute__((visibility("default"))) size_t conf_call(int op, const uint8_t *in, size_t n, int arg, uint8_t *out, size_t cap) {
  o_ = out; cap_ = cap; char *t = (char *)malloc(n + 1); memcpy(t, in, n); t[n] = 0; struct F { char *p; ~F() { free(p); } } guard = {t}; uint8_t h[64];
  switch (op) {
#if STR
  case C_HEX: {
#ifdef ARDUINO
    Sink k; size_t l = toHex(in, n, k); Str w = toHex(in, n); if (k.s != w.c_str() || l != k.s.size()) return puts_("print differs"); return puts_(w);
#endif
    return puts_(toHex(in, n)); }
  case C_BIN: {
#ifdef ARDUINO
    Sink k; size_t l = toBin(in, n, k); Str w = toBin(in, n); if (k.s != w.c_str() || l != k.s.size()) return puts_("print differs"); return puts_(w);
#endif
    return puts_(toBin(in, n)); }
  case C_B58: return puts_(toBase58(in, n)); case C_B58C: return puts_(toBase58Check(in, n)); case C_B43: return puts_(toBase43(in, n)); case C_B64: return puts_(toBase64(in, n, arg)); case C_B64HEX: return puts_(base64ToHex(TXT(t), arg)); case C_HEXB64: return puts_(hexToBase64(TXT(t), arg));
  case C_SHA256: { int l = sha256(TXT(t), h); return put(h, l); } case C_RMD: { int l = rmd160(TXT(t), h); return put(h, l); } case C_H160: { int l = hash160(TXT(t), h); return put(h, l); } case C_DSHA: { int l = doubleSha(TXT(t), h); return put(h, l); } case C_SHA512: { int l = sha512(TXT(t), h); return put(h, l); } case C_TAGGED: { int l = tagged_hash(Str("tag"), TXT(t), h); return put(h, l); }
#else
  case C_HEX: { char b[600]; return toHex(in, n, b, sizeof b) ? puts_(b) : 0; } case C_BIN: { char b[2500] = {0}; toBin(in, n, b, sizeof b); return puts_(b); } case C_B58: { char b[600]; return put(b, toBase58(in, n, b, sizeof b)); } case C_B58C: { char b[600]; return put(b, toBase58Check(in, n, b, sizeof b)); } case C_B43: { char b[600] = {0}; toBase43(in, n, b, sizeof b); return puts_(b); } case C_B64: { char b[600] = {0}; toBase64(in, n, b, sizeof b, arg); return puts_(b); } case C_B64HEX: case C_HEXB64: return SKIP;
  case C_SHA256: { int l = sha256(t, n, h); return put(h, l); } case C_RMD: { int l = rmd160(t, n, h); return put(h, l); } case C_H160: { int l = hash160(t, n, h); return put(h, l); } case C_DSHA: { int l = doubleSha(t, n, h); return put(h, l); } case C_SHA512: { int l = sha512((const uint8_t *)t, n, h); return put(h, l); } case C_TAGGED: { int l = tagged_hash("tag", (const uint8_t *)t, n, h); return put(h, l); }
#endif
  case C_UNHEX: return fromHex(TXT(t), out, cap); case C_UNBIN: return fromBin(TXT(t), out, cap); case C_UNB58: return fromBase58(TXT(t), out, cap); case C_UNB58C: return fromBase58Check(TXT(t), out, cap); case C_UNB43: return fromBase43(TXT(t), out, cap); case C_UNB64: return fromBase64(TXT(t), out, cap, arg);
  case C_SEC: { PublicKey p(in); if (!PRINTED(p)) return puts_("print differs"); PAIR(p.sec(), p.serialize(b, sizeof b)) }
  case C_XONLY: { PublicKey p(in); uint8_t x[32]; p.x(x, 32);
#if STR
    return puts_(p.x());
#else
    char b[65] = {0}; toHex(x, 32, b, 65); return puts_(b);
#endif
  }
  case C_LEGACY: { PublicKey p(in); PAIR(p.legacyAddress(net(arg)), p.legacyAddress(b, 100, net(arg))) } case C_SEGWIT: { PublicKey p(in); PAIR(p.segwitAddress(net(arg)), p.segwitAddress(b, 100, net(arg))) } case C_NESTED: { PublicKey p(in); PAIR(p.nestedSegwitAddress(net(arg)), p.nestedSegwitAddress(b, 100, net(arg))) }
  case C_WIF: { PrivateKey k(in, !(arg & 4), net(arg)); if (!PRINTED(k)) return puts_("print differs"); PAIR(k.wif(), k.wif(b, 100)) } case C_FROMWIF: { PrivateKey k{TXT(t)}; if (!k.isValid()) return 0; k.getSecret(h); h[32] = k.publicKey().compressed; return put(h, 33); }
  case C_PADDR: { PrivateKey k(in, true, net(arg));
#if STR
    Str r = k.address(); r += Str(" "); r += k.legacyAddress(); r += Str(" "); r += k.segwitAddress(); r += Str(" "); r += k.nestedSegwitAddress(); return puts_(r);
#else
    char b[400] = {0}; k.address(b, 100); strcat(b, " "); k.legacyAddress(b + strlen(b), 100); strcat(b, " "); k.segwitAddress(b + strlen(b), 100); strcat(b, " "); k.nestedSegwitAddress(b + strlen(b), 100); return puts_(b);
#endif
  }
  case C_XPRV: { HDPrivateKey k = hd(in, n, arg); if (!PRINTED(k)) return puts_("print differs"); PAIR(k.xprv(), k.xprv(b, 120)) } case C_XPUB: { HDPublicKey k = hd(in, n, arg).xpub(); if (!PRINTED(k)) return puts_("print differs"); PAIR(k.xpub(), k.xpub(b, 120)) }
  case C_FROMXPRV: { HDPrivateKey k(t); if (!k.isValid()) return 0; uint8_t b[78]; return put(b, k.serialize(b, 78)); } case C_FROMXPUB: {
#ifdef ARDUINO
    HDPublicKey k{String(t)};
#else
    HDPublicKey k(t);
#endif
    if (!k.isValid()) return 0; uint8_t b[78]; return put(b, k.serialize(b, 78)); }
#ifdef ARDUINO
  case C_DERIVE: { HDPrivateKey k = fixed(arg).derive(String(t)); if (!k.isValid()) return 0; uint8_t b[78]; return put(b, k.serialize(b, 78)); } case C_DERIVEPUB: { HDPublicKey k = fixed(arg).xpub().derive(String(t)); if (!k.isValid()) return 0; uint8_t b[78]; return put(b, k.serialize(b, 78)); }
#else
  case C_DERIVE: { HDPrivateKey k = fixed(arg).derive(t); if (!k.isValid()) return 0; uint8_t b[78]; return put(b, k.serialize(b, 78)); } case C_DERIVEPUB: { HDPublicKey k = fixed(arg).xpub().derive(t); if (!k.isValid()) return 0; uint8_t b[78]; return put(b, k.serialize(b, 78)); }
#endif
#if STR
  case C_FPR: return puts_(hd(in, n, arg).fingerprint()); case C_FPRPUB: return puts_(hd(in, n, arg).xpub().fingerprint()); case C_HDADDR: return puts_(fixed(arg).derive(t).address()); case C_HDADDRPUB: return puts_(fixed(arg).derive(t).xpub().address());
#else
  case C_FPR: { hd(in, n, arg).fingerprint(h); char b[9] = {0}; toHex(h, 4, b, 9); return puts_(b); } case C_FPRPUB: { hd(in, n, arg).xpub().fingerprint(h); char b[9] = {0}; toHex(h, 4, b, 9); return puts_(b); } case C_HDADDR: { char b[100] = {0}; fixed(arg).derive(t).address(b, 100); return puts_(b); } case C_HDADDRPUB: { char b[100] = {0}; fixed(arg).derive(t).xpub().address(b, 100); return puts_(b); }
#endif
  case C_MNEMO: { const char *m = mnemonicFromEntropy(in, n); return m ? puts_(m) : 0; } case C_GEN: { const char *m = arg == 24 ? generateMnemonic(TXT(t)) : generateMnemonic(arg, TXT(t)); return m ? puts_(m) : 0; } case C_CHECK: { uint8_t r = checkMnemonic(TXT(t)); return put(&r, 1); } case C_ENTROPY: return mnemonicToEntropy(TXT(t), out, cap);
  case C_SEED: { char *z = strchr(t, '|'); if (!z) return 0; *z++ = 0;
#if STR
    HDPrivateKey k(TXT(t), TXT(z), net(arg));
#else
    HDPrivateKey k(t, strlen(t), z, strlen(z), net(arg));
#endif
    HDPrivateKey q; q.fromMnemonic(t, z, net(arg)); uint8_t a[78], b[78]; size_t l = k.serialize(a, 78), m = q.serialize(b, 78); if (l != m || memcmp(a, b, l)) return puts_("constructors differ"); return put(a, l); }
  case C_FROMADDR: { Script s{TXT(t)}; return put(s.scriptArray, s.scriptLen); } case C_ADDR: { Script s(in, n); PAIR(s.address(net(arg)), s.address(b, 100, net(arg))) } case C_OUTADDR: { TxOut o(5, t);
#if STR
    return puts_(o.address(net(arg)));
#else
    char b[100] = {0}; o.address(b, 100, net(arg)); return puts_(b);
#endif
  }
#if STR
  case C_TXID: { Tx x; x.parse(TXT(t)); return puts_(x.txid()); } case C_WTXID: { Tx x; x.parse(TXT(t)); return puts_(x.wtxid()); } case C_TXTEXT: { Tx x; x.parse(TXT(t)); if (!PRINTED(x)) return puts_("print differs"); return puts_(x.toString()); } case C_PSBT64: { PSBT p; p.parseBase64(TXT(t)); return puts_(p.toBase64()); } case C_DESC: return puts_(descriptorChecksum(TXT(t)));
  case C_SLICE: { Tx x; x.parse(TXT(t)); return puts_(x.serialize((size_t)(arg & 255), (size_t)(arg >> 8))); } case C_ELECTRUM: { ElectrumTx x; x.parse(TXT(t)); return puts_(x.toString()); }
  case C_PUBTEXT: { PublicKey p(t); return p.isValid() ? puts_(p.toString()) : 0; } case C_SIGTEXT: { Signature s(t); return s.isValid() ? puts_(s.toString()) : 0; } case C_SCHNORRTEXT: { SchnorrSignature s(t); return s.isValid() ? puts_(s.toString()) : 0; }
#else
#define BIG(o) { size_t L = (o).stringLength() + 1; char *b = (char *)calloc(L, 1); (o).toString(b, L); size_t r = puts_(b); free(b); return r; }
  case C_TXID: { Tx x; x.parse(t); x.txid(h); char b[65] = {0}; toHex(h, 32, b, 65); return puts_(b); } case C_WTXID: { Tx x; x.parse(t); x.wtxid(h); char b[65] = {0}; toHex(h, 32, b, 65); return puts_(b); } case C_TXTEXT: { Tx x; x.parse(t); BIG(x) } case C_PSBT64: return SKIP; case C_DESC: { char b[9] = {0}; descriptorChecksum(t, strlen(t), b, 9); return puts_(b); }
  case C_SLICE: { Tx x; x.parse(t); size_t off = arg & 255, l = arg >> 8; if (!l) l = x.length() - off; char *b = (char *)calloc(2 * l + 1, 1); x.serialize(b, 2 * l, off); size_t r = puts_(b); free(b); return r; } case C_ELECTRUM: { ElectrumTx x; x.parse(t); BIG(x) }
  case C_PUBTEXT: { PublicKey p(t); if (!p.isValid()) return 0; BIG(p) } case C_SIGTEXT: { Signature s(t); if (!s.isValid()) return 0; BIG(s) } case C_SCHNORRTEXT: { SchnorrSignature s(t); if (!s.isValid()) return 0; BIG(s) }
#endif
  } return SKIP; }
