// Glue between the library under test (public API only) and the reference model.
#pragma once
#include "mc.h"
#include "Bitcoin.h"
#include "Hash.h"
#include "PSBT.h"
#include "Electrum.h"
#include "Networks.h"
#include "OpCodes.h"
#include <memory>
using ref::bytes;
using namespace mc;
using mc::fail;

// Deterministic replacement of the platform random source (library declares it weak).
namespace rng { inline uint32_t st = 1; inline uint64_t calls = 0; }
extern "C" uint32_t random32(void) { rng::calls++; rng::st = rng::st * 1664525u + 1013904223u; return rng::st ^ (rng::st >> 13); }
inline void rng_seed(uint32_t s) { rng::st = s * 2654435761u + 12345; }

inline bytes ser(const Streamable &s) { size_t n = s.length(); bytes b(n + 1, 0xEE); size_t w = s.serialize(b.data(), n); if (w > n) fail("serialize-returns-more-than-length", fmt("%zu > %zu", w, n)); b.resize(w); return b; }
inline bytes repeat(size_t n, uint8_t seed = 0) { bytes b(n); for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(seed + i * 37 + (i >> 8) * 11); return b; }
inline bytes sub(const bytes &b, size_t o, size_t n) { if (o > b.size()) o = b.size(); n = std::min(n, b.size() - o); return bytes(b.begin() + o, b.begin() + o + n); }
inline std::string S2(const bytes &b) { return std::string(b.begin(), b.end()); }

inline Script mkscript(const bytes &b) { return b.empty() ? Script() : Script(b.data(), b.size()); }
inline bytes scriptbytes(const Script &s) { return bytes(s.scriptArray, s.scriptArray + s.scriptLen); }
inline Tx mktx(const ref::RTx &t) {
  Tx x; x.version = t.ver; x.locktime = t.lock;
  for (auto &i : t.in) { bytes id = ref::rev(i.hash); TxIn in(id.data(), i.idx, mkscript(i.sig), i.seq); for (auto &e : i.wit) in.witness.push(e.data(), e.size()); x.addInput(in); }
  for (auto &o : t.out) x.addOutput(TxOut(o.amount, mkscript(o.spk)));
  return x;
}
// Field-by-field comparison of a library transaction with the model
inline void eqtx(const Tx &x, const ref::RTx &t, const std::string &key, const std::string &ctx) {
  eqn(x.version, t.ver, key + ".version", ctx); eqn(x.locktime, t.lock, key + ".locktime", ctx);
  eqn(x.inputsNumber, t.in.size(), key + ".inputs", ctx); eqn(x.outputsNumber, t.out.size(), key + ".outputs", ctx);
  for (size_t i = 0; i < t.in.size(); i++) {
    eq(bytes(x.txIns[i].hash, x.txIns[i].hash + 32), t.in[i].hash, key + ".prevhash", ctx); eqn(x.txIns[i].outputIndex, t.in[i].idx, key + ".previndex", ctx);
    eq(scriptbytes(x.txIns[i].scriptSig), t.in[i].sig, key + ".scriptSig", ctx); eqn(x.txIns[i].sequence, t.in[i].seq, key + ".sequence", ctx);
    eq(ser(x.txIns[i].witness), ref::ser_wit(t.in[i].wit), key + ".witness", ctx); eqn(x.txIns[i].isSegwit(), !t.in[i].wit.empty(), key + ".isSegwit", ctx);
  }
  for (size_t i = 0; i < t.out.size(); i++) { eqn((long long)x.txOuts[i].amount, (long long)t.out[i].amount, key + ".amount", ctx); eq(scriptbytes(x.txOuts[i].scriptPubkey), t.out[i].spk, key + ".scriptPubkey", ctx); }
}
inline const char *stname(parse_status s) { return s == PARSING_DONE ? "done" : s == PARSING_INCOMPLETE ? "incomplete" : s == PARSING_FAILED ? "failed" : "?"; }
inline bytes secretof(const ECScalar &k) { uint8_t b[32]; k.getSecret(b); return bytes(b, b + 32); }
inline bytes pointof(const ECPoint &p) { return bytes(p.point, p.point + 64); }
inline bytes pt64(const ref::Pt &p) { return p.inf ? bytes(64, 0) : ref::cat(ref::toB(p.x), ref::toB(p.y)); }
inline bytes secof(const ECPoint &p) { uint8_t b[65]; size_t l = p.sec(b, sizeof b); return bytes(b, b + l); }
inline bytes derof(const Signature &s) { uint8_t b[80]; size_t l = s.der(b, sizeof b); return bytes(b, b + l); }
inline bytes binof(const Signature &s) { uint8_t b[64]; s.bin(b, 64); return bytes(b, b + 64); }
inline std::vector<const Network *> nets() { return {&Mainnet, &Testnet, &Regtest, &Signet}; }
inline const char *netname(const Network *n) { return n == &Mainnet ? "main" : n == &Testnet ? "test" : n == &Regtest ? "regtest" : n == &Signet ? "signet" : "?"; }
// heap buffer of exactly n bytes, so that the sanitizer sees any access outside it
struct Exact { uint8_t *base, *p; size_t n; Exact(size_t k, uint8_t fillb = 0xC3) : base((uint8_t *)malloc(k ? k : 1)), p(k ? base : base + 1), n(k) { if (k) memset(p, fillb, k); } Exact(const bytes &b) : Exact(b.size()) { if (n) memcpy(p, b.data(), n); } Exact(const std::string &b) : Exact(bytes(b.begin(), b.end())) {} ~Exact() { free(base); } Exact(const Exact &) = delete; char *c() { return (char *)p; } bytes b() const { return bytes(p, p + n); } };
// Network constants, written down independently of the library (base58 prefixes, bech32 prefix, SLIP-132 key versions)
struct NetSpec { const Network *net; const char *name; uint8_t p2pkh, p2sh, wif; const char *hrp; uint32_t prv[5], pub[5]; }; // versions: x, y, z, Y, Z
inline const std::vector<NetSpec> &netspecs() { static const std::vector<NetSpec> v = {
  {&Mainnet, "main", 0x00, 0x05, 0x80, "bc", {0x0488ade4, 0x049d7878, 0x04b2430c, 0x0295b005, 0x02aa7a99}, {0x0488b21e, 0x049d7cb2, 0x04b24746, 0x0295b43f, 0x02aa7ed3}},
  {&Testnet, "test", 0x6f, 0xc4, 0xef, "tb", {0x04358394, 0x044a4e28, 0x045f18bc, 0x024285b5, 0x02575048}, {0x043587cf, 0x044a5262, 0x045f1cf6, 0x024289ef, 0x02575483}},
  {&Regtest, "regtest", 0x6f, 0xc4, 0xef, "bcrt", {0x04358394, 0x044a4e28, 0x045f18bc, 0x024285b5, 0x02575048}, {0x043587cf, 0x044a5262, 0x045f1cf6, 0x024289ef, 0x02575483}},
  {&Signet, "signet", 0x6f, 0xc4, 0xef, "tb", {0x04358394, 0x044a4e28, 0x045f18bc, 0x024285b5, 0x02575048}, {0x043587cf, 0x044a5262, 0x045f1cf6, 0x024289ef, 0x02575483}}}; return v; }
