// Building blocks for PSBT checks: wallets, spent outputs and their descriptions, partial-signature judge.
#pragma once
#include "spend.h"
using ref::HD;
inline bytes hd_fp(const HD &h) { bytes f = ref::hash160(ref::sec(h.K)); f.resize(4); return f; }
inline const HD &wallet(int i) { static std::map<int, HD> m; auto it = m.find(i); if (it == m.end()) it = m.emplace(i, ref::hd_seed(repeat(16 + 8 * i, 11 + 50 * i))).first; return it->second; }
inline const HD &hdp(const HD &h, const std::vector<uint32_t> &path) { static std::map<std::pair<bytes, std::vector<uint32_t>>, HD> m; auto k = std::make_pair(h.cc, path); auto it = m.find(k); if (it != m.end()) return it->second; HD r = h; for (uint32_t x : path) r = ref::hd_child(r, x); return m.emplace(k, r).first->second; }
inline HDPrivateKey lhd(const HD &h, const Network *n = &Mainnet) { bytes k = ref::toB(h.k); return HDPrivateKey(k.data(), h.cc.data(), h.depth, h.pfp.data(), h.num, n); }
inline HDPublicKey lhdpub(const HD &h, const Network *n = &Mainnet) { bytes k = pt64(h.K); return HDPublicKey(k.data(), h.cc.data(), h.depth, h.pfp.data(), h.num, n); }
enum { H_ = (int)0x80000000u };
inline uint32_t hard(uint32_t x) { return x | 0x80000000u; }
// script kinds of an output owned by one key (or a 2-key script with a second key)
enum SK { S_PKH, S_WPKH, S_SHWPKH, S_WSH, S_SHWSH, S_SH, S_BARE, S_SHPKH, S_WSHPKH, S_SHPK, S_SHWSHPKH, NSK };
inline const char *skname(int k) { static const char *n[] = {"pkh", "wpkh", "sh-wpkh", "wsh", "sh-wsh", "sh", "bare", "sh-pkh", "wsh-pkh", "sh-pk", "sh-wsh-pkh"}; return n[k]; }
inline bytes multi2(const bytes &a, const bytes &b, int m = 1) { bytes r{(uint8_t)(0x50 + m)}; ref::app(r, rpush(a)); ref::app(r, rpush(b)); ref::app(r, {0x52, 0xae}); return r; }
struct OutDesc { int kind; bytes spk, redeem, witness; };
inline OutDesc describe(int kind, const bytes &pk, const bytes &other) { OutDesc d; d.kind = kind; bytes h = ref::hash160(pk), ms = multi2(pk, other);
  switch (kind) { case S_PKH: d.spk = ref::p2pkh(h); break; case S_WPKH: d.spk = ref::p2wpkh(h); break; case S_SHWPKH: d.redeem = ref::p2wpkh(h); d.spk = ref::p2sh(ref::hash160(d.redeem)); break;
    case S_WSH: d.witness = ms; d.spk = ref::p2wsh(ref::sha256(ms)); break; case S_SHWSH: d.witness = ms; d.redeem = ref::p2wsh(ref::sha256(ms)); d.spk = ref::p2sh(ref::hash160(d.redeem)); break;
    case S_SHPKH: d.redeem = ref::p2pkh(h); d.spk = ref::p2sh(ref::hash160(d.redeem)); break; case S_SHPK: d.redeem = ref::cat(rpush(pk), {0xac}); d.spk = ref::p2sh(ref::hash160(d.redeem)); break; case S_WSHPKH: d.witness = ref::p2pkh(h); d.spk = ref::p2wsh(ref::sha256(d.witness)); break; case S_SHWSHPKH: d.witness = ref::p2pkh(h); d.redeem = ref::p2wsh(ref::sha256(d.witness)); d.spk = ref::p2sh(ref::hash160(d.redeem)); break;
    case S_SH: d.redeem = ms; d.spk = ref::p2sh(ref::hash160(ms)); break; default: d.spk = ref::cat(rpush(pk), {0xac}); }
  return d; }
inline bytes desc_digest(const OutDesc &d, const RTx &t, size_t n, uint64_t amount, const bytes &pk) { switch (d.kind) { case S_WPKH: case S_SHWPKH: return ref::sighash_segwit(t, n, ref::p2pkh(ref::hash160(pk)), amount); case S_WSH: case S_SHWSH: case S_WSHPKH: case S_SHWSHPKH: return ref::sighash_segwit(t, n, d.witness, amount); case S_SH: case S_SHPKH: case S_SHPK: return ref::sighash_legacy(t, n, d.redeem); default: return ref::sighash_legacy(t, n, d.spk); } }
// previous transaction whose output `idx` is (amount, spk)
inline RTx prevtx(uint8_t seed, uint32_t idx, uint64_t amount, const bytes &spk, bool wit = false) { RTx p; p.ver = 2; p.in = {rin(seed, 2, seed, 3)}; if (wit) p.in[0].wit = {repeat(4, seed)}; for (uint32_t i = 0; i <= idx; i++) p.out.push_back(rout(3 + i, 5 + i)); p.out[idx] = ROut{amount, spk}; p.out.push_back(rout(9, 2)); return p; }
inline std::string badsig(const bytes &der, const ref::U &k, const bytes &digest) { static std::map<bytes, bool> memo; bytes key = ref::cat(ref::cat(der, digest), ref::toB(k)); auto it = memo.find(key); if (it != memo.end()) return it->second ? "" : "invalid"; if (memo.size() > 100000) memo.clear();
  ref::Sig g = ref::ecdsa_sign(k, digest); if (der == ref::der(g.r, g.s)) { memo[key] = true; return ""; } ref::U r, s; if (!rder(der, r, s)) return "not strict DER"; if (!ref::half_or_less(s)) return "high s"; if (!ref::ecdsa_verify(ref::mulG(k), digest, r, s)) return "does not verify over the digest of the spent output"; memo[key] = true; return ""; }
