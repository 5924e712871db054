// Judge of spends: does scriptSig/witness of input n validly spend an output of the given kind with the given key?
#pragma once
#include "catalog.h"
enum Kind { K_PKH, K_PKH_U, K_SH, K_WPKH, K_SH_WPKH, K_WSH, K_SH_WSH, NKIND };
inline const char *kname(int k) { static const char *n[] = {"p2pkh", "p2pkh-uncompressed", "p2sh", "p2wpkh", "p2sh-p2wpkh", "p2wsh", "p2sh-p2wsh"}; return n[k]; }
// canonical script push of data
inline bytes rpush(const bytes &d) { bytes r; if (d.size() < 76) r = {(uint8_t)d.size()}; else if (d.size() < 256) r = {76, (uint8_t)d.size()}; else r = {77, (uint8_t)d.size(), (uint8_t)(d.size() >> 8)}; ref::app(r, d); return r; }
inline bytes rpub(int key, bool comp = true) { return ref::sec(ref::mulG(key_u(key)), comp); }
// strict DER -> r,s
inline bool rder(const bytes &d, ref::U &r, ref::U &s) { if (d.size() < 8 || d.size() > 72 || d[0] != 0x30 || d[1] != d.size() - 2) return false; size_t p = 2; for (int k = 0; k < 2; k++) { if (p + 2 > d.size() || d[p] != 2) return false; size_t n = d[p + 1]; p += 2; if (n == 0 || p + n > d.size() || n > 33 || (n == 33 && d[p]) || (d[p] & 0x80) || (n > 1 && d[p] == 0 && !(d[p + 1] & 0x80))) return false; bytes v(d.begin() + p, d.begin() + p + n); (k ? s : r) = ref::fromB(v); p += n; } return p == d.size(); }
inline const bytes &expected_der(int key, const bytes &digest) { static std::map<std::pair<int, bytes>, bytes> m; auto k = std::make_pair(key, digest); auto it = m.find(k); if (it != m.end()) return it->second; if (m.size() > 50000) m.clear(); ref::Sig g = ref::ecdsa_sign(key_u(key), digest); return m[k] = ref::der(g.r, g.s); }
// validity of sig (DER + type byte) for key over digest with the requested type
inline std::string sigproblem(const bytes &sg, int key, const bytes &digest, uint8_t type) {
  if (sg.empty()) return "empty signature"; if (sg.back() != type) return fmt("type byte %d, requested %d", sg.back(), type); bytes d(sg.begin(), sg.end() - 1); if (d == expected_der(key, digest)) return "";
  ref::U r, s; if (!rder(d, r, s)) return "not strict DER: " + ref::hex(d); if (!ref::half_or_less(s)) return "high s"; if (!ref::ecdsa_verify(ref::mulG(key_u(key)), digest, r, s)) return "signature does not verify over the consensus digest"; return ""; }
struct Spend { int kind, key; uint64_t amount; bytes redeem; uint8_t type; };
inline bytes codeof(const Spend &s) { bytes pk = rpub(s.key, s.kind != K_PKH_U); switch (s.kind) { case K_PKH: case K_PKH_U: case K_WPKH: case K_SH_WPKH: return ref::p2pkh(ref::hash160(pk)); default: return s.redeem; } }
inline bytes digestof(const RTx &t, size_t n, const Spend &s) { return s.kind <= K_SH ? ref::sighash_legacy(t, n, codeof(s), s.type) : ref::sighash_segwit(t, n, codeof(s), s.amount, s.type); }
inline bytes take_push(const bytes &b, size_t &p) { if (p >= b.size()) fail("scriptsig-format", "truncated"); size_t n = b[p++]; if (n == 76) { n = b.at(p++); } else if (n == 77) { n = b.at(p) | b.at(p + 1) << 8; p += 2; } else if (n > 77) fail("scriptsig-format", "not a push"); if (p + n > b.size()) fail("scriptsig-format", "push too long"); bytes r = sub(b, p, n); p += n; return r; }
// checks one signed input of library tx x; t = unsigned model
inline void judge_spend(const Tx &x, const RTx &t, size_t n, const Spend &s, const std::string &ctx) {
  bytes pk = rpub(s.key, s.kind != K_PKH_U), dg = digestof(t, n, s), ss = scriptbytes(x.txIns[n].scriptSig); bytes w = ser(x.txIns[n].witness); std::vector<bytes> wit; { Rd r{w, 0}; size_t c = r.vi(); for (size_t i = 0; i < c; i++) wit.push_back(r.take(r.vi())); ok(r.p == w.size(), "witness-format", ctx); }
  bytes sg;
  if (s.kind <= K_SH) { size_t p = 0; sg = take_push(ss, p); bytes want = ref::cat(rpush(sg), rpush(pk)); if (s.kind == K_SH) ref::app(want, rpush(s.redeem)); eq(ss, want, "scriptsig", ctx); ok(wit.empty(), "witness-on-legacy", ctx); }
  else { bytes wantss = s.kind == K_SH_WPKH ? rpush(ref::p2wpkh(ref::hash160(pk))) : s.kind == K_SH_WSH ? rpush(ref::p2wsh(ref::sha256(s.redeem))) : bytes(); eq(ss, wantss, "scriptsig", ctx);
    bool sh = s.kind == K_WSH || s.kind == K_SH_WSH; eqn(wit.size(), sh ? 3 : 2, "witness-count", ctx); sg = wit[0]; eq(wit[1], pk, "witness-pubkey", ctx); if (sh) eq(wit[2], s.redeem, "witness-script", ctx); }
  std::string pr = sigproblem(sg, s.key, dg, s.type); ok(pr.empty(), "invalid-spend", ctx + ": " + pr); step();
}
