// C31: Electrum partial transactions. All shapes / field values / splittings of the encoding (written from Electrum's own
// serializer in electrum.h) are parsed by the real code and compared field by field; malformed ones must not be accepted
// (and must not hang); signing is judged input by input with the reference sighash and ECDSA verification.
#include "electrum.h"
static void judge(ElectrumTx &x, const ETx &e, const std::string &ctx) { ok(x.getStatus() == PARSING_DONE, "status", ctx + " " + stname(x.getStatus())); ok(x.isValid(), "isValid", ctx); RTx t = e_tx(e); eqtx(x.tx, t, "tx", ctx); eq(ser(x), ref::ser_tx(t), "serialize", ctx); eqn(x.length(), ref::ser_tx(t).size(), "length", ctx);
  for (size_t i = 0; i < e.in.size(); i++) { auto &m = x.txInsMeta[i]; HDPublicKey h = m.hd; eq(ser(h), ref::hd_bytes(e.in[i].acct, ref::be(e.in[i].ver, 4), false), "hd", ctx); eqn(m.derivation[0], e.in[i].d[0], "derivation0", ctx); eqn(m.derivation[1], e.in[i].d[1], "derivation1", ctx); if (e.segwit) eqn((long long)m.amount, (long long)e.in[i].amount, "amount", ctx); else ok(m.amount == 0, "legacy-amount", ctx + fmt(" %llu", (unsigned long long)m.amount)); }
  uint64_t a = 0, b = 0; bool known = e.segwit; for (auto &i : e.in) { a += i.amount; if (!i.amount) known = false; } for (auto &o : e.out) b += o.amount; if (e.in.empty()) known = false; if (!e.in.empty()) ok(x.fee() == (known && a >= b ? a - b : 0), "fee", ctx + fmt(" %llu", (unsigned long long)x.fee())); step(); }
static const ref::HD &acct(int w) { return hdp(wallet(w), w ? std::vector<uint32_t>{hard(49), hard(0), hard(0)} : std::vector<uint32_t>{hard(84)}); }
static ETx sample_tx(bool seg, int nin, int nout) { ETx e; e.segwit = seg; e.ver = 2; e.lock = 0x00081234; for (int i = 0; i < nin; i++) e.in.push_back(EIn{rin(i + 1, 0, i, 0xfffffffe - i), acct(i % 2), seg ? (i % 2 ? YPUB : ZPUB) : XPUB, {(uint16_t)(i % 2), (uint16_t)(5 + i)}, seg ? 100000u + i : 0u}); for (int i = 0; i < nout; i++) e.out.push_back(rout(1000 + i, 22 + i)); return e; }
static void shapes() { bool seg = flip(); int ni = choose(9) + 1, no = choose(5); ETx e = sample_tx(seg, ni, no); bytes b = ser_etx(e); int mode = choose(4); std::string ctx = fmt("segwit %d in %d out %d mode %d", seg, ni, no, mode); ElectrumTx x; if (mode == 0) { Exact q(b); eqn(x.parse(q.p, q.n), b.size(), "consumed", ctx); } else if (mode == 1) { std::string h = ref::hex(b); Exact q(h); eqn(x.parse(q.c(), q.n), b.size(), "consumed-hex", ctx); } else if (mode == 2) { bytes c = b; c.push_back(0xaa); c.push_back(0); Exact q(c); eqn(x.parse(q.p, q.n), b.size(), "consumed-trailing", ctx); } else { for (uint8_t c : b) { ok(x.getStatus() != PARSING_DONE || &c == nullptr || x.tx.inputsNumber == 0, "early", ctx); x.parse(&c, 1); } } judge(x, e, ctx); state(b); outcome(seg ? "segwit" : "legacy"); }
static void split() { bool seg = flip(); int ni = choose(3) + 1; if (ni == 3) ni = 7; ETx e = sample_tx(seg, ni, 1); bytes b = ser_etx(e); size_t p = choose(b.size()), w = choose(ni == 7 ? 2 : thorough ? 40 : 4); static const size_t g[] = {0, 1, 17, 90}; size_t q = std::min(b.size(), p + (thorough ? w * 3 : g[w])); std::string ctx = fmt("segwit %d in %d split at %zu,%zu", seg, ni, p, q); ElectrumTx x; size_t n = 0; for (auto pr : {std::make_pair<size_t, size_t>(0, size_t(p)), std::make_pair(p, q), std::make_pair(q, b.size())}) { bytes s = sub(b, pr.first, pr.second - pr.first); if (s.empty()) continue; Exact k(s); n += x.parse(k.p, k.n); if (pr.second < b.size()) ok(x.getStatus() == PARSING_INCOMPLETE, "prefix-status", ctx + stname(x.getStatus())); step(); } eqn(n, b.size(), "consumed", ctx); judge(x, e, ctx); state(ref::fnv(b, p * 1000 + w)); outcome("split"); }
static void fields() { bool seg = flip(); ETx e = sample_tx(seg, 2, 2); int who = choose(2), f = choose(11), pat = choose(3); int w = f == 2 || f == 10 ? 64 : f == 3 || f == 4 ? 16 : f == 7 ? 256 : f == 8 ? 8 : 32; int bit = choose(w); uint64_t v = pat == 0 ? 1ull << (bit % 64) : pat == 1 ? ~(1ull << (bit % 64)) : 0x0101010101010101ull * (bit + 1); EIn &i = e.in[who];
  switch (f) { case 0: e.ver = v; break; case 1: e.lock = v; break; case 2: i.amount = seg ? v : 0; break; case 3: i.d[0] = v; break; case 4: i.d[1] = v; break; case 5: i.in.idx = v; break; case 6: i.in.seq = v; break; case 7: i.acct.cc[bit / 8] ^= 1 << (bit % 8); break; case 8: i.acct.depth = v ? v : 1; if (!i.acct.depth) i.acct.depth = 3; break; case 9: i.acct.num = v; break; case 10: e.out[who].amount = v; break; }
  std::string ctx = fmt("segwit %d input %d field %d pattern %d bit %d", seg, who, f, pat, bit); bytes b = ser_etx(e); ElectrumTx x; Exact q(b); x.parse(q.p, q.n); judge(x, e, ctx); state(b); outcome("field"); }
static void scripts() { ETx e = sample_tx(true, 2, 1); int who = choose(2); size_t n = choose(130); e.in[who].in.sig = repeat(n, 4); size_t m = choose(3) * 120; e.out[0].spk = repeat(m, 3); bytes b = ser_etx(e); ElectrumTx x; Exact q(b); x.parse(q.p, q.n); judge(x, e, fmt("segwit scriptSig %zu spk %zu", n, m)); state(b); outcome("scripts"); }
static void again(ElectrumTx &x, const std::string &ctx) { for (int k = 0; k < 2; k++) { ETx e = sample_tx(k, 1 + k, 1); bytes b = ser_etx(e); static_cast<Streamable &>(x).reset(); Exact q(b); x.parse(q.p, q.n); judge(x, e, ctx + " then again"); } }
static void reject() { int k = choose(7); bool seg = flip(); ETx e = sample_tx(seg, 2, 1); bytes b = ser_etx(e); std::string ctx; bool must = true; size_t hd0 = seg ? 0 : 6 + 4 + 1 + 36 + 1 + 5;
  if (seg) { RTx t = e_tx(e); hd0 = 6 + ref::ser_tx(t, true).size() - 4 - 2 + 20; /* two empty witness counts are not there */ }
  switch (k) {
  case 0: { int i = choose(6); uint8_t v = choose(256); if (b[i] == v) { outcome("same"); return; } b[i] = v; ctx = fmt("prefix byte %d = %02x", i, v); break; }
  case 1: { size_t n = 1 + choose(b.size() - 1); b.resize(n); ctx = fmt("segwit %d truncated to %zu", seg, n); break; }
  case 2: { int who = choose(2), i = choose(4); uint8_t v = choose(256); size_t p = hd0 + (seg ? who * (20 + 78 + 4) : who * (36 + 1 + 87 + 4)) + i; if (b[p] == v) { outcome("same"); return; } bytes s = b; b[p] = v; uint32_t nv = 0; for (int z = 0; z < 4; z++) nv = nv << 8 | b[p - i + z]; bool okv = false; for (auto &ns : netspecs()) for (uint32_t q : ns.pub) if (q == nv) okv = true; if (okv) { outcome("other-version"); return; } ctx = fmt("segwit %d key version byte %d of input %d = %02x", seg, i, who, v); break; }
  case 3: { int who = choose(2); uint8_t v = choose(256); size_t p = hd0 + (seg ? who * (20 + 78 + 4) : who * (36 + 1 + 87 + 4)) + 45; if (v == 2 || v == 3) { outcome("same"); return; } b[p] = v; ctx = fmt("segwit %d point prefix of input %d = %02x", seg, who, v); break; }
  case 4: { int who = choose(2), i = choose(256); size_t p = hd0 + (seg ? who * (20 + 78 + 4) : who * (36 + 1 + 87 + 4)) + 46; b[p + i / 8] ^= 1 << (i % 8); ref::Pt o; bool good = ref::lift(ref::fromB(sub(b, p, 32)), false, o); must = !good; ctx = fmt("segwit %d x bit %d of input %d", seg, i, who); break; }
  case 5: { if (seg) { outcome("skip"); return; } size_t n = choose(130); int who = choose(2); if (n == 87) { outcome("same"); return; } b = {0x45, 0x50, 0x54, 0x46, 0xff, 0x00}; RTx t = e_tx(e); for (auto &i : e.in) { bytes s{0x01, 0xff, 0x4c, 0x53, 0xff}; ref::app(s, e_key(i)); t.in[&i - &e.in[0]].sig = s; } t.in[who].sig.resize(n, 0x21); ref::app(b, ref::ser_tx(t, false)); ctx = fmt("scriptSig of %zu bytes in input %d", n, who); break; }
  case 6: { if (!seg) { outcome("skip"); return; } b[6 + 4 + 1] = 2 + choose(5); ctx = "segwit flag"; break; } }
  bool pieces = flip(); ElectrumTx x; if (!pieces) { Exact q(b); x.parse(q.p, q.n); } else for (size_t p = 0; p < b.size(); p += 13) { if (p && x.getStatus() == PARSING_DONE) break; Exact q(sub(b, p, 13)); x.parse(q.p, q.n); } step(); if (must) ok(x.getStatus() != PARSING_DONE, "malformed-accepted", ctx); { ElectrumTx c(x), d; d = x; } again(x, ctx); state(b); outcome(must ? "rejected" : "valid-point"); }
static void sign() { bool seg = flip(); int ni = choose(3) + 1; ETx e = sample_tx(seg, ni, 2); int kind = choose(2); std::vector<int> own; for (int i = 0; i < ni; i++) { own.push_back(choose(3)); e.in[i].acct = own[i] == 2 ? hdp(wallet(2), {hard(9)}) : acct(own[i]); e.in[i].ver = seg ? (kind ? YPUB : ZPUB) : (kind ? TPUB : XPUB); e.in[i].amount = seg ? 5000 + i * 0x100000001ull : 0; e.in[i].d[0] = choose(2); static const uint16_t D[] = {0, 0x8000, 0xffff}; e.in[i].d[1] = D[choose(ni > 1 ? 2 : 3)]; }
  std::string ctx = fmt("segwit %d kind %d in %d own", seg, kind, ni); for (int o : own) ctx += fmt(" %d", o); bytes b = ser_etx(e); ElectrumTx x; x.parse(b.data(), b.size()); judge(x, e, ctx); RTx t = e_tx(e); std::vector<bool> done(ni, false);
  for (int round = 0; round < 2; round++) { int w = round; int want = 0; for (int i = 0; i < ni; i++) if (own[i] == w) { want++; done[i] = true; } int n = x.sign(lhd(acct(w))); eqn(n, want, "sign-count", ctx + fmt(" round %d", round)); step();
    for (int i = 0; i < ni; i++) { const TxIn &in = x.tx.txIns[i]; if (!done[i]) { eqn(in.scriptSig.scriptLen, t.in[i].sig.size(), "foreign-signed", ctx); eqn(in.witness.count(), 0, "foreign-witness", ctx); continue; } const ref::HD &k = hdp(own[i] == 2 ? wallet(2) : wallet(own[i]), own[i] ? std::vector<uint32_t>{hard(49), hard(0), hard(0), e.in[i].d[0], e.in[i].d[1]} : std::vector<uint32_t>{hard(84), e.in[i].d[0], e.in[i].d[1]}); bytes pk = ref::sec(k.K), code = ref::p2pkh(ref::hash160(pk)), ss = scriptbytes(in.scriptSig), sg;
      if (!seg) { size_t p = 0; sg = take_push(ss, p); eq(take_push(ss, p), pk, "scriptSig-key", ctx); eqn(p, ss.size(), "scriptSig-length", ctx); eqn(in.witness.count(), 0, "legacy-witness", ctx); } else { bytes ws = ser(in.witness); Rd r{ws, 0}; eqn(r.vi(), 2, "witness-count", ctx); sg = r.take(r.vi()); eq(r.take(r.vi()), pk, "witness-key", ctx); eq(ss, kind ? rpush(ref::p2wpkh(ref::hash160(pk))) : bytes(), "segwit-scriptSig", ctx); }
      ok(!sg.empty() && sg.back() == 1, "sighash-byte", ctx); sg.pop_back(); bytes dg = seg ? ref::sighash_segwit(t, i, code, e.in[i].amount, 1) : ref::sighash_legacy(t, i, code, 1); std::string pr = badsig(sg, k.k, dg); ok(pr.empty(), "bad-signature", ctx + fmt(" input %d: ", i) + pr); step(); }
    for (size_t i = 0; i < t.in.size(); i++) { eqn(x.tx.txIns[i].outputIndex, t.in[i].idx, "signed-index", ctx); eqn(x.tx.txIns[i].sequence, t.in[i].seq, "signed-seq", ctx); } for (size_t i = 0; i < t.out.size(); i++) eq(ser(x.tx.txOuts[i]), ref::ser_out(t.out[i]), "signed-output", ctx); eqn(x.tx.locktime, t.lock, "signed-lock", ctx); eqn(x.tx.version, t.ver, "signed-ver", ctx); } state(ref::fnv(ctx, ref::fnv(b))); outcome("signed"); }
static void many() { bool seg = flip(); static const int N[] = {6, 17, 64, 129, 200, 252}; int n = N[choose(6)]; int P[] = {0, 1, n / 2, n - 2, n - 1, std::min(n - 1, 127), std::min(n - 1, 128)}; int p = P[choose(7)], no = choose(2) ? n : 1; ETx e = sample_tx(seg, n, no); for (int i = 0; i < n; i++) { e.in[i].acct = i == p ? acct(0) : acct(1); e.in[i].ver = seg ? ZPUB : XPUB; e.in[i].d[0] = 0; e.in[i].d[1] = 3; } std::string ctx = fmt("segwit %d own input %d of %d, %d outputs", seg, p, n, no); bytes b = ser_etx(e); ElectrumTx x; Exact q(b); eqn(x.parse(q.p, q.n), b.size(), "consumed", ctx); judge(x, e, ctx); eqn(x.sign(lhd(acct(0))), 1, "sign-count", ctx); for (int i = 0; i < n; i++) { bool has = seg ? x.tx.txIns[i].witness.count() > 0 : x.tx.txIns[i].scriptSig.scriptLen > 0 && x.tx.txIns[i].scriptSig.scriptArray[0] > 60; ok(has == (i == p), has ? "foreign-signed" : "own-not-signed", ctx + fmt(" input %d", i)); } state(b); step(); outcome("many"); }
void define_spaces() { hang_s = 30; space("many", 3, many); space("shapes", 3, shapes); space("split", 3, split); space("fields", 3, fields); space("scripts", 2, scripts); space("reject", 3, reject); space("sign", 5, sign); }
