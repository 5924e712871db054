// Registry of the parseable/serializable types behind one interface, with well-formed encodings per type.
#pragma once
#include <set>
#include "catalog.h"
struct IObj { virtual ~IObj() {} virtual size_t feed(const uint8_t *p, size_t n, bool hex) = 0; virtual parse_status st() = 0; virtual bytes obs() = 0; virtual IObj *fresh() = 0; virtual IObj *clone() = 0; virtual void assign(IObj *) = 0; virtual void reset() = 0;
  virtual size_t length() = 0; virtual size_t slen() = 0; virtual size_t out(uint8_t *p, size_t n, size_t off, bool hex) = 0; virtual std::string outs(size_t off, size_t n) = 0; virtual std::string str() = 0; virtual size_t strbuf(char *p, size_t n) = 0; virtual Streamable *base() = 0; };
template <class T> bytes observe(T &o) { return ser(o); }
template <> inline bytes observe(PrivateKey &o) { return ref::cat(ser(o), secof(o.publicKey())); }
template <> inline bytes observe(HDPrivateKey &o) { bytes b = ref::cat(ser(o), secof(o.publicKey())); b.push_back((uint8_t)o.type); b.push_back(o.network == &Mainnet); return b; }
template <> inline bytes observe(HDPublicKey &o) { bytes b = ref::cat(ser(o), pointof(o)); b.push_back((uint8_t)o.type); b.push_back(o.network == &Mainnet); return b; }
template <> inline bytes observe(PublicKey &o) { bytes b = ref::cat(ser(o), pointof(o)); b.push_back(o.compressed); return b; }
template <> inline bytes observe(Tx &o) { bytes b = ser(o); for (size_t i = 0; i < o.inputsNumber; i++) ref::app(b, ser(o.txIns[i].witness)); b.push_back(o.isSegwit()); return b; }
inline void obs_der(bytes &b, const PSBTDerivation *d, size_t n) { b.push_back(n); for (size_t j = 0; j < n; j++) { ref::app(b, secof(d[j].pubkey)); ref::app(b, bytes(d[j].fingerprint, d[j].fingerprint + 4)); b.push_back(d[j].derivationLen); for (size_t k = 0; k < d[j].derivationLen; k++) ref::app(b, ref::le(d[j].derivation[k], 4)); } }
template <> inline bytes observe(PSBT &o) {
  bytes b = ser(o); for (size_t i = 0; i < o.tx.inputsNumber; i++) { auto &m = o.txInsMeta[i]; ref::app(b, ser(m.txOut)); ref::app(b, ser(m.redeemScript)); ref::app(b, ser(m.witnessScript)); obs_der(b, m.derivations, m.derivationsLen); b.push_back(m.signaturesLen); for (size_t j = 0; j < m.signaturesLen; j++) { ref::app(b, secof(m.signatures[j].pubkey)); ref::app(b, derof(m.signatures[j].signature)); } }
  for (size_t i = 0; i < o.tx.outputsNumber; i++) { auto &m = o.txOutsMeta[i]; ref::app(b, ser(m.redeemScript)); ref::app(b, ser(m.witnessScript)); obs_der(b, m.derivations, m.derivationsLen); }
  return b;
}
template <class T> struct O : IObj { T o; Streamable *base() override { return &o; } size_t feed(const uint8_t *p, size_t n, bool hx) override { step(); return hx ? o.parse((const char *)p, n) : o.parse(p, n); } parse_status st() override { return o.getStatus(); } bytes obs() override { return observe(o); } IObj *fresh() override { return new O<T>(); }
  IObj *clone() override { step(); auto *n = new O<T>(*this); return n; } void assign(IObj *x) override { step(); o = static_cast<O<T> *>(x)->o; } void reset() override { step(); static_cast<Streamable &>(o).reset(); }
  size_t length() override { return o.length(); } size_t slen() override { return o.stringLength(); }
  size_t out(uint8_t *p, size_t n, size_t off, bool hx) override { step(); return hx ? o.Streamable::serialize((char *)p, n, off) : o.Streamable::serialize(p, n, off); } std::string outs(size_t off, size_t n) override { step(); return o.Streamable::serialize(off, n); } std::string str() override { step(); return static_cast<Readable &>(o).toString(); } size_t strbuf(char *p, size_t n) override { step(); return static_cast<Readable &>(o).toString(p, n); } };
template <class T> IObj *mk() { return new O<T>(); }
inline std::map<std::string, IObj *(*)()> reg = {{"Script", mk<Script>}, {"Witness", mk<Witness>}, {"TxIn", mk<TxIn>}, {"TxOut", mk<TxOut>}, {"Tx", mk<Tx>}, {"PSBT", mk<PSBT>}, {"PublicKey", mk<PublicKey>}, {"PrivateKey", mk<PrivateKey>}, {"ECScalar", mk<ECScalar>}, {"Signature", mk<Signature>}, {"SchnorrSignature", mk<SchnorrSignature>}, {"HDPrivateKey", mk<HDPrivateKey>}, {"HDPublicKey", mk<HDPublicKey>}};
inline std::map<std::string, std::vector<bytes>> cat_;
inline void build_objects() {
  auto &c = cat_;
  for (size_t n : {0, 1, 2, 5, 76}) c["Script"].push_back(ref::varbytes(repeat(n, 3)));
  for (size_t n : {252, 253, 256}) c["Script"].push_back(ref::varbytes(repeat(n, 3)));
  c["Witness"] = {ref::ser_wit({}), ref::ser_wit({bytes()}), ref::ser_wit({repeat(3, 1)}), ref::ser_wit({repeat(1, 1), bytes(), repeat(2, 9), bytes()}), ref::ser_wit({repeat(72, 1), repeat(33, 2)}), ref::ser_wit({repeat(253, 1), repeat(2, 2)})};
  c["TxIn"] = {ref::ser_in(rin(1, 0, 0, 0xffffffff)), ref::ser_in(rin(2, 4, 0x81828384, 0x01020384)), ref::ser_in(rin(3, 107, 1, 0xfffffffd)), ref::ser_in(rin(3, 253, 1, 0xfffffffd))};
  c["TxOut"] = {ref::ser_out(rout(0, 0)), ref::ser_out(rout(0xf1f2f3f4f5f6f7f8ULL, 25)), ref::ser_out(rout(7, 253))};
  for (auto &t : tx_catalog(true)) c["Tx"].push_back(ref::ser_tx(t));
  for (int i = 0; i < NKEYS; i++) { c["PublicKey"].push_back(ref::sec(ref::mulG(key_u(i)), true)); if (i < 3) c["PublicKey"].push_back(ref::sec(ref::mulG(key_u(i)), false)); c["PrivateKey"].push_back(key_b(i)); c["ECScalar"].push_back(key_b(i)); }
  std::vector<ref::U> rs = {ref::U(1), ref::U(0x7f), ref::U(0x80), ref::fromH("00ff00000000000000000000000000000000000000000000000000000000000001"), ref::fromH("7f00000000000000000000000000000000000000000000000000000000000002"), ref::fromH("8000000000000000000000000000000000000000000000000000000000000003")};
  for (auto &r : rs) for (auto &s : rs) c["Signature"].push_back(ref::der(r, s));
  for (int i = 0; i < 2; i++) c["SchnorrSignature"].push_back(ref::cat(repeat(32, i + 1), repeat(32, i + 40)));
  ref::HD m = ref::hd_seed(repeat(32, 5)); ref::HD d = ref::hd_child(ref::hd_child(m, 0x80000054u), 0xFFFFFF);
  for (const Network *n : {&Mainnet, &Testnet}) { auto v = [&](const uint8_t *p) { return bytes(p, p + 4); };
    c["HDPrivateKey"].push_back(ref::hd_bytes(m, v(n->xprv), true)); c["HDPrivateKey"].push_back(ref::hd_bytes(d, v(n->zprv), true)); c["HDPrivateKey"].push_back(ref::hd_bytes(d, v(n->yprv), true));
    c["HDPublicKey"].push_back(ref::hd_bytes(m, v(n->xpub), false)); c["HDPublicKey"].push_back(ref::hd_bytes(d, v(n->zpub), false)); c["HDPublicKey"].push_back(ref::hd_bytes(d, v(n->Ypub), false)); }
  // PSBTs
  bytes s0 = ref::sec(ref::mulG(key_u(0))), s1 = ref::sec(ref::mulG(key_u(1))), fp{1, 2, 3, 4};
  RPsbt p; p.tx.ver = 2; p.tx.in = {rin(1, 0, 0, 0xfffffffd)}; p.tx.out = {rout(1000, 22)}; p.in = {{}}; p.out = {{}}; c["PSBT"].push_back(ser_psbt(p));
  p.in = {{{bytes{1}, ref::ser_out(rout(5000, 22))}, kv_deriv(6, s0, fp, {0x80000054u, 1})}}; p.out = {{kv_deriv(2, s1, fp, {7})}}; c["PSBT"].push_back(ser_psbt(p));
  RTx prev; prev.in = {rin(4, 1, 0, 0)}; prev.out = {rout(777, 25), rout(888, 23)};
  p = RPsbt(); p.tx.in = {rin(1, 0, 0, 1), rin(2, 0, 1, 2)}; p.tx.in[1].hash = ref::dsha(ref::ser_tx(prev, false)); p.tx.out = {rout(100, 25), rout(200, 34)};
  p.in = {{{bytes{1}, ref::ser_out(rout(5000, 34))}, {bytes{5}, repeat(37, 2)}, {bytes{3}, ref::le(1, 4)}, kv_sig(s0, ref::der(ref::U(0x80), ref::U(0x7f)))}, {{bytes{0}, ref::ser_tx(prev)}, {bytes{4}, repeat(22, 7)}, kv_deriv(6, s1, fp, {})}};
  p.out = {{{bytes{0}, repeat(5, 1)}}, {{bytes{1}, repeat(6, 2)}, kv_deriv(2, s0, fp, {1, 2, 3, 0x80000001u})}}; p.glob = {{bytes{0x0f, 1}, repeat(3, 4)}}; c["PSBT"].push_back(ser_psbt(p));
}

// encodings longer than 65535 bytes, and the positions at which they are cut or entered
inline const std::map<std::string, std::vector<bytes>> &big_objects() { static std::map<std::string, std::vector<bytes>> c; if (!c.empty()) return c;
  c["Script"] = {ref::varbytes(repeat(65535, 3)), ref::varbytes(repeat(65536, 4)), ref::varbytes(repeat(70001, 5))}; c["Witness"] = {ref::ser_wit({repeat(65536, 1), repeat(3, 2)}), ref::ser_wit({repeat(5, 1), repeat(65535, 2), bytes(), repeat(66000, 3)}), ref::ser_wit(std::vector<bytes>(252, repeat(270, 7)))}; c["TxIn"] = {ref::ser_in(rin(2, 65536, 7, 9)), ref::ser_in(rin(3, 70000, 1, 0xfffffffd))}; c["TxOut"] = {ref::ser_out(rout(5, 65535)), ref::ser_out(rout(7, 70000))};
  RTx t; t.ver = 2; t.lock = 9; t.in = {rin(1, 65536, 3, 4), rin(2, 3, 1, 1, {repeat(66000, 4), repeat(2, 2)})}; t.out = {rout(1, 22), rout(3, 65537)}; c["Tx"].push_back(ref::ser_tx(t)); t.in = {rin(9, 2, 3, 4)}; t.out = {rout(4, 65480), rout(3, 25)}; c["Tx"].push_back(ref::ser_tx(t));
  RPsbt p; p.tx.ver = 2; p.tx.in = {rin(1, 0, 0, 1)}; p.tx.out = {rout(1, 22)}; p.tx.in[0].hash = ref::dsha(ref::ser_tx(t, false)); p.in = {{{bytes{0}, ref::ser_tx(t)}, {bytes{4}, repeat(22, 7)}, kv_sig(ref::sec(ref::mulG(key_u(0))), ref::der(ref::U(0x80), ref::U(0x7f)))}}; p.out = {{{bytes{1}, repeat(66000, 2)}}}; c["PSBT"].push_back(ser_psbt(p)); return c; }
inline std::vector<size_t> big_positions(size_t L) { std::set<size_t> v; auto run = [&](size_t a, size_t b) { for (size_t i = a; i < b; i++) if (i <= L) v.insert(i); }; run(0, 14); run(34, 50); run(250, 262); run(4094, 4098); run(32766, 32770); run(65470, 65500); run(65526, 65560); run(65572, 65592); run(65600, 65630); run(131070, 131076); run(L - 12, L + 1); return {v.begin(), v.end()}; }
