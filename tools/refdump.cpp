// Prints values computed by the reference model; tools/setup.py recomputes them independently.
#include "../harness/ref.h"
#include "../harness/sha3ref.h"
#include <cstdio>
using namespace ref;
static bytes pat(size_t n, int s) { bytes b(n); for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(s + i * 37 + (i >> 8) * 11); return b; }
static void o(const char *n, const std::string &a, const std::string &r) { printf("%s %s %s\n", n, a.empty() ? "-" : a.c_str(), r.empty() ? "-" : r.c_str()); }
int main() {
  for (size_t n = 0; n < 300; n++) { bytes m = pat(n, 3); std::string a = hex(m); o("sha256", a, hex(sha256(m))); o("sha512", a, hex(sha512(m))); o("rmd160", a, hex(rmd160(m))); for (int b : {224, 256, 384, 512}) o("sha3", std::to_string(b) + ":" + (a.empty() ? "-" : a), hex(sha3(m, b, 6))); o("b58", a, b58(m)); o("b64", a, b64(m)); }
  for (size_t n = 0; n < 200; n += 3) { bytes k = pat(n, 9), m = pat(77, 1); o("hmac256", hex(k), hex(hmac256(k, m))); o("hmac512", hex(k), hex(hmac512(k, m))); }
  for (size_t n = 0; n < 140; n += 20) o("pbkdf2", hex(pat(n, 65)), hex(pbkdf2_512(pat(n, 65), B("mnemonicabc"), 64)));
  o("tagged", hex(pat(9, 9)), hex(tagged("BIP0340/challenge", pat(9, 9))));
  std::vector<U> ks; for (int i = 1; i < 12; i++) ks.push_back(U(i)); for (int i = 0; i < 30; i++) ks.push_back(modm(fromB(sha256(pat(i, 5))), N())); for (int i = 1; i < 6; i++) { U t; subb(t, N(), U(i)); ks.push_back(t); } ks.push_back(fromH("7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a0")); ks.push_back(fromH("7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a1"));
  for (auto &k : ks) { o("mulG", hex(toB(k)), hex(sec(mulG(k), false))); o("inv", hex(toB(k)), hex(toB(invm(k, N())))); }
  for (size_t i = 0; i + 1 < ks.size(); i++) { std::string a = hex(toB(ks[i])) + ":" + hex(toB(ks[i + 1])); o("addm", a, hex(toB(addm(ks[i], ks[i + 1], N())))); o("subm", a, hex(toB(subm(ks[i], ks[i + 1], N())))); o("mulm", a, hex(toB(mulm(ks[i], ks[i + 1], N())))); Pt s = add(mulG(ks[i]), mulG(ks[i + 1])); o("padd", a, s.inf ? "inf" : hex(sec(s))); s = mul(ks[i], mulG(ks[i + 1])); o("pmul", a, hex(sec(s)));
    bytes h = sha256(pat(i, 77)); if (i % 5 == 0) h = bytes(32, i % 10 ? 0xff : 0); Sig g = ecdsa_sign(ks[i], h); o("ecdsa", hex(toB(ks[i])) + ":" + hex(h), hex(toB(g.r)) + hex(toB(g.s)) + ":" + hex(der(g.r, g.s)) + ":" + (ecdsa_verify(mulG(ks[i]), h, g.r, g.s) ? "1" : "0") + (ecdsa_verify(mulG(ks[i + 1]), h, g.r, g.s) ? "1" : "0")); }
  for (int i = 0; i < 60; i++) { Pt q; bool r = lift(U(i), i & 1, q); o("lift", std::to_string(i), r ? hex(sec(q, false)) : "no"); }
  // BIP340 official vectors: pk msg sig expected
  static const char *v[][4] = {{"F9308A019258C31049344F85F89D5229B531C845836F99B08601F113BCE036F9", "0000000000000000000000000000000000000000000000000000000000000000", "E907831F80848D1069A5371B402410364BDF1C5F8307B0084C55F1CE2DCA821525F66A4A85EA8B71E482A74F382D2CE5EBEEE8FDB2172F477DF4900D310536C0", "1"}, {"DFF1D77F2A671C5F36183726DB2341BE58FEAE1DA2DECED843240F7B502BA659", "243F6A8885A308D313198A2E03707344A4093822299F31D0082EFA98EC4E6C89", "6896BD60EEAE296DB48A229FF71DFE071BDE413E6D43F917DC8DCF8C78DE33418906D11AC976ABCCB20B091292BFF4EA897EFCB639EA871CFA95F6DE339E4B0A", "1"}, {"DFF1D77F2A671C5F36183726DB2341BE58FEAE1DA2DECED843240F7B502BA659", "243F6A8885A308D313198A2E03707344A4093822299F31D0082EFA98EC4E6C89", "FFF97BD5755EEEA420453A14355235D382F6472F8568A18B2F057A14602975563CC27944640AC607CD107AE10923D9EF7A73C643E166BE5EBEAFA34B1AC553E2", "0"}, {"EEFDEA4CDB677750A420FEE807EACF21EB9898AE79B9768766E4FAA04A2D4A34", "243F6A8885A308D313198A2E03707344A4093822299F31D0082EFA98EC4E6C89", "6CFF5C3BA86C69EA4B7376F31A9BCB4F74C1976089B2D9963DA2E5543E17776969E89B4C5564D00349106B8497785DD7D1D713A8AE82B32FA79D5F7FC407D39B", "0"}};
  for (auto &x : v) { auto b = [](const char *s) { std::string t(s); for (auto &c : t) c = tolower(c); return unhex(t); }; bytes s = b(x[2]); o("bip340", x[3], schnorr_verify(fromB(b(x[0])), b(x[1]), fromB(bytes(s.begin(), s.begin() + 32)), fromB(bytes(s.begin() + 32, s.end()))) ? "1" : "0"); }
  for (int ver = 0; ver < 17; ver++) for (int n = 2; n <= 40; n++) { bytes pr = pat(n, ver); std::string a = segwit_addr("bc", ver, pr), h; int w; bytes q; bool r = segwit_dec(a, h, w, q); o("bech32", std::to_string(ver) + ":" + hex(pr), a + ":" + (r && w == ver && q == pr ? "1" : "0")); }
  HD m = hd_seed(pat(32, 2)); std::vector<uint32_t> path = {0, 1, 0x80000000u, 0x7fffffffu, 0xffffffffu, 44}; for (uint32_t i : path) { m = hd_child(m, i); o("bip32", std::to_string(i), b58c(hd_bytes(m, {4, 0x88, 0xad, 0xe4}, true)) + ":" + b58c(hd_bytes(m, {4, 0x88, 0xb2, 0x1e}, false))); }
  RTx t; t.ver = 2; t.lock = 0x01020304; for (int i = 0; i < 3; i++) { t.in.push_back(RIn{pat(32, i), (uint32_t)i * 7, pat(i * 100, i), 0xfffffff0u + i, {}}); } for (int i = 0; i < 2; i++) t.out.push_back(ROut{1000000007ull * (i + 1), pat(20 + i, i)});
  o("sertx", "legacy", hex(ser_tx(t))); RTx w = t; w.in[1].wit = {pat(3, 1), pat(0, 0), pat(300, 3)}; o("sertx", "segwit", hex(ser_tx(w)));
  for (size_t n = 0; n < 3; n++) for (uint32_t ty = 1; ty <= 3; ty++) { std::string a = std::to_string(n) + ":" + std::to_string(ty); o("sigleg", a, hex(sighash_legacy(t, n, pat(25, 4), ty))); o("sigseg", a, hex(sighash_segwit(t, n, pat(25, 4), 0x1122334455667788ull, ty))); }
}
