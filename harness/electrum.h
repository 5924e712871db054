// Electrum's "partial transaction" text format (EPTF version 0), written down from Electrum's own serializer.
#pragma once
#include "psbtkit.h"
struct EIn { RIn in; ref::HD acct; uint32_t ver; uint16_t d[2]; uint64_t amount; };
struct ETx { uint32_t ver = 2, lock = 0; bool segwit = false; std::vector<EIn> in; std::vector<ROut> out; };
inline bytes e_key(const EIn &i) { bytes r = ref::hd_bytes(i.acct, ref::be(i.ver, 4), false); ref::app(r, ref::le(i.d[0], 2)); ref::app(r, ref::le(i.d[1], 2)); return r; }
inline RTx e_tx(const ETx &e) { RTx t; t.ver = e.ver; t.lock = e.lock; for (auto &i : e.in) { t.in.push_back(i.in); t.in.back().wit.clear(); if (!e.segwit) t.in.back().sig.clear(); } t.out = e.out; return t; }
inline bytes ser_etx(const ETx &e) { bytes r{0x45, 0x50, 0x54, 0x46, 0xff, 0x00}; ref::app(r, ref::le(e.ver, 4)); if (e.segwit) ref::app(r, {0, 1}); ref::app(r, ref::varint(e.in.size()));
  for (auto &i : e.in) { RIn x = i.in; if (!e.segwit) { x.sig = {0x01, 0xff, 0x4c, 0x53, 0xff}; ref::app(x.sig, e_key(i)); } ref::app(r, ref::ser_in(x)); }
  ref::app(r, ref::varint(e.out.size())); for (auto &o : e.out) ref::app(r, ref::ser_out(o));
  if (e.segwit) for (auto &i : e.in) { ref::app(r, {0xfe, 0xff, 0xff, 0xff, 0xff}); ref::app(r, ref::le(i.amount, 8)); ref::app(r, {0, 0, 0x02, 0x01, 0xff, 0x53, 0xff}); ref::app(r, e_key(i)); }
  ref::app(r, ref::le(e.lock, 4)); return r; }
enum { XPUB = 0x0488b21e, YPUB = 0x049d7cb2, ZPUB = 0x04b24746, TPUB = 0x043587cf, VPUB = 0x045f1cf6, UPUB = 0x044a5262 };
