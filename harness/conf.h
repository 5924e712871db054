// Operations that the configuration modules (conf.cpp, one shared object per build configuration) offer to C36.
#pragma once
#include <cstddef>
#include <cstdint>
enum ConfOp { C_HEX, C_UNHEX, C_BIN, C_UNBIN, C_B58, C_UNB58, C_B58C, C_UNB58C, C_B43, C_UNB43, C_B64, C_UNB64, C_B64HEX, C_HEXB64, C_SHA256, C_RMD, C_H160, C_DSHA, C_SHA512, C_TAGGED,
  C_SEC, C_XONLY, C_LEGACY, C_SEGWIT, C_NESTED, C_WIF, C_FROMWIF, C_PADDR, C_XPRV, C_XPUB, C_FROMXPRV, C_FROMXPUB, C_DERIVE, C_DERIVEPUB, C_FPR, C_FPRPUB, C_HDADDR, C_HDADDRPUB, C_MNEMO, C_GEN, C_CHECK, C_ENTROPY, C_SEED, C_FROMADDR, C_ADDR, C_TXID, C_WTXID, C_TXTEXT, C_OUTADDR, C_PSBT64, C_DESC, C_PUBTEXT, C_SIGTEXT, C_SCHNORRTEXT, C_SLICE, C_ELECTRUM, C_N };
extern "C" typedef size_t (*conf_fn)(int op, const uint8_t *in, size_t n, int arg, uint8_t *out, size_t cap); // (size_t)-1: not offered by the configuration
