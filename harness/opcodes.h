// opcode values of the protocol, for the names this tree defines
#pragma once
struct OpName { const char *n; unsigned v, want; };
static const OpName OPNAMES[] = {
#ifdef OP_0
 {"OP_0", (unsigned)(OP_0), 0x00},
#endif
#ifdef OP_PUSHDATA1
 {"OP_PUSHDATA1", (unsigned)(OP_PUSHDATA1), 0x4c},
#endif
#ifdef OP_PUSHDATA2
 {"OP_PUSHDATA2", (unsigned)(OP_PUSHDATA2), 0x4d},
#endif
#ifdef OP_PUSHDATA4
 {"OP_PUSHDATA4", (unsigned)(OP_PUSHDATA4), 0x4e},
#endif
#ifdef OP_1NEGATE
 {"OP_1NEGATE", (unsigned)(OP_1NEGATE), 0x4f},
#endif
#ifdef OP_RESERVED
 {"OP_RESERVED", (unsigned)(OP_RESERVED), 0x50},
#endif
#ifdef OP_1
 {"OP_1", (unsigned)(OP_1), 0x51},
#endif
#ifdef OP_2
 {"OP_2", (unsigned)(OP_2), 0x52},
#endif
#ifdef OP_3
 {"OP_3", (unsigned)(OP_3), 0x53},
#endif
#ifdef OP_4
 {"OP_4", (unsigned)(OP_4), 0x54},
#endif
#ifdef OP_5
 {"OP_5", (unsigned)(OP_5), 0x55},
#endif
#ifdef OP_6
 {"OP_6", (unsigned)(OP_6), 0x56},
#endif
#ifdef OP_7
 {"OP_7", (unsigned)(OP_7), 0x57},
#endif
#ifdef OP_8
 {"OP_8", (unsigned)(OP_8), 0x58},
#endif
#ifdef OP_9
 {"OP_9", (unsigned)(OP_9), 0x59},
#endif
#ifdef OP_10
 {"OP_10", (unsigned)(OP_10), 0x5a},
#endif
#ifdef OP_11
 {"OP_11", (unsigned)(OP_11), 0x5b},
#endif
#ifdef OP_12
 {"OP_12", (unsigned)(OP_12), 0x5c},
#endif
#ifdef OP_13
 {"OP_13", (unsigned)(OP_13), 0x5d},
#endif
#ifdef OP_14
 {"OP_14", (unsigned)(OP_14), 0x5e},
#endif
#ifdef OP_15
 {"OP_15", (unsigned)(OP_15), 0x5f},
#endif
#ifdef OP_16
 {"OP_16", (unsigned)(OP_16), 0x60},
#endif
#ifdef OP_NOP
 {"OP_NOP", (unsigned)(OP_NOP), 0x61},
#endif
#ifdef OP_VER
 {"OP_VER", (unsigned)(OP_VER), 0x62},
#endif
#ifdef OP_IF
 {"OP_IF", (unsigned)(OP_IF), 0x63},
#endif
#ifdef OP_NOTIF
 {"OP_NOTIF", (unsigned)(OP_NOTIF), 0x64},
#endif
#ifdef OP_VERIF
 {"OP_VERIF", (unsigned)(OP_VERIF), 0x65},
#endif
#ifdef OP_VERNOTIF
 {"OP_VERNOTIF", (unsigned)(OP_VERNOTIF), 0x66},
#endif
#ifdef OP_ELSE
 {"OP_ELSE", (unsigned)(OP_ELSE), 0x67},
#endif
#ifdef OP_ENDIF
 {"OP_ENDIF", (unsigned)(OP_ENDIF), 0x68},
#endif
#ifdef OP_VERIFY
 {"OP_VERIFY", (unsigned)(OP_VERIFY), 0x69},
#endif
#ifdef OP_RETURN
 {"OP_RETURN", (unsigned)(OP_RETURN), 0x6a},
#endif
#ifdef OP_TOALTSTACK
 {"OP_TOALTSTACK", (unsigned)(OP_TOALTSTACK), 0x6b},
#endif
#ifdef OP_FROMALTSTACK
 {"OP_FROMALTSTACK", (unsigned)(OP_FROMALTSTACK), 0x6c},
#endif
#ifdef OP_2DROP
 {"OP_2DROP", (unsigned)(OP_2DROP), 0x6d},
#endif
#ifdef OP_2DUP
 {"OP_2DUP", (unsigned)(OP_2DUP), 0x6e},
#endif
#ifdef OP_3DUP
 {"OP_3DUP", (unsigned)(OP_3DUP), 0x6f},
#endif
#ifdef OP_2OVER
 {"OP_2OVER", (unsigned)(OP_2OVER), 0x70},
#endif
#ifdef OP_2ROT
 {"OP_2ROT", (unsigned)(OP_2ROT), 0x71},
#endif
#ifdef OP_2SWAP
 {"OP_2SWAP", (unsigned)(OP_2SWAP), 0x72},
#endif
#ifdef OP_IFDUP
 {"OP_IFDUP", (unsigned)(OP_IFDUP), 0x73},
#endif
#ifdef OP_DEPTH
 {"OP_DEPTH", (unsigned)(OP_DEPTH), 0x74},
#endif
#ifdef OP_DROP
 {"OP_DROP", (unsigned)(OP_DROP), 0x75},
#endif
#ifdef OP_DUP
 {"OP_DUP", (unsigned)(OP_DUP), 0x76},
#endif
#ifdef OP_NIP
 {"OP_NIP", (unsigned)(OP_NIP), 0x77},
#endif
#ifdef OP_OVER
 {"OP_OVER", (unsigned)(OP_OVER), 0x78},
#endif
#ifdef OP_PICK
 {"OP_PICK", (unsigned)(OP_PICK), 0x79},
#endif
#ifdef OP_ROLL
 {"OP_ROLL", (unsigned)(OP_ROLL), 0x7a},
#endif
#ifdef OP_ROT
 {"OP_ROT", (unsigned)(OP_ROT), 0x7b},
#endif
#ifdef OP_SWAP
 {"OP_SWAP", (unsigned)(OP_SWAP), 0x7c},
#endif
#ifdef OP_TUCK
 {"OP_TUCK", (unsigned)(OP_TUCK), 0x7d},
#endif
#ifdef OP_CAT
 {"OP_CAT", (unsigned)(OP_CAT), 0x7e},
#endif
#ifdef OP_SUBSTR
 {"OP_SUBSTR", (unsigned)(OP_SUBSTR), 0x7f},
#endif
#ifdef OP_LEFT
 {"OP_LEFT", (unsigned)(OP_LEFT), 0x80},
#endif
#ifdef OP_RIGHT
 {"OP_RIGHT", (unsigned)(OP_RIGHT), 0x81},
#endif
#ifdef OP_SIZE
 {"OP_SIZE", (unsigned)(OP_SIZE), 0x82},
#endif
#ifdef OP_INVERT
 {"OP_INVERT", (unsigned)(OP_INVERT), 0x83},
#endif
#ifdef OP_AND
 {"OP_AND", (unsigned)(OP_AND), 0x84},
#endif
#ifdef OP_OR
 {"OP_OR", (unsigned)(OP_OR), 0x85},
#endif
#ifdef OP_XOR
 {"OP_XOR", (unsigned)(OP_XOR), 0x86},
#endif
#ifdef OP_EQUAL
 {"OP_EQUAL", (unsigned)(OP_EQUAL), 0x87},
#endif
#ifdef OP_EQUALVERIFY
 {"OP_EQUALVERIFY", (unsigned)(OP_EQUALVERIFY), 0x88},
#endif
#ifdef OP_RESERVED1
 {"OP_RESERVED1", (unsigned)(OP_RESERVED1), 0x89},
#endif
#ifdef OP_RESERVED2
 {"OP_RESERVED2", (unsigned)(OP_RESERVED2), 0x8a},
#endif
#ifdef OP_1ADD
 {"OP_1ADD", (unsigned)(OP_1ADD), 0x8b},
#endif
#ifdef OP_1SUB
 {"OP_1SUB", (unsigned)(OP_1SUB), 0x8c},
#endif
#ifdef OP_2MUL
 {"OP_2MUL", (unsigned)(OP_2MUL), 0x8d},
#endif
#ifdef OP_2DIV
 {"OP_2DIV", (unsigned)(OP_2DIV), 0x8e},
#endif
#ifdef OP_NEGATE
 {"OP_NEGATE", (unsigned)(OP_NEGATE), 0x8f},
#endif
#ifdef OP_ABS
 {"OP_ABS", (unsigned)(OP_ABS), 0x90},
#endif
#ifdef OP_NOT
 {"OP_NOT", (unsigned)(OP_NOT), 0x91},
#endif
#ifdef OP_0NOTEQUAL
 {"OP_0NOTEQUAL", (unsigned)(OP_0NOTEQUAL), 0x92},
#endif
#ifdef OP_ADD
 {"OP_ADD", (unsigned)(OP_ADD), 0x93},
#endif
#ifdef OP_SUB
 {"OP_SUB", (unsigned)(OP_SUB), 0x94},
#endif
#ifdef OP_MUL
 {"OP_MUL", (unsigned)(OP_MUL), 0x95},
#endif
#ifdef OP_DIV
 {"OP_DIV", (unsigned)(OP_DIV), 0x96},
#endif
#ifdef OP_MOD
 {"OP_MOD", (unsigned)(OP_MOD), 0x97},
#endif
#ifdef OP_LSHIFT
 {"OP_LSHIFT", (unsigned)(OP_LSHIFT), 0x98},
#endif
#ifdef OP_RSHIFT
 {"OP_RSHIFT", (unsigned)(OP_RSHIFT), 0x99},
#endif
#ifdef OP_BOOLAND
 {"OP_BOOLAND", (unsigned)(OP_BOOLAND), 0x9a},
#endif
#ifdef OP_BOOLOR
 {"OP_BOOLOR", (unsigned)(OP_BOOLOR), 0x9b},
#endif
#ifdef OP_NUMEQUAL
 {"OP_NUMEQUAL", (unsigned)(OP_NUMEQUAL), 0x9c},
#endif
#ifdef OP_NUMEQUALVERIFY
 {"OP_NUMEQUALVERIFY", (unsigned)(OP_NUMEQUALVERIFY), 0x9d},
#endif
#ifdef OP_NUMNOTEQUAL
 {"OP_NUMNOTEQUAL", (unsigned)(OP_NUMNOTEQUAL), 0x9e},
#endif
#ifdef OP_LESSTHAN
 {"OP_LESSTHAN", (unsigned)(OP_LESSTHAN), 0x9f},
#endif
#ifdef OP_GREATERTHAN
 {"OP_GREATERTHAN", (unsigned)(OP_GREATERTHAN), 0xa0},
#endif
#ifdef OP_LESSTHANOREQUAL
 {"OP_LESSTHANOREQUAL", (unsigned)(OP_LESSTHANOREQUAL), 0xa1},
#endif
#ifdef OP_GREATERTHANOREQUAL
 {"OP_GREATERTHANOREQUAL", (unsigned)(OP_GREATERTHANOREQUAL), 0xa2},
#endif
#ifdef OP_MIN
 {"OP_MIN", (unsigned)(OP_MIN), 0xa3},
#endif
#ifdef OP_MAX
 {"OP_MAX", (unsigned)(OP_MAX), 0xa4},
#endif
#ifdef OP_WITHIN
 {"OP_WITHIN", (unsigned)(OP_WITHIN), 0xa5},
#endif
#ifdef OP_RIPEMD160
 {"OP_RIPEMD160", (unsigned)(OP_RIPEMD160), 0xa6},
#endif
#ifdef OP_SHA1
 {"OP_SHA1", (unsigned)(OP_SHA1), 0xa7},
#endif
#ifdef OP_SHA256
 {"OP_SHA256", (unsigned)(OP_SHA256), 0xa8},
#endif
#ifdef OP_HASH160
 {"OP_HASH160", (unsigned)(OP_HASH160), 0xa9},
#endif
#ifdef OP_HASH256
 {"OP_HASH256", (unsigned)(OP_HASH256), 0xaa},
#endif
#ifdef OP_CODESEPARATOR
 {"OP_CODESEPARATOR", (unsigned)(OP_CODESEPARATOR), 0xab},
#endif
#ifdef OP_CHECKSIG
 {"OP_CHECKSIG", (unsigned)(OP_CHECKSIG), 0xac},
#endif
#ifdef OP_CHECKSIGVERIFY
 {"OP_CHECKSIGVERIFY", (unsigned)(OP_CHECKSIGVERIFY), 0xad},
#endif
#ifdef OP_CHECKMULTISIG
 {"OP_CHECKMULTISIG", (unsigned)(OP_CHECKMULTISIG), 0xae},
#endif
#ifdef OP_CHECKMULTISIGVERIFY
 {"OP_CHECKMULTISIGVERIFY", (unsigned)(OP_CHECKMULTISIGVERIFY), 0xaf},
#endif
#ifdef OP_NOP1
 {"OP_NOP1", (unsigned)(OP_NOP1), 0xb0},
#endif
#ifdef OP_CHECKLOCKTIMEVERIFY
 {"OP_CHECKLOCKTIMEVERIFY", (unsigned)(OP_CHECKLOCKTIMEVERIFY), 0xb1},
#endif
#ifdef OP_CHECKSEQUENCEVERIFY
 {"OP_CHECKSEQUENCEVERIFY", (unsigned)(OP_CHECKSEQUENCEVERIFY), 0xb2},
#endif
#ifdef OP_NOP4
 {"OP_NOP4", (unsigned)(OP_NOP4), 0xb3},
#endif
#ifdef OP_NOP5
 {"OP_NOP5", (unsigned)(OP_NOP5), 0xb4},
#endif
#ifdef OP_NOP6
 {"OP_NOP6", (unsigned)(OP_NOP6), 0xb5},
#endif
#ifdef OP_NOP7
 {"OP_NOP7", (unsigned)(OP_NOP7), 0xb6},
#endif
#ifdef OP_NOP8
 {"OP_NOP8", (unsigned)(OP_NOP8), 0xb7},
#endif
#ifdef OP_NOP9
 {"OP_NOP9", (unsigned)(OP_NOP9), 0xb8},
#endif
#ifdef OP_NOP10
 {"OP_NOP10", (unsigned)(OP_NOP10), 0xb9},
#endif
 {0, 0, 0}};
