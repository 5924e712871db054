#!/usr/bin/env python3
"""Single source of properties.jsonl, MANIFEST.json and harness/meta.json (regenerate: python3 tools/gen.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, bounds, level="model_checking", assume=(), note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, bounds=bounds, level=level, assume=list(assume), note=note))


SRC = "src/"
p("C01", "Parsing does not depend on how the input is cut into chunks",
  "For every object type that can be read from a stream, feeding a well-formed encoding in any sequence of chunks (including empty ones, raw or hex) ends with the same result as feeding it at once: parsing reports incomplete until the last byte and done exactly at it, and the object equals the one parsed in one piece. Two objects parsed alternately do not influence each other.",
  ["inputs", "schedules"], "all encodings of a catalogue covering all types and field shapes, all ways to cut them into up to four chunks, byte by byte, alternating parses of two objects",
  "tests always hand complete buffers to the parser; the number of ways to cut and interleave inputs is exponential",
  ["src/BaseClasses.cpp", "src/Transaction.cpp", "src/Script.cpp", "src/PSBT.cpp", "src/BitcoinCurve.cpp", "src/HDWallet.cpp", "src/Bitcoin.cpp", "src/Electrum.cpp"],
  [("incremental parsers", "from_stream of every Streamable class"), ("hex and raw byte source", "ParseStream in src/BaseClasses.cpp")],
  "13 types, catalogue of encodings, all cut points up to 3 cuts for short encodings and 2 for longer ones, byte-wise feeding, all interleavings of 2 objects in 2 chunks each; encodings above 65535 bytes cut around every field and width limit")
p("C02", "Serialization is exact for every buffer size and every offset",
  "For every object, serializing into a buffer of any size writes exactly the corresponding prefix of the full encoding and nothing beyond the buffer; concatenating windows taken at successive offsets yields the full encoding, and the reported length equals the size of the full encoding. The text form obeys the same rule.",
  ["inputs", "schedules"], "all catalogue objects, all (offset, size) windows, all window sizes for complete streaming",
  "tests serialize into one sufficiently big buffer",
  ["src/BaseClasses.cpp", "src/Transaction.cpp", "src/Script.cpp", "src/PSBT.cpp"],
  [("windowed writers", "to_stream of every Streamable class"), ("byte sinks", "SerializeStream, SerializeByteStream")],
  "all windows of all catalogue objects; 8 window sizes at some 170 offsets of encodings above 65535 bytes")
p("C03", "Transactions survive the wire format unchanged",
  "Parsing the network encoding of any transaction yields exactly its version, inputs, outputs, witnesses and locktime, and serializing the transaction object yields exactly the network encoding of its fields, in legacy format when no input has a witness and in segwit format otherwise. Encodings that the parser does not support or that are not canonical are rejected, never misread.",
  ["inputs"], "all single-bit values of every integer field, script and witness sizes around every length-prefix boundary, all shapes of small transactions, input and output counts up to several hundred",
  "the test suite contains a few fixed transactions with one or two inputs",
  ["src/Transaction.cpp", "src/Script.cpp"], [("transaction codec", "Tx, TxIn, TxOut, Script, Witness from_stream/to_stream")],
  "every bit of every field; all shapes of 0..3 inputs x 0..3 outputs x witness patterns; script and witness-element lengths 0..300 and around 65536; counts 0..300; a lone witness at every position of up to 252 inputs; count bytes 253..255 in front of every counted list")
p("C04", "Transaction ids and transaction building are correct for every history",
  "After any sequence of adding inputs and outputs and of editing fields, the transaction holds exactly the given items in order, its id is the double hash of the serialization without witnesses and the witness id that of the serialization with witnesses (equal to the id when there are none). The return values of the add operations are the new counts.",
  ["histories"], "all sequences of build and edit operations up to a depth", "tests build one or two transactions",
  ["src/Transaction.cpp"], [("building", "Tx::addInput, Tx::addOutput"), ("ids", "Tx::hash, whash, txid, wtxid")],
  "all operation histories up to depth 5 (quick) over 8 operations, catalogue transactions, a lone witness at every (large transactions: every fifth) position of up to 300 inputs")
p("C05", "Signature digests commit to exactly what consensus says",
  "For every transaction, input, script, amount and signature type (all, none, single) the legacy and the segwit digest equal the consensus-defined ones (original algorithm and BIP143). Computing a digest leaves the transaction unchanged.",
  ["inputs"], "all shapes of transactions with up to 3 inputs and 4 outputs, every input index, every digest type, script sizes across length-prefix boundaries, every bit of the amount and of every field",
  "tests only compare complete signed transactions of type ALL with one or two inputs",
  ["src/Transaction.cpp"], [("digests", "Tx::sigHash, sigHashSegwit, hashPrevouts, hashSequence, hashOutputs")],
  "1..3 inputs x 0..4 outputs x 3 digest types x script lengths; bit flips of every field; all histories of 3 (thorough 4) edits, copies, re-parses and signatures on one object")
p("C06", "Signing an input always produces a valid spend of that output",
  "Signing any input of a transaction with the right key makes exactly that input spendable for its output type (P2PKH, single-key P2SH, P2WPKH, nested P2WPKH, P2WSH, nested P2WSH): the signature verifies against the consensus digest, carries the requested digest type, and scriptSig and witness are in the standard form. Inputs signed earlier stay valid, whatever the signing order.",
  ["histories", "inputs"], "all assignments of output types to up to 3 inputs, all signing orders, all digest types, redeem scripts of all push sizes",
  "tests sign single inputs of fixed transactions and compare bytes",
  ["src/Transaction.cpp", "src/Script.cpp"], [("signing", "Tx::signInput, Tx::signSegwitInput"), ("pushes", "Script::push, Witness::push")],
  "all type assignments and orders for 1..3 inputs; redeem script lengths across all push opcodes; one input of each kind at the first, middle, last and 127/128th place of up to 252 inputs")
p("C07", "PSBT signing signs exactly the wallet's inputs, with the right digest",
  "Signing a PSBT with a root key adds, for each input whose spent output is described and whose derivation record carries this root's fingerprint and leads to the recorded public key, one signature of type ALL by that key that is valid for the spent output, and touches nothing else; the return value is the number of signatures made (up to 255). Inputs of other wallets and inputs whose spent output is unknown get nothing. Signing again changes nothing, and signatures of different wallets accumulate in any order.",
  ["inputs", "histories"], "all combinations of per-input spent-output type, record kind (own, foreign fingerprint, foreign key, several records) and number of inputs, and all sequences of signing by two wallets",
  "tests sign two fixed PSBTs", ["src/PSBT.cpp"], [("signing", "PSBT::sign")], "1..3 inputs x 9 input kinds x derivation kinds x signing sequences; the own input, and the own record among others, at boundary positions of up to 250")
p("C08", "PSBT metadata is parsed completely or the PSBT is rejected",
  "Parsing a well-formed PSBT exposes, for each input and output, exactly the spent output, redeem and witness scripts, derivation records and partial signatures that its key-value records describe, whatever their order, ignoring unknown records. A PSBT that is malformed (wrong magic, bad lengths, missing transaction, a key with extra bytes, a previous transaction whose id does not match or that lacks the output, an invalid public key or signature, extra or missing bytes in a record) is rejected.",
  ["inputs"], "all orders and subsets of records, every defect of a list of defect kinds at every record", "tests parse a few PSBTs from wallets",
  ["src/PSBT.cpp"], [("records", "PSBT::add")], "all ordered subsets of up to 3 record kinds for inputs and outputs; all defects at all records; previous transactions with up to 252 outputs x 24 indices")
p("C09", "PSBT fee and change detection are exact",
  "The reported fee is the sum of the spent amounts minus the sum of the outputs, for every mix of ways in which spent outputs are described, and zero if an amount is unknown or the outputs exceed the inputs. An output is reported as the wallet's own exactly when one of its derivation records leads from the given key to the recorded public key and the output script (or the script it commits to) can be spent and is that key's script or pushes that key.",
  ["inputs"], "all mixes of input kinds and amounts, all combinations of output script type and derivation record kind, several accounts and depths", "tests check the fee and change of a few PSBTs",
  ["src/PSBT.cpp"], [("fee", "PSBT::fee"), ("change", "PSBT::isMine")], "1..3 inputs x 3 kinds x amounts; outputs x 7 script kinds x 6 record kinds; all histories of 3 (thorough 4) questions and edits on one PSBT")
p("C10", "PSBT round trip keeps the transaction and all signatures",
  "Serializing a parsed or signed PSBT gives a well-formed PSBT with the same unsigned transaction and exactly the partial signatures present (with their digest type byte), assigned to the same inputs and keys; base64 text and binary forms convert into each other without loss.",
  ["inputs", "histories"], "all catalogue PSBTs and all sign/serialize/parse histories up to a depth", "tests cover single fixed round trips",
  ["src/PSBT.cpp"], [("writer", "PSBT::to_stream, length"), ("text form", "PSBT::parseBase64, toBase64")], "all histories of depth 3 over catalogue PSBTs; signed inputs at boundary positions of up to 250")
p("C11", "Malformed input is rejected safely and leaves the object usable",
  "For every truncation and every corrupted byte of a valid encoding, in raw or hex form, parsing never reads or writes outside its buffers, never reports success for a truncated encoding, and whatever it accepts serializes back to what was accepted. An object whose parse failed stays failed, whatever it is fed, until it is reset; then it parses the next valid input correctly.",
  ["inputs", "fault_sequences"], "every prefix of every catalogue encoding, every byte position with every value, every non-hex character position", "tests contain no malformed encodings",
  ["src/BaseClasses.cpp", "src/Transaction.cpp", "src/Script.cpp", "src/PSBT.cpp"], [("parsers", "from_stream of every Streamable class")],
  "all prefixes; all 255 substitutions at every byte for short encodings (16 for long ones); hex corruption at every position")
p("C12", "Objects behave as values: copies are independent and nothing leaks",
  "After any sequence of construction, copy, assignment (including self-assignment), clearing and re-parsing, every object of every type equals the value last given to it, changing one object never changes another, a copy made in the middle of parsing can be continued like the original, and destroying all objects releases all memory exactly once.",
  ["histories"], "all operation sequences up to a depth over several objects of each type", "tests never copy, reassign or re-parse objects systematically",
  ["src/Transaction.cpp", "src/Script.cpp", "src/PSBT.cpp", "src/Electrum.cpp"], [("copying", "copy constructors, operator=, clear, destructors")], "histories over 2 objects of 14 types; all ordered pairs of states (default, parsed, half parsed, failed, edited, above 65535 bytes) for assignment")
p("C13", "Base58, Base58Check and Base43 are exact inverse codecs",
  "Encoding any byte string yields its unique Base58 (Base43) representation with one leading zero digit per leading zero byte, and decoding any such text yields the bytes back, reading up to the first character outside the alphabet; Base58Check decoding accepts exactly texts whose checksum is right. An output buffer that is too small gives zero, never a truncated or overflowing result.",
  ["inputs"], "all byte strings up to 2 bytes, all leading-zero counts and lengths up to a few hundred, all short texts over the alphabet, all buffer sizes", "tests use a handful of addresses",
  ["src/Conversion.cpp"], [("radix codecs", "toBase58, fromBase58, toBase58Check, fromBase58Check, toBase43, fromBase43")], "all strings of 0..2 bytes; leading zeros 0..40 x lengths 0..120; all texts up to 2 (quick) digits; all output sizes")
p("C14", "Hex, binary and Base64 text codecs are exact inverses",
  "Encoding any byte string in hex, binary digits or Base64 (standard, unpadded, URL-safe) yields exactly the defined text and decoding yields the bytes back. Malformed Base64 or binary text is rejected, hex decoding skips leading non-hex characters and stops at the first one after the digits, and no codec reads or writes outside the given buffers whatever the sizes.",
  ["inputs"], "all byte strings up to 2 bytes plus all lengths up to 130, all character values at all positions, all buffer sizes, all flag combinations", "tests use a few fixed strings",
  ["src/Conversion.cpp"], [("text codecs", "toHex, fromHex, toBin, fromBin, toBase64, fromBase64, base64ToHex, hexToBase64")], "all byte strings of 0..2 bytes, all lengths 0..130, every char at every position, all buffer sizes")
p("C15", "Integer and variable-length integer codecs are exact",
  "Little- and big-endian conversion and variable-length integers convert every 64-bit value to its defined bytes and back, with the shortest encoding and the announced length. Reading or writing a variable-length integer never goes beyond the given buffer: if it does not fit the result is zero.",
  ["inputs"], "all 16-bit values, all values with up to two set bits and their neighbours, all sizes 0..8, all buffer sizes 0..10", "tests check none of this directly",
  ["src/Conversion.cpp"], [("integers", "littleEndianToInt, intToLittleEndian, bigEndianToInt, intToBigEndian"), ("varints", "lenVarInt, readVarInt, writeVarInt")], "0..70000, boundary neighbourhoods of all powers of two, two-bit values")
p("C16", "Addresses and output scripts convert into each other on every network",
  "For every supported network the address of a public key or script (P2PKH, P2SH, P2WPKH, nested P2WPKH, P2WSH) is the standard one, and the script built from a valid address of any supported network is exactly the output script that address stands for, including witness versions 1 to 16 (Bech32 for version 0, Bech32m above, upper case allowed, mixed case not). Scripts without an address give an empty one.",
  ["inputs", "configurations"], "all networks x all script types x keys/hashes covering every byte value at every position", "tests check a few mainnet/testnet addresses of one key",
  ["src/Script.cpp", "src/Bitcoin.cpp", "src/Networks.cpp", "src/utility/segwit_addr.c"], [("address to script", "Script::fromAddress"), ("script to address", "Script::address, PublicKey addresses")], "4 networks x 5 types x hash patterns; witness versions 0..16 x program lengths 2..40")
p("C17", "Corrupted addresses and keys in text form are never accepted",
  "Every single-character substitution, transposition of neighbours, insertion, deletion or case change of an address, WIF key or extended key, and every text with a valid checksum but wrong length or version, is rejected: the resulting object is empty or invalid. (A complete valid Base58 text followed by a character outside the alphabet may be read as that text.)",
  ["inputs"], "all one-character edits of representatives of every text format on every network, all wrong lengths and versions with a valid checksum", "tests contain no corrupted text",
  ["src/Script.cpp", "src/Bitcoin.cpp", "src/HDWallet.cpp", "src/Conversion.cpp", "src/utility/segwit_addr.c"], [("checksums", "fromBase58Check, segwit_addr_decode")], "every one-character edit of 20+ representatives; every payload length 0..90; every version byte")
p("C18", "Hierarchical derivation follows BIP32 on every path",
  "From any seed and along any path of normal and hardened indices the derived private key, chain code, depth, parent fingerprint and child number are those of BIP32; public derivation agrees with private derivation for normal indices. A hardened step on a public key, a step beyond depth 255 and any step from an invalid key give an invalid key. The first steps set the script type of the standard purposes (44', 45', 48', 49', 84') and the network of the coin type. Deriving never changes the parent.",
  ["inputs", "histories"], "all paths up to a depth over boundary indices, several seeds of all lengths, public/private switching at every level", "tests use the fixed BIP32 vectors",
  ["src/HDWallet.cpp"], [("derivation", "HDPrivateKey::fromSeed, child, hardenedChild, derive; HDPublicKey::child, derive")], "paths to depth 3 over 6 indices; seeds; switch level; keys next to each other in every order")
p("C19", "Extended keys keep all their fields in text and binary form",
  "The text and binary form of every extended key is the standard one for its network and script type, and reading it back gives a key with the same secret or point, chain code, depth, parent fingerprint, child number, and the network and type its version prefix stands for. Anything that is not exactly such an encoding gives an invalid key or a failed parse.",
  ["inputs", "configurations"], "all networks x script types x depths x boundary child numbers, all payload lengths, all defects of key bytes", "tests check a few xprv/xpub strings",
  ["src/HDWallet.cpp", "src/Networks.cpp"], [("text form", "xprv, xpub, from_str"), ("binary form", "from_stream, to_stream")], "4 networks x all types x field values x defects")
p("C20", "Derivation path strings are read exactly or rejected",
  "A path text (optional m/, decimal indices, h or ' for hardened, optional trailing slash; empty, m and m/ mean the key itself) derives exactly the key of the written indices, for private and public keys; any text that is not such a path, an index that does not fit, or a hardened step on a public key gives an invalid key.",
  ["inputs"], "all texts up to a length over the path alphabet, boundary decimal numbers in every position", "tests derive a few fixed paths",
  ["src/HDWallet.cpp"], [("path parser", "derive(const char *)")], "all texts up to length 5 (quick) over 8 characters, composed paths, paths from depth 0 to beyond depth 255")
p("C21", "Mnemonics encode entropy exactly per BIP39",
  "Every entropy of 16, 20, 24, 28 or 32 bytes gives the BIP39 sentence, that sentence is accepted by checkMnemonic and decodes to the same entropy, and sentence and passphrase give the BIP39 seed and root key. checkMnemonic rejects sentences with an unknown word, wrong count, wrong checksum or wrong spacing.",
  ["inputs"], "all five sizes x every bit and every 11-bit group value, all single-word replacements, all passphrase lengths around the hash block boundaries", "tests use a few fixed mnemonics",
  ["src/HDWallet.cpp", "src/utility/trezor/bip39.c"], [("mnemonics", "mnemonicFromEntropy, generateMnemonic, checkMnemonic, mnemonicToEntropy, fromMnemonic")], "5 sizes x all bits, all 2048 words in all positions, all single-word replacements at last position; entropy texts with zero bytes; sequences of roots from neighbouring sentences and passphrases")
p("C22", "Hashes and MACs do not depend on how data is fed and equal the standards",
  "For every message and every way to split it into writes, each hash object (SHA-256, double SHA-256, RIPEMD-160, Hash160, SHA-512, and the HMAC variants) yields the digest of the standard algorithm, equal to the one-shot function; tagged hashing too. An object can be restarted and reused.",
  ["inputs", "schedules"], "all lengths across several blocks, all one- and two-cut splits around block boundaries, all HMAC key lengths across the block size", "tests hash a few short strings",
  ["src/Hash.cpp", "src/Hash.h"], [("hash objects", "SHA256, DoubleSha, RMD160, Hash160, SHA512, HMAC"), ("one-shot functions", "sha256, rmd160, hash160, doubleSha, sha512Hmac, tagged_hash")], "lengths 0..399 and around powers of two to 2^21, one of 2^29+77 bytes, all splits for lengths to 150, key and tag lengths 0..200")
p("C23", "Scalar and point arithmetic is exact modulo the curve parameters",
  "Addition, subtraction, negation, multiplication and division of scalars equal the operations modulo the group order (dividing by zero gives an invalid zero scalar), and addition, subtraction, negation and multiplication of points equal the group operations of secp256k1, for all operands including zero, one, order minus one, equal and opposite points and the identity; negation keeps the encoding form of a point; comparisons order points by their encoding.",
  ["inputs"], "all pairs of operands from a set with every boundary class, all sequences of operations up to a depth", "tests cover a few sums",
  ["src/BitcoinCurve.cpp", "src/utility/trezor/ecdsa.c", "src/utility/trezor/bignum.c"], [("arithmetic", "ECScalar and ECPoint operators")], "all pairs of 24 scalars and 20 points; expression chains of depth 3")
p("C24", "Public keys survive encoding and invalid ones are recognised",
  "Every point encodes to its standard compressed or uncompressed form and decodes from either form to the same point and form; texts or bytes that do not describe a curve point, have a wrong prefix or are too short give an invalid key.",
  ["inputs"], "points of many scalars in both forms, all prefix bytes, all truncations, coordinates at field boundaries, both parities", "tests encode two keys",
  ["src/BitcoinCurve.cpp"], [("point codec", "ECPoint::sec, fromSec, from_stream, from_str, isValid")], "300 points x 2 forms x 256 prefixes; small x coordinates 0..2000")
p("C25", "ECDSA signatures are deterministic, canonical and verified exactly",
  "Signing any 32-byte hash with any valid key gives the RFC6979 signature with low s, whose recovery index identifies the key and which verifies for that key and hash; verification accepts exactly the pairs that satisfy the ECDSA equation with r and s in range, for every alteration of signature, hash or key.",
  ["inputs"], "keys and hashes at boundaries, every single-bit alteration of signature, hash and key, out-of-range r and s", "tests sign a few messages and never verify altered signatures",
  ["src/Bitcoin.cpp", "src/utility/trezor/ecdsa.c", "src/utility/trezor/rfc6979.c"], [("ECDSA", "PrivateKey::sign, PublicKey::verify")], "12 keys x 20 hashes; all 256-bit flips; boundary r/s values")
p("C26", "DER signature codec is exact and strict",
  "Every pair (r, s) encodes to its shortest standard DER form and decodes back to the same pair; encodings that are not well formed, do not fit, or are truncated are rejected. The fixed-size binary form round-trips too.",
  ["inputs"], "r and s of every byte length with and without high bit, all truncations, all single-byte alterations, all buffer sizes", "tests parse a few signatures",
  ["src/Bitcoin.cpp"], [("DER codec", "Signature::der, fromDer, from_stream, to_stream, bin, fromBin")], "33x33 lengths x high bits; all byte substitutions; fresh and used objects")
p("C27", "Schnorr signatures verify exactly per BIP340",
  "Signing any hash with any valid key gives a signature that a BIP340 verifier accepts for the x-only key, the same one every time, and different keys or hashes never share a nonce; verification accepts exactly the signatures BIP340 accepts, for every alteration of signature, hash or key and for out-of-range values.",
  ["inputs"], "keys of both parities, boundary hashes, every single-bit alteration, out-of-range and odd-nonce values", "tests check the official vectors partly",
  ["src/Bitcoin.cpp"], [("Schnorr", "PrivateKey::schnorr_sign, PublicKey::schnorr_verify")], "10 keys x 12 hashes; all bit flips; crafted invalid classes")
p("C28", "WIF keys and key agreement are exact",
  "Every valid secret, compression flag and network gives the standard WIF text, which reads back as the same key; secrets of zero or not below the order, or wrong lengths and flags, are rejected. Both parties of a key agreement compute the same shared secret, the hash of the common point (or its x coordinate); agreement with an invalid key is refused.",
  ["inputs", "configurations"], "networks x flags x boundary secrets, all payload defects, all pairs of keys", "tests check a few WIF strings",
  ["src/Bitcoin.cpp"], [("WIF", "PrivateKey::wif, fromWIF"), ("ECDH", "PrivateKey::ecdh")], "4 networks x 2 flags x 40 secrets; all 34x34 pairs of keys for agreement")
p("C29", "Script builders produce the standard scripts for all parameters",
  "Single-key, multi-key (plain and sorted) and hash-wrapped script builders produce exactly the standard script for every valid threshold and key list, and an empty script for invalid parameters; sorted multi-key scripts do not depend on the key order. Named opcodes have their protocol values. Script type recognition and pushes are exact for every length; a push that would exceed 10000 bytes empties the script or witness.",
  ["inputs"], "all thresholds and key counts, all permutations of up to 4 keys in both encodings, all push lengths", "tests build two multisig scripts",
  ["src/Script.cpp"], [("builders", "pkh, wpkh, multi, sortedmulti, wsh, sh, Script constructors, push"), ("recognition", "Script::type")], "threshold 0..20 x keys 0..18; all permutations to 6 keys; push lengths 0..600 and around 10000")
p("C30", "Descriptor checksums accept exactly the right text",
  "The checksum that the library computes for an output descriptor is the standard eight-character one for every text over the descriptor character set, independent of how the text is composed; a text with any other character has no checksum. A buffer that is too small gives zero and is not overrun.",
  ["inputs"], "all short texts over the descriptor characters, every character at every position of longer texts, every byte value, every buffer size", "tests never compute a descriptor checksum",
  ["src/PSBT.cpp"], [("checksum", "descriptorChecksum")], "all texts of up to 2 characters (3 thorough), all positions x characters of representative descriptors; zero bytes in text objects")
p("C31", "Electrum transactions are read exactly",
  "Parsing Electrum's incomplete transaction format gives the transaction, and for every input the amount (segwit format; zero when not given), the extended public key and derivation indices of its signer, and the fee; signing such a transaction with the matching account key signs exactly the inputs of that account with valid signatures. Malformed key data is rejected and never hangs the parser.",
  ["inputs"], "all shapes of up to 2 inputs x key kinds x derivation values x amounts", "tests parse one fixed Electrum transaction",
  ["src/Electrum.cpp"], [("parser", "ElectrumTx::from_stream"), ("signing", "ElectrumTx::sign")], "1..9 inputs x kinds, up to 252 inputs of each kind")
p("C32", "Output buffers are never overrun, whatever size the caller gives",
  "Every operation that writes into a caller's buffer with a size argument writes at most that many bytes; when the result does not fit it returns zero or writes nothing usable (stream serialization: a prefix), and at the buffer sizes the library itself uses it returns the full length with the right content.",
  ["inputs", "configurations"], "every buffer-writing operation x every buffer size from zero to more than enough", "tests always pass large buffers",
  ["src/Bitcoin.cpp", "src/HDWallet.cpp", "src/Script.cpp", "src/Conversion.cpp", "src/BitcoinCurve.cpp"], [("size checks", "all (char *, size_t) and (uint8_t *, size_t) methods")], "about 30 operations x all sizes")
p("C33", "Allocation failure never corrupts memory or yields a wrong result",
  "If memory runs out at any allocation during building, parsing, copying, signing, encoding or serializing, nothing crashes, leaks or touches freed memory; parsing, text encoding and decoding, script building and key conversion then report failure or give an empty result instead of presenting incomplete data as complete, and the object stays usable.",
  ["fault_sequences"], "every allocation made with the C allocator in every scenario, failing once or from then on", "tests never make an allocation fail",
  ["src/Script.cpp", "src/Conversion.cpp", "src/PSBT.cpp", "src/Transaction.cpp"], [("allocation checks", "malloc/calloc/realloc call sites")], "all allocation points of about 40 scenarios", level="fault_enumeration")
p("C34", "Byte streams deliver and accept exactly the given bytes",
  "A parse stream over raw bytes or hex text delivers exactly the encoded bytes in order, byte by byte or in blocks of any size, reports nothing available once they are used up, ends at the first invalid hex character and never reads outside its source; a serialize stream writes exactly what it is given into its buffer (in hex form two characters per byte), reports the room that is left and stops at the end. Objects read and written one after another through one stream come out as if handled alone.",
  ["inputs", "histories"], "all sequences of stream operations up to a depth, all short inputs, all pairs of hex characters, all buffer sizes", "tests use streams only implicitly with complete inputs",
  ["src/BaseClasses.cpp", "src/BaseClasses.h"], [("streams", "ParseByteStream and SerializeByteStream")], "all histories of up to 5 stream operations (6 thorough), all character pairs, all buffer sizes up to 12; streams of up to 140001 bytes in 9 block sizes; text objects with zero bytes")
p("C35", "Comparisons and validity flags tell the truth",
  "Two signatures, scripts, witnesses, scalars or points compare equal exactly when they denote the same value; the order operators of scalars and points are a total order consistent with equality; isValid() and the bool conversion of an object agree, an empty, default or failed object is not valid, and a complete one is.",
  ["inputs"], "all pairs from value sets containing every one-bit, prefix, length and order neighbour", "tests compare a few equal objects",
  ["src/Bitcoin.h", "src/BitcoinCurve.h", "src/BitcoinCurve.cpp"], [("comparison operators", "operator== and friends of Signature, SchnorrSignature, Script, Witness, ECScalar, ECPoint"), ("validity", "isValid and operator bool of all classes")], "value sets of up to 513 neighbours per value, pairs with the base, itself and a third value")
p("C36", "Every build configuration gives the same results",
  "Built with std::string, without any string class, or for Arduino (String, Print), the library gives the same results for the same inputs: encodings and decodings, hashes, addresses, keys, extended keys and derivation paths, recovery phrases, transactions and their ids, PSBT and Electrum text, descriptor checksums; text printed to an Arduino Print device equals the string form, and the reported count is the number of characters printed.",
  ["configurations", "inputs"], "three build configurations x all text-facing operations x enumerated inputs, valid and damaged", "the repository's tests are built in one configuration only; the others are never even compiled",
  ["src/Conversion.cpp", "src/BaseClasses.cpp", "src/Bitcoin.cpp", "src/HDWallet.cpp", "src/Hash.cpp", "src/Transaction.cpp", "src/Script.cpp", "src/PSBT.cpp", "src/Electrum.cpp", "src/BitcoinCurve.cpp"], [("configuration switches", "USE_STD_STRING, USE_ARDUINO_STRING, ARDUINO sections")], "56 operations x three configurations; data up to 48 bytes (hashes 140), all one-character edits of representative texts, all slices of a transaction",
  assume=["Arduino's String, Print and Printable are represented by a small stand-in with the documented behaviour"])
p("C37", "Secrets do not outlive the key",
  "When a private key object (ECScalar, PrivateKey, HDPrivateKey) is destroyed, reset or given a new value, its storage no longer contains any part of the old secret (nor, for an HD key, of the old chain code); and every working buffer the library allocates while creating, reading, writing, copying or using a key is erased before it is freed, so that freed memory holds neither the secret nor its text form.",
  ["histories"], "every way to build a key x every use x every way to end or replace it; every heap block freed on the way", "tests never look at memory after a key is gone",
  ["src/Bitcoin.cpp", "src/HDWallet.cpp", "src/BitcoinCurve.h", "src/Conversion.cpp", "src/BaseClasses.cpp"], [("erasure", "destructors, reset/init, memzero before free in Conversion.cpp and BaseClasses.cpp")], "6 constructions x 10-11 uses x 8 endings x networks; conversion functions for data of 12..81 bytes",
  assume=["stack frames of finished calls and string objects handed to or received from the caller are not searched"])
p("C38", "32-bit targets give the same results as 64-bit ones",
  "Built for a 32-bit target, which is what the library is made for, every operation gives the result the standards define, exactly as on a 64-bit host: integers and amounts keep all 64 bits, lengths and counts that do not fit 32 bits are rejected instead of being cut to their low bits, buffer sizes are computed without overflow, and transactions, PSBTs, scripts, signatures and text encodings are bit-identical.",
  ["inputs", "configurations"], "the spaces of the integer, transaction, digest, PSBT, codec, address, script, signature and stream properties in a 32-bit executable; every length field enlarged by 2^32 and other powers of two", "tests are built for the 64-bit host only",
  ["src/Conversion.cpp", "src/Transaction.cpp", "src/Script.cpp", "src/PSBT.cpp", "src/BaseClasses.cpp"], [("lengths", "readVarInt, lenVarInt, from_stream of Script, Witness, Tx, PSBT"), ("sizes", "toBase58Length, toBase64Length, toHex"), ("amounts", "TxOut::from_stream, PSBT::fee")], "as in the quick tiers of C03 C05 C08 C10 C13-C16 C26 C29-C32 C34 C35 and parts of C11, C12, C20, C23, C25",
  assume=["i386 code with 4-byte size_t stands for 32-bit microcontrollers; the 32-bit C and C++ runtime libraries of the sandbox are used with start-up code of our own"])

p("C39", "The bundled C hashes, key derivation and text codecs follow their standards",
  "Used directly, the C primitives shipped with the library give the results their standards define and stay inside the buffers they are given. SHA-256, SHA-512, RIPEMD-160, SHA-3, Keccak and the combined hasher depend only on the message, not on how it is fed, aligned or interleaved with other contexts; HMAC, PBKDF2 and the RFC6979 generator are exact for every key, salt, iteration count and output length; base58 (raw, checked, with any prefix), bech32, segwit addresses, bit regrouping, public key addresses, Ethereum checksums and BIP39 words and seeds encode exactly and decode exactly the valid texts, with results that do not depend on earlier calls (the seed cache).",
  ["inputs", "histories"], "all message lengths across several blocks with all alignments and cuts, all key, salt and output lengths around the block sizes, all histories of reused contexts and of the seed cache up to a depth, all single-character damages of texts, all buffer sizes around the needed one", "tests reach these functions through a handful of fixed vectors",
  ["src/utility/trezor/sha2.c", "src/utility/trezor/sha3.c", "src/utility/trezor/ripemd160.c", "src/utility/trezor/hasher.c", "src/utility/trezor/hmac.c", "src/utility/trezor/pbkdf2.c", "src/utility/trezor/rfc6979.c", "src/utility/trezor/rand.c", "src/utility/trezor/base58.c", "src/utility/trezor/address.c", "src/utility/trezor/bip39.c", "src/utility/segwit_addr.c"],
  [("hashes", "sha256_*, sha512_*, sha3_*, keccak_*, ripemd160_*, hasher_*"), ("derivation", "hmac_*, pbkdf2_*, rfc6979, generate_k_rfc6979"), ("text", "b58enc, b58tobin, base58_encode_check, base58_decode_check, bech32_*, segwit_addr_*, convert_bits, ecdsa_get_address*, mnemonic_*")],
  "messages 0..299 bytes x 8 alignments and around powers of two to 2^18 x 14 hashes, all cuts of 16 lengths, all context histories of depth 4; 10 x 18 x 10 key/salt/output sizes of PBKDF2; payloads 0..60 bytes with all buffer sizes within 2 of the needed one; all 2048 words in every sentence length; all histories of 2 (thorough 3) seed requests",
  assume=["passphrases longer than 256 bytes are cut to 256, as the header documents"])

p("C40", "The bundled C big-number and curve routines are exact on their whole domain",
  "Used directly, the C arithmetic shipped with the library computes what its documentation states for every operand in the documented domain, including unreduced and unnormalized numbers, operands sharing storage, zero, and the moduli and their multiples: conversions, comparisons, shifts, modular sums, products, halves, inverses and roots are congruent to the exact value and within the stated range. Points add, double and multiply as the group law says, including infinity, equal and opposite points; the precomputed table, the curve constants, public keys, shared secrets, decompression and key validation are exact. Signing gives the RFC6979 signature, also when earlier candidates were refused; verification and key recovery accept exactly what the ECDSA equations allow, and amounts are formatted exactly.",
  ["inputs", "histories"], "boundary numbers of every limb, power of two and multiple of the moduli and all pairs of a selection; all pairs of special points; all single-digit, small, large and patterned scalars; keys and signatures with every kind of damage; every number of refused signatures", "tests use a few fixed keys and signatures through the C++ classes",
  ["src/utility/trezor/bignum.c", "src/utility/trezor/ecdsa.c", "src/utility/trezor/secp256k1.c", "src/utility/trezor/secp256k1.table"],
  [("big numbers", "bn_*"), ("points", "point_*, scalar_multiply, uncompress_coords, ecdsa_read_pubkey, ecdsa_validate_pubkey, ecdh_multiply"), ("signatures", "ecdsa_sign*, ecdsa_verify*, ecdsa_recover_pub_from_sig, ecdsa_sig_to_der"), ("amounts", "bn_format")],
  "about 1700 numbers per function, 11000-22000 pairs per binary function and modulus, 89 x 89 point pairs, 1630 base scalars, all 512 table entries, 12 kinds of keys, 16 kinds of altered signatures, up to 4 refusals and refusal forever",
  assume=["for digests not below the group order only the validity of the signature is judged, because RFC6979 and common implementations differ in reducing them", "the documented preconditions of each routine are respected"])

p("C41", "A missing buffer is refused by every text codec and byte source",
  "Every text codec (Base58, Base58Check, Base43, hex, binary digits, Base64) given a null pointer for its input, its output or both, with any sizes, returns zero or the empty text, reports length zero, and leaves the other buffer untouched. A byte source made from a null pointer is empty whatever length was given: nothing is available or read from it, and an object reading from it, at the start or in the middle of its data, consumes nothing and can still be parsed to the end afterwards.",
  ["inputs", "histories"], "every codec function and every subset of null arguments with all sizes of a list, all histories of four operations on an empty source, all streamable object kinds of a list", "tests never pass a null pointer",
  ["src/Conversion.cpp", "src/BaseClasses.cpp"], [("codecs", "toBase58..fromBase64 and their length and string variants"), ("sources", "ParseByteStream, Streamable::parse")], "9 encoders and 9 decoders x 13 x 13 sizes x 3 null patterns; 13 sizes x 3 ways x 81 histories; 4 object kinds")

p("C42", "A private key and its public key always belong together",
  "Whatever was done to a private key object (plain or HD) - built, read from any form at once or in pieces, read badly or only partly, replaced, changed in place with + - * / against any operand including itself, derived, copied, assigned or reset, in any order and on reused objects - its public key is the secret times the generator, its signatures verify under that public key, its WIF, address, xpub, fingerprint and chain code are those of the same secret, and arithmetic in place keeps the compression choice and the network. An object whose reading failed or is not finished, and one that holds no secret, is not valid and has no valid public key or children; after the next successful replacement it is fully valid again.",
  ["histories", "inputs"], "all sequences of operations up to a depth on one object, with every operator and a list of operands including zero, one, the object itself, its negation and numbers next to the group order", "tests build each key once and never change it",
  ["src/Bitcoin.cpp", "src/Bitcoin.h", "src/BitcoinCurve.h", "src/HDWallet.cpp"], [("plain keys", "PrivateKey::setSecret, fromWIF, from_stream, operator+= -= *= /=, reset"), ("HD keys", "HDPrivateKey::from_stream, from_str, fromSeed, child, derive, xpub"), ("scalars", "ECScalar::isValid, from_stream")], "depth 3 (thorough 4): 8 kinds of operations with about 60 variants on PrivateKey, 8 with about 45 on HDPrivateKey, 6 on ECScalar")

p("C43", "A result does not depend on what was computed before",
  "Every computation of the library (keys, derivation, mnemonics, signing, verifying, key agreement, addresses, scripts, hashes, encodings, checksums, transactions, signature digests, PSBT and Electrum work) gives, for the same inputs, the same result no matter which other calls - with other or nearly the same inputs, on other objects, successful or failing - the program made before it: nothing an earlier call computed, kept or left behind shows in a later result.",
  ["histories", "inputs"], "all ordered pairs of calls from a catalogue whose inputs differ in one component only, in direct succession, in one process, and again later in a longer history", "tests run every call once in a fixed order, so a value kept from an earlier call is either the right one or never used",
  ["src/Bitcoin.cpp", "src/HDWallet.cpp", "src/BitcoinCurve.cpp", "src/Hash.cpp", "src/Conversion.cpp", "src/Transaction.cpp", "src/Script.cpp", "src/PSBT.cpp", "src/Electrum.cpp"], [("any", "no function may keep state between calls that later results depend on")], "a catalogue of about 400 calls; all ordered pairs of calls into the same part of the library in direct succession (thorough: of all calls), every part after every other part (thorough: also one process per pair)")

NA = {}
TECH = "explicit-state model checking of the real code: exhaustive choice enumeration (stateless search) against an executable reference model, under ASan/UBSan"


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for q in P:
            assert len(q["title"]) <= 80, q["id"]
            f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
                                "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
                                "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]]}}) + "\n")
    checks, na, meta = [], [], {}
    for q in P:
        if os.path.exists(os.path.join(ROOT, "harness", q["id"] + ".cpp")):
            c = "python3 /verif/check.py %s --tier " % q["id"]
            checks.append({"property": q["id"], "quick_cmd": c + "quick", "thorough_cmd": c + "thorough", "evidence_file": "evidence/%s.json" % q["id"],
                           "technique": "fault enumeration by model checking: every allocation failure point of every scenario is executed on the real code" if q["level"] == "fault_enumeration" else TECH,
                           "level": q["level"], "level_note": q["note"] or ("Exhaustive within bounds: " + q["bounds"])})
        else:
            na.append({"property": q["id"], "reason": NA.get(q["id"], "check not built yet")})
        meta[q["id"]] = {"level": q["level"], "bounds": q["bounds"], "assumptions": q["assume"] + ["the reference model in harness/ref.h is the specification; it is validated by tools/setup.py against independent implementations and published vectors", "library built as in the repository's own build (std::string configuration), clang with AddressSanitizer and bounds checks"]}
    json.dump({"version": 1, "setup_cmd": "python3 /verif/tools/setup.py", "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo: everything is observed through the public API."}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    json.dump(meta, open(os.path.join(ROOT, "harness", "meta.json"), "w"), indent=1)


main()
