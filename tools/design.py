#!/usr/bin/env python3
"""Writes DESIGN.md from properties.jsonl, harness/meta.json, seeded/*/meta.json and the texts below."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
meta = json.load(open(ROOT + '/harness/meta.json'))
D={
"C01":("all ways to cut catalogue encodings of 13 types into chunks (up to 3 cuts; every stride; byte by byte; raw and hex; empty chunks), two encodings back to back in one stream, all interleavings of two objects being parsed","the object parsed in one piece, the reference encoder's bytes, and the status demanded after every prefix"),
"C02":("every (offset, size) window of every catalogue object, in raw and hex, and every chunk size for streaming the whole object","the slice of the reference encoding; buffers are exact heap blocks, so overruns trap"),
"C03":("every bit of every integer field, all shapes of small transactions, script and witness lengths across every length-prefix boundary, item counts 0..300, non-canonical and unsupported encodings, constructors","reference transaction codec"),
"C04":("all histories of build and edit operations up to a depth, with the ids recomputed after every operation","reference list model and double hash of reference serialization"),
"C05":("shapes x input index x digest type x script, every bit of amount and of all fields, all script lengths near boundaries","reference legacy and BIP143 digests; transaction bytes before = after"),
"C06":("all assignments of output types to inputs, all signing orders, re-signing, all digest types, redeem script lengths over all push opcodes, key forms","a reference script verifier that evaluates the spend (template match, digest, ECDSA equation)"),
"C07":("all combinations of input kinds x derivation record kinds for 1-3 inputs, amounts, up to 20 inputs, signing sequences of two wallets","reference PSBT state: set of signatures that must exist, each verified with the reference ECDSA"),
"C08":("all orders and subsets of record kinds for inputs and outputs, counts, path lengths, script lengths, unknown types, every defect kind at every record, truncation at every byte, every bit of values","reference PSBT builder; observed fields compared one by one; rejection = failed status"),
"C09":("mixes of input kinds and amounts, every bit of amounts, counts, output kinds x record kinds x keys, every bit of the output script","arithmetic and standard scripts of the reference"),
"C10":("all histories of parse/sign/serialize/base64/copy up to depth 3 over catalogue PSBTs, all signature forms and counts","reference PSBT state and reference encoder"),
"C11":("every prefix, every byte substitution, every insertion/deletion, corrupted input in chunks, every non-hex character position, huge declared lengths","accepted input must serialize back; ASan for memory; object re-parses a valid encoding afterwards"),
"C12":("all histories of copy/assign/clear/reparse/partial parse over two objects of 14 types; all ordered pairs of states for assignment; API histories on scripts, witnesses, transactions, PSBTs","value model (each slot holds a reference value and parse position), heap balance"),
"C13":("all byte strings of 0-2 bytes, leading zeros x lengths, all short texts, all buffer sizes, altered checksums","big-integer radix conversion of the reference"),
"C14":("as C13 for hex, binary and Base64 with all flags, every character at every position","reference codecs"),
"C15":("all 16-bit values, neighbourhoods of all powers of two, all two-bit values, all sizes, all first bytes x lengths of varints","arithmetic definition"),
"C16":("4 networks x types x hash patterns, all witness versions x program lengths, almost-standard scripts, wrapped and odd texts, histories of one object","reference address codec (Base58Check, Bech32, Bech32m)"),
"C17":("all one-character edits of representatives of every text format, all error patterns of 2 characters in short blocks, all payload lengths, versions, crossed checksums","rejection; validity recomputed by the reference codec so that accidentally valid edits are not alarms"),
"C18":("all paths to depth 4 over boundary indices, purposes and coin types, seeds of all lengths, public/private switch at every level, depth 255, invalid keys","reference BIP32"),
"C19":("networks x types x field values in text and binary form, chunked, every payload length, every byte, histories","reference serialization with version table"),
"C20":("all texts up to length 5 over the path alphabet, every foreign character, decimal numbers around 2^31 and 2^32, composed and long paths","reference path grammar + reference BIP32"),
"C21":("5 sizes x every bit and every 11-bit group, all single-word replacements, word counts, spacing, all 2048 last words, passphrase and sentence lengths around hash blocks","reference BIP39 and PBKDF2"),
"C22":("lengths across blocks, around powers of two and beyond 2^32 bits x all cuts x strides x restart histories x interleaved objects x HMAC key lengths","reference SHA-256/512, RIPEMD-160, HMAC"),
"C23":("all pairs from boundary operand sets for every operator, all window values, group-order relations, expression histories","reference 256-bit modular arithmetic and affine curve"),
"C24":("points x forms x prefixes, all truncations, x coordinates near the field boundary, every bit","reference curve equation and SEC codec"),
"C25":("keys x hashes at boundaries, every bit flip of signature, hash and key, out-of-range r/s, crafted special signatures (r overflow, infinity, doubling)","reference RFC6979, ECDSA verification equation and recovery"),
"C26":("r and s of every length with and without high bit, all buffer sizes, all byte substitutions, cuts, insertions, all length-field triples","reference strict DER"),
"C27":("as C25 for BIP340, nonce collisions over all pairs, published vectors","reference BIP340"),
"C28":("networks x flags x secrets, all versions, flags, lengths, all pairs of keys for agreement, invalid keys","reference WIF and ECDH"),
"C29":("threshold 0..20 x keys 0..18, all permutations of up to 6 keys, push lengths, operation sequences, all script-type near misses","reference script builder"),
"C30":("all short texts, long texts, every byte value at every position, all transpositions, lengths, buffer sizes","reference BIP380 polynomial"),
"C31":("shapes of 1-5 inputs, fields, chunking, malformed variants, signing with own and foreign accounts","reference encoder of Electrum's partial format, reference signature verification"),
"C32":("every buffer-writing operation x every buffer size","result obtained with the reference; exact heap blocks under ASan"),
"C33":("every scenario (about 320) x every C allocation failing alone / from then on (thorough: every pair)","fault-free result or reported failure; ASan; heap balance; repeated fault-free run"),
"C34":("all histories of reader and writer operations on streams up to depth 5 over short inputs in raw and hex form, all 65536 character pairs, all bytes, several objects through one stream","cursor model over the deliverable bytes"),
"C35":("all pairs (base, itself, third value) from value sets with every one-bit, prefix, length and order neighbour, for six comparable types; every container complete, truncated, corrupted","equality of the reference values; numeric and encoding order"),
"C36":("the library built three times from the tree (std::string, no string class, Arduino through a stand-in) and loaded side by side; 56 text-facing operations x enumerated inputs, valid and with every one-character edit","the reference codecs where the result is defined by a standard; mutual agreement for damaged input"),
"C38":("the spaces of about twenty other checks (thorough: of all that do not need 64-bit hooks), explored by 32-bit executables under ASan; every length and count field of scripts, witnesses, transactions and PSBTs enlarged by 2^8..2^63","the same reference model, compiled for 32 bits; an enlarged length is never accepted"),
"C39":("message lengths 0..299 x alignments x 14 hashes, all cuts and context histories, PBKDF2/HMAC/RFC6979 size grids, base58/bech32/segwit/BIP39 texts with every single-character damage and every nearby buffer size, histories of the seed cache; USE_KECCAK, USE_ETHEREUM and USE_GRAPHENE switched on","the reference model (hashes validated against hashlib at setup, SHA-3 included); exact-size heap buffers under ASan"),
"C40":("numbers with every limb at its extremes, powers of two and multiples of p and n and neighbours, all pairs of a selection, shared operands; all pairs of 89 points; 1630 scalars; damaged keys and signatures; signing with refused candidates","exact integers (boost cpp_int) for the arithmetic - congruence, stated range and normalization only, never the particular unreduced representative - and the reference curve"),
"C41":("every codec function x every subset of null pointers x 13 x 13 sizes; all histories of 4 operations on null sources; objects reading from a null source at the start or in the middle","zero, empty text or nothing consumed; the other buffer keeps its fill pattern; the object parses to the end afterwards"),
"C42":("all sequences of 3 (thorough 4) operations on one private key, HD private key or scalar: building, reading good, bad and cut data, replacing, arithmetic in place, deriving, copying, assigning, resetting","a model that holds the secret, chain code and network only; the public key, WIF, address, fingerprint, xpub and signatures are recomputed with independent arithmetic after every step"),
"C43":("488 calls into 15 parts of the library whose inputs differ in one component only; all ordered pairs of calls into one part in direct succession, one process per first call, and all calls of every part after those of every other (thorough: all ordered pairs, and each pair in a process of its own)","the result of the same call alone in a fresh process (its correctness is judged by the other properties)"),
"C37":("6 ways to build a key x 10-11 uses x 8 endings x networks for three key classes in prepared memory, conversion functions with secrets of every length","search for any 10-byte window of the secret, its reverse, its WIF, hex or xprv form and the chain code in the object's storage and in every block at the moment it is freed (allocator hooks)"),
}

out = [open(ROOT + '/tools/design_head.md').read().rstrip() + "\n\n## Properties\n"]
for q in P:
    i = q['id']
    en, orc = D[i]
    out.append("### %s %s\n*Enumerated:* %s.\n*Oracle:* %s.\n*Bounds (quick tier):* %s. Thorough raises the bounds of the same spaces.\n*Why not tests:* %s.\n" % (i, q['title'], en, orc, meta[i]['bounds'].rstrip('.'), q['why_tests_cant'].rstrip('.')))
out.append(open(ROOT + '/tools/design_tail.md').read().rstrip() + "\n")
rows = []
for f in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    m = json.load(open(f)); n = os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s | %s |" % (n, m['property'], m['needs'].replace('|', '/'), m.get('caught_by', m['property'])))
out.append("## Planted bugs\nEach was written from the property text and the code, passes the repository's tests, and has a demonstration.\n\n| change | property | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
open(ROOT + '/DESIGN.md', 'w').write("\n".join(out))
