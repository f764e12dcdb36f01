#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (kept in step by construction)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I, H, C, S, K, F = "inputs", "histories", "configurations", "schedules", "crash_points", "fault_sequences"
MC, FE = "model_checking", "fault_enumeration"
P = []


def p(pid, title, statement, over, text, why, files, mech, observe, tech, note, level=MC):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, tech=tech, note=note, level=level))


T = "TLA+ specification (TLC): "
BASE = ("TLC decides whether each recorded execution is a behaviour of spec/System.tla, whose functions are independent TLA+ definitions of the standards, anchored by published test vectors (models/Kat.tla). "
        "Holds for the executions explored: bounded exploration, not proof. Trusted: TLC, the driver's recording, gcc.")

p("P01", "AES-128 and SM4 are the standard ciphers, keyed with any key length",
  "For every key and every block, AES-128 and SM4 encryption gives the block the published standard defines, decryption is its exact inverse, and both work in place. "
  "A key shorter than 16 bytes is used as if completed by bytes each equal to the number of bytes missing, and of a longer key the first 16 bytes count. "
  "Keying a context again replaces its key completely, and no context affects another.",
  [I, H], "all keys of all lengths, all blocks, all sequences of keying and block calls on several contexts",
  "The tests encrypt one block under one 16-byte key; a wrong table entry, key schedule word, short key or stale round key shows only for other inputs and orders of calls.",
  ["src/aes/aes.c", "src/sm4/sm4.c", "src/utils/padding.c", "include/wbcrypto/aes.h", "include/wbcrypto/sm4.h"],
  [("key setup with padding", "src/aes/aes.c, src/sm4/sm4.c, src/utils/padding.c"), ("round functions", "src/aes/aes.c, src/sm4/sm4.c")],
  ["output block of every encryption and decryption"],
  T + "cipher contexts as state machine, histories generated by TLC replayed into the code, traces validated against TLA+ AES/SM4",
  BASE + " Explored: TLC-generated keying/use histories of two contexts, every key length 0..40, some hundred random and extreme keys and blocks.")
p("P02", "White-box SM4 with dummy rounds computes SM4",
  "For every key, every number of dummy rounds and whatever randomness built the tables, a white-box SM4 encryption table maps every block to its SM4 encryption and a decryption table maps every block to its SM4 decryption. "
  "This holds for keys of any length (short keys completed as for SM4), in place, and through the CBC and GCM modes.",
  [I, C, H], "all keys, blocks, dummy-round counts, table randomness and direction of table",
  "The tests build one table set per run with one key and compare one block; table generation is random and each table entry serves a fraction of the inputs.",
  ["src/wbsm4/wbsm4.c", "src/wbsm4/wbsm4_gen.c", "src/wbsm4/wbsm4_modes.c", "include/wbcrypto/wbsm4.h"],
  [("masking affine encodings cancel between rounds", "src/wbsm4/wbsm4_gen.c"), ("dummy rounds are the identity", "src/wbsm4/wbsm4_gen.c"), ("table evaluation", "src/wbsm4/wbsm4.c")],
  ["output block of the white-box cipher"],
  T + "encodings model (WbModel) checked with TLC; recorded white-box executions validated against the TLA+ SM4",
  BASE + " WbModel shows that random invertible encodings cancel for any number of rounds on a toy; the code is explored over dummy counts 0..4, key lengths and table seeds.")
p("P03", "White-box AES computes AES",
  "For every key and whatever randomness built the tables, the white-box AES table maps every block to its AES-128 encryption; short keys are completed as for AES. "
  "The same holds in place and through the CBC and GCM modes built on it.",
  [I, C, H], "all keys of all lengths, blocks and table randomness",
  "The tests check one block under one key with the randomness of one run.",
  ["src/wbaes/wbaes.c", "src/wbaes/wbaes_local.c", "src/wbaes/wbaes_modes.c", "include/wbcrypto/wbaes.h"],
  [("T-box/Ty tables with cancelling encodings", "src/wbaes/wbaes.c, src/wbaes/wbaes_local.c"), ("key completion", "src/wbaes/wbaes.c")],
  ["output block of the white-box cipher"],
  T + "encodings model checked with TLC; recorded white-box executions validated against the TLA+ AES",
  BASE + " Table seeds, key lengths 0..40, thousands of blocks.")
p("P04", "Space-hard white-box SM4 computes SM4",
  "For every key and whatever randomness built the tables, the se-wbsm4 encryption table maps every block to its SM4 encryption and its decryption table maps every block to its SM4 decryption; short keys are completed as for SM4. "
  "A pair of tables of the same key undo each other, and the cipher works in place.",
  [I, C, H], "all keys, blocks, table randomness and direction",
  "The only test of this component fails to run here and would compare a single block.",
  ["src/se_wbsm4/se_wbsm4.c", "src/se_wbsm4/se_wbsm4_local.c", "include/wbcrypto/se_wbsm4.h"],
  [("bitsliced round with shifting encodings", "src/se_wbsm4/se_wbsm4_local.c"), ("table generation", "src/se_wbsm4/se_wbsm4.c")],
  ["output block of the white-box cipher"],
  T + "encodings model checked with TLC; recorded executions validated against the TLA+ SM4", BASE)
p("P05", "CBC pads, encrypts and decrypts every message, and respects capacities",
  "CBC encryption of any message gives standard CBC over the message completed with PKCS#7 bytes to a whole number of blocks (a message of whole blocks is not extended), and decryption under the same key and IV gives the message back. "
  "An output buffer too small for the result, and ciphertext that is not whole blocks, are refused; input and output may be the same buffer, and nothing outside the output buffer is written.",
  [I], "all messages and lengths, IVs, keys, ciphers (AES, SM4, white-box AES and SM4, user-supplied), capacities and aliasing",
  "The tests encrypt a single message of fixed length with a generous buffer.",
  ["src/modes/cbc128.c", "src/utils/padding.c", "src/aes/aes_modes.c", "src/sm4/sm4_modes.c", "src/wbsm4/wbsm4_modes.c", "src/wbaes/wbaes_modes.c"],
  [("padding length and block loop", "src/modes/cbc128.c"), ("PKCS#7 completion and removal", "src/utils/padding.c"), ("capacity checks", "src/aes/aes_modes.c, src/sm4/sm4_modes.c")],
  ["return value, reported length, output bytes, bytes around the buffer"],
  T + "padding and capacity model (CbcModel) exhaustively checked; every length and capacity class replayed and validated",
  BASE + " One known finding (see KNOWN_FINDINGS.txt) is excluded by its exact shape.")
p("P06", "GCM output and tag are the standard's for every message",
  "For every key, IV of any length, associated data and message, GCM encryption and decryption produce exactly the text and the tag (at any requested tag length up to 16) that the standard defines, with AES, SM4, the white-box ciphers or any user-supplied 128-bit block cipher, in place or not. "
  "The 32-bit block counter wraps as the standard says, and a call with too little room is refused and leaves the message state as it was.",
  [I], "all keys, IV lengths, AAD and message lengths and contents, tag lengths, ciphers, counter values",
  "The tests use one short vector per cipher with a 12-byte IV; hash table entries, counter carries and length classes are not reached.",
  ["src/modes/gcm128.c", "src/aes/aes_modes.c", "src/sm4/sm4_modes.c", "include/wbcrypto/modes.h"],
  [("GHASH with 4-bit tables", "src/modes/gcm128.c"), ("counter increment", "src/modes/gcm128.c"), ("IV and length blocks", "src/modes/gcm128.c")],
  ["ciphertext/plaintext bytes and tag"],
  T + "GCM state machine; whole-message grid and counter wraps validated against the TLA+ GCM (GF(2^128) in TLA+)", BASE + " IVs are constructed so that the counter crosses every carry.")
p("P07", "GCM depends only on the current message, not on chunking or history",
  "However a message is cut into chunks of whole blocks plus a rest, and whatever was done with the context before its IV was set (other messages, abandoned messages, refused calls), text and tag are those of the message processed at once by a fresh context. "
  "Several contexts, over the same key or different ones, used in any interleaving do not affect each other.",
  [H, I], "all call sequences over one or two contexts, all chunkings",
  "The tests process one message in one call per fresh context.",
  ["src/modes/gcm128.c", "include/wbcrypto/modes.h"],
  [("IV setting resets the message state", "src/modes/gcm128.c"), ("running hash and counter across chunks", "src/modes/gcm128.c")],
  ["ciphertext and tag of each message"],
  T + "TLC enumerates all call histories of GcmModel; a sample is replayed and validated", BASE + " GcmModel is exhaustive to its depth; its switch Stale=TRUE (an IV that does not reset) is detected.")
p("P08", "Parallel GCM equals serial GCM under every thread schedule",
  "The parallel GCM entry points produce the same text and tag as the serial ones for every message, length, direction and aliasing, in whatever order the threads compute the blocks. "
  "Serial and parallel calls can be mixed in one message, and an empty message works.",
  [S, I, H], "all interleavings of the worker threads, all lengths, in place or not, both directions",
  "The test runs one length under whatever schedule the machine happens to choose.",
  ["src/modes/gcm_parallel.c", "src/modes/gcm128.c", "include/wbcrypto/modes.h"],
  [("thread-private block state and per-block counters", "src/modes/gcm_parallel.c"), ("hash of the ciphertext before in-place overwriting", "src/modes/gcm_parallel.c")],
  ["text and tag", "order of the block-cipher calls, controlled through the user-supplied cipher"],
  T + "ParGcm explores all interleavings; TLC-generated schedules are forced onto the real threads through the block callback, traces validated",
  BASE + " Schedules are controlled at block-cipher calls; interleavings inside a block step are only stressed.")
p("P09", "Encrypted files round-trip and have the specified format",
  "Encrypting any file with a prepared context writes exactly tag, size and ciphertext as specified (16-byte tag, 8-byte little-endian size, GCM text), replacing what was there, and leaves every other file as it was and none behind; the output may be the input itself. "
  "Decrypting it with a context prepared with the same key, IV and associated data gives the original file back, for plain, white-box, external-encoding and masked GCM, for any size below 4 GiB and in any order of files on the same contexts; decryption onto its own input gives the original or is refused and leaves the file.",
  [I, H, C], "all file contents and sizes, contexts, IV and AAD, orders of use, earlier contents of the output",
  "The tests round-trip one file and do not look at the format or at second uses.",
  ["src/modes/gcmfile.c", "src/wbaes/wbaes_wbgcm_ee_file.c", "src/wbaes/wbaes_wbgcm_mask_file.c"],
  [("chunked reading and writing", "src/modes/gcmfile.c"), ("header written after the text", "src/modes/gcmfile.c")],
  ["bytes of all files in the working directory after each call"],
  T + "file system state in the specification; TLC histories of operations by name (PathModel) replayed; recorded directory contents validated after each call (FileModel)", BASE)
p("P10", "A file that was altered, cut, extended or half written is never decrypted",
  "If any bit of an encrypted file's tag, ciphertext or recorded size (its lower four bytes) was changed, if it was truncated, extended, spliced, or left incomplete by a writer that was killed, or if key, IV or associated data differ, decryption reports failure. "
  "A failed decryption leaves no plaintext in the output (the output is untouched, absent or empty) and no temporary file, and the context works for the next file.",
  [I, H, K], "all modifications of a file, all points at which the writer dies, all mismatching contexts",
  "The tests never decrypt a damaged file.",
  ["src/modes/gcmfile.c", "src/wbaes/wbaes_wbgcm_ee_file.c", "src/wbaes/wbaes_wbgcm_mask_file.c"],
  [("tag comparison before the output is published", "src/modes/gcmfile.c"), ("size field against the actual length", "src/modes/gcmfile.c")],
  ["return value and directory contents"],
  T + "attacker and crash actions in FileModel; TLC-generated tampering/crash histories replayed on real files, including killing the process at blocks and output bytes",
  BASE + " The upper 4 bytes of the 8-byte size field carry no information for files below 4 GiB and either outcome is accepted for them.", FE)
p("P11", "File operations report every I/O and cipher failure",
  "A file operation whose input is missing or unreadable, whose output cannot be created, whose disk is full after any number of bytes, or whose block cipher fails at any block reports failure, never success. "
  "It leaves every other file unchanged and no plaintext or temporary file behind, and contexts remain usable.",
  [F, I], "all fault positions and kinds, all file sizes",
  "The tests never let an operation fail.",
  ["src/modes/gcmfile.c", "src/wbaes/wbaes_wbgcm_ee_file.c", "src/wbaes/wbaes_wbgcm_mask_file.c"],
  [("checking of every read, write and close", "src/modes/gcmfile.c")],
  ["return value and directory contents under RLIMIT_FSIZE, /dev/full, missing paths and a failing cipher"],
  T + "fault actions in FileModel/FaultModel; faults enumerated over byte positions and block calls, traces validated", BASE, FE)
p("P12", "External-encoding white-box GCM equals AES-GCM",
  "For every key of any length, IV, associated data and message, whatever randomness built the tables, the external-encoding white-box GCM gives the same text and tag as AES-128-GCM, in both directions, for whole and chunked messages including the empty one, with contexts reused and interleaved.",
  [I, H, C], "all keys, IVs, messages, table randomness, call histories",
  "The test compares one message.",
  ["src/wbaes/wbaes_wbgcm_ee_init.c", "src/wbaes/wbaes_wbgcm_ee_mode.c", "include/wbcrypto/wbaes_wbgcm_ee.h"],
  [("decoding of the encoded key stream and tag", "src/wbaes/wbaes_wbgcm_ee_mode.c"), ("table generation", "src/wbaes/wbaes_wbgcm_ee_init.c")],
  ["text and tag"], T + "GcmModel histories replayed into the white-box mode, validated against the TLA+ AES-GCM", BASE)
p("P13", "Masked white-box GCM seals and opens consistently",
  "For every key and table randomness, the masked mode's sealing table turns each message block into the AES-GCM key stream combined with a secret fixed linear image of the message, its opening table recovers the message exactly, and both compute the same tag, that of GCM over the sealed text. "
  "This holds for every message length, chunking, IV and associated data, with contexts reused and interleaved.",
  [I, H, C], "all keys, IVs, messages, table randomness, call histories",
  "The test seals and opens one message and does not compare the tags.",
  ["src/wbaes/wbaes_wbgcm_mask_init.c", "src/wbaes/wbaes_wbgcm_mask_mode.c", "include/wbcrypto/wbaes_wbgcm_mask.h"],
  [("mask and its inverse", "src/wbaes/wbaes_wbgcm_mask_init.c"), ("hash over the sealed text in both directions", "src/wbaes/wbaes_wbgcm_mask_mode.c")],
  ["text and tag; the linear map is read off calibration ciphertexts and checked for linearity and invertibility"],
  T + "GcmModel histories replayed, validated against TLA+ GCM over a linear mask supplied as witness", BASE)
p("P14", "SM3 is the standard hash for every message and every cutting",
  "For every message, one-shot and incremental SM3 give the digest the standard defines, however the message is cut into updates, including empty ones and cuts at any position of the 64-byte block. "
  "A context can be initialised again after use, and several contexts do not affect each other.",
  [I, H], "all messages, all cuttings, all sequences of calls on several contexts",
  "The tests hash two short messages in one update.",
  ["src/sm3/sm3.c", "src/sm3/md32_common.h", "src/sm3/sm3_local.h", "include/wbcrypto/sm3.h"],
  [("partial block buffering", "src/sm3/md32_common.h"), ("length and padding", "src/sm3/md32_common.h")],
  ["digest"], T + "Sm3Model exhaustively checks buffering; TLC histories and all lengths replayed, validated against the TLA+ SM3", BASE)
p("P15", "FF1 computes the standard's permutation for every radix, length and tweak",
  "For every block cipher key, radix 2 to 36, tweak of any length and string of at least two digits, FF1 encryption gives the string NIST SP 800-38G defines (same length and alphabet), and decryption inverts it.",
  [I, C], "all keys, ciphers, radices, tweak lengths and strings",
  "The tests use one or two vectors in radix 10 and 36.",
  ["src/fpe/ff1.c", "src/fpe/fpe_locl.c", "src/fpe/init.c"],
  [("Feistel rounds with big-number arithmetic", "src/fpe/ff1.c"), ("numeral conversion", "src/fpe/fpe_locl.c")],
  ["output string"], T + "Feistel model checks bijectivity exhaustively on small domains; grids over radix, length and tweak validated against the TLA+ FF1", BASE)
p("P16", "FF3 computes the standard's permutation for every radix, length and tweak",
  "For every block cipher key, radix 2 to 36, tweak and non-empty string of digits, FF3 encryption gives the string the FF3 construction defines with the first 8 bytes of the tweak (a shorter tweak is extended with zero bytes), same length and alphabet, and decryption inverts it.",
  [I, C], "all keys, ciphers, radices, tweak lengths and strings",
  "The tests use one or two vectors.",
  ["src/fpe/ff3.c", "src/fpe/fpe_locl.c", "src/fpe/init.c"],
  [("Feistel rounds on reversed strings", "src/fpe/ff3.c")], ["output string"],
  T + "Feistel model on small domains; grids over radix, length and tweak validated against the TLA+ FF3", BASE)
p("P17", "FPE with authentication gives the defined text and tag, and inverts",
  "The authenticated variants FF1-CMAC and FF3-GMAC give, for every key, radix, tweak and valid string, the text and the 16-byte tag their construction defines, decryption inverts encryption and computes the same tag for the same pair, and a context can be used for any sequence of strings.",
  [I, H, C], "all keys, radices, tweaks, strings and orders of use",
  "The tests run one vector without an independent reference for the tag.",
  ["src/fpe/ff1_cmac.c", "src/fpe/ff3_gmac.c", "src/fpe/init.c"],
  [("CMAC chaining", "src/fpe/ff1_cmac.c"), ("GMAC accumulation", "src/fpe/ff3_gmac.c")], ["output string and tag"],
  T + "TLA+ definition of both constructions; grids and context histories validated", BASE + " There is no published standard for the tags; the TLA+ definition states the construction of the repository's own documentation and code comments.")
p("P18", "Format-preserving encryption refuses what it cannot encrypt",
  "A radix outside 2 to 36 gives no context, and a string that is too short for the method or contains a character that is not a digit of the radix is refused: the call reports failure and writes nothing into the output. "
  "Valid strings are never refused, and a refusal does not affect later calls.",
  [I, H], "all byte strings, all radices",
  "The tests pass valid strings only.",
  ["src/fpe/fpe_locl.c", "src/fpe/ff1.c", "src/fpe/ff3.c", "src/fpe/ff1_cmac.c", "src/fpe/ff3_gmac.c", "src/fpe/init.c"],
  [("validation before work", "src/fpe/fpe_locl.c")], ["return value and output buffer"],
  T + "validity predicate in the specification; every radix with boundary and arbitrary characters at every position class, traces validated", BASE)
p("P19", "Phone and identity numbers keep their masked-off characters and round-trip",
  "Encrypting a phone or identity number changes only the digits the sample marks with an asterisk, as the format-preserving encryption of exactly those digits, and keeps every other character; a final X of an identity number is kept; decryption with the same sample gives the number back. "
  "Text that is not a number where it would be encrypted is refused.",
  [I, C], "all numbers, all samples of the number's length, both methods and all ciphers",
  "The tests use one number and one sample.",
  ["src/fpe_app/phone.c", "src/fpe_app/idcard.c", "src/fpe_app/init.c"],
  [("collecting and re-inserting marked digits", "src/fpe_app/phone.c, src/fpe_app/idcard.c")], ["output string"],
  T + "AppModel checks extraction/insertion for all masks; all mask shapes replayed, validated", BASE + " The sample must have the length of the number.")
p("P20", "Chinese text stays in its range, keeps unmarked characters and round-trips",
  "Encrypting Chinese text gives text of the same number of characters within the supported range, changes only characters the sample marks with an asterisk (all, without a sample), and decryption with the same sample gives the text back. "
  "Text with characters outside the range, broken UTF-8, and samples that do not fit the text are refused.",
  [I, C], "all byte strings, all samples, both methods and all ciphers",
  "The tests use one name.",
  ["src/fpe_app/cn_utf8.c", "src/fpe_app/utf8_util.c"],
  [("mapping of characters to digits of a fixed radix", "src/fpe_app/cn_utf8.c"), ("UTF-8 decoding", "src/fpe_app/utf8_util.c")], ["output string"],
  T + "AppModel; all masks of short names, range ends and malformed UTF-8 replayed, validated against the TLA+ definition", BASE)
p("P21", "The FPE application uses exactly the cipher, method and key it was given",
  "An application context created with a cipher name, a method name and a key of any length computes with that cipher, that method and that key (short keys completed to 16 bytes, long ones cut), the default cipher and method standing in for unknown names. "
  "Two contexts given the same choices agree, and a white-box cipher agrees with its plain counterpart.",
  [C, I], "all names, all key lengths",
  "The tests create one context per cipher with a 16-byte key.",
  ["src/fpe_app/init.c", "src/fpe_app/phone.c", "src/fpe_app/idcard.c", "src/fpe_app/cn_utf8.c"],
  [("selection by name", "src/fpe_app/init.c")], ["output strings of all applications"],
  T + "selection as a function in the specification; all name and key-length classes replayed, validated", BASE)
p("P22", "A stored or transferred white-box SM4 key is the same key",
  "A white-box SM4 table set written to a file or to bytes and loaded into any context, fresh or used, of either direction and any number of dummy rounds (up to 1016), makes that context the same cipher as the original, in its direction also when keyed again, and over several transfers. "
  "A file that is missing, cut short at any place or no stored key (another name, an impossible number of rounds) is refused and the context keeps its previous key; a key that cannot be stored completely is reported.",
  [H, K, I], "all sequences of keying, storing, cutting, loading and use over several contexts; all cut positions",
  "The tests do one transfer between contexts of the same shape.",
  ["src/wbsm4/wbsm4_exkey.c", "src/wbsm4/wbsm4.c"],
  [("sizes taken from the stored key", "src/wbsm4/wbsm4_exkey.c"), ("load completely before replacing", "src/wbsm4/wbsm4_exkey.c")], ["cipher output after each load; return values"],
  T + "KeyTransfer model; TLC histories of keying/storing/cutting/loading replayed, validated", BASE, FE)
p("P23", "The MySQL functions encrypt each row correctly or report an error",
  "For every row, the database functions for MySQL 5 and 8 return exactly the format-preserving encryption of the value for the given mode and sample, independent of earlier rows and other statements, or NULL for a NULL argument. "
  "Values, modes, samples or argument lists they cannot process yield an error and never plaintext or an overflow; statements can be prepared, run and ended in any order.",
  [I, H], "all rows, argument lists, orders of statements",
  "There are no tests of the plug-in at all.",
  ["udf/mysql5.cpp", "udf/mysql8.cpp"],
  [("argument checks at preparation", "udf/mysql5.cpp, udf/mysql8.cpp"), ("per-statement result buffer", "udf/mysql5.cpp, udf/mysql8.cpp")], ["returned string, length, is_null and error flags"],
  T + "UdfModel statement life cycle; TLC histories of statements and rows replayed into the plug-in linked with a stub server, validated", BASE + " The MySQL server is replaced by direct calls that follow its calling convention.")
p("P24", "Stored keys come back unchanged and padding is exact",
  "A key written to the key store is read back byte for byte; reading more bytes than stored, missing files and stores that cannot be written completely are reported as failures. "
  "The padding helpers complete and strip exactly as PKCS#7 (respectively zero) padding prescribes for every input: only complete, consistent padding is removed, lengths agree with the bytes produced, and inputs are not modified.",
  [I, F], "all keys, lengths, byte strings, disk limits",
  "The tests pad one string and do not cover the key store.",
  ["src/utils/keystore.c", "src/utils/padding.c", "include/wbcrypto/utils.h"],
  [("I/O result checks", "src/utils/keystore.c"), ("validation of the whole padding", "src/utils/padding.c")], ["returned bytes, lengths and return values; file contents"],
  T + "padding model exhaustively checked; every length and padding value replayed, store histories with faults validated", BASE)
p("P25", "No call touches memory outside the objects it was given",
  "Whatever the keys, lengths, capacities, strings, samples, files or stored keys passed to it, no call reads or writes outside its arguments' stated sizes or its own memory, uses released memory, crashes or aborts; failing calls included.",
  [I, H], "all arguments accepted by the public calls, valid or refused, all call sequences within the documented protocol",
  "The tests use generous buffers and run without memory checking.",
  ["src/modes/gcm128.c", "src/modes/cbc128.c", "src/modes/gcmfile.c", "src/fpe/ff1.c", "src/fpe/ff3.c", "src/fpe_app/cn_utf8.c", "src/utils/padding.c", "src/wbsm4/wbsm4_exkey.c", "udf/mysql5.cpp", "udf/mysql8.cpp"],
  [("capacity checks and exact allocation", "all of src/")], ["guard pages and canaries around every argument; AddressSanitizer build of the library"],
  T + "the specification's no-stray-access conjunct and crash-freedom decided on traces from an AddressSanitizer build driven by the other models' histories",
  BASE + " Out-of-bounds accesses are observed by guard pages, canaries and AddressSanitizer.")
p("P26", "A failing block cipher is reported by every mode, whichever call fails",
  "If the user-supplied block cipher reports failure at any one or several of its calls, the mode operation that made the call (GCM serial or parallel, CBC, file encryption and decryption, format-preserving encryption with or without tag, context creation) reports failure and never success. "
  "Without a failure it reports success, and after a failure the object works again from its next start.",
  [F, S], "all patterns of failing calls, all modes, all thread schedules",
  "The tests never use a cipher that fails.",
  ["src/modes/gcm128.c", "src/modes/gcm_parallel.c", "src/modes/cbc128.c", "src/modes/gcmfile.c", "src/fpe/ff1.c", "src/fpe/ff3.c", "src/fpe/ff1_cmac.c", "src/fpe/ff3_gmac.c"],
  [("error propagation from every block call", "src/modes, src/fpe")], ["return values under an injected failure pattern"],
  T + "FaultModel enumerates all failure patterns; each is injected through the block callback and the trace validated", BASE, FE)
p("P27", "Independent objects never influence each other, nested or on threads",
  "Operations on different objects give the same results as if each ran alone: interleaved call by call, started from within another operation's block cipher, or run at the same time on several threads, also when they share a read-only key.",
  [S, H], "all interleavings of operations on distinct objects, nesting at any block call, concurrent threads",
  "The tests use one object at a time on one thread.",
  ["src/modes/gcm128.c", "src/modes/cbc128.c", "src/fpe/ff1.c", "src/fpe/ff3.c", "src/fpe_app/init.c", "src/sm3/sm3.c", "src/aes/aes.c", "src/sm4/sm4.c", "src/wbsm4/wbsm4.c", "src/wbaes/wbaes.c"],
  [("no mutable state outside the objects", "all of src/")], ["results of each operation"],
  T + "per-object state machine composed; nested and threaded executions recorded and validated against it", BASE + " Thread interleavings are stressed, nesting is controlled.")
p("P28", "Repeated calls keep no memory and no open files, also when they fail",
  "Encrypting, decrypting, hashing, keying, storing and loading on existing contexts, any number of times and whether the calls succeed or fail at any point, leaves no additional heap memory and no additional open file behind. "
  "Loading white-box tables into a context that has some replaces them, a row of the MySQL functions leaves nothing behind, and neither does a format-preserving or GCM context that was released or refused at creation.",
  [H, F], "all sequences of calls and fault positions",
  "The tests run each operation once in a short-lived process.",
  ["src/modes/gcmfile.c", "src/modes/gcm_parallel.c", "src/utils/keystore.c", "src/wbsm4/wbsm4_exkey.c", "src/fpe/ff1.c", "src/fpe/ff1_cmac.c", "src/fpe/ff3.c", "src/fpe/ff3_gmac.c", "src/fpe/init.c", "src/fpe_app/cn_utf8.c"],
  [("release on every way out", "src/modes/gcmfile.c, src/fpe, src/wbsm4/wbsm4_exkey.c")], ["number of heap blocks and descriptors before and after"],
  T + "ResModel (acquire/fail/release) checked; TLC-generated call/fault sequences replayed, heap and descriptor counts validated",
  BASE + " Every function is repeated by itself in every ending (success, refusal, failure inside at several points) and in TLC-generated sequences.", FE)
p("P29", "Released contexts give back their memory and leave no secrets in it",
  "Releasing a cipher context (AES, SM4, every white-box variant), a GCM, file or white-box GCM context, in whatever state it is (fresh, keyed once or repeatedly, loaded, in the middle of a message), returns all the memory it holds, tables included, and every heap block given back by the release has been overwritten, so that no key, table, hash key or counter remains in freed memory. "
  "Contexts that live on are unaffected by the release of others.",
  [H], "all histories of making, keying, loading, using and releasing contexts, of every kind",
  "The tests release contexts at the end of a short-lived process and never look at the memory.",
  ["src/aes/aes.c", "src/sm4/sm4.c", "src/wbaes/wbaes.c", "src/wbsm4/wbsm4.c", "src/se_wbsm4/se_wbsm4.c", "src/modes/gcm128.c", "src/modes/gcmfile.c", "src/wbaes/wbaes_wbgcm_ee_mode.c", "src/wbaes/wbaes_wbgcm_mask_mode.c"],
  [("wipe that survives optimisation, then free", "the *_free functions"), ("tables owned by the context", "src/wbsm4/wbsm4.c, src/se_wbsm4/se_wbsm4.c"), ("inner GCM context of a file context", "src/modes/gcmfile.c")],
  ["heap blocks held before and after", "contents of each heap block at the moment it is freed"],
  T + "LifeModel (blocks held, wiped on release) checked; TLC-generated life-cycle histories replayed, heap blocks and their contents at release validated",
  BASE + " The library is built with the optimisation it is shipped with (-O3), heap contents are read in an interposed free(); stack and registers are not examined.")

p("P30", "The matrix library computes exact linear algebra over GF(2), at every size",
  "For every matrix, vector and affine map of 4, 8, 16, 32, 64 and 128 bits, the matrix library's initialisation, identity, copy, addition, multiplication, matrix-vector product, transposition, bit read/set/flip, equality, parity, weight, printing, affine application and affine composition give exactly the result defined by linear algebra over GF(2) (row i is word i, column 0 the most significant bit), also when the destination is one of the sources. "
  "A matrix is reported invertible exactly when it is, and the inverse computed for an invertible matrix is its inverse. "
  "Composing smaller matrices, vectors or affine maps gives the block-diagonal matrix and the concatenated vector, in order, and no call writes outside its destination.",
  [I, H], "all operands of every size, all sequences of calls on them, all bit positions",
  "The tests use the matrix library only through table generation; most sizes and functions are never called, and a wrong row, column or pivot shows only with matrices that need it.",
  ["WBMatrix/src/WBMatrix.c", "WBMatrix/include/WBMatrix/WBMatrix.h", "WBMatrix/include/WBMatrix/structure.h"],
  [("elimination with row exchange", "isinvertM*, invsM* in WBMatrix/src/WBMatrix.c"), ("products by row parity", "MatMul* in WBMatrix/src/WBMatrix.c"), ("block-diagonal composition", "Matrixcom*, Vectorcom*, affinecom*")],
  ["contents of the destination and return value of every call"],
  T + "TLA+ linear algebra (spec/Gf2.tla, laws checked exhaustively at 4 bits); TLC-generated register-machine histories replayed into the code, every result validated",
  BASE + " Every function at every size, random, singular, permuted, late-pivot and sparse matrices, all rows and columns for bit access, all bytes for parity and weight; 128-bit cases are fewer.")
p("P31", "Randomly drawn encodings are bijections with the right inverse, and reproducible",
  "For every seed, time and history of draws, a generated matrix pair is a matrix and its inverse, a generated affine pair is an affine map and the map undoing it, a generated 4- or 8-bit permutation is a bijection returned with its inverse, a shuffled list is a rearrangement of the list, and the 32-bit scrambling function is the quadratic-residue permutation modulo 4294967291. "
  "What is drawn depends only on the seed, the time and the draws since seeding: from one seed no two drawn matrices agree and no number of the generator comes twice, another seed gives other numbers, and processes started at different times shuffle differently. "
  "Over many draws every bit takes both values and every element reaches every place.",
  [I, H], "all seeds, times and sequences of draws, at all sizes",
  "A draw that fails does so for few random choices (a matrix whose elimination runs out of pivots, a value at the edge of the generator's range); tests draw once, from the clock.",
  ["WBMatrix/src/WBMatrix.c", "WBMatrix/src/random.c", "src/utils/wrandom.c"],
  [("generation by elimination with repair", "genMatpairM* in WBMatrix/src/WBMatrix.c"), ("permutation generation", "genPermutation4, genPermutation8"), ("counter-based generator", "WBMatrix/src/random.c"), ("shuffle", "src/utils/wrandom.c")],
  ["drawn matrices, vectors, permutations and their inverses"],
  T + "draws as transitions constrained by Gf2.tla (inverse, bijection, determinism, coverage of values); recorded draws validated, small-prime permutation law model-checked",
  BASE + " Some thousand draws per small size, fewer at 64 and 128 bits; uniformity beyond 'every value and place occurs' is not claimed. The thorough tier runs the 32-bit permutation over its whole domain.")

p("P32", "White-box tables hide the key behind fresh, non-trivial encodings",
  "For every cipher with white-box tables, key and time of generation, all parts of the tables (each round's boxes, XOR tables, encodings, affine maps) differ from each other and from the same parts made for the same key at another time, SM4's dummy rounds move, and no two adjacent round-key words appear in any memory the library keeps or gives back to the allocator after generation, or in the exported key. "
  "In every round of the AES tables the XOR tables are encoded by non-affine bijections, essentially all different, the boxes mix the bits of each byte in front of the S-box and the bytes of each column; external encodings are non-affine and mix both halves of the byte, and the GCM variants' intermediate results are masked or encoded. "
  "In every round of the SM4 tables the round inputs, S-box inputs, S-box outputs and round outputs are each encoded by maps that mix the bytes of the word.",
  [I, H], "all keys, generation times, rounds, columns and tables of every white-box cipher",
  "Ciphertexts stay right when an encoding is the identity on one round, is shared by two tables, or is drawn from the same seed every time: no test of results can see a key that is not hidden.",
  ["src/wbaes/wbaes.c", "src/wbaes/wbaes_wbgcm_ee_init.c", "src/wbaes/wbaes_wbgcm_mask_init.c", "src/wbsm4/wbsm4.c", "src/se_wbsm4/se_wbsm4.c", "WBMatrix/src/WBMatrix.c", "src/utils/wrandom.c"],
  [("table generation with mixing bijections and nibble encodings", "src/wbaes/wbaes.c"), ("encodings of the GCM products and the mask", "src/wbaes/wbaes_wbgcm_ee_init.c, wbaes_wbgcm_mask_init.c"), ("affine encodings P, E, Q and dummy rounds", "src/wbsm4/wbsm4.c, src/se_wbsm4/se_wbsm4.c")],
  ["the tables in the public context structures", "heap blocks and static storage after generation", "the exported key file"],
  T + "EncModel: the group law read off an encoded XOR is XOR exactly when the encoding is affine (all 8-element permutations); recorded tables validated against Enc.tla, generation by generation",
  BASE + " A lower bound on hiding: trivial, shared, repeated or dropped encodings are detected, strength against cryptanalysis is not claimed. Tables made within the same second may share nibble encodings and the mask; that is not excluded.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            n = x["statement"].replace("e.g.", "").count(". ") + 1
            assert n <= 3, (x["pid"], n)
            f.write(json.dumps(dict(id=x["pid"], title=x["title"], statement=x["statement"], quantifier=dict(over=x["over"], text=x["text"]), why_tests_cant=x["why"],
                    anchors=dict(files=x["files"], mechanism=[dict(name=a, where=b) for a, b in x["mech"]], observe_at=x["observe"], hook_needed=None))) + "\n")
    m = dict(version=1, setup_cmd="python3 /verif/verif.py list",
             checks=[dict(property=x["pid"], quick_cmd="python3 /verif/verif.py check %s --tier quick" % x["pid"], thorough_cmd="python3 /verif/verif.py check %s --tier thorough" % x["pid"],
                          technique=x["tech"], level=x["level"], level_note=x["note"]) for x in P],
             not_applicable=[], notes="Language: TLA+ checked with TLC. Every verdict is TLC's, on recorded executions of the library built from /repo's working tree (spec/Trace.tla), plus exhaustive checks of the models in models/. No hooks are needed in /repo.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties")


if __name__ == "__main__":
    main()
