#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the list is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))

p("C01", "Every signature a wallet issues verifies under that wallet's public key",
  "For every 48-byte seed, supported hash function, supported tree height, Winternitz parameter and message of any length (empty to many megabytes), a signature returned by a wallet - the basic kind or the incremental kind, at any index it can reach - has the advertised size, carries the index it was issued at, and verifies under that wallet's public key with the same Winternitz parameter. This holds for the first, the last and every other index, and after any legal sequence of earlier signatures and index jumps.",
  ["inputs", "histories", "configurations"],
  "all seeds x hash functions x heights x Winternitz parameters x message lengths x reachable wallet histories",
  "The tests sign a handful of messages with one or two fixed seeds at heights 4-8, a few indices, w=16 (one w=4 case); the tree traversal has branches that depend on the index bits and height, and only exhaustive or generated histories reach them.",
  ["src/qrl/xmssBase.cpp", "src/qrl/xmssBasic.cpp", "src/qrl/xmssFast.cpp", "src/xmss-alt/algsxmss.c", "src/xmss-alt/algsxmss_fast.c", "src/xmss-alt/wots.c", "src/xmss-alt/xmss_common.c", "src/xmss-alt/hash.c"],
  [("BDS tree traversal keeps the authentication path current", "src/xmss-alt/algsxmss_fast.c: bds_round, bds_treehash_update, xmssfast_Signmsg"),
   ("full-tree authentication path", "src/xmss-alt/algsxmss.c: compute_authpath_wots, xmss_Signmsg"),
   ("verification recomputes the root", "src/xmss-alt/xmss_common.c: xmss_Verifysig")],
  ["sign() return value", "XmssBase::verify() result"],
  [dict(name="traversal state", meaning="stack, authentication path, keep, retain and treehash instances", where="src/qrl/xmssFast.h")])

p("C02", "A signature authenticates exactly its message, public key and content",
  "Starting from any genuine signature at any height and index, changing the message, any bit of the signature, the root or public seed in the public key, or the hash function, height or signature scheme the public key declares, or splicing in parts of other genuine signatures (other index, other message, other wallet), makes verification return false. Nothing an earlier verification did can make a later, invalid one succeed.",
  ["inputs", "histories"],
  "all genuine signatures (heights 4..30, any index) x all single-field mutations, splices and truncations x preceding verification calls",
  "The tests flip one byte of a couple of fixed signatures; they cannot enumerate bit positions, heights, indices, descriptor values or the order of calls.",
  ["src/qrl/xmssBase.cpp", "src/qrl/qrlDescriptor.h", "src/xmss-alt/xmss_common.c", "src/xmss-alt/wots.c", "src/xmss-alt/hash.c"],
  [("root comparison over all 32 bytes", "src/xmss-alt/xmss_common.c: xmss_Verifysig"),
   ("message digest binds randomiser, root and index", "src/xmss-alt/xmss_common.c: xmss_Verifysig h_msg key"),
   ("descriptor checks before hashing", "src/qrl/xmssBase.cpp: XmssBase::verify")],
  ["XmssBase::verify() result"])

p("C03", "Verification decides any byte strings exactly as the XMSS scheme defines",
  "For arbitrary message, signature and public-key byte strings of any length, and any Winternitz parameter value, verification returns true or false - it never throws, crashes, hangs, reads or writes out of bounds - and returns true exactly when the XMSS verification equations, computed independently, hold for a well-formed public key. The answer is a pure function of the arguments and the arguments are not modified.",
  ["inputs"],
  "all byte strings for message, signature, public key, all Winternitz values; structured near-valid inputs at all heights 4..30 and indices",
  "Malformed and near-valid inputs form an unbounded space; the tests try a few wrong lengths.",
  ["src/qrl/xmssBase.cpp", "src/qrl/qrlDescriptor.h", "src/xmss-alt/xmss_common.c", "src/xmss-alt/wots.c", "src/xmss-alt/hash.c"],
  [("size and descriptor validation", "src/qrl/xmssBase.cpp: XmssBase::verify, getHeightFromSigSize"),
   ("root recomputation", "src/xmss-alt/xmss_common.c: xmss_Verifysig, validate_authpath, l_tree")],
  ["XmssBase::verify() result", "sanitizer reports"])

p("C04", "Key generation is the XMSS function of seed and parameters alone",
  "The secret and public key of a wallet are a deterministic function of the 48-byte seed, height, hash function and Winternitz parameter - equal to the one the XMSS scheme defines (computed independently) - and are identical for the basic and the incremental wallet kind and on every rebuild. Wallets that differ in any seed bit, height, hash function or Winternitz parameter have different roots.",
  ["inputs", "configurations"],
  "all seeds x heights x hash functions x Winternitz parameters",
  "The tests pin a few golden keys for one zero seed and a few parameter sets; a change affecting other heights, seed bits or hash functions goes unseen.",
  ["src/xmss-alt/algsxmss.c", "src/xmss-alt/algsxmss_fast.c", "src/xmss-alt/wots.c", "src/xmss-alt/xmss_common.c", "src/xmss-alt/hash.c", "src/qrl/xmssBase.cpp"],
  [("seed expansion and treehash", "src/xmss-alt/algsxmss.c: xmss_Genkeypair, treehash"),
   ("treehash with traversal setup", "src/xmss-alt/algsxmss_fast.c: xmssfast_Genkeypair, treehash_setup")],
  ["getPK(), getSK(), getRoot(), getPKSeed(), getSKSeed(), getSKPRF()"])

p("C05", "A wallet never issues two signatures with the same one-time index",
  "Over any history of signing, index changes and failed calls, the indices of the signatures an incremental wallet issues strictly increase; a request to move the index backwards or beyond the tree fails and changes nothing; and once all indices are used every further signing request fails with an error instead of issuing a signature. The basic wallet likewise issues each index at most once while its index is not explicitly set, and refuses to sign when its index is beyond the tree.",
  ["histories"],
  "all sequences of sign / set-index (legal, backwards, out of range, extreme values) / query calls on a wallet, up to and beyond exhaustion",
  "One-time key reuse is a property of whole histories; the tests sign a few times and check one rewind.",
  ["src/qrl/xmssFast.cpp", "src/qrl/xmssBasic.cpp", "src/qrl/xmssBase.cpp", "src/xmss-alt/algsxmss_fast.c", "src/xmss-alt/algsxmss.c"],
  [("index range and rewind checks", "src/xmss-alt/algsxmss_fast.c: xmssfast_update"),
   ("index advanced before the signature is returned", "src/xmss-alt/algsxmss_fast.c: xmssfast_Signmsg; src/xmss-alt/algsxmss.c: xmss_Signmsg")],
  ["index field of each signature", "getIndex()", "getRemainingSignatures()", "exceptions"],
  [dict(name="index", meaning="next unused one-time key", where="first four bytes of the secret key, src/qrl/xmssBase.h _sk")])

p("C06", "A signature depends only on wallet, index and message, never on the route",
  "The signature for a message at an index is bit-for-bit the one the XMSS scheme defines (computed independently), whether the index was reached by signing, by one jump, by several jumps or after failed calls, and is the same from the basic wallet, the incremental wallet and a restored copy.",
  ["histories", "inputs", "configurations"],
  "all routes (interleavings of sign and jumps) to each index, for all seeds, heights, hash functions, Winternitz parameters and messages",
  "The tests compare basic and fast wallets along a single sequential route with one seed.",
  ["src/xmss-alt/algsxmss_fast.c", "src/xmss-alt/algsxmss.c", "src/xmss-alt/wots.c", "src/qrl/xmssFast.cpp"],
  [("incremental traversal equals full-tree computation", "src/xmss-alt/algsxmss_fast.c: bds_round, bds_treehash_update"),
   ("deterministic randomiser", "src/xmss-alt/algsxmss.c: xmss_Signmsg; src/xmss-alt/algsxmss_fast.c: xmssfast_Signmsg")],
  ["sign() return value"])

p("C07", "One published signature gives no chain value usable for another message",
  "In every signature, for every supported Winternitz parameter, the checksum chains are positioned at the base-w encoding of the sum of the remaining steps of the message chains, so for two digests with different digits at least one chain of the first signature lies beyond the position the second needs. A forged signature made by advancing chains of a genuine one is therefore never accepted for a different digest.",
  ["inputs", "configurations"],
  "all message digests (including crafted ones with extreme checksums) x Winternitz parameters 2, 4, 16, 256 x hash functions",
  "Signing and verifying share the checksum code, so a wrong checksum still round-trips and no test can see it; only the relation over pairs of digests shows it.",
  ["src/xmss-alt/wots.c", "src/rust_wrapper/xmss_alt/wots.rs"],
  [("checksum over message digits", "src/xmss-alt/wots.c: wots_sign, wots_pkFromSig, base_w, wots_set_params")],
  ["chain positions recovered from sign() output", "XmssBase::verify() on chain-advanced forgeries"])

p("C08", "Backups restore the same wallet",
  "A wallet rebuilt from its extended seed - as bytes, as a hexadecimal string or as a mnemonic phrase - has the same seed, height, hash function, address format, keys, address and, index by index, the same signatures as the original. The extended seed consists of the three descriptor bytes followed by the 48 seed bytes.",
  ["inputs", "configurations"],
  "all seeds x heights x hash functions x backup encodings",
  "The tests restore one or two fixed wallets; encoding errors show only for particular byte values or parameters.",
  ["src/qrl/xmssBase.cpp", "src/qrl/xmssFast.cpp", "src/qrl/qrlDescriptor.h", "src/qrl/misc.cpp"],
  [("extended seed constructor", "src/qrl/xmssBase.cpp: XmssBase(extended_seed), getExtendedSeed"),
   ("hex and mnemonic codecs", "src/qrl/misc.cpp")],
  ["getExtendedSeed()", "getPK()", "getAddress()", "sign()"])

p("C09", "Descriptors encode parameters losslessly and reject what they cannot express",
  "Encoding a descriptor and decoding it (from three bytes, an extended seed or an extended public key) returns the same hash function, signature scheme, height (even, up to 30) and address format, with the documented bit layout and distinct encodings for distinct parameters. Decoding byte strings of the wrong length, or bytes naming an unknown hash function or a signature scheme other than XMSS, is either refused or reports the values that were actually encoded - never silently a different supported scheme.",
  ["inputs"],
  "all 2^24 three-byte descriptors, all field combinations, all lengths of containing strings",
  "The tests decode three fixed descriptors.",
  ["src/qrl/qrlDescriptor.h", "src/rust_wrapper/qrl/qrl_descriptor.rs"],
  [("nibble packing and unpacking", "src/qrl/qrlDescriptor.h: getBytes, fromBytes; src/rust_wrapper/qrl/qrl_descriptor.rs")],
  ["getBytes()", "fromBytes()", "fromExtendedSeed()", "fromExtendedPK()"])

p("C10", "Addresses are derived from the public key and reject corruption",
  "The address of an extended public key is its descriptor, the SHA-256 of the whole extended public key and the last four bytes of the SHA-256 of those 35 bytes; it always validates, different keys give different addresses, and wallets report the same address as their public key. Validation accepts a 39-byte string exactly when its descriptor is supported and its checksum is right, so corrupting any byte, or adding or removing bytes, is rejected, and arbitrary input never crashes it.",
  ["inputs"],
  "all extended public keys x all byte corruptions, truncations and extensions of addresses, and arbitrary byte strings",
  "The tests check a few fixed addresses and three corrupted ones.",
  ["src/qrl/qrlHelper.h", "src/rust_wrapper/qrl/qrl_helper.rs", "src/qrl/xmssBase.cpp"],
  [("address construction and checksum comparison", "src/qrl/qrlHelper.h: getAddress, addressIsValid")],
  ["getAddress()", "addressIsValid()"])

p("C11", "Mnemonic phrases encode bytes bijectively",
  "Every non-empty byte string whose length is a multiple of three encodes to a phrase of two words per three bytes, twelve bits per word from a fixed list of 4096 distinct words, and decodes back to the same bytes; other lengths are refused. Words are separated by white space. Decoding refuses phrases with an odd number of words or a word outside the list, and never returns bytes that differ from what the words encode.",
  ["inputs"],
  "all byte strings and all texts (valid words, unknown words, odd counts, unusual spacing)",
  "The tests decode a few fixed phrases; each of 4096 words and each bit position matters.",
  ["src/qrl/misc.cpp", "src/qrl/wordlist.cpp", "src/rust_wrapper/qrl/misc.rs", "src/rust_wrapper/qrl/wordlist.rs"],
  [("12-bit packing", "src/qrl/misc.cpp: bin2mnemonic, mnemonic2bin"), ("word list", "src/qrl/wordlist.cpp")],
  ["bin2mnemonic()", "mnemonic2bin()"])

p("C12", "Hexadecimal strings encode bytes bijectively",
  "Every byte string encodes to two lower-case hexadecimal digits per byte (optionally wrapped with a line break after every given number of bytes, which changes nothing else) and decodes back to itself; decoding accepts upper and lower case and refuses an odd number of characters or any non-hexadecimal character. Text converts to its bytes unchanged, including embedded zero and non-ASCII bytes.",
  ["inputs"],
  "all byte strings, wrap widths and character strings",
  "The tests use a few fixed short strings.",
  ["src/qrl/misc.cpp", "src/rust_wrapper/qrl/misc.rs"],
  [("hex codec", "src/qrl/misc.cpp: bin2hstr, hstr2bin, str2bin")],
  ["bin2hstr()", "hstr2bin()", "str2bin()"])

p("C13", "Hash functions compute SHAKE-128, SHAKE-256 and SHA-256 exactly",
  "For every input length and every output length the SHAKE-128, SHAKE-256 and SHA-256 entry points return the digest the standards define (computed independently); a shorter SHAKE output is a prefix of a longer one; iterated SHA-256 equals repeated application and a zero count is refused. Inputs are not modified and no byte outside the output is written.",
  ["inputs"],
  "all inputs and output lengths, including every length around the block boundaries",
  "The tests check a handful of inputs; padding and squeezing errors appear only at particular input and output lengths.",
  ["src/xmss-alt/fips202.c", "src/qrl/hashing.cpp", "src/shasha/shasha.cpp", "src/rust_wrapper/xmss_alt/fips202.rs", "src/rust_wrapper/qrl/hashing.rs"],
  [("Keccak permutation, absorb and squeeze", "src/xmss-alt/fips202.c"), ("wrappers", "src/qrl/hashing.cpp, src/shasha/shasha.cpp")],
  ["shake128(), shake256(), sha2_256(), sha2_256_n()"])

p("C14", "Hash-chain seeds are determined by seed, shift and position",
  "The i-th hash-chain seed is SHAKE-256 with 32 bytes of output over the seed followed by the 32-bit little-endian shift and the 32-bit little-endian position i; asking for more seeds only appends to the list, and different shifts or positions give different seeds. The requested number of seeds is returned, each of 32 bytes.",
  ["inputs"],
  "all seeds of any length x shifts x counts, including positions above 255 and shifts using every byte",
  "The tests pin a few entries with small shifts and counts.",
  ["src/qrl/misc.cpp", "src/rust_wrapper/qrl/misc.rs"],
  [("counter encoding", "src/qrl/misc.cpp: getHashChainSeed")],
  ["getHashChainSeed()"])

p("C15", "Random seeds use full OS entropy plus the caller's entropy, or fail",
  "Generating a random seed returns exactly the requested number of bytes, consumes at least as many fresh bytes of operating-system randomness, and every one of those bytes and every byte of the caller's entropy string influences the result. If the operating-system source is missing or runs short the call fails with an error and never returns a seed.",
  ["inputs", "fault_sequences"],
  "all sizes and entropy strings x contents and failures (missing, short, empty) of the randomness source",
  "The tests only check the length of two outputs; they cannot control the randomness source.",
  ["src/qrl/misc.cpp"],
  [("OS randomness read and checked, then mixed", "src/qrl/misc.cpp: getRandomSeed")],
  ["getRandomSeed() under a substituted randomness source"])

p("C16", "A tree pool hands out exactly the trees its seed and index define, in order",
  "The n-th tree a pool returns is the fresh wallet whose seed is SHAKE-256 (48 bytes) of the base seed followed by the one-based tree number in minimal little-endian form, at the pool's height, for consecutive numbers from the starting index. The result does not depend on the cache size, the starting point of another pool, or timing; the reported current index is always the next one to be handed out.",
  ["histories", "inputs", "configurations"],
  "all base seeds, heights, starting indices (including multi-byte ones), cache sizes (including zero) and call sequences",
  "The tests pin ten trees of one pool configuration.",
  ["src/qrl/xmssPool.cpp", "src/qrl/xmssPool.h"],
  [("per-index derivation", "src/qrl/xmssPool.cpp: prepareTree"), ("cache refill", "src/qrl/xmssPool.cpp: fillCache, getNextTree")],
  ["getNextTree()", "getCurrentIndex()", "isAvailable()"])

p("C17", "Concurrent pool users each get a different tree and none is skipped",
  "When any number of threads take trees from one pool at the same time, with any cache size, every index from the starting one on is handed out exactly once, every tree is the right one for its index, the pool's index ends at start plus number of trees taken, and no call crashes, deadlocks or races on shared data. Querying availability and the current index concurrently is safe, and destroying a pool with trees still being prepared is safe.",
  ["schedules", "histories"],
  "all interleavings of getNextTree / isAvailable / getCurrentIndex / destruction over threads and cache sizes",
  "The tests use a pool from a few threads under whatever schedule occurs, without a race detector.",
  ["src/qrl/xmssPool.cpp", "src/qrl/xmssPool.h"],
  [("mutex around cache and index", "src/qrl/xmssPool.cpp: getNextTree, isAvailable, getCurrentIndex")],
  ["trees returned to each thread", "ThreadSanitizer reports"],
  [dict(name="cache", meaning="futures of prepared trees", where="src/qrl/xmssPool.h"), dict(name="current index", meaning="next tree number", where="src/qrl/xmssPool.h")])

p("C18", "A wallet that can be constructed is usable; bad parameters are refused",
  "Constructing a wallet with a seed or extended seed of the wrong length, an odd, too small or unrepresentable height, or an unknown hash function, signature scheme or address format (and asking for a tree with an unsupported Winternitz parameter) fails with an invalid-argument error. Every construction that succeeds yields a wallet whose descriptor decodes back to the requested parameters and whose first signature verifies.",
  ["inputs", "configurations"],
  "all seed lengths, all 256 heights, all extended-seed descriptors, all enumeration values including undeclared ones",
  "The tests try one or two bad values.",
  ["src/qrl/xmssBase.cpp", "src/qrl/xmssBasic.cpp", "src/qrl/xmssFast.cpp", "src/qrl/qrlDescriptor.h"],
  [("constructor validation", "src/qrl/xmssBase.cpp, src/qrl/xmssBasic.cpp, src/qrl/xmssFast.cpp")],
  ["constructor exceptions", "getDescriptor()", "verify()"])

p("C19", "Advertised sizes and capacities match what wallets produce",
  "For every supported height and Winternitz parameter (2, 4, 16, 256) the advertised signature size is 4 + 32 + 32 x (number of chains + height) and equals the size of signatures actually produced, the height computed from a signature size inverts it and refuses sizes that are no signature size, and public and secret keys have the advertised 67 and 132 bytes. The number of signatures is two to the height and the remaining count is that minus the current index at every moment.",
  ["inputs", "histories"],
  "all heights x Winternitz parameters x candidate sizes x reachable indices",
  "The tests check three heights and one invalid size.",
  ["src/qrl/xmssBase.cpp", "src/qrl/xmssBase.h", "src/xmss-alt/wots.c"],
  [("size arithmetic", "src/qrl/xmssBase.cpp: getSignatureSize, calculateSignatureBaseSize, getHeightFromSigSize"), ("chain count", "src/xmss-alt/wots.c: wots_set_params")],
  ["getSignatureSize()", "getHeightFromSigSize()", "getNumberSignatures()", "getRemainingSignatures()"])

p("C20", "Wallets are isolated from each other, from copies and across threads",
  "Interleaving operations on any number of wallets, in one thread or with each wallet on its own thread, gives exactly the results each wallet gives when used alone, and a copy of a wallet behaves as an independent wallet that continues from the copied state even after the original is used or destroyed. Verification may run concurrently with anything.",
  ["schedules", "histories"],
  "all interleavings of operations over several wallets, copies and destructions",
  "The tests use one wallet at a time and never copy one.",
  ["src/qrl/xmssFast.cpp", "src/qrl/xmssFast.h", "src/xmss-alt/algsxmss_fast.c", "src/xmss-alt/hash.c"],
  [("all state inside the wallet object", "src/qrl/xmssFast.h"), ("no shared mutable globals", "src/xmss-alt/*.c")],
  ["sign(), getPK() of each wallet against a solo run", "ThreadSanitizer and AddressSanitizer reports"])

p("C21", "The Rust implementation signs and verifies identically to the C++ one",
  "For every seed, height, hash function, Winternitz parameter, index history and message, the Rust wallets produce the same keys, addresses, extended seeds and bit-identical signatures as the C++ wallets, accept and reject the same calls (range, rewind, exhaustion), and Rust verification accepts exactly the triples C++ verification accepts. No input to a function that can report an error, and no input to verification, makes the Rust side panic.",
  ["inputs", "histories", "configurations"],
  "all parameters, operation histories and verification inputs, run through both implementations",
  "Each language's tests pin their own few golden values; nothing compares the two on other inputs.",
  ["src/rust_wrapper/qrl/xmss_base.rs", "src/rust_wrapper/qrl/xmss_basic.rs", "src/rust_wrapper/qrl/xmss_fast.rs", "src/rust_wrapper/xmss_alt/algsxmss.rs", "src/rust_wrapper/xmss_alt/algsxmss_fast.rs", "src/rust_wrapper/xmss_alt/wots.rs", "src/rust_wrapper/xmss_alt/xmss_common.rs", "src/rust_wrapper/xmss_alt/hash.rs"],
  [("port of the C++ code", "src/rust_wrapper/xmss_alt, src/rust_wrapper/qrl")],
  ["both implementations called on the same generated input"])

p("C22", "The Rust codecs and hashes agree with the C++ ones on every input",
  "Rust and C++ agree - same result or both refuse - on hexadecimal and mnemonic encoding and decoding, descriptors, addresses and address validation, hash-chain seeds and all hash functions, and the Rust random-seed generator returns the requested length with the caller's entropy mixed in. No input to a function that can report an error makes the Rust side panic.",
  ["inputs"],
  "all byte strings and texts through both implementations",
  "Each language's tests pin a few fixed values; nothing compares the two.",
  ["src/rust_wrapper/qrl/misc.rs", "src/rust_wrapper/qrl/hashing.rs", "src/rust_wrapper/qrl/qrl_helper.rs", "src/rust_wrapper/qrl/qrl_descriptor.rs", "src/rust_wrapper/qrl/wordlist.rs", "src/rust_wrapper/xmss_alt/fips202.rs", "src/rust_wrapper/shasha/shasha.rs"],
  [("port of the C++ helpers", "src/rust_wrapper/qrl")],
  ["both implementations called on the same generated input"])

p("C23", "The Rust tree pool hands out exactly the trees its seed and index define",
  "The n-th tree of a Rust pool is the fresh wallet whose seed is the SHA-256 of the base seed in hexadecimal followed by the decimal one-based tree number, extended by its own first sixteen bytes, at the pool's height, for consecutive numbers from the starting index, whatever the cache size. The reported current index is always the next one to be handed out, also with an empty cache.",
  ["histories", "inputs", "configurations"],
  "all base seeds, heights, starting indices, cache sizes (including zero) and call sequences",
  "The tests pin ten trees of one configuration.",
  ["src/rust_wrapper/qrl/xmss_pool.rs"],
  [("per-index derivation and cache refill", "src/rust_wrapper/qrl/xmss_pool.rs")],
  ["get_next_tree()", "get_current_index()", "is_available()"])

p("C24", "Dilithium signing wrapper preserves messages and refuses what it cannot verify",
  "For every message, including the empty one, a signed message made with a key pair opens successfully under its public key, its message and signature parts are recovered exactly, and it is exactly one signature longer than the message; opening with another key, or after any change, fails. Keys, signed messages and public keys of the wrong size are refused with an error instead of being read out of bounds, in C++ and in Rust.",
  ["inputs", "histories"],
  "all messages, key pairs, corruptions and sizes of every argument (with a model of the underlying primitive)",
  "The tests sign one or two fixed messages and never pass wrong sizes.",
  ["src/dilithium/dilithium.cpp", "src/dilithium/dilithium.h", "src/rust_wrapper/dilithium/dilithium.rs"],
  [("buffer sizing and result mapping", "src/dilithium/dilithium.cpp"), ("Rust wrapper", "src/rust_wrapper/dilithium/dilithium.rs")],
  ["sign(), sign_open(), extract_message(), extract_signature()"])

p("C25", "Kyber wrapper agrees on keys and refuses what it cannot use",
  "For any two key pairs, encapsulating to a public key and decapsulating the cipher text with the matching secret key gives both sides the same 32-byte key, and decapsulating with another secret key or a changed cipher text does not; repeating operations on the same objects always reflects the latest one. Keys and cipher texts of the wrong size are refused with an error instead of being read out of bounds, in C++ and in Rust.",
  ["inputs", "histories"],
  "all key pairs, operation sequences over several parties, corruptions and sizes of every argument (with a model of the underlying primitive)",
  "The tests run one exchange with right-sized inputs.",
  ["src/kyber/kyber.cpp", "src/kyber/kyber.h", "src/rust_wrapper/kyber/kyber.rs"],
  [("buffer sizing and result mapping", "src/kyber/kyber.cpp"), ("Rust wrapper", "src/rust_wrapper/kyber/kyber.rs")],
  ["kem_encode(), kem_decode(), getMyKey(), getCypherText()"])

p("C26", "The JavaScript bindings behave exactly like the core library",
  "Every function and class exported to JavaScript gives the result of the core operation it stands for: wallets made from parameters, hexadecimal seeds or mnemonics equal the core wallet, addresses and keys are the core ones in hexadecimal (addresses prefixed with Q for wallets), address inspection and validation agree with the core on every string, and the Dilithium and Kyber classes preserve messages and agree on keys. Malformed strings raise an error and never read out of bounds or recurse without end.",
  ["inputs", "histories"],
  "all exported functions x valid and malformed arguments, compiled natively against a recording binding layer",
  "The JavaScript tests need a wasm build, use a few fixed values, and cover only part of the exports.",
  ["src/jswrapper/jsqrlwrapper.cpp", "src/jswrapper/jsdilwrapper.cpp", "src/jswrapper/jskybwrapper.cpp"],
  [("thin wrappers over the core", "src/jswrapper/*.cpp")],
  ["values returned through the exported bindings"])

p("C27", "The JavaScript seed generator returns fresh CSPRNG bytes or throws",
  "The JavaScript seed generator returns exactly the requested number of bytes (48 by default), each one the byte delivered by the platform's cryptographic generator in the same position, and never anything else. It throws - and never falls back to another source - when the size is not a positive integer, the cryptographic generator is missing or fails, or a request of 16 bytes or more yields only zeroes.",
  ["inputs", "fault_sequences"],
  "all sizes x platform shapes (global, self, window, missing, broken, throwing) x generator outputs including nearly all-zero ones",
  "The tests run in one healthy environment; they cannot enumerate environments and generator outputs.",
  ["src/jswrapper/getRandomSeed.js"],
  [("fail-closed checks", "src/jswrapper/getRandomSeed.js")],
  ["getRandomSeed() under substituted platform objects"])

# The Rust implementation has the same guarantees; its counterparts of the C++ files above.
R = "src/rust_wrapper/"
SIGN = [R + "qrl/xmss_base.rs", R + "qrl/xmss_fast.rs", R + "qrl/xmss_basic.rs", R + "xmss_alt/algsxmss.rs", R + "xmss_alt/algsxmss_fast.rs", R + "xmss_alt/wots.rs", R + "xmss_alt/xmss_common.rs", R + "xmss_alt/hash.rs"]
VERIFY = [R + "qrl/xmss_base.rs", R + "qrl/qrl_descriptor.rs", R + "xmss_alt/xmss_common.rs", R + "xmss_alt/wots.rs", R + "xmss_alt/hash.rs"]
RUST = dict(C01=SIGN, C02=VERIFY, C03=VERIFY, C04=SIGN, C05=SIGN, C06=SIGN, C07=[R + "xmss_alt/wots.rs"], C08=[R + "qrl/xmss_base.rs", R + "qrl/misc.rs", R + "qrl/qrl_descriptor.rs"],
    C09=[R + "qrl/qrl_descriptor.rs"], C10=[R + "qrl/qrl_helper.rs"], C11=[R + "qrl/misc.rs", R + "qrl/wordlist.rs"], C12=[R + "qrl/misc.rs"],
    C13=[R + "xmss_alt/fips202.rs", R + "shasha/shasha.rs", R + "qrl/hashing.rs"], C14=[R + "qrl/misc.rs"], C15=[R + "qrl/misc.rs"], C18=[R + "qrl/xmss_base.rs", R + "qrl/xmss_fast.rs", R + "qrl/xmss_basic.rs"],
    C19=[R + "qrl/xmss_base.rs"], C20=SIGN)
for x in P:
    x["anchors"]["files"] += RUST.get(x["id"], [])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
