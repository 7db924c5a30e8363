"""Which builds decide which property, and how much of each."""
_INC = []
FLAVOURS = {
    "opt": dict(flags=["-O2"]),
    "asan": dict(flags=["-O1", "-fno-omit-frame-pointer", "-fsanitize=address", "-fsanitize=bounds,vla-bound,integer-divide-by-zero,null,return", "-fno-sanitize-recover=all"], time_scale=4),
    "tsan": dict(flags=["-O1", "-fsanitize=thread"], time_scale=10),
    "fuzz": dict(cxx="clang++", flags=["-O2", "-fsanitize=address,fuzzer-no-link"], own_flags=["-O2", "-DPBT_FUZZ"], link=["-fsanitize=fuzzer"]),
    "tfuzz": dict(cxx="clang++", flags=["-O2", "-fsanitize=fuzzer-no-link"], own_flags=["-O2", "-DPBT_FUZZ"],
                  link=["-fsanitize=fuzzer", "-Wl,--wrap=_Z8shake128PhyPKhy,--wrap=_Z8shake256PhyPKhy,--wrap=sha2_256"], confirm=["toy", "opt", "asan"]),
    "tall": dict(flags=["-O2"], link=["-Wl,--wrap=_Z8shake128PhyPKhy,--wrap=_Z8shake256PhyPKhy,--wrap=sha2_256,--wrap=_Z10wots_pkgen13eHashFunctionPhPKhPK11wots_paramsS2_Pj,--wrap=_Z6l_tree13eHashFunctionPK11wots_paramsPhS3_PKhPj"]),
    "rtall": dict(flags=["-O2"], optional=True),
    "toy": dict(flags=["-O2"], link=["-Wl,--wrap=_Z8shake128PhyPKhy,--wrap=_Z8shake256PhyPKhy,--wrap=sha2_256,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock"]),
}
GROUPS = {
    "xmss1": dict(src=["props_xmss1.cpp"], libs=["-ldl"]),
    "xmss2": dict(src=["props_xmss2.cpp"]),
    "codec": dict(src=["props_codec.cpp"]),
    "tall": dict(src=["props_tall.cpp"]),
    "rand": dict(src=["props_rand.cpp"], libs=["-ldl"]),
    "pool": dict(src=["props_pool.cpp"], libs=["-ldl"]),
    "pq": dict(src=["props_pq.cpp"]),
    "js": dict(src=["props_js.cpp"], js=True),
    "rtall": dict(src=["props_rtall.cpp", "rustcall.cpp"], rust="tall", libs=["-ldl"]),
    "rust": dict(src=["props_rust.cpp", "props_rustw.cpp", "rustcall.cpp"], rust=True, libs=["-ldl"]),
}
A_PURE = "The reference model in src/ref.cpp (written from FIPS 180-4, FIPS 202, RFC 8391 and the documented QRL formats) is right; it reproduces golden vectors at start-up."
A_TOY = "In the toy-hash build the library's three hash entry points are replaced by a cheap non-cryptographic function; it is used only while a small wallet of that build agrees with the model."
A_TALL = "In the tall build leaves additionally are one cheap hash of the one-time seed and addresses, so that trees of millions of leaves can be built and walked; nothing verifies there, signatures are compared with the model. The same is done to a copy of the Rust sources."
A_RUST = "The Rust sources are built as a static library with the crates cached offline (sha2 0.10.9, rand 0.8, rayon 1.12, crossbeam-channel 0.5) and overflow checks on."
A_PQ = "The Dilithium and Kyber primitives are empty submodules here; src/mock_pq.cpp stands in for them and keeps the contract the wrappers rely on; the Rust wrappers run over stand-ins of the pqcrypto crates."

def R(flavour, group, scale=1, **kw):
    return dict(flavour=flavour, group=group, scale=scale, **kw)

CHECKS = {
    "C01": dict(runs=[R("opt", "xmss1"), R("toy", "xmss1", 0.6), R("asan", "xmss1", 0.03), R("tall", "tall"), R("opt", "rust"), R("rtall", "rtall")], fuzz=("tfuzz.xmss1", ["history_verifies"], 0), assumptions=[A_RUST, A_PURE, A_TALL, A_TOY],
        rule="A case is a wallet (seed, hash function, height, Winternitz parameter, kind) and a history of signing requests, legal jumps and failing calls, or a full walk over all indices; non-trivial: at least two signatures of it were verified."),
    "C04": dict(runs=[R("opt", "xmss1"), R("toy", "xmss1"), R("tall", "tall"), R("opt", "rust"), R("rtall", "rtall")], assumptions=[A_RUST, A_PURE, A_TALL, A_TOY],
        rule="A case is a seed and parameters whose keys are compared with the reference tree, or a pair differing in one seed bit or parameter; all are non-trivial."),
    "C05": dict(runs=[R("opt", "xmss1"), R("toy", "xmss1"), R("tall", "tall"), R("opt", "rust"), R("rtall", "rtall")], fuzz=("tfuzz.xmss1", ["one_time_indices", "basic_wallet_indices"], 0), assumptions=[A_RUST, A_PURE, A_TALL, A_TOY],
        rule="A case is a history of sign and set-index requests (legal, backwards, out of range); non-trivial: at least two signatures were issued and at least one request had to be refused."),
    "C06": dict(runs=[R("opt", "xmss1"), R("toy", "xmss1"), R("tall", "tall"), R("opt", "rust"), R("rtall", "rtall")], fuzz=("tfuzz.xmss1", ["signature_is_the_schemes", "routes_with_any_k"], 0), assumptions=[A_RUST, A_PURE, A_TALL, A_TOY],
        rule="A case is a wallet and a route of signatures, jumps and failing calls; non-trivial: at least one signature was compared bit for bit with the reference."),
    "C08": dict(runs=[R("opt", "xmss1"), R("asan", "xmss1", 0.1), R("tall", "tall"), R("opt", "rust")], assumptions=[A_RUST, A_PURE, A_TALL],
        rule="A case is a wallet backed up as bytes, hex, upper-case hex or mnemonic and rebuilt; all are non-trivial."),
    "C02": dict(runs=[R("opt", "xmss2"), R("asan", "xmss2", 0.05), R("opt", "rust")], fuzz=("tfuzz.xmss2", ["mutations_rejected"]), assumptions=[A_RUST, A_PURE],
        rule="A case is a genuine signature (any height 4..30 and index, or from a wallet) and several changed or spliced triples, each verified; non-trivial: at least two changed triples were tried."),
    "C03": dict(runs=[R("opt", "xmss2"), R("asan", "xmss2", 0.25), R("opt", "rust")], fuzz=("tfuzz.xmss2", ["small_queries"], 20, 64), assumptions=[A_RUST, A_PURE],
        rule="A case is a few (message, signature, public key, w) queries, genuine, near-valid or arbitrary, each answered by library and model; non-trivial: at least one has a 67-byte key, a supported w and a signature of 36 bytes or more."),
    "C07": dict(runs=[R("opt", "xmss2"), R("toy", "xmss2"), R("opt", "rust")], assumptions=[A_RUST, A_PURE, A_TOY],
        rule="A case is a signature whose chain positions are recovered and compared with the base-w encoding of digest and checksum, or a forgery made by advancing chains (in the toy-hash build towards a crafted digest); non-trivial: all positions were recovered, or at least one chain was advanced."),
    "C18": dict(runs=[R("opt", "xmss2"), R("asan", "xmss2", 0.1), R("tall", "tall"), R("opt", "rust")], fuzz=("xmss2", ["construction", "extended_seed_headers"]), assumptions=[A_RUST, A_PURE, A_TALL, "Constructions with legal heights above 8 run only in the tall build (up to 22, thorough 26); all illegal heights are run."],
        rule="A case is a construction with all parameters good or exactly one bad, or a block of extended-seed headers; all are non-trivial."),
    "C19": dict(runs=[R("opt", "xmss2"), R("toy", "xmss2", 0.5), R("tall", "tall"), R("opt", "rust"), R("rtall", "rtall")], fuzz=("xmss2", ["height_from_signature_size"]), assumptions=[A_RUST, A_PURE, A_TALL, A_TOY],
        rule="A case is a wallet whose sizes and counts are read along a history, or twenty candidate signature sizes; all are non-trivial."),
    "C20": dict(runs=[R("opt", "xmss2"), R("asan", "xmss2", 0.15), R("tsan", "xmss2", 0.25, only="_on_threads"), R("tall", "tall"), R("opt", "rust")], assumptions=[A_RUST, A_PURE, A_TALL, "Thread schedules are whatever the kernel produces; ThreadSanitizer reports races on the schedules seen."],
        rule="A case is several wallets run alone, interleaved, copied or on threads; non-trivial: at least four interleaved operations, or at least one copy and two signatures, or two or more threads."),
    "C09": dict(runs=[R("opt", "codec"), R("opt", "rust", 3)], fuzz=("codec", ["containers_decode_the_header"]), assumptions=[A_RUST, "The bit layout is the documented one: hash function, scheme, height / 2, address format, in nibbles."],
        rule="A case is a block of 16384 of the 2^24 descriptors (each run visits all of them), or fields, containers and lengths; non-trivial: at least one descriptor was decoded."),
    "C10": dict(runs=[R("opt", "codec", 12), R("asan", "codec", 1), R("opt", "rust", 6)], fuzz=("codec", ["addresses_of_keys", "arbitrary_bytes"]), assumptions=[A_RUST, A_PURE],
        rule="A case is a key with its address and twelve damaged addresses, arbitrary bytes, or a wallet; non-trivial: a 39-byte string was judged."),
    "C11": dict(runs=[R("opt", "codec", 6), R("asan", "codec", 0.6), R("opt", "rust", 8)], fuzz=("codec", ["phrases", "arbitrary_text", "bytes_round_trip"]), assumptions=[A_RUST, "golden/wordlist.txt is the word list."],
        rule="A case is a byte string, a block of words, a phrase (valid, unknown words, odd counts, unusual spacing) or arbitrary text; non-trivial: at least two words, or bytes to encode."),
    "C12": dict(runs=[R("opt", "codec", 15), R("asan", "codec", 1.5), R("opt", "rust", 8)], fuzz=("codec", ["bytes_round_trip", "strings"]), assumptions=[A_RUST],
        rule="A case is a byte string with a wrap width, a (damaged) hexadecimal string, or all pairs with one first character; non-trivial: not empty."),
    "C13": dict(runs=[R("opt", "codec", 15), R("asan", "codec", 2), R("opt", "rust", 6)], fuzz=("codec", ["digests"]), assumptions=[A_RUST, A_PURE, "SHA-256 itself comes from an empty submodule; stubs/PicoSHA2 stands in for it, the wrappers around it are the project's."],
        rule="A case is an input and an output length for every entry point, an input length with eighteen output lengths, or an iteration count; all but zero and one iterations are non-trivial."),
    "C14": dict(runs=[R("opt", "codec", 4), R("asan", "codec", 0.5), R("opt", "rust", 4)], fuzz=("codec", ["entries"]), assumptions=[A_RUST, A_PURE],
        rule="A case is a seed, shift and count, every entry compared; non-trivial: at least one entry."),
    "C15": dict(runs=[R("opt", "rand", 8), R("opt", "rust", 8)], assumptions=[A_RUST, "The randomness source is reached through files, getrandom or getentropy of the C library, which the harness substitutes."],
        rule="A case is a request with a controlled, missing, unreadable or short source, the healthy ones repeated with one byte of source or entropy changed; non-trivial: at least one influence was checked, or the source failed."),
    "C16": dict(runs=[R("opt", "pool", 0.7), R("toy", "pool", 3), R("asan", "pool", 0.08)], assumptions=[A_PURE],
        rule="A case is a pool (base seed, height, start, cache size) and a sequence of calls, or several pools over the same trees; all are non-trivial."),
    "C17": dict(runs=[R("opt", "pool", 0.5), R("toy", "pool", 10), R("tsan", "pool", 0.15), R("asan", "pool", 0.1)], assumptions=["Thread schedules are whatever the kernel produces; ThreadSanitizer reports races on the schedules seen."],
        rule="A case is a pool used by several threads and watched by others, or destroyed early; non-trivial: more than two trees were taken, or trees were in preparation at destruction."),
    "C24": dict(runs=[R("opt", "pq", 8), R("asan", "pq", 2), R("opt", "rust")], fuzz=("pq", ["sign_then_open", "wrong_sizes"]), assumptions=[A_PQ],
        rule="A case is one to three key pairs with signed messages that are opened, cut, changed and spliced, or a call with one argument of the wrong size; all are non-trivial."),
    "C25": dict(runs=[R("opt", "pq", 8), R("asan", "pq", 2), R("opt", "rust")], fuzz=("pq", ["parties", "wrong_sizes"]), assumptions=[A_PQ],
        rule="A case is two to four parties and a sequence of encapsulations, decapsulations, changed texts and refused calls, or a call with one argument of the wrong size; non-trivial: at least two parties agreed on a key, or a size was wrong."),
    "C26": dict(runs=[R("opt", "js"), R("asan", "js", 0.1)], fuzz=("js", ["codecs_and_hashes", "addresses", "malformed_wallets", "dilithium", "kyber"]), assumptions=[A_PURE, A_PQ, "embind itself is not available: stubs/emscripten/bind.h records the exported functions and calls them natively."],
        rule="A case is a set of arguments for the exported functions, well-formed and damaged, or an object of an exported class with a sequence of calls, compared with the core call or the model; all but empty arguments are non-trivial."),
    "C27": dict(node=True, assumptions=["getRandomSeed.js runs in Node contexts with a stand-in for the embind vector; its globals are replaced by generated ones."],
        technique="property-based testing: generated environments, sizes and generator outputs against an exact oracle, with shrinking",
        rule="A case is a platform shape and one to four calls, each with a size, what the generator delivers and how it behaves; non-trivial: at least one call has a default or numeric size."),
    "C21": dict(runs=[R("opt", "rust"), R("rtall", "rtall")], assumptions=[A_PURE, A_RUST],
        rule="A case is a pair of wallets (C++ and Rust) with a history of calls, a query for both verifiers, or construction parameters; non-trivial: at least one signature was compared, the query has a 67-byte key and a supported w, or any construction."),
    "C22": dict(runs=[R("opt", "rust")], assumptions=[A_PURE, A_RUST],
        rule="A case is bytes or text for the codecs, hashes, descriptors or addresses of both sides (every run visits all 2^24 descriptors), or a seed request with a controlled source; non-trivial: not empty, of a size the function accepts, or a seed of 12 bytes or more."),
    "C23": dict(runs=[R("opt", "rust")], assumptions=[A_PURE, A_RUST],
        rule="A case is a pool (base seed, height, start, cache size) and a sequence of calls; all are non-trivial."),
}
