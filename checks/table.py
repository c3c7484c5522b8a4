"""Which harnesses decide which property, within which bounds."""

def H(entry, covers=(), **kw):
    return dict(entry=entry, covers=list(covers), **kw)

AR = ["accepted", "rejected"]
NT, NT0 = 50, 57

TOKENS = ["a signature over a symbolic hash is a token that verifies exactly for the key and hash it was declared for; verification over concrete data runs libsecp256k1's code",
          "two hash terms over different symbolic data are taken to differ"]

CHECKS = {
    "C01": dict(
        bounds="0..3 inputs (thorough: 0..4), each with any subset of {time, height} requirements over their full 32-bit ranges; fallback lock time absent or any 32-bit value",
        harnesses=[
            H("h_lock", ["height", "time", "fallback", "conflict"]),
            H("h_lock_roles", ["signer ok", "signer refused"]),
        ]),
    "C03": dict(
        bounds="one stream of 1 input and 1 output (all mandatory pairs) plus one pair of each of the key types of each map kind, known, proprietary or unknown, with every accepted key data and value of the shapes listed in pairs.rs: "
               "symbolic contents, lengths at and around each specified length, 0..2 derivation steps and leaf hashes, up to 3 tap-tree leaves, keys from a fixed set of points, fixed DER signatures with every sighash byte",
        note="A tap tree is compared as the multiset of its leaves together with its Merkle root, because siblings have no order in it. Bytes that follow the compact size in a count value (which the BIP-375 vectors contain) are outside the claim.",
        harnesses=[H("h_pair_kept", AR, shards=NT), H("h_pair_kept", AR, shards=NT, variant="nosp", thorough_only=True), H("h_dup", ["distinct"], shards=NT)]),
    "C04": dict(
        bounds="1 input, 1 output; for each key type of each map kind two pairs with equal or different, symbolic key data and values, at every two places of the map; mandatory pairs with any two values",
        harnesses=[H("h_dup", ["distinct", "repeated"], shards=NT), H("h_dup_mand", ["repeated"], shards=8), H("h_dup_mand", ["repeated"], shards=8, variant="nosp")]),
    "C05": dict(
        bounds="0..2 inputs and outputs; claimed counts 0..3; every subset and order of the mandatory pairs of one map together with one unrelated pair; every value of the fixed-width fields, scripts of 0..2 bytes; every 5-byte magic; truncation at every byte; 0..2 trailing bytes; count values of every compact-size width",
        note="Bytes that follow the compact size inside a count value are tolerated by the code (the BIP-375 vectors need it) and outside the claim.",
        harnesses=[H("h_mand", AR, shards=3), H("h_mand", AR, shards=3, variant="nosp"), H("h_mand_form", AR, shards=8), H("h_counts", AR), H("h_magic", AR + ["truncated"], shards=2)]),
    "C06": dict(
        bounds="each key type of each map kind: key data and value lengths at and around each specified length, symbolic contents, 0..2 derivation steps and leaf hashes, tap trees of up to 3 leaves, keys from a fixed set of points and non-points (compressed, uncompressed, x-only), fixed DER signatures (well-formed and not) with every sighash byte, preimages of fixed content",
        harnesses=[H("h_pair_form", AR, shards=NT), H("h_pair_form", AR, shards=NT, variant="nosp", thorough_only=True), H("h_mand_form", AR, shards=8)]),
    "C07": dict(
        bounds="every 5 bytes (input map: 4; thorough: 6 and 5) at the start of the global, first input or first output map followed by nothing or zeros; every claimed count or length of 2, 4 or 8 bytes in 12 positions; every value of up to 4 (thorough: 6) bytes for every key type; the malformed and well-formed pairs of C06 and C10",
        assumptions=["allocations of symbolic size above 64 bytes are modelled by their first 16 KiB; an access beyond that would be reported as no verdict"],
        harnesses=[H("h_any", ["accepted", "rejected"], shards=6), H("h_claims", ["rejected"], shards=36), H("h_val", AR, shards=NT + NT0), H("h_pair_form", AR, shards=NT, thorough_only=True), H("h_pair0_form", AR, shards=NT0, thorough_only=True)]),
    "C08": dict(
        bounds="proprietary prefixes and key data of 0, 1, 3, 252, 253 bytes each and (2, 1024); injectivity for all pairs with prefixes and key data of 0..3 bytes; raw pairs with key data and values of 0, 1, 251..254 bytes and around 65535 (ends symbolic)",
        note="Key data above 1024 bytes in a proprietary key is refused by the code by design and outside the claim.",
        harnesses=[H("h_prop", ["proprietary", "other"], shards=2), H("h_prop_inj", ["pairs"]), H("h_raw", ["raw"], shards=4)]),
    "C10": dict(
        bounds="as C03-C06 for v0: 1 input, 1 output, one extra pair of each key type of each map kind with symbolic key data and values of all shapes; two pairs of each type at every two places; unsigned transactions with 0..2 inputs, symbolic contents, script sigs of 0..1 bytes, trailing or missing bytes; version absent or any; every magic, truncation at every byte",
        note="An explicit version 0 is not written again. Tap trees as in C03.",
        harnesses=[H("h_pair0_form", AR, shards=NT0), H("h_pair0_kept", AR, shards=NT0), H("h_dup0", ["distinct", "repeated"], shards=NT0), H("h_mand0", AR, shards=12), H("h_dup_mand0", ["repeated"]), H("h_magic", AR + ["truncated"], shards=2)]),
    "C02": dict(
        bounds="1 input and 1 output with each field of each map kind (known, proprietary, unknown types) set to every well-formed value of the shapes in pairs.rs (lengths around compact-size boundaries, up to 253 leaf hashes or witness elements, paths of 0..3 and 64 steps), alone, with a second entry, and with all other fields set; 0..3 and 252/253 inputs and outputs with symbolic mandatory fields; keys from a fixed set",
        note="Tap trees are compared as leaves and Merkle root. The text form is covered by C35.",
        harnesses=[H("h_ser", ["parsed", "full"], shards=NT), H("h_ser", ["parsed", "full"], shards=NT, variant="nosp"), H("h_ser_mand", ["parsed"], shards=9)]),
    "C09": dict(
        bounds="as C02 for v0: each field of each map kind alone, with a second entry and with all others; unsigned transactions with 0..3 inputs and 0..2 outputs with symbolic fields",
        harnesses=[H("h_ser0", ["parsed", "full"], shards=NT0), H("h_ser0_mand", ["parsed"], shards=6)]),
    "C11": dict(
        bounds="1 input and 1 output (or 2 each, the field in the second): each field of each map kind present in one or both of the PSBTs, with equal or different symbolic keys and values, all other fields absent, in the one or in the other",
        harnesses=[H("h_comb", ["combined"], shards=NT), H("h_comb", ["combined"], shards=NT, variant="nosp", thorough_only=True), H("h_comb_diff", ["combined", "refused"])]),
    "C12": dict(
        bounds="0..2 inputs and outputs on either side, all transaction-defining fields symbolic (scripts of 1..2 bytes), v2 and v0",
        harnesses=[H("h_comb_diff", ["combined", "refused"]), H("h_comb_diff0", ["combined", "refused"])]),
    "C13": dict(
        bounds="three PSBTs of one transaction with 1 input and 1 output: each field of each map kind in every non-empty subset of the three, a second entry in one of them, all other fields absent or in one of the first two",
        harnesses=[H("h_comb_laws", ["combined"], shards=NT), H("h_comb_laws0", ["combined"], shards=NT0)]),
    "C14": dict(
        bounds="as C11 for v0; versions of 32 bits; transactions with 0..2 inputs and outputs",
        harnesses=[H("h_comb0", ["combined"], shards=NT0), H("h_comb_diff0", ["combined", "refused"])]),
    "C15": dict(
        bounds="two origins with symbolic fingerprints and 0..3 (thorough: 0..4) symbolic steps each for one xpub, another xpub beside it or not, both orders, v2 and v0",
        harnesses=[H("h_comb_xpub", ["merged", "refused"], shards=4)]),
    "C16": dict(
        bounds="0..3 inputs and 0..3 outputs with every 64-bit amount; each input without UTXO, with a witness UTXO, a previous transaction of 0..2 outputs, or both, and any 32-bit index",
        harnesses=[H("h_fee2", ["fee", "no utxo", "refused"], shards=16)]),
    "C17": dict(
        bounds="fee: as C16; extraction: 0..2 inputs (legacy or segwit final scripts, one funding output missing or out of bounds) and 0..2 outputs; (a) every 32-bit amount and limit, (b) corner-case amounts with every 64-bit limit, (c) every 64-bit amount with limits 0 and the greatest; default limit",
        assumptions=["the rate saturates: where fee * 1000 exceeds 64 bits it counts as (2^64 - 1) / weight, which is above any limit that is not absurd itself"],
        harnesses=[H("h_fee0", ["fee", "no utxo", "refused"], shards=16), H("h_cap0", ["extracted", "refused"], shards=9), H("h_cap2", ["extracted", "refused"], shards=9)]),
    "C18": dict(
        bounds="0..2 inputs and 0..2 outputs; any version, outpoints, amounts, scripts of 0 and 2 bytes; sequence set or not; every combination of lock time fields; final script sig absent or of 0..2 bytes, final witness absent or of 0..2 elements of up to 253 bytes",
        harnesses=[H("h_extract2", ["extracted", "refused"], shards=9), H("h_cap2", ["extracted"], shards=9)]),
    "C19": dict(
        bounds="0..2 inputs and 0..2 outputs with all fields symbolic, final scripts as in C18; creation from transactions of 0..3 inputs with script sigs of 0..2 bytes and witnesses of 0..1 elements; parsing as in C10",
        harnesses=[H("h_extract0", ["extracted"], shards=9), H("h_create0", ["created", "refused"]), H("h_mand0", AR, shards=12), H("h_cap0", ["extracted", "refused"], shards=9)]),
    "C20": dict(
        bounds="0..2 inputs and 0..2 outputs with all transaction-defining fields symbolic, sequences set or not and changed by an updater, finalized or not; every value of each other key type (shapes of pairs.rs) alone and with all others, 1 input and 1 output",
        note="The identifier is compared with the double SHA-256 (computed by the same library code over independently assembled bytes).",
        harnesses=[H("h_id", ["id", "finalized", "refused"], shards=9), H("h_id_fields", ["same"], shards=NT)]),
    "C21": dict(
        bounds="creator: every sequence of up to 4 calls with symbolic arguments and each ending; constructors: every initial flag byte, every sequence of up to 3 (thorough: 4) calls, with or without all other global fields set",
        note="Adding an input after no_more_inputs on the same constructor value is possible by design of the API and not part of the claim.",
        harnesses=[H("h_creator", ["psbt", "both", "inputs only", "outputs only"]), H("h_default_ctor", ["finished"], shards=3), H("h_flags", ["constructor", "refused", "finished"], shards=3)]),
    "C22": dict(
        bounds="every sequence of up to 2 (thorough: 3) construction calls from an empty PSBT or one with an input, an output and all global fields; inputs of 5 kinds (builder calls included) and outputs with symbolic contents; sequences for any index of PSBTs with 0..3 inputs",
        harnesses=[H("h_construct", ["constructor", "refused", "finished"], shards=3), H("h_set_sequence", ["set", "refused"], shards=4), H("h_creator", ["psbt"])]),
    "C23": dict(
        bounds="every flag byte and each of the six sighash types, no inputs; signing of 1..2 inputs as in C24 with every flag byte",
        harnesses=[H("h_signer_flags", ["flags"]), H("h_sign2", ["signed", "nothing to sign"], shards=11)]),
    "C24": dict(
        bounds="1..2 inputs of 10 kinds of spent output or none, symbolic transaction, amounts and scripts; sighash type absent, standard or bad; up to 2 listed keys per input; any key source answering by path, by public key, with another key, with nothing or with an error; signatures of other keys present",
        assumptions=["the signature functions of libsecp256k1 are uninterpreted on symbolic messages and run as they are on concrete ones; a signature is right when it is the one those functions make from the prescribed hash and the key"],
        harnesses=[H("h_sign2", ["signed", "nothing to sign", "error"], shards=11)]),
    "C25": dict(
        bounds="1..2 inputs and 0..2 outputs with symbolic transaction fields, 18 kinds of spent output with symbolic hashes, scripts of 3..300 bytes; UTXO absent, witness, previous transaction, both, or index out of bounds; sighash type absent, standard or any other 32-bit value; every index",
        note="Scripts with code separators are outside the claim, as documented.",
        harnesses=[H("h_sighash2", ["hash", "refused"], shards=18)]),
    "C26": dict(
        bounds="every 4-byte fingerprint with each of five paths (0..3 steps, plain and hardened), public keys of a fixed set; an extended key with any parent fingerprint; maps (ordered and hashed) of 0..3 keys; v2 and v0",
        note="Sets of extended keys cannot be filled, because bitcoin 0.32's Xpriv is neither ordered nor hashable.",
        harnesses=[H("h_keys", ["found", "not found"], shards=6)]),
    "C27": dict(
        bounds="every 32-bit value",
        harnesses=[H("h_ty", ["ecdsa", "taproot", "refused"]), H("h_ty_text", ["text"], shards=8)]),
    "C28": dict(
        bounds="lookup and hash: as C25 for v0; signer checks: 1..2 inputs, 8 kinds of spent output with every hash, redeem and witness scripts from small sets (nested programs with any hash), UTXO absent, witness, previous transaction (index in or out of bounds, txid right or any other) or both",
        note="PSBTs whose numbers of maps differ from those of the transaction cannot be parsed and are outside the claim.",
        harnesses=[H("h_sighash0", ["hash", "refused"], shards=18), H("h_checks0", ["pass", "fail"], shards=8)]),
    "C29": dict(
        bounds="hash: as C25 for v0; ECDSA signing: as C24; taproot signing: 2 inputs, sighash type absent, each of the seven or bad, internal key, up to 2 listed keys with 0..2 leaf hashes, signatures present, Merkle root or not",
        assumptions=["as in C24 for the ECDSA and Schnorr signature functions (without auxiliary randomness, feature rand off)"],
        harnesses=[H("h_sighash0", ["hash", "refused"], shards=18), H("h_sign0", ["signed", "nothing to sign", "error"], shards=11), H("h_sign0_tr", ["signed", "nothing to sign", "error"], shards=9)]),
    "C30": dict(
        bounds="18 kinds of input (P2PKH, P2PK, P2WPKH, nested P2WPKH, P2WSH single key, 2-of-3, key hash and chained keys, nested P2WSH, P2SH 2-of-3 and key hash, bare 1-of-2, taproot key spends with and without scripts, one or two leaves, a P2WSH that only a malleable witness satisfies), alone or with another input before or after it; symbolic transaction, amounts, unknown and proprietary data; five sighash types or none; all signatures present and right, one missing, one for another message, a script missing or another script",
        note="The library stores both final fields for every finalized v2 input (one may be empty). Finalizing a finalized input is outside the claim.",
        assumptions=TOKENS,
        harnesses=[H("h_fin2", ["finalized", "refused"], shards=18)]),
    "C31": dict(
        bounds="1..2 inputs; sighash type of an input absent or any 32-bit value; 0..3 signatures of each of the six types; a taproot input without signatures",
        harnesses=[H("h_fin_types", ["accepted", "refused"])]),
    "C32": dict(
        bounds="in scripts: absolute timelocks from a list of 18 values around the limits (push lengths, sign bits, lock time threshold), relative ones of 2..3 symbolic bytes and corner cases; satisfiers asked directly: every 32-bit timelock; every 32-bit transaction lock time, sequence and version; v2 with the lock time from the fallback or an input's requirement; v2 and v0",
        assumptions=TOKENS,
        harnesses=[H("h_tl2", [], shards=6), H("h_tl0", [], shards=6), H("h_sat0", ["served", "not served"], shards=9)]),
    "C33": dict(
        bounds="v0: each lookup of the satisfier asked directly with 0..2 stored entries, symbolic preimages, hashes and values of 0, 31..33 bytes, keys of a fixed set, keys by hash; v2: preimages of the four hashes in a P2WSH script, stored under the hash, another symbolic hash, another kind of hash, in the other input, with another value or a wrong length, keys and signatures by finalizing (C30)",
        note="The v2 satisfier is not public, it is reached through the Finalizer.",
        assumptions=TOKENS,
        harnesses=[H("h_sat0", ["served", "not served"], shards=9), H("h_sat2", ["served", "not served"], shards=4), H("h_fin2", ["finalized", "refused"], shards=18)]),
    "C34": dict(
        bounds="shares and proofs of up to two scan keys in every combination of presence in the global map and the input, lengths around each specified length with symbolic contents, points and non-points of a fixed set; output address info and label of every shape; the proof type for every length up to 66",
        harnesses=[H("h_sp_shares", AR, shards=6), H("h_sp_output", AR), H("h_sp_proof", [])]),
    "C35": dict(
        bounds="texts of up to 8 symbolic characters; the text of 8 PSBTs (v2 and v0) with two characters replaced by any two, cut by 1..5 characters, extended by 1..4 characters or preceded by one; Display of PSBTs with symbolic fields",
        note="There is a hex form of v2 PSBTs only for tests and of v0 PSBTs only for parsing.",
        harnesses=[H("h_text", ["accepted", "rejected", "forms"], shards=22)]),
    "C36": dict(
        bounds="every error of: parsing (the malformed pairs, repeated, missing and misplaced fields, counts and magics of C04-C06 and C10, contents of three fixed patterns), parsing text, combining, fees, funding outputs, lock times, extraction with and without fee-rate limits, creation, construction, sequences, spent outputs and signature hashes, sighash types, signer checks, finalizing and (taproot; thorough: ECDSA) signing",
        note="The contents shown inside errors are fixed patterns where their decimal or base58 form would outgrow the engine.",
        assumptions=TOKENS,
        harnesses=[H(n, ["shown"], shards=k, thorough_only=n in ("h_err_mand0", "h_err_sign2", "h_err_sign0")) for n, k in [
            ("h_err_pair", NT), ("h_err_pair0", NT0), ("h_err_dup", NT), ("h_err_dup0", NT0), ("h_err_mand", 3), ("h_err_mand_form", 8), ("h_err_mand0", 12), ("h_err_counts", 1), ("h_err_magic", 2),
            ("h_err_comb", 1), ("h_err_comb0", 1), ("h_err_xpub", 4), ("h_err_fee2", 16), ("h_err_fee0", 16), ("h_err_cap2", 9), ("h_err_cap0", 9), ("h_err_lock", 1), ("h_err_extract", 9), ("h_err_create", 1),
            ("h_err_flags", 3), ("h_err_sequence", 4), ("h_err_sighash2", 18), ("h_err_sighash0", 18), ("h_err_ty", 1), ("h_err_sign2", 11), ("h_err_sign0", 11), ("h_err_sign0_tr", 9), ("h_err_checks", 8),
            ("h_err_fin2", 18), ("h_err_fin0", 18), ("h_err_fin_types", 1), ("h_err_text", 22)]]),
    "C37": dict(
        bounds="1 input and 1 output with each field of each map kind alone, with a second entry, or (every eighth) with all others, v2 and v0; 0..2 inputs and outputs, each map and role wrapper by itself; raw pairs, proprietary keys, sighash types. bincode: symbolic contents; JSON (from a slice, a reader and a tree of values): contents of three fixed patterns, raw pairs of up to 3 symbolic bytes",
        note="Extended keys, paths and their fingerprints are written as text in every format; their contents are fixed. The two known findings are defects of dependencies.",
        harnesses=[H("h_ser_bin", ["same", "full"], shards=NT, variant="ser"), H("h_ser_bin0", ["same", "full"], shards=NT0, variant="ser"), H("h_ser_json", ["same", "full"], shards=NT, variant="ser"),
                   H("h_ser_json0", ["same", "full"], shards=NT0, variant="ser"), H("h_ser_maps", ["same"], shards=4, variant="ser"), H("h_ser_raw", ["same"], shards=2, variant="ser")]),
    "C39": dict(
        bounds="18 kinds of input (P2PKH, P2PK, P2WPKH, nested P2WPKH, P2WSH single key, 2-of-3, key hash and chained keys, nested P2WSH, P2SH 2-of-3 and key hash, bare 1-of-2, taproot key spends with and without scripts, one or two leaves, a P2WSH that only a malleable witness satisfies), alone or with another input before or after it; symbolic transaction, amounts, unknown and proprietary data; five sighash types or none; all signatures present and right, one missing, one for another message, a script missing or another script; each of the eight finalizing operations, then extraction",
        assumptions=TOKENS,
        harnesses=[H("h_fin0", ["finalized", "refused"], shards=18)]),
}

NOT_APPLICABLE = {
    "C38": "cryptographic hardness is not a bounded behaviour of this code; a solver cannot decide it",
}
