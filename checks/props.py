"""The properties, in one place: gen.py writes properties.jsonl and MANIFEST.json from here and table.py."""
P = []
V2 = "src/v2/mod.rs"; G = "src/v2/map/global.rs"; I = "src/v2/map/input.rs"; O = "src/v2/map/output.rs"
SER = "src/serialize.rs"; RAW = "src/raw.rs"; MAC = "src/macros.rs"; V0 = "src/v0/bitcoin/mod.rs"

def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "The lock time is chosen exactly as BIP-370 prescribes",
  "The lock time of a v2 PSBT is its fallback lock time (zero if absent) when no input states a requirement; otherwise it is the maximum required height when every input that states a requirement states a height, else the maximum required time when every such input states a time, and an error when neither is possible. "
  "The unsigned transaction handed to signers carries exactly that lock time. The updater and signer roles, and finishing construction, refuse a PSBT exactly when no lock time can be determined.",
  ["inputs"], "every number of inputs and every combination of absent or present time and height requirements and fallback values",
  "the BIP-370 vectors fix a dozen combinations with fixed numbers; ordering and selection errors show only on particular combinations of four presence patterns per input and 32-bit values",
  [V2, I], [("lock time determination", V2), ("per-input requirement predicates", I)])

p("C02", "A v2 PSBT serializes to the BIP-370 encoding and parses back unchanged",
  "Serializing any well-formed v2 PSBT yields the magic, then one map each for the globals, every input and every output, in which each field appears once as a pair with the key type, key data and value encoding that BIP-174/370/371/375 assign to it. Parsing those bytes, or their base64 text, gives back an equal PSBT, including all keyed entries, proprietary and unknown pairs.",
  ["inputs"], "every v2 PSBT value: each field absent or present, arbitrary field values, maps with several entries",
  "tests round-trip a few fixed PSBTs; a field dropped or given a wrong key type in both directions, or a value-dependent loss, is invisible to them",
  [V2, G, I, O, SER, RAW, MAC], [("map serialization of the three map kinds", "src/v2/map/mod.rs"), ("value encodings", SER), ("pair and key encoding", RAW)])

p("C03", "Parsing a v2 PSBT neither loses nor alters any key-value pair",
  "When bytes are accepted as a v2 PSBT, serializing the result gives maps that contain every key-value pair of the input with identical key and value bytes, for known, proprietary and unknown keys alike. The only pairs that may be added are explicit defaults for the absent modifiable flags and an absent silent-payment output script.",
  ["inputs"], "every accepted byte string: any key type in any map, any key data and value bytes",
  "vectors contain well-known fields only; loss happens for unusual but accepted encodings",
  [V2, G, I, O, SER, RAW], [("pair insertion per map kind", I), ("pair listing per map kind", I)])

p("C04", "A repeated key in any v2 map is rejected",
  "A v2 PSBT byte stream in which one map (global, any input or any output) contains two pairs with the same key is rejected with an error, whatever the key type (mandatory, optional, keyed, proprietary or unknown), the two values, and the position of the two pairs. Pairs with different key data of the same keyed type are all kept.",
  ["inputs"], "every key type of every map kind, every pair of values and key data, every placement",
  "the vectors repeat two or three key types with fixed values",
  [G, I, O, MAC], [("duplicate checks on insertion", MAC), ("global map decoding", G)])

p("C05", "Mandatory v2 fields are required, forbidden ones refused, in any order",
  "A byte stream is accepted as a v2 PSBT only if it has the right magic and separator, version 2, a transaction version, an input count and an output count, exactly as many terminated input and output maps as counted, a previous txid and output index in every input, and an amount and script (or, for silent payments, address info) in every output. The unsigned transaction of v0 is refused in the global map. A stream that satisfies this is accepted whatever the order of the pairs within each map and whatever the values of those fields.",
  ["inputs"], "every subset and every order of the mandatory pairs and every value they may take",
  "the vectors omit one field at a time in a fixed order with typical values; order-dependent and value-dependent acceptance is untested",
  [V2, G, I, O], [("global map decoding", G), ("input map decoding", I), ("output map decoding", O)])

p("C06", "Typed v2 fields accept exactly their specified key and value encodings",
  "For each known key type of each v2 map, a pair is accepted exactly when its key data and value have the specified form: no key data for single-valued fields and the specified key form for keyed fields; integers, hashes, keys, proofs, key sources and compact sizes of exactly the right length with nothing trailing; heights below 500000000, times at or above it; preimages that hash to their key.",
  ["inputs"], "every key type, key data length and content, value length and content up to the stated bounds",
  "each length and range boundary of some thirty field types needs its own input; tests have a handful",
  [G, I, O, SER, MAC, "src/v2/dleq.rs"], [("value decodings", SER), ("insertion macros", MAC)])

p("C07", "Parsing untrusted bytes never panics or over-allocates",
  "Parsing any byte string as a v2 or a v0 PSBT returns a value or an error: it never panics, never overflows, and never requests memory out of proportion to the input, whatever counts and lengths the bytes claim. Every error it returns can be displayed.",
  ["inputs"], "every byte string (bounded length and shape), v0 and v2",
  "fixed vectors cannot cover the bytes an attacker may choose",
  [V2, G, I, O, SER, RAW, V0, "src/v0/bitcoin/serialize.rs"], [("pair decoding", RAW), ("count handling", V2)])

p("C08", "Raw keys and proprietary keys encode and decode losslessly",
  "A raw key-value pair is encoded as compact size of key type plus key data, key type, key data, compact size of the value, value; a proprietary key as type 0xFC followed by compact-size prefixed identifier, subtype and key data. Decoding inverts encoding for every content and length, two different keys never encode alike, and a key of another type is refused as proprietary.",
  ["inputs"], "every prefix, subtype, key and value content with lengths across compact-size boundaries",
  "no test covers proprietary keys of boundary lengths or arbitrary contents",
  [RAW, "src/v0/bitcoin/raw.rs"], [("key and pair codec", RAW)])

p("C09", "A v0 PSBT serializes to the BIP-174 encoding and parses back unchanged",
  "Serializing any well-formed v0 PSBT yields the BIP-174/371 encoding: magic, global map starting with the unsigned transaction, one map per transaction input and output, each field once with its specified key type and encoding. Parsing those bytes gives back an equal PSBT including keyed, proprietary and unknown pairs.",
  ["inputs"], "every v0 PSBT value: each field absent or present, arbitrary values",
  "tests round-trip a few fixed PSBTs",
  [V0, "src/v0/bitcoin/serialize.rs", "src/v0/bitcoin/map/input.rs", "src/v0/bitcoin/map/output.rs", "src/v0/bitcoin/map/global.rs"], [("map serialization", "src/v0/bitcoin/map/mod.rs")])

p("C10", "Parsing a v0 PSBT is strict and loses nothing",
  "Bytes are accepted as a v0 PSBT only with the right magic, one unsigned transaction with empty script sigs and witnesses, version 0 (or none), no key repeated within a map, no key reserved for v2, and each typed field in exactly its specified form; what is accepted keeps every key-value pair when serialized again.",
  ["inputs"], "every key type, key data and value content in each map kind, every duplicate",
  "the BIP-174 invalid vectors sample some twenty malformed streams",
  [V0, "src/v0/bitcoin/serialize.rs", "src/v0/bitcoin/macros.rs", "src/v0/bitcoin/map/input.rs", "src/v0/bitcoin/map/output.rs", "src/v0/bitcoin/map/global.rs"], [("pair insertion", "src/v0/bitcoin/map/input.rs")])

p("C11", "Combining v2 PSBTs keeps the information of both",
  "Combining two v2 PSBTs of the same transaction gives a PSBT in which every keyed, proprietary and unknown entry and every optional field present in either one is present, with a value one of the two had, and which contains nothing else. The transaction described (inputs, outputs, their order, version) is unchanged.",
  ["inputs"], "every pair of PSBTs for one transaction: any field present in neither, one or both, with equal or different values",
  "tests combine two fixed PSBTs that differ in a few fields",
  [V2, G, I, O, MAC], [("combine of the three map kinds", I), ("option and map combination", MAC)])

p("C12", "PSBTs of different transactions are not combined",
  "Combining two v2 PSBTs that differ in transaction version, number of inputs or outputs, or in the outpoint, amount or script at any position is refused with an error; the same holds for two v0 PSBTs with different unsigned transactions.",
  ["inputs"], "every pair of PSBTs that differ in any transaction-defining field at any position",
  "tests only combine matching PSBTs",
  [V2, G, I, O, V0], [("mismatch checks", I), ("mismatch checks", O), ("version checks", G)])

p("C13", "Combining is commutative, associative and idempotent without conflicts",
  "For PSBTs (v2 or v0) of one transaction whose common fields agree, combining gives the same result in either order and any grouping, and combining a PSBT with itself or with a result it contributed to changes nothing.",
  ["inputs", "histories"], "every distribution of the fields over two or three PSBTs, every combination order",
  "tests combine fixed PSBTs in both orders only",
  [V2, G, I, O, MAC], [("combine", V2)])

p("C14", "Combining v0 PSBTs keeps the information of both",
  "Combining two v0 PSBTs with the same unsigned transaction gives a PSBT in which every keyed, proprietary and unknown entry and every optional field present in either is present with a value one of the two had, and nothing else; the version is the higher of the two.",
  ["inputs"], "every pair of v0 PSBTs for one transaction",
  "tests combine fixed PSBTs",
  [V0, "src/v0/bitcoin/map/input.rs", "src/v0/bitcoin/map/output.rs", "src/v0/bitcoin/map/global.rs"], [("combine", V0)])

p("C15", "Conflicting key origins for one xpub are merged by the suffix rule or refused",
  "When two PSBTs being combined (v0 or v2) give different origins for the same extended public key, the longer derivation path is kept if the shorter one is a proper suffix of it; if the paths have equal length (and paths or fingerprints differ) or neither is a suffix of the other, combining is refused with an error. Combining never panics, and the outcome does not depend on the order of the two.",
  ["inputs"], "every pair of derivation paths and fingerprints up to the stated length",
  "no test gives two different origins",
  [G, "src/v0/bitcoin/map/global.rs"], [("xpub merging", G)])

p("C16", "The v2 fee is exactly inputs minus outputs, or an error",
  "The fee of a v2 PSBT equals the sum of the funding amounts of all inputs minus the sum of all output amounts, computed without wrap-around: it is an error when a funding UTXO is missing or out of bounds, when either sum overflows, or when outputs exceed inputs. The funding UTXO of an input is the witness UTXO when present, otherwise the output of the previous transaction at the spent index.",
  ["inputs"], "every number of inputs and outputs within the bound and all 64-bit amounts and 32-bit indices",
  "overflow and boundary cases of 64-bit sums are not sampled by any test",
  [V2, I], [("fee", V2), ("funding UTXO lookup", I)])

p("C17", "The v0 fee is exact and the fee-rate cap on extraction is enforced",
  "The fee of a v0 PSBT equals the sum of spent amounts minus the sum of output amounts, or is an error on a missing or out-of-bounds UTXO, overflow, or negative result. Extraction with a fee-rate limit, from a v0 PSBT and from a finalized v2 PSBT alike, returns the transaction exactly when the fee is known and its rate (fee per weight of the extracted transaction) does not exceed the limit, which is 25000 sat/vB when none is given; extraction never panics, and the unchecked variant skips the test.",
  ["inputs"], "all 64-bit amounts, all UTXO forms and indices, all limits",
  "tests use a few fixed amounts",
  [V0, "src/v2/extract.rs"], [("fee", V0), ("fee-rate limit", V0), ("v2 fee-rate limit", "src/v2/extract.rs")])

p("C18", "Extraction yields exactly the transaction that was constructed and signed",
  "Extracting from a finalized v2 PSBT gives a transaction with its version, determined lock time, outpoints, sequences (final when unset), final script sigs and witnesses, and output amounts and scripts, in order. Apart from script sigs and witnesses it equals the unsigned transaction handed to signers. Extraction is refused while any input is not finalized or no lock time can be determined.",
  ["inputs"], "every PSBT within the bounds: sequences set or not, any lock time fields, any final scripts, any subset of inputs finalized",
  "no test compares the extracted with the signed transaction over optional fields",
  ["src/v2/extract.rs", V2, I, O], [("transaction assembly", "src/v2/extract.rs"), ("input and output conversion", I)])

p("C19", "v0 extraction yields the unsigned transaction plus final scripts only",
  "Extracting from a v0 PSBT gives its unsigned transaction in which only the script sig and witness of each input are replaced by the final ones stored for that input; a v0 PSBT is only created from, and only parsed with, an unsigned transaction.",
  ["inputs"], "every v0 PSBT within the bounds",
  "tests extract one fixed transaction",
  [V0], [("extraction", V0)])

p("C20", "The v2 identifier identifies the transaction, not its mutable details",
  "The identifier of a v2 PSBT is the txid of its unsigned transaction with all sequence numbers zeroed: it does not change when sequences, UTXOs, scripts, signatures, derivations, proprietary or unknown data change, and it does depend on version, determined lock time, outpoints, amounts, scripts and their order.",
  ["inputs", "histories"], "every field of the PSBT changed to any value, through updater steps",
  "no test checks the identifier across field changes",
  [V2, I], [("identifier", V2)])

p("C21", "Creator and Constructor set and honour the modifiable flags",
  "The creator sets exactly the inputs-modifiable, outputs-modifiable and sighash-single bits asked for, and the constructors for both, inputs only and outputs only make exactly the matching modifiable bits set; a constructor is obtained from an existing PSBT exactly when the bits it needs are set; declaring no more inputs or outputs clears exactly that bit, and finishing clears both while leaving every other bit and field alone.",
  ["inputs", "histories"], "every sequence of builder calls within the bound and every initial flag byte",
  "tests run one or two call sequences",
  [V2, G], [("flag handling", G), ("role constructors", V2)])

p("C22", "Construction keeps counts, order and contents in step",
  "After any sequence of adding inputs and outputs the global counts equal the numbers of inputs and outputs, these appear in the order added with exactly the data given, and nothing previously added or any unrelated global field changes; setting a sequence changes only that field of that input and an out-of-range index is refused without effect.",
  ["histories", "inputs"], "every sequence of construction and update calls within the bound, from any starting PSBT",
  "tests build fixed sequences",
  [V2, I, O], [("constructor", V2), ("updater", V2)])

p("C23", "A signer updates the modifiable flags as BIP-370 demands",
  "After an ECDSA signature with a given sighash type is added, inputs stay modifiable only if the type has ANYONECANPAY and they were before, outputs stay modifiable only if the type is NONE and they were before, the sighash-single bit is set if the type is SINGLE and otherwise keeps its value, and all other bits keep their value. Adding no signature leaves the flags unchanged.",
  ["inputs"], "every flag byte, every sighash type, with and without signatures being added",
  "tests do not sign with each sighash type and flag value",
  [V2], [("flag update on signing", V2)])

p("C24", "Signing adds exactly the signatures the key source can make, and they verify",
  "Signing a v2 PSBT adds, for each ECDSA input and each listed derivation whose private key the key source supplies, one partial signature under that key's public key which verifies over the correct sighash of the unsigned transaction and carries the input's sighash type; nothing else is added. ECDSA inputs that cannot be signed although a key was found are reported under their index; inputs without a matching key, using Schnorr, or without a spent output of a known kind are left alone, and signing never panics.",
  ["inputs"], "every mix of output types, UTXO data, sighash types and key availability within the bound",
  "tests sign one fixed transaction",
  [V2], [("signing", V2), ("key lookup", V2)])

p("C25", "The ECDSA sighash is computed for the right algorithm, script and amount",
  "For every input the ECDSA sighash message of a v2 PSBT equals the legacy or BIP-143 hash that consensus rules prescribe for the kind of output spent, with the script code, amount and sighash type taken from that input, defaulting to ALL. A missing redeem script, witness script or UTXO, taproot, unknown witness versions and non-standard sighash types are errors, and so is an index out of range.",
  ["inputs"], "every output kind, script presence, amount, sighash type value and index",
  "tests cover a few output types with one sighash type",
  [V2], [("sighash computation", V2), ("output classification", V2)])

p("C26", "Key lookup returns the key that belongs to the request",
  "A key source returns a private key for a BIP-32 request only from an extended key whose own fingerprint the request names, derived along the requested path, and for a public-key request only the private key stored for exactly that key; a request that no stored key satisfies gives none or an error, in v2 and in v0, for an extended key and for maps of keys alike.",
  ["inputs"], "every request fingerprint, path and public key against any stored keys within the bound",
  "tests look up a key that exists",
  [V2, V0], [("key lookup implementations", V2)])

p("C27", "The PSBT sighash type maps faithfully to and from its numeric and text forms",
  "A PSBT sighash type keeps any 32-bit value given; it converts to an ECDSA type exactly for the six standard values and to a taproot type exactly for the seven valid ones, back to the same number; its text form parses back to the same value for every 32-bit number; other conversions are errors.",
  ["inputs"], "all 32-bit values",
  "tests convert the named types and one non-standard value",
  ["src/sighash_type.rs", I], [("conversions", "src/sighash_type.rs")])

p("C28", "v0 spent-output lookup and signing checks are safe and consistent",
  "Looking up the output a v0 input spends, computing its sighash and running the signer checks return a result or an error for every PSBT and index and never panic. The output comes from the witness UTXO or from the previous transaction at the outpoint's index and is refused when out of bounds; signer checks pass exactly when every given previous transaction has the outpoint's txid, no input with a witness UTXO would get a non-witness signature, every given redeem script is what the spent output commits to, and every given witness script is what the spent output or the redeem script commits to (BIP-174).",
  ["inputs"], "every presence and content of UTXO and script fields, every index",
  "the signer-check vectors are four fixed PSBTs",
  [V0, "src/v0/mod.rs"], [("spent output lookup", V0), ("signer checks", V0)])

p("C29", "v0 sighash and signing use the right algorithm and report failures",
  "For every v0 input the sighash equals the consensus hash for the kind of output spent with the input's script, amount and sighash type; signing adds verifying signatures for exactly the keys supplied ECDSA keys by path or public key, taproot keys by path with the internal key tweaked for key spends and each leaf hash for script spends, leaves present signatures of taproot inputs alone, and reports other inputs' errors under their index without panicking.",
  ["inputs"], "every output kind, sighash type, key availability",
  "tests sign fixed transactions",
  [V0], [("sighash computation", V0), ("signing", V0)])

p("C30", "Finalizing keeps the transaction and UTXOs and stores valid final scripts",
  "Finalizing a v2 PSBT leaves version, lock time, outpoints, sequences, UTXOs, unknown and proprietary data and all outputs as they were, replaces the signing data of each input by final scripts that satisfy its spent output, makes every input count as finalized, and changes nothing when it fails. The finalized PSBT extracts to a transaction with the identifier it had before.",
  ["inputs"], "every supported output kind, optional fields present or absent",
  "no test finalizes inputs with sequences, lock times or unknown data",
  ["src/v2/miniscript/finalize.rs", I], [("input finalization", I), ("finalizer", "src/v2/miniscript/finalize.rs")])

p("C31", "Finalizing refuses signatures with another sighash type than demanded",
  "A v2 PSBT is accepted for finalizing exactly when, for every input with partial signatures, the input's sighash type (ALL when unset) is a standard ECDSA type and every partial signature of it has that very type; otherwise an error naming the input is returned.",
  ["inputs"], "every 32-bit sighash type of an input and every type of its signatures",
  "tests use matching types only",
  [V2, "src/v2/miniscript/finalize.rs"], [("partial signature check", V2)])

p("C32", "Timelocks are considered satisfied exactly when the transaction satisfies them",
  "When finalizing or satisfying a script, an absolute timelock is taken as satisfied exactly if the transaction's lock time has the same unit, is at least as large and the input's sequence enables it; a relative one exactly if the sequence of that input enables it with the same unit and a sufficient value and the transaction version is at least 2. This holds for v2 and v0.",
  ["inputs"], "all 32-bit lock times and sequences, versions, timelock values",
  "tests do not vary lock times against scripts",
  ["src/v2/miniscript/satisfy.rs", "src/v0/miniscript/mod.rs"], [("satisfier timelock checks", "src/v2/miniscript/satisfy.rs")])

p("C33", "A satisfier serves only data that belongs to the requested key or hash",
  "When satisfying a script from a v2 or v0 input, a signature is served only if stored under the requested key (or key and leaf), a preimage only if stored under the requested hash and 32 bytes long, and a key for a key hash only if it hashes to it; data present is found.",
  ["inputs"], "every stored and requested key, hash and preimage within the bound",
  "tests satisfy a few fixed scripts",
  ["src/v2/miniscript/satisfy.rs", "src/v0/miniscript/mod.rs"], [("satisfier lookups", "src/v2/miniscript/satisfy.rs")])

p("C34", "Silent-payment fields are complete, well-formed and round-trip",
  "With silent payments enabled, a v2 PSBT is accepted only if the global map and each input map have ECDH shares and DLEQ proofs either both present or both absent, scan keys and shares are 33-byte points, proofs are 64 bytes, address info is 66 bytes, labels are 4 bytes and come with address info; accepted fields are kept byte for byte.",
  ["inputs"], "every presence pattern and length of the silent-payment fields in each map",
  "the BIP-375 vectors are fixed PSBTs",
  [G, I, O, MAC, "src/v2/dleq.rs"], [("pairing checks", G), ("insertion macro", MAC), ("proof type", "src/v2/dleq.rs")])

p("C35", "Text and binary forms of a PSBT agree",
  "The text form of a v2 or v0 PSBT is the base64 encoding of its binary form (and the hex form, where there is one, the lower-case hex of it); parsing text succeeds exactly when it is canonical base64 of bytes that parse, with the same result.",
  ["inputs"], "every short text and every PSBT within the bound",
  "tests parse fixed strings",
  [V2], [("text conversion", V2)])

p("C36", "Errors of all operations can be displayed and inspected",
  "Every error value a public v0 or v2 operation returns can be formatted with Display (as something not empty) and Debug and asked for its chain of sources, which ends, without panicking.",
  ["inputs"], "every error variant of every error type",
  "no test formats most errors",
  ["src/v2/error.rs", "src/error.rs", "src/v2/extract.rs", "src/v0/bitcoin/error.rs"], [("error formatting", "src/v2/error.rs")])

p("C37", "Serde forms round-trip",
  "Serializing any PSBT, role wrapper or map with serde in a self-describing (JSON, from borrowed or owned text or a tree of values) or binary (bincode) format and deserializing gives an equal value.",
  ["inputs"], "every PSBT value, human-readable and binary formats",
  "the tests do not serialize v2 PSBTs with serde",
  ["src/serde_utils.rs", V2], [("serde helpers", "src/serde_utils.rs")])

p("C39", "Finalizing a v0 PSBT finalizes what it can and keeps everything else",
  "Each way of finalizing a v0 PSBT (all inputs or one, malleable or not) stores final scripts that satisfy the spent output with valid signatures for the transaction for exactly the inputs that can be satisfied, keeps UTXOs, unknown and proprietary data and clears the signing data of those, reports the others with their index and leaves them and the transaction untouched, and never panics, even when the spent output index is out of bounds. Extracting afterwards gives the signed transaction.",
  ["inputs"], "every supported and unsupported output kind, which signatures are present, verify or not, data present or absent",
  "tests finalize fixed PSBTs with one complete set of signatures",
  ["src/v0/miniscript/finalizer.rs", "src/v0/miniscript/mod.rs"], [("finalizer", "src/v0/miniscript/finalizer.rs"), ("PsbtExt finalizing and extraction", "src/v0/miniscript/mod.rs")])

p("C38", "Signatures and keys are cryptographically sound",
  "No party without the private key can produce a signature this library accepts, and the hash functions used are collision resistant.",
  ["inputs"], "all keys, messages and signatures",
  "a cryptographic hardness assumption, not a finite behaviour",
  [V2], [("secp256k1 and hashes in dependencies", "dependency")])
