#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts are edited)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=None)))

ENC=["sia/src/encoding/v1.rs","sia/src/encoding/v2.rs"]
TY=["sia/src/types/common.rs","sia/src/types/currency.rs","sia/src/types/specifier.rs","sia/src/types/spendpolicy.rs","sia/src/types/v1.rs","sia/src/types/v2.rs","sia/src/types/work.rs","sia/src/consensus.rs","sia/src/signing.rs"]

prop("C01","Binary encodings round-trip and consume exactly their own bytes",
 "For every value of every type with a v1 or v2 binary encoding (whole-second timestamps, non-negative durations, policies of at most 1024 sub-policies with at most 255 per threshold), encoding succeeds, and decoding the produced bytes yields an equal value. Decoding stops exactly at the end of that value's bytes, whatever follows them in the stream, and encoding the decoded value again gives the same bytes.",
 ["inputs"],"every encodable value of every v1/v2 type: all field values, list lengths, optional parts, nested policies and resolution variants",
 "The tests round-trip one or two fixed values per type, mostly with empty lists and zero fields; field order, optional-field masks, long lists and combinations of non-default fields are not reached.",
 ENC+TY+["sia_derive/src/lib.rs"],[("encode/decode implementations","sia/src/encoding/v1.rs, sia/src/encoding/v2.rs"),("derived struct encodings","sia_derive/src/lib.rs"),("hand-written encodings of transactions, policies, states","sia/src/types/v2.rs, sia/src/types/spendpolicy.rs, sia/src/consensus.rs")],
 observe=["encode/decode and encode_v1/decode_v1 of each public type"])

prop("C02","Binary encodings follow the Sia wire format byte for byte",
 "The v1 and v2 encodings of every value equal the ones the Sia wire format prescribes: little-endian 8-byte integers and length prefixes, raw fixed-size arrays, fields in protocol order, v1 currencies as length-prefixed minimal big-endian and v2 currencies as 16 little-endian bytes, siafund outputs with an (empty) claim start in v1, v2 transactions as a version byte, a presence bitmap and only the present fields. The bytes prescribed by the format decode to the value they denote.",
 ["inputs"],"every encodable value of every v1/v2 type",
 "A self-consistent change of encoder and decoder keeps every round trip green; only a handful of golden vectors with few populated fields are pinned by tests.",
 ENC+TY+["sia_derive/src/lib.rs"],[("encoders","sia/src/encoding/v1.rs, sia/src/encoding/v2.rs"),("field order of the types","sia/src/types/v1.rs, sia/src/types/v2.rs, sia/src/types/common.rs, sia/src/consensus.rs"),("presence bitmap","sia/src/types/v2.rs")],
 observe=["encoded bytes"])

prop("C03","Decoding hostile bytes never crashes and uses bounded memory",
 "Decoding any byte string as any type, with either binary codec, returns a value or an error: it never panics, aborts, overflows the stack or fails to terminate. The memory it allocates stays within a constant factor of the bytes actually supplied (plus a fixed allowance), however large the lengths announced inside the bytes are.",
 ["inputs"],"every byte string, including truncated, corrupted, deeply nested and length-inflated encodings",
 "No test decodes malformed input at all.",
 ENC+TY,[("bounded preallocation","sia/src/encoding/v1.rs, sia/src/encoding/v2.rs"),("policy size limit","sia/src/types/spendpolicy.rs"),("checked conversions","sia/src/encoding/v2.rs, sia/src/types/common.rs")],
 observe=["result of decode/decode_v1, allocations during it"])

prop("C04","Byte strings outside the wire format are rejected, not reinterpreted",
 "Decoding accepts a byte string only if it begins with a well-formed encoding, and then yields exactly the value those bytes denote. Truncated encodings, booleans and option tags other than 0 or 1, unknown policy, resolution and version tags, non-UTF-8 strings, currencies longer than 16 bytes, siafund values above 64 bits, and integers, timestamps or durations the target type cannot represent are errors.",
 ["inputs"],"every byte string near a valid encoding: every truncation, every replaced byte, every replaced integer",
 "Tests only decode valid encodings, so an accepted invalid input or a silently altered value is invisible to them.",
 ENC+TY,[("tag, version and range checks in the decoders","sia/src/encoding/v1.rs, sia/src/encoding/v2.rs, sia/src/types/spendpolicy.rs, sia/src/types/v2.rs, sia/src/types/currency.rs, sia/src/types/common.rs")],
 observe=["result of decode/decode_v1 and the reader's position"])

prop("C05","Codecs survive any I/O chunking and report every I/O fault",
 "The outcome of decoding does not depend on how the reader splits the bytes, nor on interrupted reads that are retried, and decoding never takes more bytes from the reader than the encoding has; the same holds for encoding and short or interrupted writes. A read or write fault at any byte position makes the operation return an error - never a panic, never a success - and the bytes written before the fault are a prefix of the encoding.",
 ["fault_sequences","inputs"],"every split of the stream, every position and kind of an injected fault, for every type",
 "Tests use in-memory buffers that deliver everything at once and never fail.",
 ENC+TY+["sia_derive/src/lib.rs"],[("read_exact/write_all and error propagation in all codecs","sia/src/encoding/v1.rs, sia/src/encoding/v2.rs, sia/src/consensus.rs, sia_derive/src/lib.rs")],
 observe=["result of encode/decode, bytes exchanged with the stream"])

prop("C06","JSON has the Sia API shape and round-trips",
 "For every value of every JSON-serializable type, the JSON produced is the one of the Sia API - camelCase keys with the documented exceptions, hex ids, prefixed keys, checksummed addresses, decimal-string currencies and work, base64 byte fields, RFC 3339 times (to the nanosecond), nanosecond durations, typed policies and resolutions, empty optional lists omitted - and parsing it yields an equal value. Parsing does not depend on key order, and string currencies may also be given as JSON numbers.",
 ["inputs"],"every value of every JSON type (dates within RFC 3339's years 0-9999, UTF-8 key algorithms without ':', policies nested up to 40 levels)",
 "Tests pin one JSON text for some types; omitted-when-empty fields, each policy kind nested in others, each resolution kind and extreme numbers are not covered together.",
 TY+["sia/src/types/utils.rs","sia/src/macros.rs"],[("serde attributes and manual Serialize/Deserialize","sia/src/types/v1.rs, sia/src/types/v2.rs, sia/src/types/spendpolicy.rs, sia/src/consensus.rs"),("serde helpers","sia/src/types/utils.rs")],
 observe=["serde_json::to_value / from_str of each public type"])

prop("C07","Malformed JSON is rejected without crashing or guessing",
 "Parsing any JSON text as any type returns a value or an error and never panics or overflows the stack. A missing required key, a value of the wrong JSON type, hex, base64, time or decimal text that is malformed or of the wrong length, a number out of range, a bad address checksum, an unknown policy or resolution type, and a wrong number of accumulator trees are errors. Whatever is accepted serializes back to JSON that parses to the same value. (Left open: arrays in place of objects, unknown or repeated keys, unusual prefixes of ids, non-canonical spellings of times and numbers.)",
 ["inputs"],"every single-node mutation of valid documents, every truncation, duplicated and removed keys, deep nesting",
 "Tests only parse documents they just produced.",
 TY+["sia/src/types/utils.rs","sia/src/macros.rs"],[("validation in Deserialize implementations","sia/src/types/common.rs, sia/src/types/spendpolicy.rs, sia/src/types/v2.rs, sia/src/consensus.rs, sia/src/signing.rs, sia/src/types/utils.rs")],
 observe=["serde_json::from_str of each public type"])

prop("C08","Address text is exact and its checksum catches every corruption",
 "An address is printed as 64 lower-case hex digits followed by the first 6 bytes of the BLAKE2b-256 hash of its 32 bytes, and parsing (as text or JSON) accepts a string if and only if it is 76 hex digits whose last 12 are that checksum. Every corruption of a printed address that changes its digits is therefore rejected unless the checksum matches again.",
 ["inputs"],"every address and every corruption of its text",
 "Tests parse a few valid addresses and one or two bad ones.",
 ["sia/src/types/common.rs"],[("checksum computation and comparison","sia/src/types/common.rs")],observe=["Display, parse_string, JSON of addresses"])

prop("C09","Ids, keys, signatures and leaves have one exact text form",
 "Every id, public key, signature, leaf and unlock key is printed as its lower-case hex digits (public keys after 'ed25519:', unlock keys after their algorithm and ':'), and parsing that text, in either letter case, gives back exactly the same bytes. Text with a wrong digit count, a non-hex character, a missing or wrong required prefix, or an algorithm name longer than 16 bytes is rejected without a panic, and the compile-time literal macros denote the same bytes as run-time parsing.",
 ["inputs"],"every byte content and every corruption of the printed text",
 "Tests parse a single literal per type.",
 ["sia/src/macros.rs","sia/src/types/common.rs","sia/src/signing.rs","sia/src/types/v1.rs","sia/src/types/specifier.rs"],[("hex parsing","sia/src/macros.rs, sia/src/types/common.rs, sia/src/signing.rs"),("literal macros","sia/src/macros.rs")],observe=["Display, parse_string, JSON, literal macros"])

prop("C10","Currency text is parsed exactly or rejected",
 "Parsing a currency text yields exactly the number of hastings it denotes - an unsigned decimal followed by an optional unit (H, pS, nS, uS, mS, SC, KS, MS, GS, TS; no unit means hastings) - whenever that number is an integer that fits in 128 bits. Every other text - too large, finer than one hasting, several points, missing digits, signs, unknown units - is an error (left open: fractions without a unit, and unusual white space), never a panic and never a rounded or wrapped amount.",
 ["inputs"],"every text: all digit, point, space and unit combinations",
 "Tests parse some thirty valid amounts and no invalid one.",
 ["sia/src/types/currency.rs"],[("parse_string","sia/src/types/currency.rs")],observe=["Currency::parse_string and JSON"])

prop("C11","Currency arithmetic is exact or fails loudly, in every build",
 "Addition, subtraction, multiplication, division, remainder, summation, comparison and conversion of currencies (including conversion from a number of siacoins and to 64 bits) give the mathematically exact result whenever it fits. Otherwise the checked operations return nothing, the conversion is an error and the operators panic - in optimized builds too, where they never wrap.",
 ["inputs","configurations"],"all operand pairs and sums, in debug and release builds",
 "Tests hardly touch arithmetic and run only in debug mode, where overflow happens to panic.",
 ["sia/src/types/currency.rs"],[("checked operators","sia/src/types/currency.rs")],observe=["operators and checked_* of Currency"])

prop("C12","v1 transaction and output ids commit to everything but signatures",
 "The id of a v1 transaction is the BLAKE2b-256 hash of its encoding without signatures; the id of its i-th siacoin output, siafund output or file contract is the hash of the respective 16-byte specifier, the same bytes and the index. Hence they never depend on the signatures, depend on every other part, and differ between kinds and between all indices.",
 ["inputs"],"every v1 transaction and every output index",
 "Tests check one transaction's ids.",
 ["sia/src/types/v1.rs"],[("encode_no_sigs and id derivation","sia/src/types/v1.rs")],observe=["Transaction::id, siacoin_output_id, siafund_output_id, file_contract_id"])

prop("C13","v2 transaction ids ignore witnesses and commit to the effects",
 "The id of a v2 transaction is the BLAKE2b-256 hash of its semantic encoding. It is unchanged when only witness data changes - satisfied policies, Merkle proofs, the contents of spent or revised parents beyond their ids, and contract and renewal signatures - and changes whenever an input id, an output, a contract's terms, a revision, a resolution, an attestation, the arbitrary data, the Foundation address or the miner fee changes.",
 ["inputs"],"every v2 transaction and every single-field difference",
 "Tests compare one id and one signature hash.",
 ["sia/src/types/v2.rs"],[("encode_semantics","sia/src/types/v2.rs")],observe=["v2 Transaction::id"])

prop("C14","Derived output, claim, contract and attestation ids are exact and distinct",
 "Ids derived from block, siafund-output, contract and v2 transaction ids equal the BLAKE2b-256 hash of the protocol's specifier or 'sia/...|' distinguisher, the parent id and, where applicable, the validity flag and the 64-bit index, in protocol order. No two different derivations (kind, parent, index, validity) give the same id.",
 ["inputs"],"every parent id, kind and index",
 "Tests pin a few of the derivations, at small indices, and none of the v2 contract ones.",
 ["sia/src/types/common.rs"],[("prefix constants and id derivation","sia/src/types/common.rs")],observe=["the id-deriving methods"])

prop("C15","v1 signature hashes cover exactly the protocol's fields",
 "The whole-transaction signature hash covers all fields except signatures, with the replay-protection prefix of the current height before each siacoin and siafund input, followed by the parent id, key index and timelock. The partial hash covers exactly the elements named by the covered fields, in the given order, with the same prefixes; an index that does not exist is an error and never a panic.",
 ["inputs","configurations"],"every v1 transaction, covered-field selection and chain height",
 "Tests check one whole hash and one partial hash at one height.",
 ["sia/src/types/v1.rs","sia/src/consensus.rs"],[("whole_sig_hash, partial_sig_hash","sia/src/types/v1.rs"),("replay_prefix","sia/src/consensus.rs")],observe=["whole_sig_hash, partial_sig_hash"])

prop("C16","v2 signature hashes are domain-separated, replay-protected and complete",
 "The hashes signed for v2 inputs, contracts, renewals and attestations equal BLAKE2b-256 of their own 'sia/sig/...|' distinguisher, the replay prefix of the current height and the semantic encoding of the signed object with its signatures blanked. They do not depend on those signatures or on witness data, depend on every signed term, and differ between kinds of objects.",
 ["inputs","configurations"],"every signable object and chain height",
 "Tests check one value per kind.",
 ["sia/src/types/v2.rs","sia/src/consensus.rs"],[("sig_hash and input_sig_hash","sia/src/types/v2.rs")],observe=["sig_hash, input_sig_hash"])

prop("C17","Unlock-condition addresses are Merkle roots of all their parts",
 "The address of unlock conditions is the root of the Merkle tree over the timelock, each public key in order and the number of required signatures, with leaves hashed as 0x00||leaf and nodes as 0x01||left||right, for any number of keys. It therefore changes whenever the timelock, any key, their order, their number or the required signatures change.",
 ["inputs"],"every set of unlock conditions, with any number of keys",
 "Tests use a single key, which exercises one merge of the tree.",
 ["sia/src/merkle.rs","sia/src/types/v1.rs"],[("Merkle accumulator","sia/src/merkle.rs"),("UnlockConditions::address","sia/src/types/v1.rs")],state=[("trees","roots of the perfect subtrees accumulated so far","sia/src/merkle.rs")],observe=["UnlockConditions::address"])

prop("C18","Spend-policy addresses are exact and survive opaque substitution",
 "A policy's address is the 'sia/address|' hash of its encoding in which every direct sub-policy of a threshold is replaced by its opaque address; an opaque policy's address is the one it names and unlock conditions keep their v1 address. Replacing any sub-policies, at any depth, by opaque ones with their address leaves the address unchanged, and any other change of a policy changes it.",
 ["inputs"],"every policy tree and every subset of its nodes made opaque",
 "Tests check one address per policy kind and one nested case.",
 ["sia/src/types/spendpolicy.rs"],[("SpendPolicy::address","sia/src/types/spendpolicy.rs")],observe=["SpendPolicy::address"])

prop("C19","A sector's root commits to every byte of the sector",
 "The root of a 4 MiB sector is the root of the perfect binary Merkle tree over its 65536 consecutive 64-byte segments, with leaves hashed as 0x00||segment and nodes as 0x01||left||right. Input of any other size is refused.",
 ["inputs"],"every sector content; every position of a difference",
 "The only sector-root test is commented out.",
 ["sia/src/rhp.rs","sia/src/merkle.rs"],[("sector_root","sia/src/rhp.rs")],observe=["rhp::sector_root"])

prop("C20","Height-dependent rules switch exactly at their fork heights",
 "For every network and chain state, the replay prefix (none, 0, 1, 2) is the one of the latest of the ASIC, Foundation and v2-allow forks whose height the current block has reached; the nonce factor is 1 below the ASIC fork's child height and 1009 from it on; the number of siafunds (10,000), the ancestor depth (1,000) and the block weight limit (2,000,000) never change. The child height is the current height plus one (zero for the state before genesis) and outputs mature the network's delay after it.",
 ["inputs","configurations"],"every network parameter set and height, in particular around each fork",
 "Tests never evaluate these rules around a fork height.",
 ["sia/src/consensus.rs","sia/src/types/common.rs"],[("ChainState rules","sia/src/consensus.rs")],observe=["replay_prefix, nonce_factor, child_height, maturity_height"])

prop("C21","The block reward declines to the minimum and never below it",
 "The reward for the child block is the initial coinbase minus one siacoin per block of child height, but never less than the minimum coinbase, for every height up to the largest. It never increases with height, and computing it never fails or wraps.",
 ["inputs","configurations"],"every network and every height",
 "No test computes a block reward.",
 ["sia/src/consensus.rs"],[("ChainState::block_reward","sia/src/consensus.rs")],observe=["block_reward"])

prop("C22","The Foundation subsidy is paid on schedule, in full, to the current address",
 "A subsidy is due exactly for child heights at the Foundation fork and every whole number of months (a twelfth of a 365-day year of blocks) after it. It pays 30,000 SC for every block of a month, twelve months' worth at the fork itself, to the Foundation's primary address recorded in the chain state.",
 ["inputs","configurations"],"every network and every height",
 "No test computes a subsidy.",
 ["sia/src/consensus.rs"],[("ChainState::foundation_subsidy, blocks_per_month","sia/src/consensus.rs")],observe=["foundation_subsidy, blocks_per_month"])

prop("C23","File-contract tax is exact to the hasting for every payout and height",
 "The tax of a v1 contract is 3.9% of its payout (before the tax fork: the payout times the 64-bit floating-point value of 0.039, taken as an exact rational), that of a v2 contract 4% of the sum of both outputs, each rounded down to an integer and then to a multiple of 10,000 hastings. This holds for every payout the currency type can represent, without overflow.",
 ["inputs","configurations"],"every payout and height (v2: outputs whose sum is representable)",
 "Tests pin one v1 tax per regime and one v2 tax.",
 ["sia/src/types/v1.rs","sia/src/types/v2.rs","sia/src/consensus.rs"],[("tax","sia/src/types/v1.rs, sia/src/types/v2.rs")],observe=["FileContract::tax"])

prop("C24","Signatures verify exactly for the signed hash and key",
 "Signing a hash gives the deterministic ed25519 signature of its 32 bytes, and it verifies under the matching public key. Verification fails, without panicking, for any other hash, for any other public key and for a signature not made with that key - in particular after any flipped bit and for keys that are not valid curve points. In every case, also for points of small order or unusual encoding, the verdict is the one the network's other nodes reach: S is below the group order and R is the encoding of sB - kA.",
 ["inputs"],"every key, hash and signature, and every single-bit corruption",
 "Tests verify one signature and no corruption.",
 ["sia/src/signing.rs"],[("PrivateKey::sign_hash, PublicKey::verify","sia/src/signing.rs")],observe=["sign_hash, verify"])

prop("C25","Recovery phrases and derived keys are exact, and typos are caught",
 "A seed is printed as its 12-word English BIP-39 phrase, and parsing a phrase succeeds exactly if it is such a phrase - 12 known words with a valid checksum - and gives back the same 16 bytes. The key at every 64-bit index is the ed25519 key of BLAKE2b(BLAKE2b(seed) || index), so equal phrases always recover the same keys and different indices give different ones.",
 ["inputs"],"every seed, index and corruption of a phrase",
 "Tests check a handful of phrases and indices.",
 ["sia/src/seed.rs","sia/src/signing.rs"],[("Seed::from_mnemonic, to_mnemonic, private_key","sia/src/seed.rs")],observe=["Seed API"])

prop("C26","Derived codecs encode every struct shape field by field",
 "For every struct shape (named, tuple or unit; any number, order and types of fields) the derived v1 and v2 codecs write the fields' encodings in declaration order with nothing added, and read them back into an equal value, propagating errors of any field. In named structs the v2 derive covers public fields.",
 ["programs","inputs"],"all struct shapes over a type alphabet up to a bounded number of fields",
 "The derive crate has no tests; the types of the main crate use few shapes.",
 ["sia_derive/src/lib.rs"],[("derive macros","sia_derive/src/lib.rs")],observe=["encode/decode of derived structs"])

prop("C27","Secret bytes do not outlive their seed or private key",
 "When a seed or private key goes out of scope, in any order and after any sequence of clones, derivations and signatures, the memory that held its secret bytes is overwritten before it is released, in optimized builds too. Dropping one copy never affects another copy that is still alive.",
 ["histories","configurations"],"all histories of create, clone, derive, sign and drop operations up to a depth, in optimized builds",
 "No test looks at released memory, and dead-store elimination only happens in optimized builds, which tests do not run.",
 ["sia/src/seed.rs","sia/src/signing.rs"],[("Drop implementations","sia/src/seed.rs, sia/src/signing.rs")],observe=["memory contents at deallocation"])

prop("C28","A sector's root is independent of parallel scheduling",
 "The sector root depends only on the sector's bytes: it is the same for every number of worker threads, for every order in which the parallel tasks run, when several roots are computed at once, and when it is computed repeatedly.",
 ["schedules","configurations"],"worker counts, task orders and concurrent callers",
 "No test runs the parallel computation at all, and a free run samples one schedule.",
 ["sia/src/rhp.rs"],[("data-parallel loops over disjoint chunks","sia/src/rhp.rs")],observe=["rhp::sector_root under different schedulers"])

prop("C29","Ids and keys round-trip through compact serde formats",
 "Serializing any value with a self-describing serde format that is not human-readable (such as CBOR), and deserializing the result, yields an equal value; for ids, addresses, keys, signatures, unlock keys and structures made of them without currencies, policies or omitted empty lists, the same holds in a format that is not self-describing (such as bincode). Truncated or malformed compact data is rejected or parsed without a panic, and a whole number of any integer width given for a currency is exactly that many hastings, or an error if it is negative.",
 ["inputs"],"every such value in both kinds of compact format, every truncation and replaced byte of the data",
 "Tests only use JSON, although the serialization code has a separate branch for other formats.",
 ["sia/src/macros.rs","sia/src/types/v1.rs","sia/src/types/common.rs"],[("is_human_readable branches","sia/src/macros.rs, sia/src/types/v1.rs")],observe=["serde round trip with CBOR and bincode"])

prop("C30","Operations do not influence each other",
 "The result of every operation (encoding, decoding, JSON and text conversion, ids, addresses, signature hashes, signing, verification, phrases, consensus rules, taxes, currency arithmetic, sector roots) is determined by its arguments alone: it is the same whatever operations were performed before, successful or not, in this thread or another; in whatever memory the arguments live, including memory that held other values before; and whatever other operations are under way, including ones started by the reader or writer it is using. No operation waits for another forever.",
 ["histories","schedules"],"every history of operations, placement of their arguments in memory, and interleaving of operations under way",
 "Tests evaluate each operation on fresh values, one after another; remembered results, shared buffers and counters left behind by failures only show in particular histories.",
 ["sia/src/types/v1.rs","sia/src/types/v2.rs","sia/src/types/spendpolicy.rs","sia/src/encoding/v1.rs","sia/src/encoding/v2.rs","sia/src/merkle.rs","sia/src/rhp.rs","sia/src/signing.rs","sia/src/consensus.rs"],[("functions of their arguments, without caches or shared buffers","sia/src")],observe=["the public operations of all modules"])

prop("C31","Values are equal exactly when their contents are, and copies are independent",
 "For every type, two values compare as equal if and only if all their parts - every field, list element and byte, at every depth - are the same; comparison is symmetric, and every value equals itself. A copy of a value equals it, has the same encoding, and keeps its contents whatever happens to the original afterwards, and the other way round.",
 ["inputs"],"every pair of values of every type",
 "Tests compare values that are equal, never near-equal ones: an ignored field would also blind every round-trip test.",
 ["sia/src/types","sia/src/consensus.rs","sia/src/signing.rs","sia/src/macros.rs"],[("PartialEq and Clone of all types","sia/src/types, sia/src/consensus.rs, sia/src/signing.rs, sia/src/macros.rs")],observe=["==, !=, clone, clone_from"])

prop("C32","The named networks follow their published parameters at every height",
 "Mainnet, zen and anagami have the published genesis and hardfork parameters, and at every height of each of them, from the state before genesis on, the replay prefix, nonce factor, maturity, number of siafunds, ancestor depth, block weight limit, block reward, Foundation subsidy and contract taxes are the published ones, so that the coins created by the blocks below any height add up to the published schedule.",
 ["inputs","configurations"],"every height of each network",
 "No test looks at the networks' parameters or at a rule on a network over its heights.",
 ["sia/src/consensus.rs","sia/src/types/v1.rs","sia/src/types/v2.rs"],[("Network::mainnet, zen, anagami and ChainState rules","sia/src/consensus.rs")],observe=["Network presets; replay_prefix, nonce_factor, maturity_height, block_reward, foundation_subsidy, tax"])

prop("C33","Signed transactions survive every representation; no tampering goes unnoticed",
 "A transaction (v1 or v2) signed with keys derived from seeds keeps its id, the ids of its outputs, the hashes that were signed, the addresses of its unlock conditions and policies, and the validity of each of its signatures, through every sequence of conversions between its binary, JSON and compact serde representations, alone or inside a block. Each signature in it verifies exactly if that key signed that hash (points of small order, which are nobody's public key, aside): after any change to a part that a signature covers, that signature no longer verifies, and signatures made for one replay prefix do not verify for another.",
 ["inputs","histories"],"every kind of signed transaction, every sequence of conversions up to the bound, and every change of a byte or part",
 "Tests check the codecs, the hashes and the signatures each on their own, with fixed values; a fault that only shows when the result of one is used by the next stays hidden.",
 ["sia/src/types","sia/src/consensus.rs","sia/src/signing.rs","sia/src/seed.rs","sia/src/encoding"],[("from seeds over signature hashes and codecs to verification","sia/src/types/v1.rs, sia/src/types/v2.rs, sia/src/types/spendpolicy.rs, sia/src/signing.rs, sia/src/seed.rs")],observe=["Transaction ids, sig hashes, addresses, verify after encode/decode, to/from JSON and CBOR"])

prop("C34","The library works the same on 32-bit targets such as wasm32",
 "On a target with 32-bit words - WebAssembly, for which the project's continuous integration builds the library - every operation gives the same result as on a 64-bit target: the same bytes, texts, ids, hashes, amounts and decisions, for every value, height, index, length and amount. A 64-bit quantity is never cut off to the size of a word: a length or index that a word cannot hold is an error, and nothing else depends on the size of a word.",
 ["inputs","configurations"],"the spaces of the other properties, on a 32-bit target",
 "Continuous integration only compiles the library for wasm32; no test runs there, and a quantity that is cut off to 32 bits shows nowhere else.",
 ["sia/src","sia_derive/src/lib.rs"],[("usize conversions and encodings","sia/src/encoding/v1.rs, sia/src/encoding/v2.rs, sia/src/types/common.rs, sia/src/types/v1.rs, sia/src/consensus.rs, sia/src/merkle.rs")],observe=["the public operations of all modules, compiled for wasm32"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
