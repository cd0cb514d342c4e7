#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
SL = "stateless bounded model checking of the real code: exhaustive enumeration of "
T = {
"C01": ("values (deviation-bounded) of every codec type, checked by round trip in a longer stream", "All values within the deviation bound recorded per type in the evidence; the real encoder and decoder decide. Trusts the value generators to reach every field."),
"C02": ("values of every codec type, conformance with an independent reference encoder in both directions", "All values within the deviation bound. Trusts the reference encoders in harness/src/model.rs to be the Sia wire format."),
"C03": ("byte strings around every valid encoding, under a counting allocator, with supervised processes for aborts and hangs", "All byte strings named in the rule. Memory bound 8 MiB + 512 B per input byte, 2 MiB stacks."),
"C04": ("byte strings around every valid encoding, conformance with an independent reference decoder", "All byte strings named in the rule. Trusts the reference decoders; the leniencies listed in DESIGN.md are left open."),
"C05": ("I/O fault plans: every split, interruption, error and end of stream at every byte position of every codec", "Complete over the fault positions of the encodings explored; streams obey the Read/Write contracts."),
"C06": ("values of every JSON type, conformance with a model of the API's JSON", "All values within the deviation bound. Trusts the JSON shapes in harness/src/model.rs."),
"C07": ("mutated JSON documents, conformance with a reference reader (accept with value / reject / open)", "All mutations named in the rule of the documents within the deviation bound; open cases only must not panic and must survive re-serialization."),
"C08": ("addresses and corruptions of their text, conformance with a reference parser", "All byte positions and values over a set of patterns, all single and adjacent double corruptions."),
"C09": ("contents and corruptions of every textual type, conformance with reference parsers", "All byte positions and values over a set of patterns, all single corruptions; ids written with a prefix are left open."),
"C10": ("currency texts up to a length, token sequences and boundary amounts, against exact big-integer arithmetic, in two build profiles", "Complete up to five characters (six at the thorough tier) over 16 symbols, then over token sequences and boundary families."),
"C11": ("operand pairs and sums at all boundaries, against big integers, in overflow-checked and wrapping builds", "Complete over the operand alphabets; other operands are not explored."),
"C12": ("v1 transactions and output indices, conformance of ids with a reference, and all signature replacements", "All transactions within the deviation bound. BLAKE2b is trusted (RustCrypto-independent implementation in blake2b_simd)."),
"C13": ("v2 transactions x witness and effect mutations, conformance of ids with a reference", "All transactions and single mutations within the deviation bound."),
"C14": ("derivation kinds x parents x boundary indices x validity, conformance with the protocol's distinguishers, pairwise distinctness", "Complete over the listed patterns and indices."),
"C15": ("v1 transactions x covered fields x heights, conformance with a reference signature hash", "All combinations within the deviation bound; every out-of-range index kind."),
"C16": ("signable v2 objects x heights x mutations, conformance with a reference signature hash", "All objects and single mutations within the deviation bound."),
"C17": ("unlock conditions by number of keys, order and content, against a recursive reference Merkle tree", "All numbers of keys up to the bound in the evidence."),
"C18": ("policy trees x subsets of nodes made opaque, against a reference address", "All trees up to the bound in the evidence."),
"C19": ("sector contents differing at enumerated positions, against a sequential reference tree", "Single-byte differences at every enumerated position; other contents by pattern."),
"C20": ("network parameters x heights around every fork, in two build profiles", "Complete over the boundary alphabet."),
"C21": ("coinbase parameters x heights (boundaries and a dense range), in two build profiles", "Complete over the boundary alphabet and the dense ranges."),
"C22": ("fork heights and intervals x child heights (boundaries and dense ranges), in two build profiles", "Complete over the boundary alphabet and the dense ranges."),
"C23": ("payouts x heights around the tax fork, against exact rational arithmetic, in two build profiles", "Complete over the boundary alphabet."),
"C24": ("keys x hashes x corruptions, against an independent ed25519", "Complete over the single-bit corruptions of the listed signatures; cases where RFC 8032 leaves freedom only must not panic."),
"C25": ("seeds and word/letter/structure corruptions of phrases, against an independent BIP-39; keys at boundary indices", "All 12 x 2048 single-word substitutions per listed seed."),
"C26": ("struct shapes (programs) over a type alphabet x values x fault positions", "All shapes up to 3 fields over 5 field types plus wide and odd ones; a shape that does not compile is a violation."),
"C27": ("operation histories over three slots, observing freed memory, in two optimized profiles", "All histories up to five operations (six at the thorough tier); compiler moves are outside the property."),
"C28": ("schedules of the real rayon iterators under a controlled scheduler (deviation-bounded), plus a conformance run on rayon itself", "All schedules within the recorded deviation bounds from four base schedules; sequentially consistent memory, switches only where rayon itself can switch."),
"C29": ("values and mutations of CBOR and bincode data, checked by round trip", "All values within the deviation bound; formats that are not self-describing only where the types allow them."),
"C30": ("histories of unlike operations in one piece of memory, operations nested at every stream use of another, and schedules of two operations on two threads", "All pairs of the listed operations (triples at the thorough tier); each result is judged by that operation's own oracle. Interleavings at the points named in the evidence."),
"C31": ("pairs of values of every type that differ in up to D places, and copies whose originals change, against the contents", "All pairs within the deviation bound, and all differences at each byte of the fixed-size types."),
"C32": ("heights of the three named networks, block by block, against independently written parameters and closed-form totals, in two build profiles", "Complete for heights up to 1.2 million (10 million at the thorough tier) and around all boundaries above."),
"C33": ("signed transactions x sequences of conversions between their representations, and every changed byte, text and part of them, against independently computed hashes and signatures", "All listed kinds of signed transactions; all conversion sequences up to the bound; every byte and every JSON leaf changed, one at a time."),
"C34": ("the spaces of the other properties on the code compiled for wasm32 and executed by node, each case judged there by the same reference implementations", "Complete within the deviation bounds in the evidence, which are lower than on 64 bits. Trusts rustc's wasm32 back end and node; one thread."),
}
SL_SPECIAL = {"C05": "fault enumeration on the real code: exhaustive enumeration of "}
checks=[]
for p,(t,n) in T.items():
    checks.append(dict(property=p, quick_cmd=f"./run.sh {p}", thorough_cmd=f"env VERIF_TIER=thorough ./run.sh {p}",
        technique=SL_SPECIAL.get(p,SL)+t, level="fault_enumeration" if p=="C05" else "model_checking", level_note=n))
m=dict(version=1, setup_cmd="./build.sh all && ./build_wasm.sh", checks=checks, not_applicable=[],
    notes="No hooks in /repo. Every check rebuilds the checker against /repo's working tree (keyed by the contents of the sources) and explores in a supervised process. See DESIGN.md.")
json.dump(m,open(os.path.join(os.path.dirname(__file__),"..","MANIFEST.json"),"w"),indent=1)
