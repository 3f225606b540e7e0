#!/usr/bin/env python3
"""Writes MANIFEST.json (kept here so that the texts live in one place)."""
import json
T = "contract-based deductive verification of the crate's own code (rustc LLVM IR of every configuration), "
N = {
"C01": ("functional contracts of PortableHash against a HighwayHash specification, inductive loop invariant",
        "Every operation of PortableHash is proved equal to the specification for all keys, data, lengths and pending counts."),
"C02": ("functional contracts of SseHash, AvxHash, HighwayHasher and PortableHash against one specification",
        "Proved in 24 x86_64 configurations (std/no_std, checks on/off, five compile-time feature sets plus native) and three CPU levels."),
"C03": ("functional contracts of NeonHash on aarch64 IR",
        "Results and checkpoints of NeonHash and of the dispatcher on aarch64 proved equal to the specification PortableHash is proved against."),
"C04": ("functional contracts of WasmHash on wasm32+simd128 IR",
        "Results and checkpoints of WasmHash and of the dispatcher on wasm proved equal to the specification PortableHash is proved against."),
"C05": ("append/write contracts with an inductive fold invariant, for every type and target",
        "Each call is proved to absorb exactly its bytes into the abstract state (fold of whole packets, pending rest), from which invariance under splitting follows."),
"C06": ("checkpoint and from_checkpoint contracts on the abstract state",
        "checkpoint is proved to encode the abstract state, from_checkpoint to decode it, for every type and target."),
"C07": ("default() contract: same abstract state as new(Key::default())",
        "Proved for every hasher type in every configuration."),
"C08": ("panic calls carry requires-false",
        "No path of any public operation reaches a panic, with and without debug assertions and overflow checks, for all inputs."),
"C09": ("memory-access preconditions on every load and store",
        "Every access of every operation is in bounds and aligned for all lengths and addresses; results are functions of the abstract state only."),
"C10": ("selection and target_feature contracts per configuration and CPU level",
        "All constructors of the dispatcher establish the invariant of one selection; calls into feature-gated code carry the features as precondition."),
"C11": ("from_checkpoint contract over all 164-byte arrays",
        "Total, establishes the representation invariant, same abstract state on every backend and target."),
"C12": ("contracts of the Hasher, io::Write and BuildHasher adapters",
        "Each adapter is proved to have the effect of append/finalize64 of a clone, and to report success and the full length."),
"C13": ("frame conditions of the observers, contract of clone",
        "Observers leave every byte of the abstract state unchanged; a clone has the same abstract state and contains no pointers."),
"C14": ("checkpoint contract: a function of the abstract state",
        "All 164 bytes are proved to be determined by lanes, pending bytes and count, zero beyond the pending bytes; round trip is the identity."),
"C15": ("frame and effect contracts: no global mutable state is read or written",
        "Every operation is verified to touch only its arguments; the CPU-detection cache is the only mutable global reached."),
"C17": ("PortableHash contracts on big-endian and 32-bit IR",
        "Same byte-level postconditions proved on x86_64, i686, aarch64, wasm32, powerpc and s390x."),
"C18": ("allocation calls carry requires-false",
        "No path of any operation reaches an allocator, with std and no_std, for all inputs."),
}
TR = " Trusted: rustc's translation to IR, hwv's own soundness, its models of vector intrinsics and core::fmt (listed in the evidence file). When an obligation fails, the counterexample and a battery are replayed on the real code to find a failing input."
m = {"version": 1, "setup_cmd": "./run.sh setup",
 "checks": [{"property": p, "quick_cmd": f"./run.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {p}",
             "technique": T + a, "level": "proof", "level_note": b + TR} for p, (a, b) in N.items()],
 "not_applicable": [{"property": "C16", "reason": "The absence of unsafe code is a syntactic property of the source text under every cfg combination; no function contract expresses it and no proof obligation decides it (a lint or token scan does, which is another technique)."}],
 "notes": "hwv is the verifier; see DESIGN.md. known-findings.txt lists the defects repaired in /repo."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
