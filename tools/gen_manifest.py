#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of built checks below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("property-based testing: boundary-biased generation against a bignum model", "Sampled inputs only; trusts the harness's own schoolbook bignum (cross-checked against Python)."),
 "C02": ("property-based testing: boundary-biased and adversarial division operands against a bignum model", "Sampled inputs; operands steered to Knuth/Lehmer correction steps; trusts the harness's bignum."),
 "C03": ("property-based testing: round trips and text/byte grammar generation against a bignum model", "Sampled inputs; from_hex_str has no error result, so its panic counts as refusal."),
 "C04": ("property-based testing: boundary-biased operands, operation histories; differential against an independent Montgomery field and bignum model", "Sampled inputs; trusts the harness's own field and bignum (cross-checked against Python)."),
 "C05": ("property-based testing: generated orders and residues against group-theoretic definitions evaluated by an independent field", "Sampled inputs, but every power-of-two order is enumerated."),
 "C06": ("property-based testing: boundary-biased integers and text grammar against a bignum model, round trips", "Sampled inputs; integer boundaries are generated explicitly."),
 "C07": ("property-based testing: generated slices and traversal histories against element-wise definitions", "Sampled inputs and histories."),
 "C08": ("property-based testing: generated sizes, vectors and rayon pool sizes against polynomial evaluation by an independent field", "Sizes bounded (dense vectors to 2^17, few terms to 2^21); thread schedules are sampled, not enumerated."),
 "C09": ("property-based and model-based testing: related point pairs and operation histories against an independent affine group law", "Sampled inputs; trusts the harness's own group law over its own field."),
 "C10": ("property-based testing: structured scalars and points, differential against independent double-and-add", "Sampled inputs; digit patterns steered by generation."),
 "C11": ("property-based testing: generated keys, digests and adversarially constructed signatures against an independent ECDSA equation", "Sampled inputs; soundness is judged against the ECDSA equation, not against a computational adversary."),
 "C12": ("property-based testing: generated byte strings, update splits and nested sequences, differential against the definition over a third-party Keccak", "Sampled inputs; Keccak itself is trusted."),
 "C13": ("property-based testing: generated trees, index multisets and skipped layers against an independent tree and opening model", "Trees to 2^18 leaves, openings from made-up hashes to depth 62."),
 "C14": ("mutation-based property testing: single and double alterations of valid openings and malformed requests, judged by an independent verifier", "Sampled alterations; assumes no Keccak collision."),
 "C15": ("model-based testing: generated operation histories against Vec with per-element drop accounting and injected clone panics", "Histories to 60 operations; memory errors are seen through element accounting, not a sanitizer."),
 "C16": ("model-based testing: generated allocation histories and thread plans against an exact accounting model; captured log output", "Thread interleavings are sampled by the scheduler; peak is exact for one thread and bracketed for several."),
 "C17": ("property-based testing: generated literals against a bignum model, at token level and by compiling generated programs", "Sampled literals; token-level evaluation skips unknown expansion shapes, which the compiled facet covers."),
 "C18": ("property-based testing: generated coefficient vectors, points, blowups and tables against polynomial arithmetic over an independent field", "Polynomials to 2^16 coefficients; sampled."),
 "C19": ("property-based testing: generated expression trees evaluated against an independent interpreter, degrees against true degrees by interpolation", "Trees to a few dozen nodes; equality is judged by evaluation at random points (error below 2^-200)."),
 "C20": ("property-based testing: generated constraint systems, satisfying traces and corrupted cells against row-wise evaluation of the relations", "Traces to 2^7 rows; constraints without nested inverses."),
 "C21": ("property-based testing: generated component trees (combinators, renamings, embeddings) against a cell-by-cell model of traces, labels and constraints", "Components to 2^7 rows; sampled."),
 "C22": ("property-based testing: generated constraint systems with satisfying traces and parameters; prove then verify", "Traces to 2^7 rows broadly and to 2^17 rows in a few large cases; sampled parameters."),
 "C23": ("property-based testing with an independent deviating prover (18 families) and an independent verifier as oracle", "Sampled systems and deviations; soundness error of the parameters used is below 2^-60 where rejection is demanded."),
 "C24": ("mutation-based fuzzing of accepted proofs guided by a map of their parts, garbage bytes, exhaustive single-byte flips and truncations of small proofs", "Sampled proofs; tolerated only where an independent verifier of the protocol accepts too."),
 "C25": ("differential testing against an independent implementation of the protocol, and across rayon pool sizes", "Traces to 2^7 rows for the byte-exact comparison, to 2^16 across thread counts; schedules are sampled."),
 "C26": ("property-based testing: generated proofs, JSON parsed and the proof rebuilt from it by an independent parser", "Sampled proofs."),
 "C27": ("property-based testing: contracts generated for random constraint systems are executed by an EVM-semantics interpreter and compared with the constraint system; end-to-end verification of proofs", "Sampled systems; trusts the harness's Solidity/Yul interpreter (no compiler is available), validated on the repository's recorded proofs."),
 "C28": ("property-based testing: generated parameters and systems against the formulas, real proof sizes and the true degree of the combined polynomial", "Sampled; parameters to 2^8."),
 "C29": ("property-based testing: the contracts run in an EVM-semantics interpreter on honest, adversarial and altered proofs, with an independent verifier as oracle", "Sampled systems and deviations to 2^7 rows; trusts the harness's Solidity/Yul interpreter, validated on the repository's recorded proofs."),
 "C30": ("property-based testing: contract functions run in an EVM-semantics interpreter against bignum, field, transcript and tree models", "Sampled inputs; trusts the harness's Solidity/Yul interpreter, whose word arithmetic is cross-checked against Python."),
 "C31": ("property-based testing: the generators and oracles of C01 to C12, C14, C19, C23 and C24, and honest proofs of an independent prover, against the libraries built without their default features", "Sampled inputs; run on the host, so a 64-bit usize; the prover does not exist without the standard library."),
}
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "hooks": {"guard": "none", "enable": "no hooks: the harness crates use the public API of the crates in /repo", "source_commits": []},
 "checks": [{"property": i, "quick_cmd": f"VERIF_TIER=quick ./run.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
             "evidence_file": f"evidence/{i}.json", "technique": T[i][0], "level": "exploration", "level_note": T[i][1]} for i in ids if i in T],
 "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in T],
 "notes": "Each check builds its harness crate (harness/<pkg>) from /repo's working tree into /verif/target and runs it; see DESIGN.md. Replay: ./run.sh <id> --replay <file>."
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
