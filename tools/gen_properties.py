#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the file stays valid JSON lines)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

U = "algebra/u256/src/"
F = "algebra/primefield/src/"
E = "algebra/elliptic-curve/src/"
EC = "crypto/elliptic-curve-crypto/src/"
M = "crypto/merkle-tree/src/"
S = "crypto/stark/src/"

p("C01", "256-bit integers: addition, products, powers, bits, shifts and comparison",
  "256-bit unsigned integers behave as the integers modulo 2^256: addition, subtraction, negation, multiplication, squaring, powers, sums and products (in operator, assignment, by-reference and carry/high-half-returning forms) give the exact mathematical result, with any carry, borrow or high half returned being exact too. Bitwise operations, shifts by any amount, bit queries, leading/trailing zero counts and ordering agree with the binary representation. Numbers drawn at random from a range lie in it and reach all of it.",
  ["inputs"], "all pairs of 256-bit values, all carries, all shift amounts and exponents",
  "Each operation has 2^512 inputs and the interesting ones (carry chains, limb boundaries, shifts of a multiple of 64 or beyond 255) are rarely hit by the uniform proptest inputs in the tree.",
  [U+"additive.rs", U+"multiplicative.rs", U+"binary.rs", U+"u256.rs", U+"algorithms/limb_operations.rs", U+"traits/binary.rs"],
  [("carry propagation", U+"additive.rs"), ("schoolbook product", U+"multiplicative.rs"), ("limb shifts", U+"binary.rs")])
p("C02", "256-bit integers: division, gcd, modular inverse and modular products",
  "Division and remainder of 256-bit integers by any non-zero divisor (64-bit or 256-bit) return the unique quotient and remainder, and division by zero is reported as absent, never as a wrong value. The greatest common divisor, Bezout coefficients, inverse modulo an integer (present exactly when coprime), inverse modulo 2^256 (present exactly for odd numbers), product modulo any modulus, and Montgomery-form products and reductions for an odd modulus below 2^255 all equal their mathematical definitions.",
  ["inputs"], "all dividends, divisors, moduli and operands",
  "Knuth division and Lehmer gcd have correction steps taken with probability about 2^-64 on random operands; example tests reach a few of them.",
  [U+"division.rs", U+"arch/generic/knuth_division.rs", U+"arch/generic/lehmer_gcd.rs", U+"algorithms/montgomery/generic.rs", U+"algorithms/montgomery/proth.rs", U+"multiplicative.rs"],
  [("Knuth algorithm D", U+"arch/generic/knuth_division.rs"), ("Lehmer gcd", U+"arch/generic/lehmer_gcd.rs"), ("REDC", U+"algorithms/montgomery/generic.rs")])
p("C03", "256-bit integers: text, byte, machine-integer and serde encodings",
  "Encoding any 256-bit integer as big-endian bytes, hexadecimal, decimal, serde (text or binary), SCALE or a wide-enough machine integer and decoding it again gives the same integer, and the encoded form is the conventional one for its value. Conversions to a narrower type succeed exactly when the value fits (or, for the explicitly wrapping casts, return its low bits), and decoding a string that is malformed or denotes a number of 2^256 or more is refused (as an error wherever the operation has an error result), never read as a different number.",
  ["inputs"], "all values, all byte strings and all text strings",
  "The tests round-trip a few values; overflow edges, odd lengths, bad characters and the near-limit decimals are unsampled.",
  [U+"encoding.rs", U+"conversion.rs", U+"u256_traits.rs"],
  [("hex and decimal parsers", U+"encoding.rs"), ("TryFrom/From impls", U+"conversion.rs")])
p("C04", "Prime field arithmetic is exact and canonical",
  "For both the proof-system field and the curve's scalar field, addition, subtraction, negation, doubling, multiplication, squaring, division, inversion, exponentiation by any unsigned, signed or 256-bit exponent, sums and products equal integer arithmetic modulo the field's prime. Every element produced by any sequence of operations (including random sampling and parsing) is stored in the one reduced representation of its residue class, so equality, hashing and encodings agree with mathematical equality; zero has no inverse.",
  ["inputs", "histories"], "all elements, all exponents, all operation sequences",
  "Wrong reductions show only for residues next to 0 or p or for particular carries out of the Montgomery product, which uniform random elements essentially never produce.",
  [F+"prime_field.rs", F+"ops.rs", F+"uint.rs", F+"proth_field.rs", F+"rand.rs", U+"algorithms/montgomery/proth.rs", E+"scalar_field.rs"],
  [("Montgomery representation with conditional subtraction", F+"prime_field.rs"), ("Proth REDC", U+"algorithms/montgomery/proth.rs")])
p("C05", "Roots of unity, generator and square roots",
  "For a non-zero order a primitive root of unity is provided exactly when the order divides the multiplicative group order; it has exactly the requested order, and the roots for different powers of two are consistent powers of each other; the published generator generates the whole group. A square root is returned exactly for the quadratic residues and zero, and squares back to the input.",
  ["inputs"], "all orders from 1 to 2^256 and all field elements, in both fields",
  "Tests sample the first few powers of two; a wrong root for one large order, or a square root wrong for one residue subgroup, goes unnoticed and breaks only large traces.",
  [F+"traits.rs", F+"prime_field.rs", F+"proth_field.rs", E+"scalar_field.rs"],
  [("Root and SquareRoot implementations", F+"prime_field.rs")])
p("C06", "Field element encodings and integer conversions",
  "Converting any machine integer (signed or unsigned, any width), 256-bit integer or number in text to a field element gives its residue modulo the prime (text denoting a number not below the prime may be refused instead); converting back succeeds exactly when the canonical (or, for signed targets, centred) representative fits the target and returns that representative. Serde text and binary forms, hexadecimal strings and raw Montgomery access round-trip every element, and text that does not denote a number is an error.",
  ["inputs"], "all integers of every width, all field elements, all strings",
  "The boundary values (minimum of a signed type, p-1, p, half of p, 2^256-1) are individual points that random tests do not hit.",
  [F+"convert.rs", F+"serde.rs", F+"prime_field.rs"],
  [("integer conversion macros", F+"convert.rs"), ("serde impls", F+"serde.rs")])
p("C07", "Batch inversion and geometric series",
  "Batch inversion of any slice, in place or into another slice, gives for each position the inverse of that element, and when a zero is present no wrong inverse is returned. A geometric series yields base times ratio to the i-th power at position i under any combination of iteration, indexing, skipping, truncating and striding within its length, and reports its exact length.",
  ["inputs", "histories"], "all slice lengths and contents, all bases, ratios, lengths and traversals",
  "Tests use a couple of fixed vectors; an off-by-one after skipping or at a particular length is only visible in combined traversals.",
  [F+"invert_batch.rs", F+"geometric_series.rs"],
  [("Montgomery batch trick", F+"invert_batch.rs"), ("indexed geometric iterator", F+"geometric_series.rs")])
p("C08", "Number-theoretic transforms of every size and thread count",
  "The forward transform (plain or over a coset) of a vector of any power-of-two length, returns exactly the evaluations of the corresponding polynomial on the (shifted) subgroup in bit-reversed order, the inverse transforms of such evaluations given in natural order return the coefficients in bit-reversed order, and every specialised or parallel variant gives the same values for every thread count. Bit reversal, transposition (of square matrices of single or paired elements) and the permutation helpers move each element to its defined place for all sizes.",
  ["inputs", "configurations", "schedules"], "all power-of-two lengths that fit, all coefficient vectors, cofactors and rayon pool sizes",
  "The tests compare a few small sizes; the blocked, recursive and parallel code paths are selected by size.",
  [F+"fft/mod.rs", F+"fft/small.rs", F+"fft/recursive.rs", F+"fft/radix_sqrt.rs", F+"fft/transpose.rs", F+"fft/bit_reverse.rs", F+"fft/prefetch.rs"],
  [("small unrolled transforms", F+"fft/small.rs"), ("six-step parallel transform", F+"fft/radix_sqrt.rs")])
p("C09", "Elliptic curve points form the specified group",
  "Adding, doubling, negating and subtracting points of the STARK curve in affine and Jacobian form (all mixed and in-place variants) follows the chord-and-tangent group law, including the point at infinity, equal points, opposite points and points of equal x or y coordinate. Results stay on the curve, conversion between representations preserves the point, and equality of Jacobian points is equality of the points they represent.",
  ["inputs", "histories"], "all pairs of curve points, all Jacobian scalings and all operation sequences",
  "The exceptional cases (P+P, P-P, infinity, Jacobian points with distinct Z) each need a specially related pair of operands that random tests do not produce.",
  [E+"curve.rs", E+"jacobian.rs", E+"lib.rs"],
  [("affine formulas", E+"curve.rs"), ("Jacobian formulas", E+"jacobian.rs")])
p("C10", "Scalar multiplication: every algorithm gives the same, correct multiple",
  "Multiplying a curve point by any scalar (by operator, by windowed non-adjacent form in affine or Jacobian coordinates, with a precomputed base table, or as a two-base combination) equals repeated addition of the point, for the zero scalar, small scalars, scalars near the group order and any point including infinity. The two-base combination equals the sum of the two single multiples.",
  ["inputs"], "all scalars in the scalar field and all points or pairs of points",
  "Window digits, carries at the top of the recoding, equal window positions in the two expansions and infinity inputs depend on the scalar's bit pattern; tests use a few fixed scalars.",
  [E+"wnaf.rs", E+"curve.rs", E+"jacobian.rs"],
  [("non-adjacent form recoding", E+"wnaf.rs"), ("window tables", E+"wnaf.rs")])
p("C11", "ECDSA signatures: valid ones verify, altered ones do not",
  "A signature made with any non-zero private key over any digest verifies under the matching public key, is deterministic, does not reuse the secret nonce of another digest or key, and satisfies the textbook ECDSA equation as computed by an independent implementation. Verification accepts exactly the (digest, r, w) triples satisfying that equation for the key: a changed digest, changed component, zero component, or other key is refused without a panic.",
  ["inputs"], "all non-zero private keys, all digests and signature values",
  "Signature tests are a handful of vectors; acceptance of a wrong signature needs an adversarial input.",
  [EC+"private_key.rs", EC+"public_key.rs", EC+"signature.rs"],
  [("signing loop", EC+"private_key.rs"), ("verification equation", EC+"public_key.rs")])
p("C12", "Hashing: masked Keccak and the canonical hash of values",
  "The hash of a byte string is Keccak-256 with its last 12 bytes cleared; the hash of a 256-bit number or field element is its own 32-byte big-endian (Montgomery, for field elements) encoding; the hash of a sequence is the element hash itself for length one and otherwise the masked Keccak of the concatenated element hashes. Hash values print, compare and convert to bytes as those 32 bytes.",
  ["inputs"], "all byte strings of all lengths, all elements, all sequence lengths",
  "Block-boundary lengths and the one-element special case are single points.",
  ["crypto/hash/src/masked_keccak.rs", "crypto/hash/src/hashable.rs", "crypto/hash/src/hash.rs"],
  [("MaskedKeccak", "crypto/hash/src/masked_keccak.rs"), ("Hashable impls", "crypto/hash/src/hashable.rs")])
p("C13", "Merkle trees: honest openings of any index set verify",
  "For any vector of a power-of-two length, any number of layers left out of storage and any non-empty list of in-range indices (unsorted, with duplicates or adjacent pairs), the tree's root is the one defined by pairwise masked-Keccak hashing of the leaf hashes, the produced opening verifies against it with the leaves at those indices in any order, and its size equals the predicted size. The opening contains exactly the minimal sibling hashes not derivable from the opened leaves, and every single node the tree reports has the position and hash of that node in the reference tree.",
  ["inputs", "configurations"], "all tree sizes, leaf values, index multisets, skipped layer counts",
  "The walk over a sorted index queue with merged siblings has a different shape for every index set; tests try a few.",
  [M+"tree.rs", M+"commitment.rs", M+"proof.rs", M+"index.rs", M+"vector_commitment.rs"],
  [("opening construction", M+"tree.rs"), ("opening verification", M+"proof.rs"), ("index arithmetic", M+"index.rs")])
p("C14", "Merkle openings: anything but the committed leaves is refused",
  "Barring hash collisions, a Merkle opening verifies only for exactly the opened indices and the leaf values that the commitment (size and root) was made from: every alteration of a valid opening (changed, swapped, missing, extra or duplicated-with-different-value leaves; changed, dropped, added or reordered hashes; another root; the same leaves under another size) is refused with an error. Malformed requests (out-of-range index, too few or too many hashes, oversized or non-power-of-two tree) return an error rather than panicking, looping or succeeding.",
  ["inputs"], "all valid openings and all single and multiple alterations of them, and all malformed requests",
  "Soundness quantifies over adversarial openings; the tests check one or two alterations.",
  [M+"proof.rs", M+"commitment.rs", M+"tree.rs", M+"index.rs"],
  [("root recomputation", M+"proof.rs"), ("bounds checks", M+"commitment.rs")])
p("C15", "File-backed vectors behave like ordinary vectors",
  "Under any sequence of construction, push, extend, clone, truncate, clear, resize, indexing, slicing, iteration, mutation and drop, a file-backed vector holds the same elements, length and order as an ordinary growable vector of the same declared capacity. Each element is dropped exactly once and never while still contained (also when an element's clone or drop panics midway), clones are independent, dropping a vector returns its memory, no operation within the declared capacity fails, and growth beyond it or a capacity that cannot be provided is refused by a panic (extending from a slice and resizing are then refused as a whole, leaving the vector as it was).",
  ["histories"], "all operation sequences over element types with and without drop glue",
  "Only sequences (shrink then grow, clone then mutate, drop) expose stale slots; the tests do single steps.",
  ["utils/mmap-vec/src/mmap_vec.rs", "utils/mmap-vec/src/lib.rs"],
  [("unsafe slot writes", "utils/mmap-vec/src/mmap_vec.rs")])
p("C16", "Allocation accounting matches the allocator's history",
  "After any sequence of allocations, zeroed allocations, reallocations and releases (from any number of threads) the accounting allocator reports exactly the total, number, currently outstanding, peak and largest allocation implied by that sequence (a reallocation being an allocation followed by a release), and serves memory that behaves as the system allocator's. Allocations of a megabyte and more are logged at a level that grows with the size, those of a terabyte and more are refused, and logged sizes are shown to three digits in the right unit.",
  ["histories", "schedules"], "all allocation histories and thread interleavings",
  "Counters are updated on several paths and atomics; tests observe one short history.",
  ["utils/logging-allocator/src/logging_allocator.rs", "utils/logging-allocator/src/size_bytes.rs"],
  [("atomic counters", "utils/logging-allocator/src/logging_allocator.rs")])
p("C17", "Compile-time literals equal run-time parsing",
  "The compile-time literal macros for byte strings, 256-bit integers and field elements expand to exactly the value that the hexadecimal text denotes (for field elements its residue, in reduced internal form), for any even number of digits and any letter case, and refuse text with an odd number of digits, a prefix or any other character, numbers of more than 32 bytes, and tokens that are not one string literal, at compile time.",
  ["inputs", "programs"], "all literal token streams",
  "Tests expand a few literals.",
  ["utils/macros-lib/src/lib.rs", "utils/macros-decl/src/lib.rs", "utils/macros-impl/src/lib.rs"],
  [("token parsing and Montgomery conversion at expansion", "utils/macros-lib/src/lib.rs")])
p("C18", "Dense polynomials and trace tables",
  "A dense polynomial evaluates at any point to the value of its coefficients, reports its true degree, its low-degree extension over a coset is its evaluation there, dividing out a point subtracts the value at that point and divides by the linear factor times the given weight; polynomials are equal exactly when they are the same function. A trace table stores and returns each cell independently by row and column, and its column interpolation and extension agree with the cells.",
  ["inputs", "configurations"], "all coefficient vectors, points, blowups, table shapes and cells",
  "Tests cover one small polynomial; trailing zero coefficients, constant polynomials, large blowups and roots of the divisor are unsampled.",
  [S+"polynomial.rs", S+"trace_table.rs"],
  [("Horner evaluation, in-place division", S+"polynomial.rs"), ("row-major storage", S+"trace_table.rs")])
p("C19", "Constraint expressions mean what they say",
  "A constraint expression built from constants, X, trace cells, sums, differences, products, quotients, negations, powers, inverses and polynomials in a sub-expression evaluates to the value of that formula over the field, whatever its shape. Substitution and mapping act at every occurrence, a claim polynomial whose degree exceeds the bound its constraint declares is refused, the reported set of referenced cells is exactly the set used, equality of expressions never identifies different functions, and the reported numerator and denominator degrees bound the true ones.",
  ["programs", "inputs"], "all expression trees, trace assignments and evaluation points",
  "Expressions are programs; tests evaluate a few fixed trees.",
  [S+"rational_expression.rs", S+"rational_equality.rs"],
  [("recursive evaluation and degree", S+"rational_expression.rs")])
p("C20", "Constraint checking locates exactly the violated rows",
  "Checking a trace against a constraint system reports success exactly when every constraint holds on every row on which it is enforced, and otherwise names a constraint and row that is really violated. Checking one named constraint on one named row agrees with the whole-table check.",
  ["inputs", "programs"], "all traces (satisfying, or with cells altered), all enforced-row patterns",
  "The checker cancels zeros of numerator against denominator on the trace domain; boundary rows, wrap-around offsets and excluded rows each need a special trace.",
  [S+"constraint_check.rs", S+"traits.rs"],
  [("row-wise evaluation with exceptional denominators", S+"constraint_check.rs")])
p("C21", "Composed components keep every part's constraints and trace",
  "Combining components side by side, stacked or folded into fewer columns yields a component whose trace contains exactly the parts' cells at their relocated places and whose constraints hold on a trace exactly when each part's constraints hold on its part.",
  ["configurations", "inputs"], "all component dimensions, nesting, witnesses and corrupted cells",
  "Composition rewrites every trace reference, X and the domain; tests compose one or two fixed shapes with valid witnesses only.",
  [S+"component/mod.rs", S+"component/horizontal.rs", S+"component/vertical.rs", S+"component/fold.rs", S+"component/mapped.rs", S+"component/empty.rs"],
  [("expression relocation", S+"component/horizontal.rs"), ("interleaving", S+"component/vertical.rs"), ("folding", S+"component/fold.rs")])
p("C22", "Every true statement can be proven and verified",
  "For every satisfiable constraint system, every satisfying trace and every admissible choice of blow-up, query count, proof-of-work difficulty and folding layout, proving succeeds and the verifier accepts the resulting proof for that constraint system. This includes constraints with wrap-around and negative offsets, unused columns, high degrees, periodic and claim polynomials, and constraint degrees that are not powers of two.",
  ["inputs", "programs", "configurations"], "all constraint systems with their satisfying traces and all parameter settings",
  "The tests prove a few recurrences with near-default parameters.",
  [S+"prover.rs", S+"verifier.rs", S+"algebraic_dag.rs", S+"constraints.rs", S+"channel.rs"],
  [("prover pipeline", S+"prover.rs"), ("verifier", S+"verifier.rs")])
p("C23", "No proof of a false statement is accepted",
  "If a trace violates any constraint, proving reports an error, and no proof derived from such a trace, whatever the prover does, is accepted: in particular a prover that follows the protocol except for committing to a violating trace, an inconsistent constraint evaluation, a wrong out-of-domain value, a high-degree or inconsistent folding layer, a wrong final polynomial or an insufficient proof of work is refused. A proof is accepted only for the constraint system and public input it was made for.",
  ["programs", "inputs", "fault_sequences"], "all false statements and all deviating provers in the modelled family, at parameters where the soundness error is negligible",
  "Soundness is a statement about adversarial proofs; the tests run only the honest prover.",
  [S+"verifier.rs", S+"prover.rs", S+"proof_of_work.rs", S+"channel.rs"],
  [("out-of-domain consistency check", S+"verifier.rs"), ("FRI fold consistency", S+"verifier.rs"), ("proof-of-work check", S+"proof_of_work.rs")])
p("C24", "Altered proof bytes are refused without panicking",
  "Changing any byte, truncating, extending, splicing or replacing the bytes of an accepted proof makes verification return an error (the one exception being another valid proof-of-work nonce that happens to select the same queries), and arbitrary byte strings are refused; verification never panics, hangs or accepts them. Numbers in a proof that are not the reduced form of a field element are refused.",
  ["inputs", "fault_sequences"], "all byte-level alterations of all valid proofs, and all byte strings",
  "Tests flip nothing; every field of the proof has its own check that could be missing.",
  [S+"verifier.rs", S+"channel.rs", S+"proof.rs"],
  [("transcript reading and end check", S+"channel.rs"), ("commitment checks", S+"verifier.rs")])
p("C25", "Proof bytes are deterministic and follow the documented transcript",
  "For given constraints and trace the proof is one fixed byte string: it does not depend on thread count, scheduling or repetition. It equals byte for byte the string computed by an independent implementation of the documented protocol (Fiat-Shamir transcript, coset low-degree extension, constraint combination, out-of-domain sampling, FRI layers, minimal proof-of-work nonce, query openings).",
  ["inputs", "configurations", "schedules"], "all constraint systems, traces, parameters and rayon pool sizes",
  "Prover and verifier share code, so a symmetric deviation (weak challenge derivation, unbound commitment) keeps prove-then-verify tests passing while destroying interoperability and soundness.",
  [S+"channel.rs", S+"prover.rs", S+"proof_of_work.rs", S+"verifier.rs"],
  [("public coin", S+"channel.rs"), ("prover pipeline", S+"prover.rs")])
p("C26", "Proof serialization for the on-chain verifier is faithful",
  "Serializing any accepted proof for the on-chain verifier gives the members of a valid JSON object whose fields hold exactly the values of the proof (commitment roots, out-of-domain values, query openings, folding layers, final polynomial, nonce), so that the proof is reconstructible from it. It does not panic for any valid proof.",
  ["inputs", "configurations"], "all valid proofs over all parameters",
  "No test looks at the content of the JSON beyond one example.",
  [S+"solidity_seralizer.rs"],
  [("proof parsing and JSON writer", S+"solidity_seralizer.rs")])
p("C27", "Generated on-chain constraint evaluators compute the same constraints",
  "The contracts generated for a constraint system, executed under EVM semantics, evaluate the random combination of the constraints at the out-of-domain point and every periodic column to the same field values as the constraint system itself, for all trace values, coefficients, claim values and evaluation points. The trace layout, sizes and parameters they declare match the constraint system, so that the on-chain verifier together with the generated contracts accepts every honest proof of the system and refuses proofs from violating traces. (Supported shape: row offsets that are not negative, no inverse inside an inverse, periodic polynomials in powers of X.)",
  ["programs", "inputs"], "all constraint systems in the supported shape, all values",
  "The generator is a compiler; no test executes its output.",
  [S+"solidity_verifier.rs"],
  [("memory layout and batch inversion emission", S+"solidity_verifier.rs"), ("contract templates", "crypto/stark/assets/OodsPoly.sol")])
p("C28", "Reported security level, degree and proof size are honest",
  "The reported security level is log2(blow-up) times half the query count (rounded down) plus the proof-of-work bits; the reported proof size bound is at least the size of every proof actually produced; the reported constraint degree is the smallest multiple of the trace length bounding the combined constraint polynomial. Default parameters give an admissible folding layout for every trace length that leaves a final polynomial of at most 256 coefficients, and a reported security level of at least 88 bits (44 bits when the parameters are left unset one by one: blow-up 16, 13 queries, 20 bits of work); parameters that are chosen are kept, and trace lengths that are not a power of two are refused.",
  ["configurations", "inputs"], "all parameter settings, trace lengths and constraint systems",
  "One test checks one size estimate.",
  [S+"constraints.rs"],
  [("parameter formulas", S+"constraints.rs")])
V = "crypto/stark-verifier-ethereum/contracts/"
p("C29", "The on-chain verifier accepts exactly the valid proofs",
  "For every constraint system contract derived from the default constraint system, the verifier contract returns true for every honest proof (repeated queries and single-query proofs included), and reverts for every proof that the protocol refuses: wrong openings, folding layers, final polynomial, proof of work or out-of-domain values, numbers that are not reduced field elements, and lists with more or fewer values than the parameters prescribe. Surplus entries at the end of Merkle openings and folding values are the one thing left unspecified. It gives the same verdict as the Rust verifier on the same proof.",
  ["inputs", "programs", "fault_sequences"], "all constraint systems, all blow-ups and at most three foldings per layer, all proofs from honest and deviating provers, single alterations of honest proofs",
  "The contract tests replay recorded honest proofs only; no test submits an invalid proof.",
  [V+"stark_verifier.sol", V+"fri.sol", V+"merkle.sol", V+"default_cs.sol", V+"public_coin.sol", V+"proof_of_work.sol"],
  [("verification steps", V+"stark_verifier.sol"), ("folding and its openings", V+"fri.sol"), ("trace and constraint values at the queries", V+"default_cs.sol")])
p("C30", "On-chain building blocks compute what they are named after",
  "For all inputs, the contract libraries compute their definitions: field operations, powers, roots and batch inversion, polynomial evaluation, bit reversal and bit counting, sorting, copying and truncating arrays; the coin's absorb and squeeze operations and query drawing agree with the Rust transcript; the proof-of-work check accepts exactly the sufficient nonces; folding a coset equals folding it definitionally; a Merkle opening is accepted exactly if it recomputes the root; the default folding layout equals the one of the Rust side.",
  ["inputs"], "all inputs in the documented domain of each function",
  "The contract tests check a few fixed vectors, and the assembly has case distinctions they do not reach.",
  [V+"primefield.sol", V+"utils.sol", V+"public_coin.sol", V+"proof_of_work.sol", V+"fri.sol", V+"merkle.sol", V+"default_cs.sol"],
  [("field arithmetic", V+"primefield.sol"), ("Merkle opening in assembly", V+"merkle.sol"), ("coset folding", V+"fri.sol"), ("transcript", V+"public_coin.sol")])
p("C31", "The build without the standard library gives the same results",
  "Built without the standard library and without threads (the documented no-std configuration, in which there is a verifier but no prover), the libraries behave as in the full build: the verifier accepts every honest proof and refuses every altered or deviating one, Merkle openings and hashes are judged and computed the same, signatures are made and checked the same, and integer, field, curve and transform operations (coset and inverse transforms included) equal their mathematical definitions.",
  ["inputs", "programs", "fault_sequences"], "all inputs of the properties of the parts, all honest, deviating and altered proofs",
  "The test suite is only ever built with the standard library; what is compiled in its absence is never run.",
  ["algebra/primefield/src/fft/mod.rs", "crypto/stark/src/verifier.rs", "crypto/stark/src/channel.rs", "crypto/merkle-tree/src/proof.rs", "utils/mmap-vec/src/lib.rs", "algebra/u256/src/lib.rs"],
  [("transforms without threads", "algebra/primefield/src/fft/mod.rs"), ("verifier", "crypto/stark/src/verifier.rs"), ("opening verification", "crypto/merkle-tree/src/proof.rs"), ("vectors without files", "utils/mmap-vec/src/lib.rs")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
