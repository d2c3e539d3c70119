#!/usr/bin/env python3
"""Single source of properties.jsonl, MANIFEST.json and harness/registry.json.

Run `python3 tools/emit.py` after editing; the three files are committed as generated.
"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# id, title, statement, over, quantifier text, why, files, mechanisms, build (crate, bin) or None, technique, note
P = []
def prop(id, title, statement, over, qtext, why, files, mech, build=None, technique="", note="", extra=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  build=build, technique=technique, note=note, extra=extra or {}))

C = "crates/"
prop("C01", "Every honest witness of a satisfiable system proves and verifies",
     "For every well-formed constraint system and every witness that satisfies it, at every supported table size, code rate and security level, proving succeeds and the verifier, given the same system digest, boundaries and table sizes, accepts the proof. Proving reads nothing but the statement and witness, and the verifier consumes the whole proof.",
     ["inputs", "programs", "configurations"],
     "all constraint systems built from the builder's column kinds (committed, computed, shifted, packed, constants, structured, repeated, selected, projected, zero-padded), zero constraints, flushes with selectors/multiplicities, exponentiation, and all table sizes incl. empty and non-power-of-two",
     "Integration tests prove a dozen fixed circuits at one or two sizes each; a shape that is mishandled (empty table, one row, mixed tower levels, table smaller than the packing width) is a point nobody samples.",
     [C+"core/src/constraint_system/prove.rs", C+"core/src/constraint_system/verify.rs", C+"m3/src/builder/constraint_system.rs", C+"m3/src/builder/witness.rs"],
     [("prover/verifier run the same reduction order", C+"core/src/constraint_system")],
     ("c_sys", "c01"), "generated constraint systems with satisfying witnesses, prove then verify")
prop("C02", "No accepted proof for a false statement or altered proof",
     "When the witness violates a constraint, a channel does not balance, a boundary value, table size, or system digest differs between prover and verifier, or any byte of the proof is altered, dropped or appended, verification returns an error. An honest proof is bound to its exact statement.",
     ["inputs", "programs", "fault_sequences"],
     "all generated systems, all single-cell witness corruptions, boundary/digest/size changes, and all proof mutations (bit flips, truncations, extensions, splices of two proofs)",
     "Tests exercise acceptance; only a few negative cases exist and none vary the place where the statement is false.",
     [C+"core/src/constraint_system/verify.rs", C+"core/src/constraint_system/channel.rs", C+"core/src/transcript/mod.rs", C+"core/src/piop/verify.rs", C+"core/src/protocols/fri/verify.rs"],
     [("channel balance check, evalcheck, FRI queries, transcript finalisation", C+"core/src/constraint_system/verify.rs")],
     ("c_sys", "c02"), "generated systems with injected falsehoods and proof mutations; the verifier must reject")
prop("C03", "The witness validator accepts exactly the satisfying witnesses",
     "Validating a witness against a system, its boundaries and table sizes succeeds if and only if every constraint vanishes on every row of its table, every derived column equals its definition, declared non-zero columns have no zero, and every channel balances as a multiset of flushed and boundary tuples. Exponentiation results are taken as given, because the prover computes them itself.",
     ["inputs", "programs"],
     "all generated systems and witnesses, satisfying or with one corrupted cell, boundary or flush",
     "The tests validate hand-written correct traces; whether every single-cell error is reported needs every cell of every column kind.",
     [C+"core/src/constraint_system/validate.rs", C+"core/src/constraint_system/channel.rs", C+"m3/src/builder/constraint_system.rs"],
     [("row-by-row evaluation, virtual-column recomputation, channel multiset tally", C+"core/src/constraint_system/validate.rs")],
     ("c_sys", "c03"), "model-based: independent row-level reference evaluation against the validator's verdict, both directions")
prop("C04", "The verifier answers every malformed proof with an error, never a panic",
     "For any byte string offered as a proof of any statement, verification terminates and returns a result: it does not panic, abort, overflow, loop or allocate without bound. The same holds for boundaries of any shape and for table sizes claimed by the prover.",
     ["inputs", "fault_sequences"],
     "all byte strings, in particular truncations, bit flips, block overwrites, length changes and splices of honest proofs",
     "No test feeds the verifier anything but an honest proof or a single flipped value.",
     [C+"core/src/constraint_system/verify.rs", C+"core/src/transcript/mod.rs", C+"core/src/protocols/fri/verify.rs", C+"core/src/merkle_tree/scheme.rs"],
     [("fallible reads, length checks in each verifier", C+"core/src/transcript/mod.rs")],
     ("c_sys", "c04"), "mutation fuzzing of honest proofs with a no-panic/termination oracle")
prop("C05", "A proof depends only on the statement and the witness",
     "Proving the same statement with the same witness yields the same bytes whatever the number of threads, the packed-field width or the run. The digest of a constraint system depends only on the system.",
     ["schedules", "configurations"],
     "all generated systems and witnesses, thread counts, packing widths of 128 to 512 bits, repeated runs",
     "The suite runs with one thread pool and one packing width and never compares two proofs.",
     [C+"core/src/constraint_system/prove.rs", C+"m3/src/builder/witness.rs", C+"hal/src", C+"fast_compute/src"],
     [("order-independent parallel reductions", C+"hal/src/sumcheck_round_calculation.rs")],
     ("c_sys", "c05"), "metamorphic: the same generated statement proved under different schedules and packings, byte equality")
prop("C06", "Binary field scalars obey exact tower-field arithmetic",
     "Every scalar field (canonical tower, AES tower and POLYVAL, 1 to 128 bits) computes addition, multiplication, squaring, inversion, multiplication by the tower generator and powers exactly as its mathematical definition, with zero inverting to zero. Subfield embeddings, bases, the isomorphisms between the tower representations and byte/integer conversions commute with that arithmetic.",
     ["inputs"],
     "all pairs of elements of every field (exhaustively up to 8 bits, sampled with special values above), every pair of tower levels",
     "Tests pin a few hand-computed products and random laws within one representation; an error at one operand or between two representations is not seen.",
     [C+"field/src/binary_field.rs", C+"field/src/binary_field_arithmetic.rs", C+"field/src/aes_field.rs", C+"field/src/polyval.rs", C+"field/src/extension.rs", C+"field/src/tower.rs"],
     [("recursive tower multiplication, lookup tables, Montgomery form", C+"field/src")],
     ("c_field", "c06"), "differential against an independent bit-level reference plus algebraic laws",
     "Exhaustive for fields up to 8 bits, sampled above.")
prop("C07", "Packed arithmetic equals scalar arithmetic in every lane",
     "For every packed field type, each arithmetic operation (add, sub, multiply, square, invert, multiply by alpha, by a subfield scalar, inner products) gives in every lane the result of the scalar operation on those lanes, whatever the underlying register width or SIMD implementation.",
     ["inputs", "configurations"],
     "all packed types of all families and widths 1..512 bits, byte-sliced ones included; all lane contents",
     "Tests compare lanes on a handful of random vectors for a subset of the types.",
     [C+"field/src/arch", C+"field/src/packed.rs", C+"field/src/packed_extension_ops.rs", C+"field/src/arithmetic_traits.rs"],
     [("per-architecture strategies (portable, AVX2, GFNI, byte-sliced)", C+"field/src/arch")],
     ("c_field", "c07"), "differential: lane by lane against the scalar reference over all packed types",
     "Sampled lane contents with dense, sparse and special patterns; every packed type in the build.")
prop("C08", "Packed lanes, layouts and transposes move every scalar to the right place",
     "Reading, writing, spreading, interleaving, unzipping, broadcasting, casting between packings, iterating bytes and transposing packed elements are permutations or copies of scalars exactly as a plain array of scalars would do. Out-of-range indices give an error or None, never another lane or memory outside the value.",
     ["histories", "inputs", "configurations"],
     "all operation sequences on all packed types, all block lengths, offsets and slice lengths incl. lengths not divisible by the width",
     "Tests fix one type and one block length per operation; sequences and odd slice lengths are not explored.",
     [C+"field/src/packed.rs", C+"field/src/underlier", C+"field/src/transpose.rs", C+"field/src/byte_iteration.rs", C+"field/src/packed_extension.rs", C+"field/src/linear_transformation.rs", C+"field/src/arch/portable/byte_sliced"],
     [("underlier sub-value extraction, interleave masks, block transposes", C+"field/src/underlier")],
     ("c_field", "c08"), "stateful model-based testing against a plain Vec of scalars; round trips",
     "Every packed type in the build; sequences up to 40 operations.")
prop("C09", "The additive NTT evaluates and interpolates exactly, in every variant",
     "For every evaluation domain, batch layout, coset and sub-range of rounds, the forward additive NTT returns the evaluations of the polynomial whose novel-basis coefficients were given, and the inverse transform undoes it exactly. Single-threaded, multi-threaded, precomputed and on-the-fly twiddle variants, odd-interleaved transforms and every packing give the same values, and unsupported shapes are reported as errors.",
     ["inputs", "configurations", "schedules"],
     "all scalar fields with an NTT, all domain sizes, batch shapes (log_x, log_y, log_z), cosets, skipped rounds, packings and thread counts",
     "Tests compare variants with each other at a few sizes; most never evaluate the polynomial independently, and skip/coset/batch combinations are mostly unsampled.",
     [C+"ntt/src/additive_ntt.rs", C+"ntt/src/single_threaded.rs", C+"ntt/src/multithreaded.rs", C+"ntt/src/twiddle.rs", C+"ntt/src/odd_interpolate.rs", C+"ntt/src/dynamic_dispatch.rs"],
     [("butterfly rounds with subspace-polynomial twiddles", C+"ntt/src/single_threaded.rs")],
     ("c_math", "c09"), "differential against direct evaluation in the novel polynomial basis; round trips; variant agreement")
prop("C10", "FRI accepts codewords and rejects every inconsistent oracle it queries",
     "Reed-Solomon encoding returns, for every dimension, rate, batch and packing, the evaluations of the message polynomials over the code's domain. A proximity proof for an honestly encoded message verifies and yields the message's multilinear evaluation at the folding challenges. A proof whose terminal word is not a codeword, whose oracles disagree at a queried position under the verifier's challenges, or with any altered or missing byte is rejected with an error, and the chosen number of queries is the least that meets the security target.",
     ["inputs", "adversarial proofs", "configurations"],
     "all code dimensions, rates, batch sizes, fold-arity sequences, query counts, packings and compute layers; all messages and challenges; all cheating oracle sequences and altered proof bytes",
     "Tests prove one honest message for five fixed parameter sets and never check that a bad oracle is rejected; encodings narrower than a packed element are not sampled.",
     [C+"core/src/reed_solomon/reed_solomon.rs", C+"core/src/protocols/fri", C+"ntt/src/fri.rs"],
     [("repetition of the message and skipped NTT rounds", C+"core/src/reed_solomon/reed_solomon.rs"), ("query phase: coset openings and folds compared round by round", C+"core/src/protocols/fri/verify.rs")],
     ("c_sys", "c10"), "differential against direct polynomial evaluation and an independent reference verifier, with cheating provers")
prop("C11", "Multilinear evaluation, folding and tensor expansion match the definition",
     "For every multilinear polynomial (any field, packing, size, including fewer scalars than a packed word and zero-padded ones), evaluating at a point, partially evaluating its low, high or middle variables, expanding equality tensors, folding, specialising and evaluating piecewise combinations all give the values defined by the multilinear extension over the hypercube, independent of the packing and of the order in which variables are fixed.",
     ["inputs", "configurations"],
     "all multilinear sizes, points, subfields, packings, variable ranges and padding shapes",
     "Tests use a few sizes at one packing width; boundary shapes (smaller than a packed word, zero variables, special points) are not covered.",
     [C+"math/src/multilinear_extension.rs", C+"math/src/multilinear_query.rs", C+"math/src/fold.rs", C+"math/src/tensor_prod_eq_ind.rs", C+"math/src/mle_adapters.rs", C+"math/src/piecewise_multilinear.rs", C+"core/src/polynomial/multivariate.rs"],
     [("tensor-product expansion and packed inner products", C+"math/src/fold.rs")],
     ("c_math", "c11"), "differential against direct summation over the hypercube")
prop("C12", "Evaluation domains, interpolation, subspaces and matrices are exact",
     "Univariate interpolation and extrapolation over any evaluation domain return the unique polynomial through the given values and its value at any point, Lagrange evaluations sum the right weights, binary subspaces contain exactly the span of their basis in the documented order, and matrix products and inverses satisfy their defining equations, singular matrices being reported as errors.",
     ["inputs"],
     "all domain sizes and choices of points, all value vectors, evaluation points inside and outside the domain, matrices incl. singular ones, reduced and shifted subspaces",
     "Tests use small fixed sizes with random values; points that coincide with the domain, reduced subspaces and singular matrices are rarely sampled.",
     [C+"math/src/univariate.rs", C+"math/src/binary_subspace.rs", C+"math/src/matrix.rs"],
     [("barycentric weights, Vandermonde inverse", C+"math/src/univariate.rs")],
     ("c_math", "c12"), "differential against direct Lagrange interpolation and schoolbook linear algebra")
prop("C13", "Arithmetic expressions keep their meaning however they are rewritten or run",
     "For every arithmetic expression, building it through operators, optimising, remapping or substituting variables, fixing constants, converting to another field, compiling to the batch evaluator or the compute layer, and evaluating in scalar, packed or batched form all yield the value the expression denotes at every point. The reported degree bounds the true degree, and the leading-term composition is the expression's top-degree part.",
     ["inputs", "programs"],
     "all expression trees over all operators (constants, variables, sums, products, powers, shared subexpressions), all inputs, packings and batch lengths",
     "Tests fix a dozen expressions; an unsound rewrite needs a particular nesting to show.",
     [C+"math/src/arith_expr.rs", C+"fast_compute/src/arith_circuit.rs", C+"math/src/composition_poly.rs", C+"math/src/rows_batch.rs"],
     [("algebraic simplifier, step compiler with register allocation", C+"math/src/arith_expr.rs")],
     ("c_math", "c13"), "random expression trees, differential against a direct tree interpreter")
prop("C14", "Hashes, batch digests and compressions equal their reference definitions",
     "Groestl-256 and the Vision-32 hash return the digest their specification defines for every message, however the message is split over updates and whatever was hashed before with the same object. The multi-lane and parallel digests return for every message of a batch what the single-message hash returns, and the two-to-one compressions, the Vision permutation and hashing of serialized values are deterministic functions equal to their definitions.",
     ["inputs", "histories", "configurations"],
     "all messages (lengths around block boundaries), all splits into updates, resets and reuse, all batch sizes incl. ones that do not fill the lanes, all serialized field slices",
     "Tests pin a few known answers and one batch shape; splits, reuse after reset and partial batches are not sampled.",
     [C+"hash/src/groestl", C+"hash/src/vision", C+"hash/src/multi_digest.rs", C+"hash/src/compression.rs", C+"hash/src/sha2.rs", C+"hash/src/serialization.rs"],
     [("block buffering and padding, lane-parallel permutations", C+"hash/src")],
     ("c_math", "c14"), "differential against independent reference implementations; update histories")
prop("C15", "Merkle commitments open exactly the committed leaves",
     "For every committed vector, the opening of every index at every layer depth verifies against the root, the opening is bound to its index, leaf values, layer and root, and a digest, value, salt or index that differs is rejected with an error. The root equals the tree of hashed leaves and does not depend on threads; the claimed proof size is the size actually written, and malformed openings never panic.",
     ["inputs", "fault_sequences"],
     "all tree heights, leaf batch sizes, salt lengths, commitment layers, indices, and single-element alterations of openings",
     "Tests open one index of one small tree with no alteration.",
     [C+"core/src/merkle_tree/prover.rs", C+"core/src/merkle_tree/scheme.rs", C+"core/src/merkle_tree/binary_merkle_tree.rs", C+"core/src/merkle_tree/merkle_tree_vcs.rs"],
     [("branch recomputation, layer digests, salted leaves", C+"core/src/merkle_tree/scheme.rs")],
     ("c_sys", "c15"), "reference tree from the hash definition, openings of every depth, injected alterations")
prop("C16", "The Fiat-Shamir transcript is one deterministic function of its history",
     "Prover and verifier transcripts that see the same sequence of messages, decommitments, observations and samples return the same challenges, the verifier reads back exactly the values the prover wrote, and any difference in an observed byte changes later challenges while decommitment and hint bytes do not. Sampled bits are in range, finalisation reports unread data, and short reads give errors.",
     ["histories", "inputs"],
     "all interleavings of message, decommitment, observe, sample-bits and sample-field operations with any lengths, on both sides",
     "Tests run a couple of fixed short scripts; buffer-boundary effects need particular lengths and orders.",
     [C+"core/src/transcript/mod.rs", C+"core/src/fiat_shamir/hasher_challenger.rs", C+"core/src/fiat_shamir/mod.rs"],
     [("duplex of observer and sampler with lazy buffer flush", C+"core/src/fiat_shamir/hasher_challenger.rs")],
     ("c_sys", "c16"), "stateful: generated operation histories run on prover, verifier and an independent model of the challenger")
prop("C17", "Serialized values decode to themselves and malformed bytes to errors",
     "Every serializable value (integers, containers, field elements in both modes, derived structs and enums, transparent polynomials, arithmetic circuits, boundaries, constraint systems) decodes from its own bytes to an equal value, consuming exactly those bytes, and encodes again to the same bytes. Truncated input or a short output buffer is an error, altered bytes never cause a panic, and a decoded constraint system has the same digest and verifies the same proofs.",
     ["inputs", "fault_sequences"],
     "all values of all serializable types, both serialization modes, all truncation points and byte alterations",
     "Tests round-trip one value of some of the types; few look at truncation and none at composed systems.",
     [C+"utils/src/serialization.rs", C+"macros/src/lib.rs", C+"macros/src/deserialize_bytes.rs", C+"core/src/transparent/serialization.rs", C+"core/src/oracle/symbolic.rs", C+"core/src/constraint_system/mod.rs", C+"field/src/binary_field.rs"],
     [("derive macros, erased registry of transparent polynomials", C+"macros/src/lib.rs")],
     ("c_sys", "c17"), "round trips of generated values and systems, truncation and mutation with an error-not-panic oracle")
prop("C18", "Sumcheck and zerocheck reduce true claims to true, false to false evaluations",
     "For every batch of sumcheck, equality-indicator sumcheck, zerocheck (with skipped univariate rounds) or multilinear-check claims over multilinears of mixed sizes and fields, the prover's messages make the verifier accept and end with the true evaluations of every multilinear at the challenge point, whatever the evaluation order, switchover, constant suffixes, packing or compute layer. A claim that is false, or a proof altered in any byte, is rejected or ends in at least one false evaluation claim, and never panics the verifier.",
     ["inputs", "configurations", "fault_sequences"],
     "all batches of claims of differing sizes, compositions, subfields, switchovers, constant suffixes, evaluation orders, skipped round counts, packing widths and compute layers; all single-byte proof alterations",
     "Tests prove a few honest fixed-size claims; no test shows that a false claim cannot end in true evaluations, and mixed-size batches or constant suffixes are barely sampled.",
     [C+"core/src/protocols/sumcheck"],
     [("round message recovery and batching coefficients", C+"core/src/protocols/sumcheck/verify_sumcheck.rs"), ("zerocheck univariate skip", C+"core/src/protocols/sumcheck/prove/univariate.rs"), ("compute-layer bivariate provers", C+"core/src/protocols/sumcheck/v3")],
     ("c_sys", "c18"), "generated claims and witnesses, direct hypercube sums and evaluations as oracle, false claims and altered proofs")
prop("C19", "Grand products and exponentiations reduce to true evaluation claims",
     "For every batch of grand product claims (any sizes and order, inputs cut short and implicitly continued with ones) and of exponentiation claims (static or column base, any exponent width the base field allows, shared or separate points), the layered witness holds the true products and powers, the honest proof verifies, and the verifier is left with the true evaluations of the inputs, exponent bits and bases. A wrong product or power, or an altered proof, is rejected or leaves a false evaluation. The product circuit of a compute layer holds exactly the pairwise products.",
     ["inputs", "configurations", "fault_sequences"],
     "all batches of claims, sizes, truncations, exponent widths 1 to 128, bases, shared points, evaluation orders, packings; all single-byte proof alterations",
     "Tests prove a few honest batches with exponents of at most six bits over one packing and never try a false claim.",
     [C+"core/src/protocols/gkr_gpa", C+"core/src/protocols/gkr_exp", C+"core/src/protocols/prodcheck"],
     [("layer construction with implicit ones", C+"core/src/protocols/gkr_gpa/gkr_gpa.rs"), ("layer claims grouped by evaluation point", C+"core/src/protocols/gkr_exp/batch_verify.rs")],
     ("c_sys", "c19"), "generated batches, direct products, powers and evaluations as oracle, false claims and altered proofs")
prop("C20", "Virtual columns mean what they are defined to mean, in and out of proofs",
     "Every transparent column (constants, powers, selectors, steps, shift and equality indicators, tower bases, products over disjoint variables, tabulated multilinears) evaluates at every point to the multilinear extension of the values that define it, and its materialised form in any packing holds exactly those values. Evaluation claims on virtual columns of any nesting (shifts, packings, linear combinations, projections, repetitions, zero paddings, composites) reduce, with an honest prover, to true claims on committed columns; false claims never reduce to only true ones, and altered proofs never panic.",
     ["inputs", "configurations", "fault_sequences"],
     "all parameters of every transparent polynomial and all points; all nestings of virtual columns over any underliers and towers; all batches of claims, with shared points and suffixes; altered proofs",
     "Tests cover one definition at a time at one size; nested definitions, shared suffixes and false claims are not sampled.",
     [C+"core/src/transparent", C+"core/src/oracle", C+"core/src/protocols/evalcheck", C+"core/src/protocols/greedy_evalcheck"],
     [("claim reduction with memoised partial evaluations", C+"core/src/protocols/evalcheck/prove.rs"), ("projected bivariate subclaims", C+"core/src/protocols/evalcheck/subclaims.rs")],
     ("c_sys", "c20"), "generated definitions against direct tables and multilinear evaluation; generated virtual columns with true and false claims")
prop("C21", "Commitments open to exactly the evaluations of the committed columns",
     "For every batch of committed columns of any tower levels and sizes, the commitment holds the packed columns in their declared places; every set of true evaluation claims, however points are shared, reduces to true sumcheck claims on the packed columns, held alike by prover and verifier, and those open the commitment. Claims that are false of the committed columns, a prover holding other columns, transparents, codewords or commitments, and proofs altered in any byte are rejected, without panics.",
     ["inputs", "configurations", "fault_sequences"],
     "all batches of columns (also smaller than one element), claims with shared prefixes and suffixes, FRI parameters, packings and compute layers; cheating provers and altered proofs",
     "Tests open a few fixed honest batches; no test shows that a false evaluation or another column cannot be opened.",
     [C+"core/src/ring_switch", C+"core/src/piop", C+"core/src/tensor_algebra.rs", C+"core/src/merkle_tree", C+"core/src/protocols/fri"],
     [("grouping of claims by prefix and suffix, row batching", C+"core/src/ring_switch/common.rs"), ("interleaved sumcheck and FRI", C+"core/src/piop/verify.rs")],
     ("c_sys", "c21"), "generated batches and claims against direct evaluation and packing; cheating provers, altered proofs")
prop("C22", "Every compute layer computes the same, on memory of any shape and history",
     "On every compute layer (reference CPU, fast CPU with 1, 2 or 4 elements per word, both tower families, byte-sliced) and any number of threads, every operation (copies, fills, tensor expansion, inner products and matrix products over any subfield, FRI folds, line extrapolation, composites, kernels with mapped and local buffers, joins and maps, equality indicators, pairwise products) gives the result of its definition for slices of any shape, also parts of one packed element, whatever the memory held before; nothing but the output changes, errors of parts are reported, and allocators hand out disjoint memory of the asked length.",
     ["inputs", "histories", "configurations", "schedules"],
     "all sequences of operations on all slices of all buffers, with dirty memory, all layers, packings and thread counts",
     "Tests run each operation once on one fresh buffer of one size; reused memory, slices inside packed elements and few threads are not sampled.",
     [C+"compute/src", C+"fast_compute/src/layer.rs", C+"fast_compute/src/memory.rs"],
     [("packed device memory with parts of one packed element", C+"fast_compute/src/memory.rs"), ("kernel launching", C+"fast_compute/src/layer.rs")],
     ("c_sys", "c22"), "model-based generation of operation sequences on device memory against a model of the memory and direct definitions")

prop("C23", "A table means what its builder calls say, however it is filled",
     "A table built from any sequence of builder calls (committed, computed, shifted, packed, constant, selected, projected, zero-padded, structured and fixed columns, zero and non-zero assertions, pulls and pushes with selectors and multiplicities, any size rule) accepts a filled witness if and only if its rows satisfy what those calls say about them. What filling leaves in the witness depends on the rows alone: not on sequential or parallel filling, segment size, thread count, or what the memory held; padding repeats rows. The channel that emulates a trace is balanced exactly if what was pushed and pulled agree as multisets.",
     ["programs", "inputs", "schedules"],
     "all sequences of builder calls over all cell shapes, all rows, and all ways of filling the table",
     "Each builder call is tested by one hand-written table, with the default segment size, at most a few rows, and no call whose claim is false; compositions of virtual columns over each other are never built.",
     [C+"m3/src/builder/table.rs", C+"m3/src/builder/witness.rs", C+"m3/src/builder/constraint_system.rs", C+"m3/src/builder/expr.rs", C+"m3/src/builder/column.rs", C+"m3/src/builder/channel.rs", C+"m3/src/builder/structured.rs", C+"m3/src/emulate.rs"],
     [("builder calls to columns and constraints", C+"m3/src/builder/table.rs"), ("compilation to oracles, constraints and flushes", C+"m3/src/builder/constraint_system.rs"), ("segments, padding, column views", C+"m3/src/builder/witness.rs")],
     ("c_m3", "c23"), "model-based: random programs of builder calls with an independent row-level model; acceptance compared both ways on honest and altered rows, fills compared across schedules and segment sizes")
prop("C24", "Arithmetic gadgets are complete and sound for every operand and table",
     "Every arithmetic and lookup gadget (packed 32-bit addition, increment, subtraction, wide addition and subtraction with and without carries, bitwise AND and increment lookups with tallied multiplicities, barrel shifts, sign conversion, signed and unsigned multiplication and division, exponent-based products) computes its integer function: populating any table of any operands, in any order, size, packing and fill mode, gives a witness that is accepted and holds the right results, and no witness that differs from the function is accepted.",
     ["inputs", "programs", "configurations"],
     "all operands of all gadgets, all table sizes, packings and fill modes, and all assignments of the columns the prover commits",
     "Tests populate each gadget once with a few operands and check that the honest witness is accepted; whether a dishonest one is refused is not tested, and neither are other table sizes or stacked values.",
     [C+"m3/src/gadgets", C+"m3/src/builder/table.rs", C+"m3/src/builder/witness.rs"],
     [("carry and borrow constraints", C+"m3/src/gadgets/add.rs"), ("borrow constraints", C+"m3/src/gadgets/sub.rs"), ("exponent products", C+"m3/src/gadgets/mul.rs"), ("lookup multiplicities", C+"m3/src/gadgets/lookup.rs")],
     ("c_m3", "c24"), "generated operands against integer arithmetic, and an adversary that alters cells of an honest row and repairs the constraints it breaks until all hold or it gives up; every satisfying row must compute the function")
prop("C25", "Hash, permutation and Merkle-path gadgets are complete and sound",
     "The Groestl, SHA-256 and Keccak-f gadgets, the indexed-lookup incrementer and the Merkle-path tables compute their functions: every input state, message, path and table size fills to a witness that is accepted and holds exactly what the reference implementation computes, and no witness whose outputs differ from the function of its inputs, and no path to another root, leaf or index, is accepted.",
     ["inputs", "programs"],
     "all states, message blocks and paths, all numbers of rows and tables of paths, and all assignments of the committed columns",
     "Each gadget is tested by filling it with a few random states; whether a wrong state is refused is not tested, and the Merkle table is tested on a handful of trees.",
     [C+"m3/src/gadgets/hash", C+"m3/src/gadgets/merkle_tree", C+"m3/src/gadgets/indexed_lookup", C+"m3/src/builder"],
     [("S-box inverse and permutation rounds", C+"m3/src/gadgets/hash/groestl.rs"), ("message schedule and rounds", C+"m3/src/gadgets/hash/sha256.rs"), ("batched rounds and their links", C+"m3/src/gadgets/hash/keccak"), ("path pulls, direction selectors, root and boundary tables", C+"m3/src/gadgets/merkle_tree")],
     ("c_m3", "c25"), "generated states and paths against reference hash implementations, and an adversary that alters cells of an honest row and repairs the constraints it breaks; every accepted row must compute the function")
prop("C26", "Without rayon, parallel iterators keep their meaning",
     "Built without its rayon feature, binius_maybe_rayon replaces parallel iterators, parallel slice operations, joins, scopes and thread pools by sequential ones. Every pipeline of sources, adaptors and terminal operations yields what rayon yields for it (up to what rayon leaves open: which of several matches any-searches find), for every input and parameter, including empty inputs, zero lengths and refusals by panic.",
     ["inputs", "programs", "configurations"],
     "all compositions of a source, indexed and plain adaptors and a terminal operation, all inputs and parameters, all thread counts of rayon",
     "The four unit tests of this crate cover five of some eighty operations with one input each, and the rest of the test suite is built with rayon only.",
     [C+"maybe_rayon/src"],
     [("sequential iterator adaptors", C+"maybe_rayon/src/iter/parallel_iterator.rs"), ("indexed adaptors", C+"maybe_rayon/src/iter/indexed_parallel_iterator.rs"), ("slices", C+"maybe_rayon/src/slice")],
     ("c_par", "c26"), "differential: the same generated pipelines through rayon and through the sequential replacement")
prop("C27", "Shared containers and helpers behave like their plain models",
     "The containers and helpers shared by prover and verifier behave like plain maps, vectors and integers over every history of operations: sparse indices, stable sorting and its inverse (which must agree between prover and verifier), connected components, two-dimensional and strided views (whose parallel column pieces never overlap and cover the array), subranges of sequences, skippable iterators, logarithms and checked division; accesses outside are refused.",
     ["inputs", "histories"],
     "all operation histories on all shapes and values",
     "Tests use one example per container; the strided view hands out aliasing mutable slices by unsafe code, which only all shapes and strides can show to be disjoint.",
     [C+"utils/src"],
     [("strided views over one slice", C+"utils/src/strided_array.rs"), ("stable sort and unsort of claims", C+"utils/src/sorting.rs")],
     ("c_math", "c27"), "model-based: generated operation histories against plain models")
prop("C28", "Every build of the library computes the same",
     "The library selects code at compile time: with or without rayon, and by instruction set (AVX2, AVX-512, GFNI, VPCLMULQDQ or none). Field arithmetic, packed operations, transforms, multilinear operations, hashes, Merkle trees and compute layers meet the same definitions in each build, and all builds make byte for byte the same proof of the same statement and witness, and accept each other's.",
     ["configurations", "inputs"],
     "all inputs of the checked operations and all generated systems, in the default build and in one without rayon for all instruction sets of this machine",
     "The test suite is built once, with rayon and for AVX2; the code for other builds is never run by it.",
     [C+"field/src/arch", C+"hash/src/groestl/arch", C+"maybe_rayon/src", C+"core/src/constraint_system/prove.rs"],
     [("selection by target feature", C+"field/src/arch/x86_64/mod.rs"), ("multi-lane hashing", C+"hash/src/groestl/arch/mod.rs")],
     ("c_sys", "c28"), "differential across builds: generated systems proved by two builds must give the same bytes; the reference checks of C06, C07, C09, C11, C14, C15 and C22 run in the other build", extra={"driver": "builds"})
