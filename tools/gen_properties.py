import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
R="src/r1cs/"; GA="src/r1cs/gadgets/"; HC=GA+"helper_constraints/"
p("C01","Completeness: honest proofs of satisfied circuits always verify",
 "For every sequence of constraint-system operations (committing values, multiplying, allocating variables singly or as multipliers, adding linear constraints, registering second-phase callbacks) whose constraints hold for the prover's values, proving succeeds and verifying the same sequence against the returned commitments succeeds. This holds for every circuit size including zero, one and non-power-of-two numbers of multipliers, any split between the two phases, any commitment count, and any generator vectors at least as long as the padded size.",
 ["programs","inputs","configurations"],"all operation sequences up to a bounded depth over a small operation alphabet and value table, plus all sizes n1+n2 of the two phases up to a bound, with generator vectors of exactly sufficient and of larger length",
 "The tests run about twenty fixed circuits whose sizes happen to avoid 0 and 1 multipliers, half-assigned pairs at phase ends, and most phase splits and paddings.",
 [R+"prover.rs",R+"verifier.rs","src/ipp.rs",R+"constraint_system.rs","src/utils/vector_poly.rs"],
 [("prover: flattening, polynomial construction, padding, proof assembly",R+"prover.rs Prover::prove"),("verifier: flattening, scalar assembly and the combined check",R+"verifier.rs Verifier::verify"),("inner product argument on the padded vectors","src/ipp.rs IPP")],
 ["result of verification"])
p("C02","Soundness: no proof of a violated circuit is accepted",
 "If the values behind the commitments and allocated variables violate any linear constraint or any multiplication gate of the verifier's circuit, in either phase and at any position, the verifier rejects, whatever honest or deviating prover made the proof. A proof made for one circuit is rejected by a verifier whose circuit differs in a coefficient, a constant, the order or number of constraints, the number of variables, or the phase split, unless it is the same statement.",
 ["programs","inputs","fault_sequences"],"all enumerated circuits with exactly one (and all pairs of) violated constraints or gates at every position; all single edits of the verifier's circuit; proofs from the real prover and from an independent deviating prover",
 "Tests verify only true statements (plus two fixed false ones), so a constraint or gate that stops being enforced at some position, size or phase is never noticed.",
 [R+"prover.rs",R+"verifier.rs","src/ipp.rs"],
 [("combined verification equation (constraint weights, gate terms, delta)",R+"verifier.rs Verifier::verify"),("constraint flattening with powers of a challenge",R+"verifier.rs flattened_constraints, "+R+"prover.rs flattened_constraints")],
 ["result of verification"])
p("C03","A proof is bound to its contents, commitments, label and generators",
 "Changing any one component of an accepted proof (replacing, negating, swapping, zeroing, dropping, duplicating or reordering any of its points or scalars), any commitment or their order or number, the transcript label, or any generator in use makes verification fail. The unmodified proof still verifies any number of times.",
 ["inputs","fault_sequences"],"every single mutation of every proof component from a fixed mutation menu, every commitment edit, label edit and generator edit, over a family of circuit shapes of both phases",
 "No test mutates a proof; a component that is no longer checked or hashed leaves all tests green.",
 [R+"verifier.rs",R+"proof.rs","src/ipp.rs","src/transcript.rs"],
 [("every proof component enters the transcript and the combined equation",R+"verifier.rs Verifier::verify"),("L/R processing","src/ipp.rs verification_scalars")],
 ["result of verification of serialised, edited and deserialised proofs"])
p("C04","Verifying and proving never panic on malformed input; they return errors",
 "Verification of any structurally malformed or hostile proof (wrong or unequal numbers of inner-product rounds, identity or foreign points, zero scalars, too few or too many commitments) returns an error rather than panicking or accepting. Proving or verifying with generator vectors shorter than the padded circuit size, on either side, reports an invalid-generators error, and exactly sufficient vectors work.",
 ["inputs","configurations"],"all round-list length pairs up to a bound, all mutations of the C03 menu, all generator-length pairs around the padded size, for a family of circuit sizes and both phases",
 "Tests only ever pass well-formed proofs and ample generators.",
 [R+"verifier.rs",R+"prover.rs","src/ipp.rs","src/errors.rs"],
 [("length checks before indexing",R+"verifier.rs verify; "+R+"prover.rs prove; src/ipp.rs verification_scalars, verify_ipp")],
 ["return value / panic of prove, verify and the inner-product verifier"])
p("C05","Inner-product argument accepts exactly the true relation",
 "For every power-of-two length, vectors a and b, bases, factor vectors and Q, the inner-product proof verifies against P = <a∘factors_G, G> + <b∘factors_H, H> + <a,b>Q. It is rejected against any other P, or when Q, a base, a factor, a proof scalar, an L or R point, the length or the transcript label is changed.",
 ["inputs","fault_sequences"],"all value patterns over a small table for short lengths, all lengths up to a bound with structured patterns, and all single-component edits",
 "The single IPP test uses one length-4 example with constant factors.",
 ["src/ipp.rs","src/transcript.rs"],
 [("folding prover","src/ipp.rs create_ipp"),("verifier scalars and multi-exponentiation","src/ipp.rs verification_scalars, verify_ipp")],
 ["result of verify_ipp"])
p("C06","Fiat-Shamir: every challenge is bound to everything sent before it",
 "Prover and verifier absorb the same messages in the same order and obtain the same challenges, ending with identical transcripts; each commitment, proof point, proof scalar, the commitment count, the phase kind and the circuit's inner-product size is absorbed before the challenges that must depend on it. Changing any one of these changes every later challenge and no earlier one.",
 ["programs","inputs","histories"],"for all enumerated circuit shapes and every message of the protocol: the recorded absorb/challenge history of both parties and the effect of altering that message",
 "Tests cannot see the transcript: a message dropped on both sides keeps every test passing while making proofs forgeable.",
 ["src/transcript.rs",R+"prover.rs",R+"verifier.rs","src/ipp.rs"],
 [("transcript protocol: commit point/scalar, domain separators, challenges","src/transcript.rs"),("absorb order",R+"prover.rs prove, "+R+"verifier.rs verify, src/ipp.rs")],
 ["the messages and challenges of the transcript passed in by the caller"])
p("C07","Proofs hide the witness: every blinding is present and fresh",
 "Every point of a proof that depends on witness values carries its own fresh, non-zero random blinding in each phase that has variables, and every masking vector entry is fresh and non-zero, so two proofs of the same statement with the same randomness for the commitments share no witness-dependent component. Auxiliary commitments made by gadgets on the prover's behalf are blinded with fresh randomness.",
 ["programs","inputs","configurations"],"every blinding position of every enumerated circuit shape and phase split, isolated by degenerate generators; every auxiliary commitment of every gadget; repeated proofs compared pairwise",
 "Verification succeeds just as well with constant, repeated or missing blindings, so no functional test notices.",
 [R+"prover.rs",GA+"bound_check.rs",GA+"set_membership.rs",GA+"set_membership_alt.rs",GA+"set_non_membership.rs",GA+"non_zero.rs",GA+"hamming_distance.rs",GA+"sparse_merkle_tree_4_ary.rs",GA+"sparse_merkle_tree_8_ary.rs",GA+"randomizer.rs"],
 [("random blinding factors and masking vectors",R+"prover.rs Prover::prove"),("random blindings for auxiliary commitments","the prove functions under "+GA)],
 ["points of the proof under degenerate generators", "returned commitments"])
p("C08","Proofs interoperate with an independent implementation of the protocol",
 "A proof produced by the library verifies under an independent implementation of the published Bulletproofs R1CS protocol with the library's transcript layout, and proofs produced by that implementation verify under the library, for every circuit. On every edited or deviating proof both verifiers give the same verdict.",
 ["programs","inputs","fault_sequences"],"all enumerated circuits of C01 in both directions, and all edits of C03 on representative circuits",
 "Tests always run the library against itself, so matching errors on both sides (which break stored proofs and soundness) cancel out.",
 [R+"prover.rs",R+"verifier.rs","src/ipp.rs","src/transcript.rs",R+"proof.rs"],
 [("protocol equations and transcript layout",R+"prover.rs, "+R+"verifier.rs, src/ipp.rs, src/transcript.rs")],
 ["verdicts of both verifiers on serialised proofs"])
p("C09","Prover and verifier build the same circuit from the same operations",
 "The same sequence of operations yields the same variable handles, in the same phase, on prover and verifier; single allocations pair up two by two into multipliers with the output available on the second, interleaved with any other operation, and an unpaired one counts as multiplied by zero at the end of its phase. The prover evaluates linear combinations to their true value, the verifier to nothing, and a prover allocation without a value is an error that leaves the system unchanged.",
 ["programs"],"all operation sequences up to a bounded depth in both phases, compared step by step with an explicit model",
 "Tests use only a few orders of allocation and never mix half-allocated pairs with other operations or phases.",
 [R+"prover.rs",R+"verifier.rs",R+"constraint_system.rs"],
 [("pending multiplier bookkeeping",R+"prover.rs allocate, allocate_single; "+R+"verifier.rs allocate, allocate_single"),("evaluation",R+"prover.rs eval")],
 ["returned variables, evaluations, counters, errors"],
 [("pending multiplier","index of a half-assigned multiplier",R+"prover.rs, "+R+"verifier.rs")])
p("C10","Second-phase constraints run once, in order, after phase one is fixed",
 "Every registered callback runs exactly once, in registration order, on prover and verifier, only after all first-phase variables are committed, and nested registrations run immediately. The challenges it draws are identical on both sides and depend on every first-phase commitment, and an error returned by any callback aborts proving or verifying with that same error.",
 ["programs","histories","fault_sequences"],"all arrangements of up to three callbacks (with nesting, allocations, constraints, challenge draws, failure at each point) around first-phase operations",
 "One test uses one callback; ordering, nesting, failure and binding are not exercised.",
 [R+"prover.rs",R+"verifier.rs",R+"constraint_system.rs"],
 [("deferred callback list and its execution",R+"prover.rs create_randomized_constraints; "+R+"verifier.rs create_randomized_constraints"),("challenge drawing",R+"prover.rs challenge_scalar; "+R+"verifier.rs challenge_scalar")],
 ["callback trace, challenges, return values"])
p("C11","Bound proofs: accepted exactly when the committed number is in range",
 "A bound proof for a committed number verifies for every value in [lower, upper] whose distances to both bounds fit the stated bit size, including both ends and a single-value range. No choice of committed values or internal variables by a dishonest prover makes it verify for a number outside the bounds (values taken as field elements, so wrap-around and negative numbers are outside), and an honest call with an out-of-range number yields an error or a rejected proof.",
 ["inputs","fault_sequences"],"all (value, lower, upper, bits) up to small bounds plus boundary values up to 55 bits and bit sizes beyond the field size; all adversarial assignments of the gadget's variables from a menu with bounded deviations",
 "Tests prove one in-range value; the absence of any accepting false witness cannot be sampled.",
 [GA+"bound_check.rs",HC+"positive_no.rs",HC+"bit.rs"],
 [("range gadget: difference constraints and bit decomposition",GA+"bound_check.rs bound_check_gadget; "+HC+"positive_no.rs")],
 ["verification result; satisfiability of the emitted constraints"])
p("C12","Set membership proofs: accepted exactly for members",
 "Both set-membership proofs verify for every committed value that occurs in the public set, at any position, for any set size from one up and with repeated elements. No dishonest choice of committed helper values or internal variables makes either verify for a value that is not in the set, including zero.",
 ["inputs","fault_sequences"],"all sets up to a bounded size over a small universe including 0 and duplicates, all values, all adversarial assignments from a menu with bounded deviations; larger sizes with every position",
 "Tests prove a fixed member of one random set.",
 [GA+"set_membership.rs",GA+"set_membership_alt.rs",HC+"bit.rs",HC+"vector_sum.rs"],
 [("product-of-differences gadget",GA+"set_membership.rs set_membership_gadget"),("one-of-n bitmap gadget",GA+"set_membership_alt.rs vector_product_gadget; "+HC+"bit.rs; "+HC+"vector_sum.rs")],
 ["verification result; satisfiability of the emitted constraints"])
p("C13","Non-membership and non-zero proofs: accepted exactly when true",
 "A non-membership proof verifies for every committed value absent from the public set, and a non-zero proof for every non-zero committed value. No dishonest choice of helper values or internal variables makes them verify for a value that is in the set at any position, or for zero.",
 ["inputs","fault_sequences"],"all sets up to a bounded size over a small universe, all values, all adversarial assignments from a menu with bounded deviations; larger sizes with every position",
 "Tests prove one fixed true instance each.",
 [GA+"set_non_membership.rs",GA+"non_zero.rs",HC+"non_zero.rs"],
 [("difference plus inverse constraints",GA+"set_non_membership.rs set_non_membership_gadget; "+HC+"non_zero.rs is_nonzero_gadget")],
 ["verification result; satisfiability of the emitted constraints"])
p("C14","Hamming-distance proofs: accepted exactly for the true distance",
 "A proof that committed values differ from a public list in exactly k positions verifies for the true k, for every length including equal lists and all-different lists. No dishonest choice of internal variables makes it verify for any other k, and lists of different lengths are an error.",
 ["inputs","fault_sequences"],"all value lists up to a bounded length over a small universe, every claimed k, all adversarial assignments from a menu with bounded deviations",
 "Tests prove one true instance; an unconstrained internal variable makes any count provable without failing them.",
 [GA+"hamming_distance.rs",HC+"vector_sum.rs"],
 [("difference, inverse and indicator constraints; sum constraint",GA+"hamming_distance.rs hamming_distance_gadget")],
 ["verification result; satisfiability of the emitted constraints"])
p("C15","MiMC proofs: accepted exactly for true preimages",
 "The native MiMC function equals its definition (each round maps (l, r) to ((l + c)^3 + r, l)) for every round count and constants, and a preimage proof verifies exactly when the image is that function of the two committed inputs in their order. No dishonest internal assignment proves any other image.",
 ["inputs","configurations","fault_sequences"],"all inputs over a value table, all round counts up to a bound, several constant vectors, all wrong images / swapped inputs / wrong constants, all bounded adversarial assignments",
 "Tests prove one random instance and never compare with an independent definition or try wrong images.",
 [GA+"mimc.rs",HC+"mimc.rs"],
 [("native function and its constraints",HC+"mimc.rs mimc, enforce_mimc_2_inputs, mimc_gadget")],
 ["native output, evaluated circuit output, verification result"])
p("C16","Poseidon: native hash, circuit and definition agree for all variants",
 "For every supported width, S-box and round split, the native permutation and the 2-, 4- and 8-input hashes equal the Poseidon definition over the round constants published in the repository and the Cauchy matrix 1/(i + j + width), the circuit's output equals the native output, and a preimage proof verifies exactly when the expected output is the hash of the committed inputs in order. No dishonest internal assignment makes another output provable, except that the inverse S-box has no proof when one of its inputs is zero.",
 ["inputs","configurations","fault_sequences"],"widths 3/5/9, all three S-boxes, all small round splits plus full-size ones, all inputs over a value table, every S-box position deviated",
 "Tests compare native and circuit on one random input per variant and cannot see an S-box that is not tied to its input.",
 [HC+"poseidon.rs",GA+"poseidon_hash.rs",GA+"poseidon_constants.rs"],
 [("native permutation and S-boxes",HC+"poseidon.rs Poseidon_permutation, apply_sbox"),("constraint synthesis",HC+"poseidon.rs Poseidon_permutation_constraints, synthesize_*_sbox"),("padding constants as commitments with known opening",GA+"poseidon_hash.rs allocate_statics_for_*")],
 ["native output, evaluated circuit output, verification result"])
p("C17","Sparse Merkle trees behave as persistent authenticated maps",
 "After any history of updates at indices of the tree a read returns the last value written at that index (zero if none), the root is a function of the current contents only, and equals the root computed from scratch; roots of earlier states still serve their own contents and proofs from the same store. A proof returned with a read verifies for exactly that index, value and root, and a proof with any other value, index, root, sibling or length does not; a failed operation changes nothing.",
 ["histories","inputs","fault_sequences"],"all update histories up to a bounded length over all indices of small trees (and boundary indices of deep ones) with a small value set, after every step all reads and proofs; missing database nodes at every position; both arities",
 "Tests write increasing indices once each and check only valid proofs.",
 [HC+"sparse_merkle_tree_4_ary.rs",HC+"sparse_merkle_tree_8_ary.rs","src/utils/hash_db.rs"],
 [("update/get/verify_proof",HC+"sparse_merkle_tree_4_ary.rs VanillaSparseMerkleTree_4; "+HC+"sparse_merkle_tree_8_ary.rs VanillaSparseMerkleTree_8"),("index decomposition",HC+"sparse_merkle_tree_4_ary.rs get_base_4_repr; "+HC+"sparse_merkle_tree_8_ary.rs get_base_8_repr")],
 ["roots, read results, proof verdicts"],
 [("root","hash of the current tree","tree structs"),("hash db","node hash to children",  "src/utils/hash_db.rs")])
p("C18","Merkle inclusion proofs: accepted exactly for real leaves at the tree depth",
 "For both arities and every depth, a zero-knowledge inclusion proof verifies for the committed leaf and index exactly when hashing that leaf with siblings along the base-4 or base-8 digits of that index, for exactly the stated number of levels, yields the root. A wrong leaf, index, sibling order, root, or a proof with fewer or more levels (such as presenting an inner node as a leaf) is rejected or reported as an error, whatever internal variables a dishonest prover picks.",
 ["inputs","configurations","fault_sequences"],"all indices of small trees, every depth up to a bound (including depths that are not a multiple of four), every wrong index/leaf/root/sibling edit and every sibling count, all bounded adversarial assignments of the index bits",
 "Tests prove one leaf at one depth per arity and no false statement.",
 [GA+"sparse_merkle_tree_4_ary.rs",GA+"sparse_merkle_tree_8_ary.rs",HC+"sparse_merkle_tree_4_ary.rs",HC+"sparse_merkle_tree_8_ary.rs"],
 [("child selection by index bits and hash chain",HC+"sparse_merkle_tree_4_ary.rs vanilla_merkle_merkle_tree_4_verif_gadget; "+HC+"sparse_merkle_tree_8_ary.rs vanilla_merkle_merkle_tree_8_verif_gadget")],
 ["verification result; evaluated circuit root; satisfiability of the emitted constraints"])
p("C19","Randomizer proofs: accepted exactly when the trees differ only as declared",
 "A randomizer proof verifies exactly when the committed original tree contains the committed values at the public modified indices and restoring those values in the public new tree yields the original root, for any list of indices of the tree, in any order. Index selection is deterministic in the nonce and depends on all of it, yields distinct in-range indices, and data randomization changes exactly the selected entries while returning their original values.",
 ["inputs","histories","fault_sequences"],"all subsets of indices of small trees up to a bound, every undeclared difference, wrong value, wrong index or wrong root, for depths one and two (deeper for selected); all small (nonce, size, count) triples",
 "The test covers one honest instance.",
 [GA+"randomizer.rs",HC+"sparse_merkle_tree_4_ary.rs"],
 [("inclusion of original values and re-update of the new tree",GA+"randomizer.rs randomizer_gadget"),("index selection and data randomization",GA+"randomizer.rs get_indices_to_modify, get_randomized_data")],
 ["verification result; satisfiability of the emitted constraints; helper outputs"])
p("C20","Gadgets compose in one proof, in any order, without interfering",
 "Any sequence of gadgets, interleaved with plain operations and half-allocated pairs, built in one prover and in the same order in one verifier, verifies exactly when every gadget's own statement is true. One false sub-statement anywhere makes the whole proof fail.",
 ["programs","inputs"],"all sequences of gadget instances up to a bounded length with all truth assignments, with and without pending single allocations before, between and after",
 "Tests compose two gadgets in one order with true statements only.",
 [GA+"mod.rs",R+"prover.rs",R+"verifier.rs",GA+"hamming_distance.rs",HC+"poseidon.rs"],
 [("gadgets share one constraint system","the prove_*/verify_* functions under "+GA)],
 ["verification result"])
p("C21","Linear-combination arithmetic means what it says",
 "Every way of building a linear combination (conversion, sums, differences, negation, scaling, accumulation, collecting terms, simplification) evaluates, under every assignment, to the same arithmetic on the values; simplification keeps at most one term per variable. A constraint built in any of these equivalent ways accepts exactly the same witnesses.",
 ["programs","inputs"],"all expression trees up to a bounded size over a few variables and constants, under several assignments, evaluated by the prover against direct arithmetic",
 "Tests use a handful of expressions.",
 [R+"linear_combination.rs",R+"prover.rs"],
 [("operator implementations and simplify",R+"linear_combination.rs")],
 ["evaluation by the prover's constraint system; verification result"])
p("C22","Serialised proofs round-trip and keep their verdict",
 "Serialising a proof and reading it back gives a proof with the same components and the same verdict, for every circuit shape, and re-serialising is stable. Proof size depends only on the circuit's padded size.",
 ["inputs","configurations"],"proofs of all enumerated circuit shapes and of every gadget, valid and invalid",
 "One test serialises one proof.",
 [R+"proof.rs","src/ipp.rs"],
 [("derived serialisation",R+"proof.rs, src/ipp.rs")],
 ["serialised form, verdict after round trip"])
p("C23","Gadget interfaces report bad input as errors, never panic or accept",
 "Every gadget's prove and verify entry point given too few, too many or wrongly sized inputs, commitments, randomness or generators, or neither randomness nor a random source, returns an error; a verifier never accepts a statement whose commitment count does not match. No such input makes it panic.",
 ["inputs","configurations"],"for every gadget entry point, every length of each list from zero to beyond the right one, each optional argument absent, each generator length around the need",
 "Tests call every gadget with well-formed input only.",
 [GA+"bound_check.rs",GA+"set_membership.rs",GA+"set_membership_alt.rs",GA+"set_non_membership.rs",GA+"non_zero.rs",GA+"hamming_distance.rs",GA+"mimc.rs",GA+"poseidon_hash.rs",GA+"sparse_merkle_tree_4_ary.rs",GA+"sparse_merkle_tree_8_ary.rs",GA+"randomizer.rs","src/errors.rs"],
 [("argument checks","the prove_*/verify_*/gen_proof_*/verify_proof_* functions under "+GA+"; macros in src/errors.rs")],
 ["return value / panic of gadget entry points"])
p("C24","Gadget commitments open to the given value and randomness, in order",
 "Each gadget prover returns its commitments in the order its verifier consumes them, and those to the caller's inputs are exactly the Pedersen commitments of the input values under the caller's randomness when supplied (or under the supplied random source otherwise). Hence a commitment made elsewhere can be linked to the proof, and a proof verifies only with the commitments of its own inputs.",
 ["inputs","configurations"],"every gadget, every input position, over a value and randomness table, with supplied randomness and with a deterministic random source",
 "Tests pass no caller randomness except in two composed examples and never recompute a commitment.",
 [GA+"bound_check.rs",GA+"set_membership.rs",GA+"set_membership_alt.rs",GA+"set_non_membership.rs",GA+"non_zero.rs",GA+"mimc.rs",GA+"poseidon_hash.rs",GA+"sparse_merkle_tree_4_ary.rs",GA+"sparse_merkle_tree_8_ary.rs",R+"prover.rs"],
 [("commit calls with supplied randomness","the prove_* functions under "+GA+"; "+R+"prover.rs commit")],
 ["returned commitments"])
p("C25","Vector polynomials and generator derivation obey their algebra",
 "For all coefficient vectors the inner product of two vector polynomials, evaluated at any point, equals the inner product of their evaluations, coefficient by coefficient. Derived generators are deterministic, non-trivial, pairwise distinct across the positions of a list and across prefixes (other than prefixes extending one another by digits), and a longer list extends a shorter one.",
 ["inputs"],"all coefficient patterns over a small table for short lengths and structured ones for longer, several evaluation points; all lengths up to a bound and several prefixes",
 "Neither is tested directly.",
 ["src/utils/vector_poly.rs","src/utils/mod.rs"],
 [("polynomial products and evaluation","src/utils/vector_poly.rs"),("hash-to-group generators","src/utils/mod.rs get_generators")],
 ["returned values"])
p("C26","Proofs compose on a shared transcript, and only with the same history",
 "Any sequence of application messages, application challenges, constraint-system proofs and inner-product proofs can be made on one transcript and checked on one transcript: with the same sequence everything is accepted, every challenge drawn in between agrees and the two transcripts end in the same state. If the histories differ before a proof (an item left out, inserted, changed, or two exchanged), that proof is rejected, and challenges drawn after the difference are new. Sessions do not affect one another.",
 ["histories","inputs"],"all sequences of messages, challenges and proofs up to a length, and every single edit of each sequence on the verifying side",
 "Tests give every proof a transcript of its own and never compare what the two sides hold afterwards.",
 [R+"prover.rs",R+"verifier.rs","src/ipp.rs","src/transcript.rs"],
 [("transcript borrowed by the two parties",R+"prover.rs Prover::new/prove, "+R+"verifier.rs Verifier::new/verify"),("inner-product argument on a caller's transcript","src/ipp.rs create_ipp, verify_ipp"),("message and challenge framing","src/transcript.rs")],
 ["verdict of every proof of the session","challenges drawn between proofs","final transcript state"])
p("C27","Proof size and generators needed depend only on the circuit size",
 "A proof of a circuit with n multiplication gates holds eleven points, five scalars and two inner-product points per doubling up to the next power of two N of n (none for one gate or less): the size is logarithmic in the gates and does not depend on the number of constraints, commitments or generators or on the witness. The phase-two commitments are empty exactly when phase two adds no gate, and no other point is ever empty, whatever the witness. Proving and verifying need exactly N generators of each kind: spare ones play no part, and with fewer of either kind both sides return InvalidGeneratorsLength.",
 ["inputs","configurations"],"all circuits of an operation alphabet up to a depth, every number of gates up to a bound with the splits over the phases, several witnesses, and generator vectors shorter and longer than needed",
 "Tests print no sizes and give plenty of generators, so a larger padding or a dependence on spare generators goes unseen.",
 [R+"prover.rs",R+"verifier.rs","src/ipp.rs",R+"proof.rs"],
 [("padding and generator checks",R+"prover.rs Prover::prove, "+R+"verifier.rs Verifier::verify"),("rounds of the inner-product argument","src/ipp.rs create_ipp, verification_scalars"),("parts of a proof",R+"proof.rs R1CSProof")],
 ["number of inner-product points","which points are the identity","error for short generator vectors","verdict with other spare generators"])
p("C28","Constraint building blocks accept exactly what they state",
 "Each public building block, placed on values the caller has committed to, on outputs of multiplication gates, or inside a second-phase callback, can be satisfied for exactly the values its documentation states: bit_gadget for 0 and 1; positive_no_gadget for 0 <= v < 2^n, for every n below the bits of the field order; vector_sum_constraints for vectors (with repeated entries too) adding up to the u64 given; constrain_lc_with_scalar for linear combinations with that value, in any spelling; is_nonzero_gadget for x with its inverse; vector_product_gadget for a selection of the value; bound_check_gadget for both differences in range; the MiMC and Poseidon constraints for linear combinations whose hash or permutation is the one stated. A prover without the assignments gets MissingAssignment.",
 ["inputs","configurations"],"all values of a boundary menu per block and parameter, for three placements, and all assignments of the internal wires of the resulting circuits",
 "Tests reach the blocks only through whole gadgets with honest small inputs, where a missing constraint or a misread parameter is not seen.",
 [R+"gadgets/helper_constraints/bit.rs",R+"gadgets/helper_constraints/positive_no.rs",R+"gadgets/helper_constraints/vector_sum.rs",R+"gadgets/helper_constraints/non_zero.rs",R+"gadgets/helper_constraints/mod.rs",R+"gadgets/set_membership_alt.rs"],
 [("building blocks",R+"gadgets/helper_constraints/*.rs"),("selection",R+"gadgets/set_membership_alt.rs vector_product_gadget"),("bounds",R+"gadgets/bound_check.rs bound_check_gadget")],
 ["satisfiability of the block's circuit for given values","verdict on the library's own proof"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P), [x["id"] for x in P if len(x["title"])>80])
