# Per-property description: technique, what is explored and against which oracle, what is assumed.
# gen_manifest.py writes MANIFEST.json and mc/desc.json (read by the harness for the evidence files) from it.
T_PROG="explicit-state enumeration of operation programs, run on the real prover and verifier"
T_FAULT="exhaustive enumeration of single faults on the real verifier"
T_CIRC="explicit-state search over all assignments of the circuit the verifier emits, witnesses replayed on the real verifier"
T_HIST="exhaustive enumeration of histories on the real code against an explicit model"
D={
"C01":(T_PROG,"Every sequence of at most 3 (thorough 4) operations over a 12-letter alphabet (commit, 2 multiply forms, 3 allocation forms, 2 constraints, 4 second-phase callbacks incl. nesting and challenges) is proved and verified by the library; plus all phase splits (n1,n2) of a size grid up to 65 (129) gates, value profiles with zeros and field extremes, commitment counts, callback counts and unpaired allocations at phase ends; generator vectors exactly sufficient and longer by turns. A state is one program, a transition one operation on one side."),
"C02":(T_PROG,"For every enumerated program a violated constraint is inserted at every position and proved by the library's own prover; all pairs of violated constraints and every position of larger circuits likewise; an independent prover violates every gate and every wire at every position, batches deviations that would cancel in a wrongly weighted equation, and proves against every single edit of the verifier's circuit. Each must be rejected; undeviating controls must be accepted."),
"C03":(T_FAULT,"For a family of circuit shapes of both phases every single mutation from the menu (replace, negate, double, shift, swap, zero, identity, drop, duplicate, reorder, off-curve encodings) of every proof component, every commitment edit, the label and every generator position; each verdict is taken from the real verifier on the serialised, edited, deserialised proof. The unmodified proof must verify repeatedly."),
"C04":(T_FAULT,"All pairs of round-list lengths around and beyond the right one, all mutations of the C03 menu, all pairs of generator-vector lengths around the padded size, for sizes of both phases; a panic or an acceptance is a violation; lengths that suffice must be accepted."),
"C05":("exhaustive enumeration of instances and single-component edits on the real inner-product argument","Lengths 1..16 (128; selected up to 512, thorough 2048), forged arguments with one to three and with 28 to 128 extra rounds, value patterns over a table including 0, 1, -1 and large values, factor patterns and bases; every instance must verify against P computed from the definition and under the independent folding verifier, and every single edit of P, Q, a base, a factor, a scalar, an L/R point, the length or the label must be rejected; wrong lengths must be errors."),
"C06":("model checking of the transcript history: recorded absorb/challenge events of both parties against the protocol's event automaton","The transcript type handed to the library is merlin with an event recorder (merlin-shim). For every program up to depth 3 (4) both histories must be equal, end in equal states, and every commitment, point, scalar, count, phase marker and size must be absorbed before the challenges that depend on it; for every message, an altered value must change all later challenges and no earlier one."),
"C07":("exhaustive isolation of every blinding position on the real prover","With degenerate generators each point of a proof reduces to one blinding or one mask entry; every position of every shape and phase split is examined for presence, non-triviality, freshness over repeated proofs and absence of small linear relations and small multiples; every auxiliary commitment of every gadget is compared across runs and against the witness.",),
"C08":("differential enumeration: every program proved by one implementation and verified by the other","mc/src/refimpl.rs is an implementation written from the protocol. All programs up to depth 2 (3), the size grid, all C03 edits and all circuit pairs are judged by both verifiers, in both proving directions; any difference of verdict is a violation."),
"C09":("explicit-state model of the constraint system, conformance checked step by step on prover and verifier","All sequences of at most 5 (6) operations over 9 letters, of at most 6 (8) allocations, and of second-phase bodies up to 3 (4) operations; after every step the returned handles, evaluations, counters, errors and (through the guarded hook) wire values and constraints are compared with the model."),
"C10":("exhaustive enumeration of callback schedules on the real prover and verifier","All arrangements of up to 3 (4) first-phase operations and callbacks (empty, constraining, allocating, drawing, nested, failing with each error at each point); order, exactly-once, timing, equality and binding of the challenges and the propagated error are compared with the model."),
"C11":(T_CIRC,"All (value, lower, upper, bits) with bounds up to 10 (18) and 1..4 (5) bits, boundary values for every bit size up to 55 and for several up to 64, bit sizes up to and beyond the field size; values as field elements including negative ones. True statements must have an accepted proof, false ones no satisfying assignment."),
"C12":(T_CIRC,"Both gadgets, all lists of length at most 3 (5) over a universe with 0 and duplicates, all committed values, sets up to 65 (128) with every position, and sets with zeros, repetitions, huge and descending elements at every place; all assignments of committed helpers and internal wires. Entry points end to end."),
"C13":(T_CIRC,"All lists of length at most 3 (5), all values, sets up to 65 (128) with every position, sets with zeros, repetitions, huge and descending elements, non-zero for a value table; all assignments of helpers and internal wires. Entry points end to end."),
"C14":(T_CIRC,"All pairs of lists up to length 2 (3) over a small universe, longer structured ones and lists up to 257 (513): the set of provable distances is computed by search and must be exactly the true one. Different lengths must be errors."),
"C15":(T_CIRC,"Native function against the definition for all round counts of a list and all inputs of a table; the set of provable images for every (rounds, constants, inputs) must be exactly the native image; wrong image, swapped inputs and wrong constants end to end."),
"C16":(T_CIRC,"Widths 3/5/9, three S-boxes, all small round splits and the full-size ones, inputs over a table with 0 and extremes: native permutation and hashes against the definition, circuit output against native, the set of provable outputs by search, zero S-box input steered to every position, permutation outputs one by one, constants pinned by digest."),
"C17":(T_HIST,"All update histories up to the bound over all indices of small trees (selected and boundary indices of deeper ones) and values {0,1,2}; after every step root, every read, every proof and every proof edit is compared with a map model and a from-scratch root; earlier roots are read again at the end; every stored node is made missing in turn; two trees share a store; in the deepest trees (127 and 84 levels) every single digit and indices that part at the top."),
"C18":(T_CIRC,"Both arities, all indices of small trees, depths up to 9 (20) incl. not multiples of four: for fixed leaf and siblings the set of provable (index, root) pairs is computed by search over index bits and internal wires and must be the single-valued hash chain; aliased indices of very deep trees, degenerate values, wrong sibling counts, real trees and inner nodes presented as leaves end to end."),
"C19":(T_CIRC,"Depth 1 and 2 trees (3 for selected): all declared index lists and all modified sets up to the bound; trees up to depth 33 (126) whose paths part at every level; wrong values, siblings and roots, a prover that commits to other values; index selection over all small (nonce, size, count) and data randomization over all small sizes (and some above 255) against the definition."),
"C20":(T_CIRC,"All sequences of at most 2 gadgets (longer for selected) with every truth assignment, with half-allocated pairs before, between and after: combined circuit satisfiable exactly when every sub-statement is true; end to end through the library for a subset."),
"C21":("exhaustive enumeration of expression trees on the real operators","All leaves, unary chains and binary combinations of the operator table over a few variables and constants, evaluated by the prover under several assignments against direct arithmetic; simplification checked for shape and value, also above 40 terms; expressions as constraints, proved and verified against right and wrong values."),
"C22":("exhaustive enumeration of circuit shapes, round trip on the real serialisation","Proofs of all programs up to depth 2 (3), the size grid and their edits: components, bytes, verdict and size after JSON and binary round trips."),
"C23":("exhaustive enumeration of argument shapes of every gadget entry point","For every gadget: every commitment count, randomness count, input length and generator length around the right one, absent options, false statements through the honest entry points; a panic or an acceptance is a violation."),
"C24":("exhaustive enumeration of gadgets, positions and randomness sources","Every gadget in several sizes: returned commitments recomputed from value and randomness (given, or drawn from a deterministic source), every commitment opened to its wire, every commitment changed in turn must be rejected; a commitment made elsewhere links."),
"C25":("exhaustive enumeration over coefficient tables on the real functions","All coefficient patterns over a table for short lengths and structured longer ones, several points, against schoolbook arithmetic; generators for all lengths up to a bound and several prefixes."),
"C26":("explicit-state exploration of all session histories up to a depth on the real code","All sequences of messages, challenges, one- and two-phase constraint-system proofs and inner-product proofs up to a length (3 quick, 4 thorough) plus longer ones are run on one transcript by the prover and replayed on one transcript by the verifier: verdict of every item, challenges and final state. Then every single edit of the history (item removed, inserted, relabelled, neighbours exchanged): every proof before the difference is still accepted, every one after it rejected, no later challenge repeats. Exchanging two inner-product proofs of one size is left out: the last message of that argument is not absorbed, so the state after both may coincide."),
"C27":("exhaustive enumeration of circuits by size and phase split on the real code","Every program of the alphabet up to a depth (3 quick, 4 thorough) and every number of gates up to 66 (139 thorough) with five splits over the phases, plus sizes round the next powers of two up to 257 (1025), is proved by the real prover with exactly the padded number of generators; number of inner-product points and the pattern of identity points are compared with the model's gate counts, over every witness profile. Spare generators are replaced on either side and each vector is shortened in six ways: accepted unchanged, and refused with the documented error, respectively. The inner-product argument alone for every power of two up to 128 (1024)."),
"C28":("explicit-state search over assignments of the circuits extracted from the real code, with every witness replayed","For every block, every value tuple of a boundary menu (bits up to 9 values; ranges of 0 to 5 bits exhaustively with negatives, halves and wrap-arounds, and 17 sizes up to 253 bits round each end; sums of up to 17 values, sums and repeats round 2^31, 2^58, 2^63, 2^64; linear forms of up to 30 terms over all pairs of six coefficients; all pairs of eight values for inverses; selections; bounds with all wrong differences; MiMC and Poseidon over linear forms with every wrong output), placed on commitments and on gate outputs, the verifier's circuit is searched for an assignment: one exists exactly when the statement holds; found ones are replayed as proofs. Every case also goes through the library's own prover and verifier in one of the three placements, second phase included (all three in thorough)."),
}
