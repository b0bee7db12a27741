PROPS = [
 dict(id="R02", title="Arithmetic, logic, comparison and range gadgets mean what they say",
  statement="Every arithmetic, logic, comparison, bit and range gadget returns the value of plain integer arithmetic, and every asserting gadget is satisfiable exactly when its claim is true. With the operands held, no choice of helper values satisfies the circuit with another result. Operands that do not exist are refused and leave the circuit usable.",
  over=["inputs", "programs", "configurations"], q="every gadget and operand, on both circuit kinds, every range-table size and every supported field, at any place in a circuit",
  why="Unit tests evaluate gadgets on a few honest values and change one witness entry; results that another choice of helper values could reach and values at the top of the field are not tried.",
  files=["relation/src/gadgets/arithmetic.rs", "relation/src/gadgets/logic.rs", "relation/src/gadgets/cmp.rs", "relation/src/gadgets/range.rs", "relation/src/gadgets/ultraplonk/range.rs", "relation/src/constraint_system.rs"],
  mech=[("comparison by halves of the field", "relation/src/gadgets/cmp.rs"), ("bit and range decomposition", "relation/src/gadgets/range.rs, ultraplonk/range.rs"), ("truncation", "relation/src/gadgets/arithmetic.rs truncate_gate")],
  observe=["gadget results", "satisfiability", "solved false assignments", "first-order freedom of outputs"], technique="runtime monitor, integer model with constraint-level forger and rigidity monitor",
  note="54 gadgets on four fields and both circuit kinds with boundary operands; a truncation of the alias value plus modulus is a known finding."),
 dict(id="R01", title="A circuit is satisfied exactly when every demand placed on it holds",
  statement="For any circuit put together from gates, public inputs, range demands and lookups, and any assignment, the satisfiability answer is yes exactly when every single demand holds for the assignment and the given public inputs. The answer is the same before and after the circuit is finished, and the public inputs are read back in the order they were made.",
  over=["programs", "inputs", "configurations"], q="every sequence of circuit-building calls, every assignment and list of public inputs, on both circuit kinds and any range-table size",
  why="Tests build a few fixed circuits and break one chosen value; interactions of finishing, padding, lookups and public inputs with arbitrary gate sequences are not covered.",
  files=["relation/src/constraint_system.rs", "relation/src/gates/", "relation/src/gadgets/ultraplonk/lookup_table.rs"],
  mech=[("gate and range checking", "relation/src/constraint_system.rs check_circuit_satisfiability"), ("finishing and padding", "relation/src/constraint_system.rs finalize_for_arithmetization")],
  observe=["satisfiability answers", "public inputs"], technique="runtime monitor, independent evaluation of every demand on random circuits and tampered assignments",
  note="Random circuits of up to a few hundred demands on four fields, honest and tampered, before and after finishing, also of sizes at powers of two."),
 dict(id="R03", title="Lookups hold exactly for entries of their own table",
  statement="A circuit with lookup tables can be finished and argued exactly when every looked-up key and value pair is an entry of the table it was asked of and every range demand holds. Entries of another table, of another key or of the padding are not accepted.",
  over=["programs", "inputs", "configurations"], q="every number, size and order of tables, lookups, other gates and public inputs, with honest and tampered values",
  why="Tests use one or two tables with honest values and sizes that happen to fit; the sorted vector and product of the argument are not evaluated on tampered assignments.",
  files=["relation/src/gadgets/ultraplonk/lookup_table.rs", "relation/src/constraint_system.rs"],
  mech=[("table and key numbering", "relation/src/gadgets/ultraplonk/lookup_table.rs"), ("sorted vector and product", "relation/src/constraint_system.rs compute_lookup_sorted_vec_polynomials, compute_lookup_prod_polynomial")],
  observe=["table, key and separator polynomials", "sorted vector", "product polynomial"], technique="runtime monitor, set model of every table against the evaluated lookup argument",
  note="The argument is evaluated with random challenges on the whole domain and must close exactly when the set model says so."),
 dict(id="R04", title="Curve gadgets agree with the curve and admit no other result",
  statement="Selection, equality, negation, neutrality, curve membership, addition and every form of scalar multiplication of points in a circuit give the point that arithmetic on the curve gives. With points and scalars held, no other choice of helper values yields another point, and false equality or membership claims cannot be satisfied. Conversion between the two forms of a curve keeps sums.",
  over=["inputs", "programs", "configurations"], q="every pair of points of the group incl. equal, opposite and neutral ones, every scalar of the stated length, on five curves and both circuit kinds",
  why="Tests use random points and honest helper values; scalars at window borders, neutral bases and dishonest window digits are not tried.",
  files=["relation/src/gadgets/ecc/mod.rs", "relation/src/gadgets/ecc/msm.rs", "relation/src/gadgets/ecc/glv.rs", "relation/src/gadgets/ecc/conversion.rs", "relation/src/gates/ecc.rs"],
  mech=[("windowed multiplication over lookups", "relation/src/gadgets/ecc/msm.rs"), ("endomorphism split", "relation/src/gadgets/ecc/glv.rs"), ("addition and membership gates", "relation/src/gates/ecc.rs")],
  observe=["resulting points", "satisfiability", "solved false assignments", "first-order freedom of outputs"], technique="runtime monitor, affine curve model with constraint-level forger and rigidity monitor",
  note="Five curves; directed forgeries write the windows or the split of scalar plus field size. The split of the endomorphism shortcut is a known finding. Points outside the group of prime order are not claimed."),
 dict(id="R06", title="The polynomials of a circuit encode exactly its gates and wiring",
  statement="The selector, wire, public-input and permutation polynomials of a finished circuit encode exactly its gates, values and equalities: two wire places are joined exactly when they carry the same variable, and the product polynomial closes exactly for assignments that respect this. Merging two circuits gives one whose demands are those of both halves.",
  over=["programs", "inputs", "configurations"], q="every circuit, any assignment, both circuit kinds, and every pair of mergeable circuits",
  why="Tests compare a few fixed circuits with themselves or only run the prover; wiring of arbitrary programs, padding and merged halves is not read back.",
  files=["relation/src/constraint_system.rs"],
  mech=[("wiring permutation", "relation/src/constraint_system.rs compute_wire_permutation, compute_extended_permutation_polynomials"), ("product polynomial", "relation/src/constraint_system.rs compute_prod_permutation_polynomial"), ("merging", "relation/src/constraint_system.rs merge")],
  observe=["polynomials evaluated on the domain", "cycles of the permutation", "merged rows"], technique="runtime monitor, circuit read back from its polynomials and compared with the program that built it",
  note="Cycles of the permutation must equal the variables; raw gates with arbitrary selectors compared row by row."),
 dict(id="R05", title="Emulated fields, their curves and modular arithmetic compute true results",
  statement="Sums, differences, products, equality and selection of numbers of another field, points of curves over it, and arithmetic modulo a given number give in a circuit the values of plain arithmetic. Honest operands always satisfy the circuit, also where limbs carry, results vanish or points are opposite. A false sum, product, equality, point or infinity mark does not satisfy it.",
  over=["inputs", "programs", "configurations"], q="every pair of operands incl. those at limb and modulus borders, every emulated field and curve offered, on both circuit kinds",
  why="Tests use random operands, for which runs of carries, wrapping and opposite points practically never occur, and honest helper values only.",
  files=["relation/src/gadgets/emulated.rs", "relation/src/gadgets/ecc/emulated/", "relation/src/gadgets/ultraplonk/mod_arith.rs"],
  mech=[("limb arithmetic with carries", "relation/src/gadgets/emulated.rs"), ("complete addition in emulated coordinates", "relation/src/gadgets/ecc/emulated/short_weierstrass.rs, twisted_edwards.rs"), ("modular arithmetic by range checks", "relation/src/gadgets/ultraplonk/mod_arith.rs")],
  observe=["values of results", "satisfiability of honest and false claims", "solved false assignments"], technique="runtime monitor, integer and affine curve model with boundary-biased limbs and a constraint-level forger",
  note="Limbs are biased to all-ones and zero so that carries run; directed forgeries reduce a small sum and shift a product by both moduli, the latter a known finding. Equality of numbers that are not reduced is not claimed."),
 dict(id="R07", title="Hash, signature and encryption gadgets agree with their native functions",
  statement="The permutation, sponge, keyed sponge, commitment, signature verification and encryption gadgets yield in a circuit the very values the same functions yield outside, for inputs of every length. A signature is accepted in a circuit exactly when the verifier accepts it, and no other digest, ciphertext or answer satisfies the circuit. Input lengths and variables that a gadget does not take are refused.",
  over=["inputs", "programs", "configurations"], q="every input, key, number of inputs and outputs, honest and damaged signature, on every supported field and both circuit kinds",
  why="Tests compare one or two random inputs of fixed length per gadget and damage one value; block borders, extreme field elements and freedom of intermediate values are not covered.",
  files=["rescue/src/gadgets/native.rs", "rescue/src/gadgets/non_native.rs", "rescue/src/gadgets/commitment.rs", "rescue/src/gadgets/prf.rs", "signature/src/gadgets/schnorr.rs", "elgamal/src/gadgets.rs"],
  mech=[("round transformation gates", "rescue/src/gadgets/native.rs"), ("rounds over a foreign field", "rescue/src/gadgets/non_native.rs"), ("challenge bits and point equation", "signature/src/gadgets/schnorr.rs"), ("counter mode stream", "elgamal/src/gadgets.rs")],
  observe=["values of outputs", "satisfiability", "first-order freedom of outputs", "solved false assignments"], technique="runtime monitor, native function as oracle with constraint-level forger and rigidity monitor",
  note="Lengths across block borders on four fields and four curves; signatures damaged in each part. Keys of small order are not claimed: the native verifier refuses them, the gadget leaves that to the circuit author."),
 dict(id="R08", title="The statement of a circuit does not depend on the values it is built with",
  statement="Making the same calls with the same constants gives the same statement whatever values the variables hold: the same size, gates, wiring, public rows and tables. Keys made from one witness therefore serve every other. This holds for arithmetic, logic, comparison, range, table, curve, hash, signature, encryption, tree and foreign-field gadgets.",
  over=["inputs", "programs", "configurations"], q="every gadget, every pair of value sets incl. zeros, ones, equal and opposite ones, neutral points and empty levels of a tree, on both circuit kinds",
  why="Tests build each circuit once and check it with the very values it was built with, which never shows whether gates were left out or tied to constants because of those values.",
  files=["relation/src/gadgets/", "relation/src/constraint_system.rs", "rescue/src/gadgets/", "merkle_tree/src/gadgets/", "signature/src/gadgets/schnorr.rs", "elgamal/src/gadgets.rs"],
  mech=[("gadgets reading witness values while building", "relation/src/gadgets/arithmetic.rs, logic.rs, cmp.rs, range.rs, ecc/mod.rs, emulated.rs"), ("empty levels of absence proofs", "merkle_tree/src/gadgets/universal_merkle_tree.rs create_non_membership_proof_variable")],
  observe=["selector polynomials", "wiring up to renumbering of variables", "rows of public inputs", "table polynomials"], technique="runtime monitor, differential comparison of finished circuits built from different values",
  note="Each gadget is built with six value sets (unrelated, zeros, ones, all equal, consecutive, boundary) and the circuits read back from their polynomials are compared; value sets refused while building are left out. The in-circuit proof verifier is not included."),
]
