PROPS = [
 dict(id="K01", title="Every satisfied circuit can be proved and its proof verifies",
  statement="For every satisfied circuit, with or without lookups, of any size up to the limit of the reference string, the prover makes a proof that the verifier accepts under the key made for that circuit, and the values in the proof are those of the circuit's own polynomials at the challenge. The same holds for several circuits in one proof and for pairs of circuits merged into one.",
  over=["programs", "inputs", "configurations"], q="every satisfied circuit, number of circuits in a proof, number of public inputs, choice of transcript and curve",
  why="Tests prove one hand-written family of circuits; completeness is a statement about all circuits, sizes, lookup tables, input counts and groupings.",
  files=["plonk/src/proof_system/prover.rs", "plonk/src/proof_system/snark.rs", "plonk/src/proof_system/batch_arg.rs", "relation/src/constraint_system.rs"],
  mech=[("prover rounds", "plonk/src/proof_system/prover.rs run_1st_round .. compute_opening_proofs"), ("aggregation", "plonk/src/proof_system/snark.rs batch_prove_internal"), ("merging of instances", "plonk/src/proof_system/batch_arg.rs batch_prove, structs.rs merge, relation/src/constraint_system.rs merge")],
  observe=["proofs", "verdicts", "opened values", "refusals"], technique="runtime monitor, random circuit programs proved end to end with an independent verifier",
  note="Random circuit programs with lookups, repeated wires and public inputs on four curves and three transcripts. A circuit without any gate of its own cannot be proved: known finding."),
 dict(id="K02", title="The verifier accepts exactly the proofs that satisfy the published equation",
  statement="The verdict on a proof, of one or several instances, with or without lookups, merged or not, is acceptance exactly when the equation of the proof system holds for the challenges drawn. Every commitment, value, key element and public input enters that equation with its proper weight, and a statement with another number of inputs is refused.",
  over=["inputs", "fault_sequences", "configurations"], q="every key, statement and proof, honest or made up, alone or aggregated, on four curves and three transcripts",
  why="Tests see honest proofs and a few spoiled ones, so a term dropped from the equation, or weighted so that terms of two instances stand in for each other, is invisible to them.",
  files=["plonk/src/proof_system/verifier.rs", "plonk/src/lagrange.rs"],
  mech=[("linearization", "plonk/src/proof_system/verifier.rs linearization_scalars_and_bases, compute_lin_poly_constant_term"), ("aggregation", "plonk/src/proof_system/verifier.rs aggregate_poly_commitments, aggregate_evaluations"), ("public inputs", "plonk/src/proof_system/verifier.rs evaluate_pi_poly")],
  observe=["verdicts", "challenges drawn"], technique="runtime monitor, verdict decided by an independent equation between known exponents",
  note="Keys and proofs are drawn as exponents over a reference string with known secret, so that arbitrary proofs, not only honest ones, can be settled exactly."),
 dict(id="K03", title="Proofs checked together pass only if each passes",
  statement="Checking a list of proofs together succeeds exactly when each proof would be accepted alone, whatever their order and repetition; errors in several proofs never cancel, since the weights depend on all of them, and lists of different lengths are refused. Splitting the verification of merged instances into two group elements and a final pairing gives the same verdict as the whole.",
  over=["inputs", "fault_sequences"], q="every list of one to six proofs, with and without lookups, every error or pair of errors, every merged statement",
  why="Tests check lists of true proofs and lists with one random error; errors chosen to cancel and fixed weights are not tried.",
  files=["plonk/src/proof_system/verifier.rs", "plonk/src/proof_system/snark.rs", "plonk/src/proof_system/batch_arg.rs"],
  mech=[("random combination", "plonk/src/proof_system/verifier.rs batch_verify_opening_proofs"), ("split verification", "plonk/src/proof_system/batch_arg.rs partial_verify, decide")],
  observe=["verdicts", "weights", "intermediate group elements"], technique="runtime monitor, exact exponents and adversarially cancelling errors",
  note="Errors are built with the known secret so that they cancel under every simple choice of weights."),
 dict(id="K04", title="Every challenge depends on everything said before it",
  statement="The challenges of a proof are exactly the output of the transcript's hash over the key, the public inputs and every message sent so far, in order, for each of the transcript kinds. Changing any of these changes every later challenge and no earlier one.",
  over=["histories", "inputs"], q="every sequence of transcript operations, and every single change of key, statement or proof, on three transcripts",
  why="Fiat-Shamir soundness is a statement about all histories; tests run prover and verifier with the same code, which agree also when both leave something out.",
  files=["plonk/src/transcript/mod.rs", "plonk/src/transcript/standard.rs", "plonk/src/transcript/solidity.rs", "plonk/src/transcript/rescue.rs", "plonk/src/proof_system/verifier.rs", "plonk/src/proof_system/snark.rs"],
  mech=[("recording", "plonk/src/transcript/*.rs append_*"), ("drawing", "plonk/src/transcript/*.rs get_challenge"), ("order of rounds", "plonk/src/proof_system/verifier.rs compute_challenges")],
  observe=["every challenge drawn by prover and verifier"], technique="runtime monitor, reference transcript models and paired histories",
  note="Reference models of the three transcripts are fed the same operations; the recording transcript also ties the prover's challenges to the verifier's."),
 dict(id="K05", title="Malformed proofs and keys are refused cleanly and encodings are faithful",
  statement="Proofs and keys survive encoding and decoding unchanged, in binary and as a list of field elements. A proof whose lists have the wrong lengths, whose lookup part is missing or superfluous, or whose bytes are damaged is refused with an error and never accepted; nothing makes the decoder or the verifier panic.",
  over=["inputs", "fault_sequences"], q="every list of a proof or key lengthened, shortened or emptied, every byte other than announced lengths damaged, every kind of key",
  why="Tests decode what they encoded; proofs come from adversaries, and a verifier that indexes a short list crashes on them.",
  files=["plonk/src/proof_system/structs.rs", "plonk/src/proof_system/verifier.rs", "plonk/src/proof_system/snark.rs"],
  mech=[("shape of proofs", "plonk/src/proof_system/verifier.rs prepare_pcs_info"), ("flat form", "plonk/src/proof_system/structs.rs TryFrom, From"), ("derived encodings", "plonk/src/proof_system/structs.rs")],
  observe=["decoded objects", "verdicts", "panics"], technique="runtime monitor, structure-aware damage of proofs with panic detection",
  note="Announced list lengths are left alone: the serialization library reserves memory for them before reading."),
 dict(id="K06", title="The verifier inside a circuit agrees with the verifier outside",
  statement="The circuit that verifies merged proofs is satisfied for every proof of its shape and yields exactly the two group elements the ordinary verifier computes; no other value of a result or intermediate satisfies it, and one circuit serves all proofs of a shape. Keys merged inside a circuit equal the keys merged outside, and shapes that do not fit are refused in the same cases.",
  over=["inputs", "programs", "configurations"], q="every merged key and proof, honest or made up, incl. neutral group elements, any number of instances and shared inputs",
  why="Tests use one honest family of proofs, and change one variable of fixed index; edge values in the emulated arithmetic and dependence of the circuit on the proof need made-up proofs.",
  files=["plonk/src/circuit/plonk_verifier/mod.rs", "plonk/src/circuit/plonk_verifier/gadgets.rs", "plonk/src/circuit/plonk_verifier/poly.rs", "plonk/src/circuit/transcript.rs", "plonk/src/proof_system/structs.rs"],
  mech=[("verifier circuit", "plonk/src/circuit/plonk_verifier/mod.rs partial_verify_circuit"), ("polynomial evaluations", "plonk/src/circuit/plonk_verifier/poly.rs"), ("transcript", "plonk/src/circuit/transcript.rs"), ("key merging", "plonk/src/circuit/plonk_verifier/mod.rs merge")],
  observe=["satisfaction", "result points", "satisfaction after changes"], technique="runtime monitor, differential against the native verifier with witness tampering",
  note="Made-up proofs on the one curve that supports it, up to 3 instances; also the witness of one proof put into the circuit of another."),
 dict(id="K07", title="No proof is accepted for a false statement",
  statement="A proof made for an unsatisfied circuit, with a wrong gate value, a broken copy between wires, a value outside a lookup table, another public input, or with the key of another circuit, is never accepted. Neither is an honest proof after any of its elements, its statement or its key is changed.",
  over=["programs", "inputs", "fault_sequences"], q="every random circuit with false witnesses or false wiring, and every single change of proof, statement or key",
  why="Soundness quantifies over all cheating; tests try an unsatisfied gate and a wrong input once each.",
  files=["plonk/src/proof_system/snark.rs", "plonk/src/proof_system/prover.rs", "plonk/src/proof_system/verifier.rs", "relation/src/constraint_system.rs"],
  mech=[("quotient check", "plonk/src/proof_system/prover.rs compute_quotient_polynomial, split_quotient_polynomial"), ("copy constraints", "relation/src/constraint_system.rs compute_prod_permutation_polynomial, compute_extended_permutation_polynomials"), ("lookup argument", "relation/src/constraint_system.rs compute_lookup_prod_polynomial")],
  observe=["prover refusals", "verdicts"], technique="runtime monitor, dishonest provers (false witness, false wiring, foreign key) and altered proofs",
  note="The dishonest prover is the library's own run on false data, including wires that differ from the circuit's copies."),
 dict(id="K08", title="Proofs are masked with fresh randomness",
  statement="Every committed polynomial that depends on the secret witness is hidden by as many fresh random masks as it has published values, in every proof, and masks differ between polynomials and between proofs. Proofs are a function of the circuit, key and randomness alone.",
  over=["inputs", "histories"], q="every satisfied circuit, with or without lookups, proved repeatedly from equal and different seeds",
  why="Zero knowledge does not show in any verdict: an unmasked or repeatedly masked proof verifies as well as any other.",
  files=["plonk/src/proof_system/prover.rs"],
  mech=[("masking", "plonk/src/proof_system/prover.rs mask_polynomial"), ("quotient chunks", "plonk/src/proof_system/prover.rs split_quotient_polynomial")],
  observe=["commitments as values at the known secret", "differences between runs"], technique="runtime monitor, masks recovered from commitments with the known secret",
  note="The secret of the reference string and the unmasked polynomials of the circuit give the mask of each commitment."),
]
