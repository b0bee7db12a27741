PROPS = [
 dict(id="H01", title="The Rescue permutation is the published one and is invertible",
  statement="On every supported field, the keyed and unkeyed Rescue permutations compute exactly the 12-round construction defined by the published constants: the inverse power, then the power, each followed by the mixing matrix and the round key. Every output leads back to its only input, different keys give different permutations, and the precomputed round keys are those of the zero key. The constants of each field never change.",
  over=["inputs", "configurations"], q="every key and every four-element state, on every supported field",
  why="Unit tests pin one or two vectors per field; a changed constant of another field, or a shortcut that is only right for small or zero entries, passes them.",
  files=["rescue/src/lib.rs", "rescue/src/rescue_constants/mod.rs"],
  mech=[("keyed permutation and key schedule", "rescue/src/lib.rs PRP"), ("unkeyed permutation with stored keys", "rescue/src/lib.rs Permutation"), ("per-field constants", "rescue/src/rescue_constants")],
  observe=["permutation outputs", "round keys"], technique="runtime monitor, independent reference permutation and its inverse",
  note="Boundary-biased states on 5 fields against a reference whose inverse exponent is derived from the field order; frozen digests of the base commit pin the constants."),
 dict(id="H02", title="Rescue hashing, commitments and PRF follow their sponge definitions",
  statement="Every Rescue-based hash, commitment and pseudorandom function equals the rate-limited sponge over the permutation with its documented padding, for all input and output lengths and any interleaving of absorbing and squeezing. Variable-length hashing never maps a message and an extension of it by padding to the same digest. A commitment opens for exactly the committed message and blinding value, and is refused without a blinding value.",
  over=["inputs", "histories", "configurations"], q="every input, every input and output length, every key or blinding value, every sequence of absorb and squeeze calls",
  why="Unit tests use one or two lengths each; block boundaries, long outputs and interleaved use are not covered, and no test compares with an independent sponge.",
  files=["rescue/src/crhf.rs", "rescue/src/sponge.rs", "rescue/src/commitment.rs", "rescue/src/prf.rs", "utilities/src/lib.rs"],
  mech=[("padding modes", "rescue/src/crhf.rs RescueCRHF"), ("sponge", "rescue/src/sponge.rs RescueSponge"), ("commit and verify", "rescue/src/commitment.rs"), ("full-state keyed sponge", "rescue/src/prf.rs")],
  observe=["digests", "commitment verdicts", "sponge states after each call"], technique="runtime monitor, reference sponge",
  note="Random lengths and scripts and every length below 160 on 5 fields against a reference sponge; the traits of the missing sponge crate come from a stand-in."),
 dict(id="H03", title="Poseidon2 permutation and hashes equal their definition for every width",
  statement="For every supported state size and parameter set, the Poseidon2 permutation equals the published round function with its external and internal matrices, and the shipped parameter sets reproduce the published answers. Fixed-length hashing equals the sponge over the input padded with zeros to the fixed length and refuses longer inputs. Variable-length hashing never maps a message and its extension to one digest.",
  over=["inputs", "configurations"], q="every state and input length, for every supported state size, S-box degree and round count",
  why="Only three parameter sets with widths 2 and 3 exist in the tests; the code for widths 4 to 24 and for other S-box degrees is never executed there.",
  files=["poseidon2/src/lib.rs", "poseidon2/src/external.rs", "poseidon2/src/internal.rs", "poseidon2/src/crhf.rs", "poseidon2/src/permutation.rs", "poseidon2/src/sponge.rs"],
  mech=[("external layer", "poseidon2/src/external.rs"), ("internal layer", "poseidon2/src/internal.rs"), ("padding and sponge", "poseidon2/src/crhf.rs"), ("initial value", "poseidon2/src/permutation.rs")],
  observe=["permuted states", "digests"], technique="runtime monitor, explicit-matrix reference",
  note="Random states for nine (width, degree) combinations against dense matrices, every message length below 400; the duplex sponge comes from a stand-in with overwrite mode."),
]
