PROPS = [
 dict(id="S01", title="Schnorr signatures verify exactly when the signing equation holds",
  statement="Signing is one deterministic function of key, suite identifier and message, and what it yields is accepted; a claim is accepted exactly when the key is not of small order and the equation between response, commitment and the challenge over suite, key, commitment and message holds. No commitment is ever used for two different challenges or by two keys, and keys and signatures keep their value in every encoding while points outside the group are not read.",
  over=["inputs", "histories", "fault_sequences"], q="every key incl. boundary secrets and keys with a part of small order, every message and suite, families of close messages, on four curves",
  why="Tests sign random messages under random keys; a nonce that ignores part of its input, or an equation that forgives points of small order, never shows on independent random cases.",
  files=["signature/src/schnorr.rs", "signature/src/constants.rs"],
  mech=[("nonce and response", "signature/src/schnorr.rs KeyPair::sign"), ("challenge and verdict", "signature/src/schnorr.rs VerKey::challenge, VerKey::verify"), ("encodings", "signature/src/schnorr.rs to_bytes, from_bytes, TryFrom<TaggedBase64>")],
  observe=["signatures", "recovered nonces", "verdicts", "encodings"], technique="runtime monitor, reference model of the scheme and nonce-reuse monitor over related histories",
  note="Signatures are compared with an integer model; the monitor recovers every nonce and compares all pairs of a family of close messages, suites and keys."),
 dict(id="S02", title="Pairing-based signatures verify exactly when made by the named keys",
  statement="A signature is the secret times the point of the message, and a single, aggregated or common-message signature is accepted exactly when it is the sum of those of the listed keys on the listed messages. Empty or unequal lists, points off the curve or outside the group, and neutral keys or signatures where the scheme validates them are refused without panic; keys and signatures keep their value, announced size and order in every encoding.",
  over=["inputs", "fault_sequences"], q="every list of keys and messages with repetitions, omissions and exchanges, every alteration of a signature, on two curves",
  why="Tests aggregate one honest list and swap in one wrong message; exchanges that only matter for pairs, repeated keys and crafted group elements are not tried.",
  files=["signature/src/bls_over_bn254.rs", "signature/src/bls_over_bls12381.rs"],
  mech=[("hash to the curve", "signature/src/bls_over_bn254.rs hash_to_curve"), ("verdicts", "signature/src/bls_over_bn254.rs verify_internal, aggregate_verify_internal, multi_sig_verify_internal"), ("validation and encodings", "signature/src/bls_over_bls12381.rs CanonicalSerialize, CanonicalDeserialize, Valid")],
  observe=["signatures", "verdicts", "encodings"], technique="runtime monitor, exact oracle from known secrets under structured alterations",
  note="With the secrets known, every claim is settled in the group without a pairing. The second curve runs over a local stand-in for its native library."),
 dict(id="S03", title="Secret signing and decryption keys are hidden when shown and wiped on drop",
  statement="The debug text of a signing key, alone or inside other structures, does not depend on the secret, and that of a key pair does not contain it in any usual form. When a signing key, or a key pair holding a signing or decryption key, is dropped, no word of the secret stays in the memory it occupied.",
  over=["inputs", "histories"], q="every secret key of the signature schemes and of the public-key encryption, original or cloned",
  why="No test looks at memory after a destructor ran, and a lost wipe changes no result of the program.",
  files=["signature/src/schnorr.rs", "signature/src/bls_over_bn254.rs", "signature/src/bls_over_bls12381.rs", "elgamal/src/lib.rs"],
  mech=[("hiding", "impl Debug for SignKey, BLSSignKey"), ("wiping", "impl Drop for SignKey, DecKey; zeroize(drop)")],
  observe=["debug text", "memory after drop"], technique="runtime monitor, memory inspected after destructors and text searched for the secret",
  note="Only the memory of the value itself is inspected, not copies left on the stack by moves. Decryption keys are shown in full by their debug text today and are claimed for wiping only."),
 dict(id="V01", title="The random function has one provable output per key and input",
  statement="Proving, evaluating, hashing a proof and verifying agree on one output for each key and input, which is the digest of the unique proof, and do so whatever was asked of the same object before, refused claims included. Verification returns an output exactly when it accepts, and nothing but the one proof is accepted, also not a proof or key with a part outside the group.",
  over=["inputs", "histories", "fault_sequences"], q="every key, input and suite, every sequence of calls on one object, every alteration of proof, key or input",
  why="Tests run one honest round trip on fresh objects; state carried over between calls and second proofs for the same input need histories and crafted points.",
  files=["vrf/src/blsvrf.rs", "vrf/src/lib.rs", "signature/src/bls_over_bls12381.rs"],
  mech=[("output", "vrf/src/blsvrf.rs proof_to_hash"), ("verification", "vrf/src/blsvrf.rs verify"), ("evaluation", "vrf/src/lib.rs evaluate")],
  observe=["outputs", "proofs", "verdicts"], technique="runtime monitor, reference model over random call histories of one object",
  note="Runs over a local stand-in for the native pairing library."),
]
