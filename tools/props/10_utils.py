T = "runtime monitor, big-integer reference model"
PROPS = [
 dict(id="U01", title="Field conversions preserve the integer value or say they cannot",
  statement="Converting an element between two prime fields yields the element that stands for the same integer, reduced by the target modulus exactly where the conversion documents a reduction, and truncated to whole bytes of the target only in the masking conversion. A conversion that promises not to reduce never returns a different value: it either preserves the integer or fails. Going from a curve's scalar field to its larger base field and back is the identity.",
  over=["inputs", "configurations"], q="every element of the source field, for every supported pair of fields, including pairs of very different widths",
  why="Unit tests draw six random scalars on three curves; the failures live at multiples of the target modulus and at limb boundaries, which uniform sampling never hits.",
  files=["utilities/src/conversion.rs"],
  mech=[("little-endian byte reinterpretation with modular reduction", "utilities/src/conversion.rs fr_to_fq, fq_to_fr"), ("no-reduction assertion", "utilities/src/conversion.rs field_switching"), ("byte mask", "utilities/src/conversion.rs fq_to_fr_with_mask")],
  observe=["return value of each conversion", "refusal of the non-reducing conversion"], technique=T,
  note="Boundary-biased sampling over 20 field pairs compared with big-integer arithmetic; trusts arkworks fields and num-bigint."),
 dict(id="U02", title="Packing bytes into field elements is invertible and unpacking is total",
  statement="Any byte string packed into field elements and unpacked again comes back byte for byte, also when zero elements were appended in between, and two different byte strings never pack to the same elements. Unpacking an arbitrary list of field elements never fails, and never returns more bytes than the elements can hold or than the leading element announces.",
  over=["inputs", "configurations"], q="every byte string and every list of elements, for prime and extension fields of any size above 64 bits",
  why="The tests use a dozen lengths on fields that happen to fill their limbs; the length/content boundary and unusual fields are unbounded.",
  files=["utilities/src/conversion.rs"],
  mech=[("length element followed by fixed-size chunks", "utilities/src/conversion.rs bytes_to_field_elements"), ("length clamp", "utilities/src/conversion.rs bytes_from_field_elements"), ("chunk size derivation", "utilities/src/conversion.rs compile_time_checks")],
  observe=["packed integers", "unpacked bytes"], technique=T,
  note="Random boundary-length byte strings on 14 fields and every length below 1400 against an integer model; contents are sampled."),
 dict(id="U03", title="Hashing to a field follows its published definition for every input",
  statement="Hashing bytes to a field element is a deterministic function: the leading bytes of the SHA-512 digest (field size plus 128 bits) read as a little-endian integer and reduced modulo the field order. The reported field bit and byte lengths match the modulus, and a challenge of the reported challenge length always fits in the field without reduction.",
  over=["inputs", "configurations"], q="every byte string and every supported field",
  why="No unit test pins the function: any change of truncation, byte order or digest still gives plausible elements.",
  files=["utilities/src/conversion.rs", "utilities/src/lib.rs"],
  mech=[("digest truncation and reduction", "utilities/src/conversion.rs hash_to_field"), ("length helpers", "utilities/src/lib.rs field_byte_len, field_bit_len, challenge_bit_len")],
  observe=["hashed element", "reported lengths"], technique=T,
  note="Random and extreme messages and every length below 4200 into 10 fields against an independent big-integer evaluation; trusts the sha2 crate."),
 dict(id="U04", title="Erasure code recovers the data from any sufficient set of shares",
  statement="Encoding evaluates the data polynomial at 1..n, and decoding any k distinct shares, in any order and with or without extra shares, returns exactly the k data elements. Decoding with arbitrary distinct points, or with points named by index in a (possibly shifted) root-of-unity domain, returns the unique polynomial through them. Too few shares, repeated points and out-of-range indices are reported as errors and never as data.",
  over=["inputs", "fault_sequences"], q="every data vector, parity size, erasure pattern, share order and evaluation domain",
  why="Tests drop one share of a three-share code; the erasure patterns, orders and degenerate polynomials grow combinatorially.",
  files=["utilities/src/reed_solomon_code.rs"],
  mech=[("polynomial evaluation", "utilities/src/reed_solomon_code.rs reed_solomon_erasure_encode"), ("Lagrange interpolation", "utilities/src/reed_solomon_code.rs reed_solomon_erasure_decode"), ("index to domain point mapping", "utilities/src/reed_solomon_code.rs reed_solomon_erasure_decode_rou")],
  observe=["shares", "decoded data or error"], technique="runtime monitor, Gaussian-elimination reference",
  note="Random codes with up to 300 data elements and every shape up to 40 by 40, random erasures and orders, compared with Horner evaluation and Gaussian elimination."),
 dict(id="U05", title="Serialized values survive any format and tampering is never silently accepted",
  statement="Every serializable value round-trips through the serde wrappers in both text and binary formats, and the wire form carries the fixed tag and exactly the canonical compressed bytes. A payload under another tag, a truncated payload or corrupted text is refused with an error: it never panics and never yields a different value.",
  over=["inputs", "fault_sequences"], q="every value of every serializable type, every format, every tag, truncation and single-character corruption",
  why="There is no unit test of the serde module at all, and the byte macro is tested on the single value one.",
  files=["utilities/src/serialize.rs", "utilities/src/macros.rs"],
  mech=[("tagged base64 wrapper", "utilities/src/serialize.rs canonical"), ("canonical byte wrapper", "utilities/src/serialize.rs CanonicalBytes"), ("byte macro", "utilities/src/macros.rs to_bytes")],
  observe=["serialized text and bytes", "deserialization result"], technique="runtime monitor, fault injection on the wire form",
  note="8 value types, JSON and bincode, with tag, truncation and character faults; trusts serde_json, bincode and tagged-base64."),
 dict(id="U06", title="Multi-pairing equals the product of the individual pairings",
  statement="The pairing product of two lists equals the product of the pairings of corresponding entries, whatever the length of the lists and wherever identity elements, repeated or cancelling entries occur. In particular it is one exactly when the exponents sum to zero.",
  over=["inputs", "configurations"], q="every list of group elements on every pairing curve",
  why="Tests check lists of length one and two without identities; every verifier in the library trusts this result.",
  files=["utilities/src/multi_pairing.rs"],
  mech=[("zipped multi-Miller loop", "utilities/src/multi_pairing.rs multi_pairing")],
  observe=["pairing output"], technique="runtime monitor, discrete-log oracle",
  note="Lists of every length up to 129 and random ones up to 140 pairs with known discrete logs on 3 curves; trusts single arkworks pairings."),
 dict(id="U07", title="Vector helpers visit, pad and multiply every entry exactly once, in order",
  statement="Iterating or chunking a slice through the optionally parallel helpers yields every element once and in order for any thread pool size. Padding extends a vector with zeros to the smallest sufficient multiple and changes nothing else. The entrywise product of equally long vectors is correct for scalars and group elements, and vectors of different length are refused.",
  over=["inputs", "schedules", "configurations"], q="every vector length, chunk size, multiple, thread pool size and build configuration",
  why="Parallel helpers have no test, and only one length is multiplied.",
  files=["utilities/src/lib.rs", "utilities/src/par_utils.rs"],
  mech=[("padding", "utilities/src/lib.rs pad_with_zeros, compute_len_to_next_multiple"), ("entrywise product", "utilities/src/lib.rs hadamard_product"), ("optional parallel iteration", "utilities/src/par_utils.rs")],
  observe=["resulting vectors"], technique="runtime monitor over thread-pool sizes",
  note="Random sizes, every length below 300, and pools of 1 to 9 threads, compared with plain sequential code; schedules are sampled, not enumerated."),
]
