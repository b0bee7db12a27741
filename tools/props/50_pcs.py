PROPS = [
 dict(id="P01", title="Univariate commitments and openings are exactly those of the scheme",
  statement="Committing to a polynomial gives the group element of its value at the secret point, and every way of opening it, alone, in lists, at many points, at roots of unity or at a set of points with one proof, gives its true values and the proofs of the exact quotient, which the verifier accepts. A polynomial that does not fit the parameters is refused instead of being committed or opened wrongly.",
  over=["inputs", "configurations"], q="every polynomial incl. zero, constant, sparse and largest ones, every point and number of points, any parameter size, on three curves",
  why="Tests run random polynomials of a few sizes against the verifier of the same code; special shapes, sizes at the limit and agreement between the ways of opening need exact expected values.",
  files=["pcs/src/univariate_kzg/mod.rs", "pcs/src/poly.rs", "pcs/src/toeplitz.rs", "pcs/src/lib.rs"],
  mech=[("commitment with skipped low zeros", "pcs/src/univariate_kzg/mod.rs commit"), ("opening at many points", "pcs/src/univariate_kzg/mod.rs multi_open, compute_h_poly_in_fk23"), ("opening at roots of unity", "pcs/src/univariate_kzg/mod.rs multi_open_rou_proofs, compute_h_poly_parallel")],
  observe=["commitments", "proofs", "values", "refusals"], technique="runtime monitor, reference strings with known secret as exact oracle",
  note="The harness makes the reference string and knows its secret, so every group element returned is compared with its exact value. Polynomials of up to 130 coefficients, up to 2211 points."),
 dict(id="P02", title="Univariate verification accepts exactly the true statements",
  statement="A single, batched or set-wise verification accepts exactly when the equation of the scheme holds for every claimed value. A wrong commitment, point, value or proof, errors that would cancel in a plain sum, lists of different lengths and two values for one point are never accepted.",
  over=["inputs", "fault_sequences"], q="every statement, true or altered in one or several places, alone or in lists, on three curves",
  why="Tests alter one value of one honest proof; cancelling errors, shortened lists, repeated points and neutral elements are not tried.",
  files=["pcs/src/univariate_kzg/mod.rs"],
  mech=[("pairing equation", "pcs/src/univariate_kzg/mod.rs verify"), ("random combination", "pcs/src/univariate_kzg/mod.rs batch_verify"), ("interpolation", "pcs/src/univariate_kzg/mod.rs multi_point_verify")],
  observe=["verdicts"], technique="runtime monitor, verdict decided by the equation between known exponents",
  note="Statements are drawn as exponents, so also true statements that no honest prover would make and false ones close to true are judged exactly."),
 dict(id="P03", title="Reference strings are well formed and keep their contents",
  statement="A generated reference string consists of consecutive powers of one secret in both groups, or of the products over all variable choices for several variables. Trimming keeps exactly the leading part asked for or refuses, and encoding and decoding of strings, keys, commitments and proofs returns the same objects.",
  over=["inputs", "configurations"], q="every size of string, every trim within and beyond it, both encodings, on three curves",
  why="Tests generate strings and use them; a wrong power that is rarely used, an off-by-one at a trim or a lost field would go unnoticed.",
  files=["pcs/src/univariate_kzg/srs.rs", "pcs/src/multilinear_kzg/srs.rs", "pcs/src/structs.rs", "pcs/src/lib.rs"],
  mech=[("trimming", "pcs/src/univariate_kzg/srs.rs trim_with_verifier_degree, multilinear_kzg/srs.rs trim"), ("generation", "pcs/src/multilinear_kzg/srs.rs gen_srs_for_testing")],
  observe=["all elements through pairings", "trimmed keys", "decoded objects"], technique="runtime monitor, pairing relations between all elements and prefix model of trimming",
  note="Every element of a generated string is tied to its neighbour by a pairing equation."),
 dict(id="P04", title="Multilinear openings are exact and verification accepts only true ones",
  statement="Committing to a multilinear polynomial of any number of variables up to the limit gives the group element of its value at the secret point, opening gives its true value and the exact proof, and the verifier accepts. Verification accepts exactly when the equation of the scheme holds; proofs with missing or extra elements and points of another size are refused.",
  over=["inputs", "configurations", "fault_sequences"], q="every polynomial with fewer or as many variables as the trimmed or untrimmed parameters, every point, every alteration",
  why="Tests open random polynomials of the full size; fewer variables than the parameters, trimmed parameters and proofs of wrong length are not tried.",
  files=["pcs/src/multilinear_kzg/mod.rs", "pcs/src/multilinear_kzg/srs.rs"],
  mech=[("opening by variables", "pcs/src/multilinear_kzg/mod.rs open_internal"), ("pairing product", "pcs/src/multilinear_kzg/mod.rs verify_internal")],
  observe=["commitments", "proofs", "values", "verdicts"], technique="runtime monitor, reference strings with known secrets as exact oracle",
  note="Up to 7 variables on three curves; statements judged as exponents."),
 dict(id="P05", title="Batched multilinear openings verify and bind values, points and commitment",
  statement="Opening several multilinear polynomials together gives their true values at their points, and the verifier accepts the result for any number of polynomials and variables. It refuses the batch when a value, point, commitment or proof element is altered, exchanged or missing, and the random place it uses depends on everything it is shown.",
  over=["inputs", "configurations", "fault_sequences"], q="every number of polynomials and variables, also with larger parameters, and every single alteration",
  why="Tests run five random polynomials with parameters of the exact size; other counts, larger parameters, more variables and dependence of the challenge on its inputs are not covered.",
  files=["pcs/src/multilinear_kzg/batching.rs", "pcs/src/multilinear_kzg/util.rs", "pcs/src/multilinear_kzg/mod.rs"],
  mech=[("merging", "pcs/src/multilinear_kzg/util.rs merge_polynomials"), ("curve through the points", "pcs/src/multilinear_kzg/util.rs build_l, compute_w_circ_l"), ("challenge", "pcs/src/multilinear_kzg/batching.rs transcript")],
  observe=["commitments", "values", "verdicts", "last value as a function of the inputs"], technique="runtime monitor, exact values with known secrets and challenge-dependence monitor",
  note="Up to 6 polynomials and 8 merged variables. That points are read with reversed coordinates is a known finding."),
 dict(id="P06", title="Challenges of a commitment transcript depend on its whole history",
  statement="Two transcripts give the same challenges exactly as long as their histories of labels, messages and earlier challenges are the same, and different ones from the first difference on. No challenge is given before anything was recorded, and challenges spread over the whole field.",
  over=["histories", "inputs"], q="every pair of histories that differ in one label, byte, length, order or cut",
  why="Fiat-Shamir soundness is a statement about all pairs of histories; tests compare no histories at all.",
  files=["pcs/src/transcript.rs"],
  mech=[("recording and drawing", "pcs/src/transcript.rs append_message, get_and_append_challenge")],
  observe=["challenges of paired histories"], technique="runtime monitor, paired histories compared step by step",
  note="Thousands of pairs in each run; the hash under the transcript is a local stand-in for the missing package."),
]
