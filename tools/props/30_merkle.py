PROPS = [
 dict(id="M01", title="Append-only Merkle trees commit to exactly the list that was appended",
  statement="After any sequence of builds, pushes and batch extensions, a full or light-weight append-only tree holds exactly the appended elements in order: its commitment is the Merkle root of that list, and its size, height, capacity, iteration and lookups agree with the list. Every proof it hands out is accepted. A batch that does not fit fails after filling the tree, and the light-weight tree always keeps its last leaf and has the commitment of the full tree.",
  over=["histories", "inputs", "configurations"], q="every sequence of build, push and extend calls, for every hash, arity and height",
  why="Unit tests append a handful of elements to ternary Rescue trees; other arities, batches that straddle subtree borders and overflowing batches are not tried.",
  files=["merkle_tree/src/append_only.rs", "merkle_tree/src/light_weight.rs", "merkle_tree/src/internal.rs", "merkle_tree/src/macros.rs", "merkle_tree/src/prelude.rs", "merkle_tree/src/hasher.rs", "merkle_tree/src/examples.rs"],
  mech=[("bulk build", "merkle_tree/src/internal.rs build_tree_internal, build_light_weight_tree_internal"), ("batch extension", "merkle_tree/src/internal.rs extend_internal, extend_and_forget_internal"), ("leaf and node digests", "merkle_tree/src/prelude.rs, hasher.rs, examples.rs")],
  observe=["commitment and size after each call", "lookup results and proofs", "iteration order"], technique="runtime monitor, list model with a reference Merkle root",
  note="Random scripts on 16 hash/arity combinations (Rescue, Poseidon2, SHA3, Keccak, generic hasher, harness hash) compared with a list and a recomputed root after every call; every leaf count below 300 for six arities."),
 dict(id="M02", title="A key-value Merkle tree behaves like a map and forgets its history",
  statement="After any sequence of insertions, updates, removals and user-defined updates, a universal tree answers every lookup like the corresponding map, reports the previous value of each operation, iterates in key order, and proves presence and absence. Its commitment depends only on the map, never on the order of operations, and removing everything gives the empty tree again. A persistent operation leaves the original tree as it was.",
  over=["histories", "inputs", "configurations"], q="every operation sequence and every key below the capacity, for every index type, hash, arity and height",
  why="Unit tests run a fixed list of insertions on two hashes; removal in any order, mixed persistent updates and keys that share digits are not covered.",
  files=["merkle_tree/src/universal_merkle_tree.rs", "merkle_tree/src/internal.rs", "merkle_tree/src/macros.rs", "merkle_tree/src/prelude.rs"],
  mech=[("update with a function", "merkle_tree/src/internal.rs update_with_internal"), ("persistent update", "merkle_tree/src/universal_merkle_tree.rs"), ("index digits", "merkle_tree/src/macros.rs to_traversal_path")],
  observe=["commitment and size after each call", "previous values", "old snapshots"], technique="runtime monitor, map model with a reference sparse root",
  note="Random histories of up to 24 operations over clustered keys on 16 hash/arity/index combinations; positions past the capacity are known findings."),
 dict(id="M03", title="A Merkle proof is accepted only for a true claim",
  statement="A membership proof is accepted exactly when the element is the leaf at that position under that commitment and the proof is its sibling path. A non-membership proof is accepted only when the position is empty, and the honest one always is. Altered, truncated, extended or re-targeted proofs are refused without a panic.",
  over=["inputs", "configurations"], q="every commitment, position, element and proof, honest or forged, for every hash, arity, index type and height",
  why="Unit tests alter one sibling of one proof; level swaps, dropped levels, moved positions and emptied levels, where a verifier gets lenient, are not tried.",
  files=["merkle_tree/src/internal.rs", "merkle_tree/src/macros.rs", "merkle_tree/src/universal_merkle_tree.rs"],
  mech=[("path verification", "merkle_tree/src/internal.rs verify_merkle_proof"), ("public verifiers", "merkle_tree/src/macros.rs verify, universal_merkle_tree.rs non_membership_verify")],
  observe=["verdict of each verifier call"], technique="runtime monitor, forged-proof generator against a truth oracle",
  note="Forged claims judged by the map itself; an absence proof whose length differs from the height is a known finding."),
 dict(id="M04", title="Forgetting and remembering never changes or falsifies a Merkle tree",
  statement="Forgetting a leaf, remembering it again or starting from a bare commitment leaves commitment and size unchanged, returns the leaf with its proof, and later lookups give either the true answer or say that it is not in memory. Remembering succeeds with an honest proof and is refused with the tree unchanged otherwise. Updates on a partly forgotten tree either give the same tree contents as on the full tree or fail without effect.",
  over=["histories", "inputs", "configurations"], q="every interleaving of forget, remember, absence-remember, update, remove, extend and lookup, with honest and false proofs",
  why="Unit tests forget and remember one leaf once; states reached by forgetting several leaves, remembering part and then updating are never built.",
  files=["merkle_tree/src/internal.rs", "merkle_tree/src/macros.rs", "merkle_tree/src/universal_merkle_tree.rs", "merkle_tree/src/light_weight.rs"],
  mech=[("forget with proof", "merkle_tree/src/internal.rs forget_internal"), ("remember from proof", "merkle_tree/src/internal.rs remember_internal"), ("update next to forgotten parts", "merkle_tree/src/internal.rs update_with_internal")],
  observe=["commitment after each call", "lookup answers", "tree equality after refused calls"], technique="runtime monitor, map model with an in-memory set",
  note="Random histories on universal, full and light trees; the monitor tracks which positions must be answerable from memory."),
 dict(id="M05", title="Merkle range proofs certify exactly the leaves of the range",
  statement="A range query over present leaves returns all indices and elements of the range in order, with a proof that is accepted. A range that reaches past the leaves is reported as not found, and one over a forgotten leaf as not in memory. A range proof is accepted only when every claimed index really holds the claimed element and the indices are consecutive.",
  over=["inputs", "configurations"], q="every tree, every range with start not above end, every altered claim, for every hash and arity",
  why="Two ranges of one ternary tree are unit tested; ranges that cross several subtrees, whole-tree ranges and shifted indices are not.",
  files=["merkle_tree/src/append_only.rs", "merkle_tree/src/internal.rs"],
  mech=[("range query", "merkle_tree/src/internal.rs range_lookup_internal"), ("range verification", "merkle_tree/src/internal.rs verify_merkle_range_proof")],
  observe=["returned ranges", "verifier verdicts"], technique="runtime monitor, list model and forged-claim generator",
  note="Random ranges with eight altered claims each, on 16 hash/arity combinations."),
 dict(id="M06", title="Stored Merkle trees and proofs load back as the same objects",
  statement="Trees, also partly forgotten ones, and proofs survive binary and text serialization unchanged, and a loaded tree goes on behaving like the original. Proof text carries its type tag and a checksum, so damaged text is refused. Damaged binary proofs are refused or fail verification, and never cause a panic.",
  over=["inputs", "histories", "configurations"], q="every tree state and proof, every damaged encoding except damaged length fields",
  why="Unit tests round-trip one full tree; forgotten subtrees, sparse trees, big-integer and field keys and damaged encodings are not tried.",
  files=["merkle_tree/src/macros.rs", "merkle_tree/src/internal.rs", "merkle_tree/src/prelude.rs", "merkle_tree/src/hasher.rs", "utilities/src/serialize.rs"],
  mech=[("tree serialization", "merkle_tree/src/macros.rs"), ("proof encoding", "merkle_tree/src/internal.rs MerkleTreeProof"), ("node encodings", "merkle_tree/src/prelude.rs, hasher.rs")],
  observe=["decoded trees and proofs", "behaviour after loading"], technique="runtime monitor, round-trip and damage oracle",
  note="Round trips and damaged encodings on 32 tree configurations; damaged length fields are left out because the encoding library allocates what they say."),
 dict(id="M07", title="Merkle circuits accept exactly what the plain verifier accepts",
  statement="The membership and non-membership circuits compute the verdict of the plain computation for every claim, honest or false, and the enforcing versions are satisfiable exactly for true claims. No other assignment of the claim, the path or an intermediate value satisfies the enforcing circuit. The non-membership circuit also ties the path to the claimed position.",
  over=["inputs", "programs", "configurations"], q="every tree, claim and path, and every single change of a witness value, on every supported field",
  why="Unit tests try one true and a few false claims; they never change an intermediate witness value, so a missing constraint is invisible to them.",
  files=["merkle_tree/src/gadgets/mod.rs", "merkle_tree/src/gadgets/universal_merkle_tree.rs", "rescue/src/gadgets/native.rs"],
  mech=[("membership circuit", "merkle_tree/src/gadgets/mod.rs"), ("non-membership circuit", "merkle_tree/src/gadgets/universal_merkle_tree.rs"), ("order of siblings", "merkle_tree/src/gadgets/mod.rs constrain_sibling_order")],
  observe=["verdict variable", "satisfiability after each witness change"], technique="runtime monitor, plain recomputation and witness tampering",
  note="Three fields, heights up to 4; an empty left-most sibling in a sparse tree is a known finding."),
]
