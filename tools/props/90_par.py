PROPS = [
    dict(
        id="X01",
        title="Results do not depend on threads or on the parallel build",
        statement="For the same inputs and the same randomness, keys, commitments, openings, proofs, circuit polynomials, curve gadget outputs, ciphertexts and verdicts come out the same, byte for byte, whatever the number of worker threads and their schedule. They are also the same in a build with the parallel feature off and in a build that uses the sequential variant of the opening algorithm.",
        over=["schedules", "configurations", "inputs"],
        q="For every piece of work in the workload, for pools of 1, 2, 3 and 8 threads as the scheduler happens to run them, and for the builds with and without threads and with either variant of opening at many roots of unity.",
        why="The tests run one build on one pool and compare results within that run; work that is split by the number of threads, or done differently without threads, gives equal results only if every split is put together again in order, which needs several runs of several builds side by side.",
        files=["utilities/src/par_utils.rs", "pcs/src/univariate_kzg/mod.rs", "relation/src/constraint_system.rs", "relation/src/gadgets/ecc/mod.rs", "elgamal/src/lib.rs", "plonk/src/proof_system/prover.rs", "plonk/src/proof_system/snark.rs"],
        mech=[
            ("parallel iteration over slices and chunks", "utilities/src/par_utils.rs"),
            ("parallel and sequential opening at roots of unity", "pcs/src/univariate_kzg/mod.rs"),
            ("parallel computation of circuit polynomials", "relation/src/constraint_system.rs"),
            ("parallel quotient polynomial and commitments", "plonk/src/proof_system/prover.rs"),
            ("parallel blocks of encryption", "elgamal/src/lib.rs"),
        ],
        observe=["serialized outputs of every operation"],
        technique="differential monitoring of the same seeded workload in rayon pools of 1, 2, 3 and 8 threads and in a second binary built without threads and with the alternative algorithm, all outputs compared byte for byte",
        note="seeded workloads of all parallel code paths; five runs of each case compared",
    ),
]
