"""What each property's check runs: Verus units (units/*.vu) and bounded falsifier drivers (harness/)."""
CLAUSAL = "true,false,not_not,and_pos,and_neg,or_pos,or_neg,xor_pos1,xor_pos2,xor_neg1,xor_neg2,implies_pos,implies_neg1,implies_neg2,equiv_pos1,equiv_pos2,equiv_neg1,equiv_neg2,ite_pos1,ite_pos2,ite_neg1,ite_neg2,equiv1,equiv2,not_equiv1,not_equiv2,ite1,ite2,not_ite1,not_ite2,ite_intro,connective_def,and,not_or,or,not_and,xor1,xor2,not_xor1,not_xor2,implies,not_implies1,not_implies2,distinct_elim,nary_elim,bfun_elim,symm,not_symm,eq_symmetric,weakening,and_intro"
CHECKS = {
    "C01": dict(
        units=["clausal"],
        drivers=[dict(driver="sound", files="tautology,clausification,extras", rules=CLAUSAL)],
        secs=25,
        note="Proved by Verus on the extracted code, for all inputs: each accepted step is semantically sound (models with arbitrary interpretations). Assumes the listed contracts on rug numbers, Rc and the term pool, and well-sortedness from the parser.",
    ),
    "C02": dict(
        units=["resolution"],
        drivers=[dict(driver="sound", files="resolution,extras,tautology", rules="resolution,th_resolution,strict_resolution,contraction,tautology,reordering,shuffle")],
        secs=25,
        note="Proved by Verus on the extracted code, for all inputs: resolution with inferred pivots (greedy_resolution, rup_resolution), resolution with explicit pivots, strict_resolution, contraction, tautology and reordering only accept steps whose conclusion follows from the premises. shuffle is covered by the bounded falsifier only. Assumes the listed contracts on IndexMap/IndexSet, Rc, Vec and the term pool, and well-sortedness from the parser.",
    ),
    "C03": dict(
        units=["equality"],
        drivers=[dict(driver="sound", files="congruence,transitivity,reflexivity", rules="refl,eq_reflexive,trans,eq_transitive,cong,ho_cong,eq_congruent,eq_congruent_pred")],
        secs=25,
        note="Proved by Verus on the extracted code, for all inputs: eq_reflexive, eq_transitive, trans, cong, ho_cong, eq_congruent, eq_congruent_pred (and their helpers find_chain, generic_congruent_rule, check_cong) only accept steps whose conclusion follows from the premises in every interpretation. refl and strict_refl are proved against the assumed contracts of alpha equivalence and of context substitution (both searched by the C15/C16 drivers). Assumes the listed contracts on Rc, Vec and the term pool, and well-sortedness from the parser.",
    ),
    "C04": dict(
        units=["linear"],
        drivers=[dict(driver="sound", files="linear_arithmetic,extras", rules="la_rw_eq,la_generic,la_disequality,la_totality,la_tautology,la_mult_pos,la_mult_neg")],
        secs=25,
        note="Proved by Verus on the extracted code, for all inputs: la_generic (linear combinations built from nested sums, differences and products, strengthening over the integers, scaling by the coefficients and summing up), la_tautology, la_rw_eq, la_disequality, la_totality, la_mult_pos and la_mult_neg only accept clauses that are true in every interpretation, with exact integers and rationals. Every function below them is under contract (LinearComb, strengthen, negate_disequality, as_fraction). Panics count as non-acceptance. Assumes the listed contracts on rug numbers, IndexMap, Rc, Vec and the term pool (its sorts), and well-sortedness from the parser.",
    ),
    "C11": dict(
        units=["bitvectors"],
        drivers=[dict(driver="sound", files="bitvectors", rules="bitblast_add,bitblast_and,bitblast_comp,bitblast_concat,bitblast_const,bitblast_equal,bitblast_extract,bitblast_mult,bitblast_neg,bitblast_not,bitblast_or,bitblast_sign_extend,bitblast_slt,bitblast_ult,bitblast_var,bitblast_xnor,bitblast_xor")],
        secs=20,
        note="Proved by Verus on the extracted code, for all inputs and all widths: every bit-blasting rule (const, var, and, or, xor, xnor, not, comp, ult, slt, add, mult, neg, equal, extract, concat, sign_extend), with build_term_vec, ripple_carry_adder and shift_add_multiplier, only accepts a conclusion whose two sides denote the same bits in every interpretation. Panics (an index out of bounds, a failed unwrap) count as non-acceptance. Assumes the listed contracts on rug numbers, Rc, Vec and the term pool, and well-sortedness from the parser.",
    ),
    "C12": dict(
        units=["pseudo", "cutting"],
        drivers=[dict(driver="sound", files="cutting_planes,pb_blasting", rules="cp_addition,cp_multiplication,cp_division,cp_saturation,cp_literal,cp_normalize,pbblast_bvand,pbblast_bvand_ith_bit,pbblast_bveq,pbblast_bvsge,pbblast_bvsgt,pbblast_bvsle,pbblast_bvslt,pbblast_bvuge,pbblast_bvugt,pbblast_bvule,pbblast_bvult,pbblast_bvxor,pbblast_bvxor_ith_bit,pbblast_pbbconst,pbblast_pbbvar")],
        secs=25,
        note="Proved by Verus on the extracted code, for all inputs: cp_addition, cp_multiplication, cp_division, cp_saturation and cp_literal with the functions that read and combine pseudo-Boolean sums; pbblast_bveq, the eight pseudo-Boolean comparisons, pbbvar and pbbconst, at every width. Division, saturation and literal are proved for models where the pseudo-Boolean literals are 0 or 1 (the rules' own domain). cp_normalize and pbblast_bvand/bvxor (with their ith_bit forms) are covered by the bounded falsifier only. Assumes the listed contracts on rug numbers, hash maps, Rc, Vec and the term pool, and well-sortedness from the parser.",
    ),
    "C05": dict(
        units=["boolsimp"],
        drivers=[dict(driver="sound", files="simplification", rules="ite_simplify,eq_simplify,and_simplify,or_simplify,not_simplify,implies_simplify,equiv_simplify,bool_simplify,qnt_simplify,ac_simp,aci_simp")],
        secs=20,
        note="Proved by Verus on the extracted code, for all inputs: ite_simplify, eq_simplify, and_simplify, or_simplify, not_simplify, implies_simplify, equiv_simplify, bool_simplify, qnt_simplify and ac_simp, with every rewriting table, the fixed-point loop of generic_simplify_rule, generic_and_or_simplify and the recursive apply_ac_simp, only accept equalities whose two sides have the same value in every interpretation (qnt_simplify: in those whose sorts are not empty). aci_simp is covered by the bounded falsifier only. Assumes the listed contracts on rug numbers, IndexMap/IndexSet, Rc, Vec and the term pool, and well-sortedness from the parser.",
    ),
    "C06": dict(
        units=["arithsimp"],
        drivers=[dict(driver="sound", files="simplification,polynomial", rules="sum_simplify,prod_simplify,minus_simplify,div_simplify,comp_simplify,poly_simp,poly_simp_rel")],
        secs=25,
        note="Proved by Verus on the extracted code, for all inputs: comp_simplify (with its rewriting table and fixed-point loop), sum_simplify and prod_simplify (generic_sum_prod_simplify_rule, nested sums and products flattened), minus_simplify and div_simplify only accept equalities whose two sides have the same value in every interpretation, with exact integers and rationals and Euclidean integer division; for div_simplify except the case (op n n) = 1, which is a known finding when n may be 0. poly_simp and poly_simp_rel are covered by the bounded falsifier only. Assumes the listed contracts on rug numbers, IndexMap, Rc, Vec and the term pool, and well-sortedness from the parser.",
    ),
    "C07": dict(
        units=["evaluate"],
        drivers=[dict(driver="ground", w=2), dict(driver="sound", files="extras", rules="evaluate", w=1)],
        secs=15,
        note="Proved by Verus on the extracted code, for all terms: the rule evaluate, Rc<Term>::evaluate and evaluate_impl (with its cache), eval_op for every operator (proved case by case in 40 copies of the function, in each of which only some arms of its match are reachable), eval_param_op, rotate_right and the conversions of Value: the term that evaluation returns has the value SMT-LIB gives the original in every interpretation (Euclidean div, two's complement bit-vectors of every width below 2^31, exact rationals, division by zero left to the interpretation), and if it is a literal it is the canonical one of the right kind. Excepted: mod with a negative dividend (known finding). Assumes the listed contracts on rug numbers, Vec, HashMap, HashSet and the term pool, and well-sortedness from the parser (equal kinds of the arguments of = and ite, numerals as indices, bit-vector literals that fit their width). That arithmetic in the program does not overflow, and that it does not crash, is not part of the property (it panics in the builds checked). Constant arithmetic in other rules is covered by C04, C06, C11 and C12.",
    ),
    "C10": dict(
        units=["verdict"],
        drivers=[dict(driver="verdict", extra=["--mode", "seq,seq,parx"], w=3), dict(driver="verdict", extra=["--mode", "cli"], cli=True, w=2)],
        secs=20,
        note="Proved by Verus on the extracted code, for all proofs: ProofChecker::check_impl, with ProofIter, check_assume, check_step, check_step_core, check_discharge_shared and get_rule_shared: Ok(h) implies that every command at every depth was checked (assumptions are premises, each step was accepted by its rule on exactly the conclusion, premises, arguments, discharged assumptions and context that the proof gives it, local assumptions are discharged), that some outermost command concludes the empty clause, and that h is true if any step was a hole, an unknown rule or an explicitly allowed rule. The rules themselves are opaque here (C01 to C12 cover them); check_local_variables is trusted. Assumes the parser resolves premises to earlier commands and ends each subproof in a step. The command line tool's output and completeness (good proofs are accepted) are covered by the bounded falsifier only.",
    ),
    "C14": dict(
        units=["pool"],
        drivers=[dict(driver="pool")],
        secs=15,
        note="Proved by Verus on the extracted code, for all terms and histories: Storage::add and get return one object per term and never replace one; equality and hashing of shared pointers go by address, and those of the pool's keys by value; PrimitivePool::add, ContextPool::{new, from_global, from_previous, add} and LocalPool::{new, from_previous, add} hand out, for a given term, one object that does not depend on the pool, the order or the thread (each critical section is proved to only add to the shared pool). Assumed: the contracts of IndexSet, Arc and RwLock, the derived structural equality and hash of terms, and that computing a sort only adds to the storage (compute_sort). Sorts, free variables and real threads are covered by the bounded falsifier, which replays random histories of constructions through all the pools and compares every object.",
    ),
    "C19": dict(
        units=["parallel"],
        drivers=[dict(driver="verdict", extra=["--mode", "par"], w=2), dict(driver="verdict", extra=["--mode", "parx"], w=1)],
        secs=20,
        note="Proved by Verus on the extracted code, for all proofs, schedules and thread counts: Scheduler::new leaves every step and every assumption of the proof, at every depth, to some schedule at its own position; ScheduleIter::{new, next, depth, get_premise, current_subproof, is_end_step, is_in_subproof} walk a schedule through the proof; worker_thread_check, check_step and check_assume check what they visit with the premises, previous command, discharged assumptions and context that the sequential checker gives the same step; check and check_with_stats merge the workers' verdicts: if the proof is accepted, then every command of it was accepted, an outermost command concludes the empty clause, and the verdict is holey whenever some step is. This is the guarantee that the unit of C10 proves of the sequential checker (the same spec functions). Assumed: threads run their closures and join returns the closures' values; the abort flag is only ever set by a worker that returns an error; contracts of BinaryHeap, HashSet, Vec, Arc and the context stack; the parser resolves premises to earlier commands and ends each subproof in a step; no arithmetic overflow in the counters of the contexts. The other direction (what the sequential checker accepts, the parallel one does) and freedom from panics are covered by the bounded falsifier only.",
    ),
}
