#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the tables here and in checks.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
R = "carcara/src/checker/rules/"
TESTS = "The unit tests feed each rule a handful of hand-written proofs; the property quantifies over every proof and every interpretation of its terms."

def P(id, title, statement, over, text, why, files, mech):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))

PROPS = [
P("C01", "Propositional rules are sound",
  "Whenever the checker accepts a step justified by a propositional introduction, clausification, definition or clause-manipulation rule (true, false, not_not, and/or/xor/implies/equiv/ite introduction and elimination rules, connective_def, distinct_elim, nary_elim, bfun_elim, symm, weakening, and_intro and their relatives), the step's conclusion clause is true in every interpretation that makes all its premises true.",
  ["inputs", "programs"], "every well-sorted proof step using one of these rules, with any number of literals, arguments and premises, in every interpretation",
  TESTS, [R + "tautology.rs", R + "clausification.rs", R + "extras.rs", R + "mod.rs", "carcara/src/ast/macros.rs"],
  [("one checking function per rule", R + "tautology.rs, clausification.rs, extras.rs"), ("term pattern matching", "carcara/src/ast/macros.rs"), ("rule lookup", "carcara/src/checker/shared.rs")]),
P("C02", "Resolution-style rules are sound",
  "Whenever the checker accepts a resolution, th_resolution, contraction, tautology, reordering or shuffle step, with or without explicit pivots, the conclusion clause is true in every interpretation in which all premise clauses are true. In particular no literal of a premise may disappear unless it was resolved with, or duplicates, another literal.",
  ["inputs", "programs"], "every sequence of premise clauses with any literals (including repeatedly negated ones), any pivot arguments and any conclusion",
  "Tests contain a few dozen resolution chains; unsound acceptance needs particular combinations of repeated pivots, repeated negations and literal multiplicities.",
  ["carcara/src/resolution.rs", R + "resolution.rs", R + "extras.rs"],
  [("greedy inference of pivots", "carcara/src/resolution.rs"), ("resolution with explicit pivots", R + "resolution.rs"), ("contraction / tautology / reordering", R + "resolution.rs, extras.rs")]),
P("C03", "Equality and congruence rules are sound",
  "Whenever the checker accepts a step by reflexivity, transitivity, symmetry or congruence (refl, eq_reflexive, trans, eq_transitive, cong, ho_cong, eq_congruent, eq_congruent_pred), the concluded equality or clause holds in every interpretation of the uninterpreted functions that satisfies the premises.",
  ["inputs", "programs"], "every chain of equality premises in any order and orientation, every arity, every operator, in every interpretation",
  TESTS, [R + "transitivity.rs", R + "congruence.rs", R + "reflexivity.rs"],
  [("equality chain construction", R + "transitivity.rs"), ("argument-wise justification", R + "congruence.rs"), ("comparison modulo equality", "carcara/src/ast/polyeq.rs")]),
P("C04", "Linear-arithmetic rules are sound",
  "Whenever the checker accepts a linear-arithmetic step (la_generic with its coefficients, la_disequality, la_rw_eq, la_totality, la_tautology, la_mult_pos, la_mult_neg), the conclusion clause is true for every integer and real assignment to its variables that satisfies the premises. Integer-only strengthening is never applied to terms that may take fractional values.",
  ["inputs", "programs"], "every clause of (negated) linear equalities and inequalities, every list of rational coefficients, every assignment",
  TESTS, [R + "linear_arithmetic.rs", R + "extras.rs"],
  [("linear combination and final contradiction test", R + "linear_arithmetic.rs"), ("strengthening of integer bounds", R + "linear_arithmetic.rs")]),
P("C05", "Boolean simplification rules preserve truth value",
  "Whenever the checker accepts a Boolean simplification step (and/or/not/implies/equiv/bool/ite/eq simplification, associative-commutative flattening), the two sides of the concluded equality have the same value in every interpretation.",
  ["inputs", "programs"], "every pair of formulas of any depth and arity, in every interpretation",
  TESTS, [R + "simplification.rs"], [("table-driven rewriting to a fixed point", R + "simplification.rs"), ("flattening", R + "simplification.rs")]),
P("C06", "Arithmetic simplification rules preserve value",
  "Whenever the checker accepts an arithmetic simplification or normalisation step (sum, product, minus, division, comparison simplification, polynomial normalisation), the two sides of the concluded equality have the same value for every assignment to their variables, for integers, reals and bit-vectors of every width.",
  ["inputs", "programs"], "every pair of arithmetic terms with arbitrarily large coefficients, every assignment",
  TESTS, [R + "simplification.rs", R + "polynomial.rs"], [("constant folding", R + "simplification.rs"), ("polynomial normal form", R + "polynomial.rs")]),
P("C07", "Constant evaluation agrees with SMT-LIB",
  "Whenever the checker accepts a step that evaluates a ground term (rule evaluate, and constant arithmetic in other rules), the value it computed is the one SMT-LIB assigns to the term: Euclidean div and mod for every sign of the operands, two's-complement bit-vector operations at every width, exact rationals, and no value at all for division by zero.",
  ["inputs"], "every ground term over Boolean, integer, real and bit-vector operators, with operands of any size and sign",
  TESTS, ["carcara/src/ast/evaluate.rs", R + "extras.rs"], [("recursive evaluator", "carcara/src/ast/evaluate.rs")]),
P("C08", "Quantifier rules are sound",
  "Whenever the checker accepts a quantifier step (instantiation, joining, removal of unused variables, distribution, splitting, clausal normal form, miniscoping), the conclusion is true in every interpretation with non-empty domains; bound variables are never captured or confused with free ones.",
  ["inputs", "programs"], "every quantified formula with any nesting and shadowing of bound variables, every instantiation, every interpretation",
  TESTS, [R + "quantifier.rs", "carcara/src/ast/substitution.rs"], [("capture-avoiding substitution", "carcara/src/ast/substitution.rs"), ("prenexing and clausal form", R + "quantifier.rs")]),
P("C09", "Subproof rules are sound and export nothing local",
  "Whenever the checker accepts a proof with nested subproofs, each closing step (subproof, bind, let, onepoint, skolemisation) concludes something that is true in every interpretation given the premises outside the subproof: every local assumption is discharged and no dependence on the subproof's own variables survives.",
  ["inputs", "programs"], "every nesting of subproofs, every variable binding list with shadowing and renaming, every set of local assumptions",
  TESTS, [R + "subproof.rs", "carcara/src/checker/mod.rs", "carcara/src/checker/shared.rs", "carcara/src/ast/context.rs"],
  [("variable contexts", "carcara/src/ast/context.rs"), ("discharge test", "carcara/src/checker/shared.rs"), ("closing rules", R + "subproof.rs")]),
P("C10", "A proof is valid only if everything was checked",
  "The checker reports a proof as valid only if every step was justified by a rule that accepted it, every top-level assumption occurs among the problem's assertions, and the empty clause is derived outside all subproofs; if a hole, a trusted rule or an ignored unknown rule was used anywhere, the verdict is holey and never valid.",
  ["inputs", "configurations"], "every proof, every placement of holes and assumptions, every checker configuration, sequential or parallel",
  "Tests check verdicts of small proofs; the property is about every position, nesting depth and configuration.",
  ["carcara/src/checker/mod.rs", "carcara/src/checker/shared.rs", "carcara/src/checker/parallel/mod.rs", "carcara/src/lib.rs"],
  [("main checking loop", "carcara/src/checker/mod.rs"), ("assumption matching", "carcara/src/checker/shared.rs"), ("hole tracking", "carcara/src/checker/shared.rs")]),
P("C11", "Bit-blasting rules are sound",
  "Whenever the checker accepts a bit-blasting step, the two sides of the concluded equality have the same value for every bit-vector assignment, at every width.",
  ["inputs", "programs"], "every width, every operand, every assignment of bits",
  TESTS, [R + "bitvectors.rs"], [("one bit-level construction per operator", R + "bitvectors.rs")]),
P("C12", "Cutting-planes and pseudo-Boolean rules are sound",
  "Whenever the checker accepts a cutting-planes step (addition, multiplication, division, saturation, literal, normalisation), every 0/1 assignment satisfying the premises satisfies the conclusion; whenever it accepts a pseudo-Boolean bit-blasting step the stated equivalence holds for every assignment.",
  ["inputs", "programs"], "every pseudo-Boolean constraint with any number of literals and arbitrarily large coefficients, every 0/1 assignment",
  TESTS, [R + "cutting_planes.rs", R + "pb_blasting.rs"], [("constraint extraction", R + "cutting_planes.rs"), ("bit sums", R + "pb_blasting.rs")]),
P("C13", "String rules are sound",
  "Whenever the checker accepts a string or regular-expression step, the conclusion holds for every assignment of strings that satisfies the premises.",
  ["inputs", "programs"], "every concatenation, every constant, every assignment of strings", TESTS, [R + "strings.rs"],
  [("concatenation flattening and expansion", R + "strings.rs")]),
P("C14", "Structurally equal terms are one shared object",
  "Adding the same term to a term pool, in any order and through any of the pool's entry points, always yields the same shared object, and different terms always yield different objects, so comparing terms by identity is comparing them structurally.",
  ["histories", "inputs"], "every sequence of term constructions, sequential or from several threads", "Tests add a few terms; the property is about every history of insertions.",
  ["carcara/src/ast/pool/mod.rs", "carcara/src/ast/pool/advanced.rs", "carcara/src/ast/pool/storage.rs", "carcara/src/ast/rc.rs"],
  [("hash-consing storage", "carcara/src/ast/pool/storage.rs"), ("layered pools for threads", "carcara/src/ast/pool/advanced.rs")]),
P("C15", "Term comparison modulo reordering and renaming is semantic equality",
  "Two terms that the checker treats as equal modulo reordering of equalities, n-ary chaining, string-concatenation flattening or renaming of bound variables have the same value in every interpretation.",
  ["inputs"], "every pair of terms, every comparison mode", "Tests compare a few dozen pairs.", ["carcara/src/ast/polyeq.rs", "carcara/src/ast/context.rs"],
  [("recursive comparison with caches", "carcara/src/ast/polyeq.rs")]),
P("C16", "Substitution is capture-avoiding and simultaneous",
  "Applying a substitution to a term yields a term whose value in every interpretation equals the value of the original term in the interpretation updated with the values of the substituted terms.",
  ["inputs"], "every term with nested and shadowing binders, every finite substitution", "Tests apply about twenty substitutions.", ["carcara/src/ast/substitution.rs"],
  [("renaming of bound variables", "carcara/src/ast/substitution.rs"), ("caching", "carcara/src/ast/substitution.rs")]),
P("C17", "Printing then parsing gives the same proof back",
  "Printing any proof or term, with or without sharing of common subterms, and parsing the result against the same problem declarations gives back the same commands and the same terms.",
  ["inputs", "configurations"], "every proof and every printing option", "Tests print a few proofs.", ["carcara/src/ast/printer.rs", "carcara/src/parser/mod.rs", "carcara/src/parser/lexer.rs"],
  [("printer", "carcara/src/ast/printer.rs"), ("parser", "carcara/src/parser/mod.rs")]),
P("C18", "Elaboration preserves validity and conclusion",
  "Elaborating a proof the checker accepts gives a proof, of the same assertions and with the same conclusion, that the checker also accepts.",
  ["inputs", "configurations"], "every accepted proof and every elaboration pipeline", "Tests elaborate a few proofs.", ["carcara/src/elaborator/mod.rs"],
  [("elaboration steps", "carcara/src/elaborator/*.rs")]),
P("C19", "Parallel checking gives the sequential verdict",
  "For every proof, every number of worker threads and every schedule, parallel checking accepts exactly the proofs that sequential checking accepts, and agrees on whether they are holey.",
  ["inputs", "schedules", "configurations"], "every proof, every number of threads, every interleaving", "Tests check one proof with a few thread counts.",
  ["carcara/src/checker/parallel/mod.rs", "carcara/src/checker/parallel/scheduler.rs"], [("work partition", "carcara/src/checker/parallel/scheduler.rs"), ("workers", "carcara/src/checker/parallel/mod.rs")]),
P("C20", "Literals are read at their exact value",
  "Every numeral, decimal, hexadecimal, binary and string literal is read as exactly the number, bit-vector (with the width its digits imply) or string it denotes in SMT-LIB.",
  ["inputs"], "every literal of any length", "Tests read a few literals.", ["carcara/src/parser/lexer.rs", "carcara/src/parser/mod.rs"], [("tokeniser", "carcara/src/parser/lexer.rs")]),
P("C22", "A slice of a proof justifies its step",
  "Slicing a proof at a step gives a small proof containing that step and everything it claims to need: if the whole proof is accepted, the slice is accepted too, and if the step is wrong the slice is rejected.",
  ["inputs"], "every proof and every step of it", "Tests slice a few proofs.", ["carcara/src/slice.rs"], [("dependency collection", "carcara/src/slice.rs")]),
P("C23", "DRUP steps are sound",
  "Whenever the checker accepts a DRUP refutation, the conclusion clause is true in every interpretation in which all premise clauses are true.",
  ["inputs"], "every set of premise clauses and every sequence of additions and deletions", "Tests check a few refutations.", ["carcara/src/drup.rs", R + "drup.rs"], [("reverse unit propagation", "carcara/src/drup.rs")]),
]
NA = {}
exec(open(os.path.join(V, "tools", "na.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in PROPS:
    c = CHECKS.get(p["id"])
    if c:
        checks.append(dict(property=p["id"], quick_cmd="python3 run.py " + p["id"], thorough_cmd="VERIF_TIER=thorough python3 run.py " + p["id"],
                           technique=c.get("technique", "contract-based deductive verification with Verus of functions mechanically extracted from /repo; bounded random search for failing inputs as labelled stand-in"),
                           level=c.get("level", "proof"), level_note=c["note"], theorems=c.get("theorems", [])))
    else:
        na.append(dict(property=p["id"], reason=NA[p["id"]]))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="Every check expands /repo's macros, extracts the functions under contract (vx), runs Verus on them and runs a bounded search for failing inputs against the real crate. See DESIGN.md."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
