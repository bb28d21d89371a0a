#!/usr/bin/env python3
"""Writes *_more.txt: more seeds for the falsifier (the conclusions' right-hand sides are placeholders that the
falsifier fills in from the checker's own expectation)."""
import os
D = os.path.dirname(os.path.abspath(__file__))
def write(f, recs):
    with open(f"{D}/{f}_more.txt", "w") as h:
        for i, (fn, name, defs, proof) in enumerate(recs):
            h.write("\x1f".join([fn, f"{name} {i}", defs, proof, "0"]) + "\x1e\n")
def bits(x, w, lo=0): return " ".join(f"((_ @bit_of {i}) {x})" for i in range(lo, lo + w))
def bb(x, w): return f"(@bbterm {bits(x, w)})"
R = []
def st(rule, w, l, r, v="xyz"):
    defs = " ".join(f"(declare-fun {x} () (_ BitVec {w}))" for x in v) + " (declare-fun p () Bool) (declare-fun q () Bool) (declare-fun q2 () Bool) (declare-fun q3 () Bool)"
    R.append((rule, f"{rule} width {w}", defs, f"(step t (cl (= {l} {r})) :rule bitblast_{rule})"))
for w in (1, 2, 3, 4):
    F = "(@bbterm " + " ".join(["false"] * w) + ")"
    P = "(@bbterm " + " ".join(["p", "q", "q2", "q3"][:w]) + ")"
    st("var", w, "x", F)
    for v in range(2 ** w):
        st("const", w, "#b" + format(v, f"0{w}b"), "(@bbterm " + " ".join("true" if v >> i & 1 else "false" for i in range(w)) + ")")
    for rule, op in (("and", "bvand"), ("or", "bvor"), ("xor", "bvxor"), ("add", "bvadd"), ("mult", "bvmul")):
        st(rule, w, f"({op} x y)", F)
        st(rule, w, f"({op} {bb('x', w)} {bb('y', w)})", F)
        st(rule, w, f"({op} x {P})", F)
        st(rule, w, f"({op} x y z)", F)
    st("xnor", w, "(bvxnor x y)", F)
    st("xnor", w, f"(bvxnor {P} y)", F)
    st("not", w, "(bvnot x)", F)
    st("not", w, f"(bvnot {P})", F)
    st("neg", w, "(bvneg x)", F)
    st("neg", w, f"(bvneg {P})", F)
    for a, b in (("x", "y"), (P, "y"), ("x", bb("y", w)), (bb("x", w), P)):
        st("ult", w, f"(bvult {a} {b})", "false")
        st("slt", w, f"(bvslt {a} {b})", "false")
        st("equal", w, f"(= {a} {b})", "false")
        st("comp", w, f"(bvcomp {a} {b})", "(@bbterm false)")
    for i in range(w):
        for j in range(i, w):
            st("extract", w, f"((_ extract {j} {i}) x)", f"(@bbterm {bits('x', j - i + 1, i)})")
            st("extract", w, f"((_ extract {j} {i}) {bb('y', w)})", f"(@bbterm {bits('y', j - i + 1, i)})")
    st("concat", w, "(concat x y)", f"(@bbterm {bits('y', w)} {bits('x', w)})")
    st("concat", w, "(concat x y z)", f"(@bbterm {bits('z', w)} {bits('y', w)} {bits('x', w)})")
    st("concat", w, f"(concat x ((_ extract 0 0) y))", f"(@bbterm {bits('((_ extract 0 0) y)', 1)} {bits('x', w)})")
    for i in range(3):
        st("sign_extend", w, f"((_ sign_extend {i}) x)", "(@bbterm " + bits("x", w) + f" ((_ @bit_of {w-1}) x)" * i + ")")
        st("sign_extend", w, f"((_ sign_extend {i}) {P})", "(@bbterm " + " ".join((["p", "q", "q2", "q3"][:w] + [["p", "q", "q2", "q3"][w-1]] * i)) + ")")
for w in (1, 2):
    st("concat", w, "(concat x y z x)", f"(@bbterm {bits('x', w)} {bits('z', w)} {bits('y', w)} {bits('x', w)})")
    st("concat", w, "(concat x y z x)", f"(@bbterm {bits('x', w)} {bits('x', w)} {bits('y', w)} {bits('x', w)})")
    st("concat", w, "(concat x y z y z)", f"(@bbterm {bits('z', w)} {bits('y', w)} {bits('z', w)} {bits('y', w)} {bits('x', w)})")
for w, k in ((40, 32), (40, 31), (70, 63), (70, 64)):
    for v in (0, 1, 2**k, 2**k + 1):
        b = ["true" if v >> i & 1 else "false" for i in range(w)]
        st("const", w, "#b" + format(v, f"0{w}b"), "(@bbterm " + " ".join(b) + ")")
        b[0], b[k] = b[k], b[0]
        st("const", w, "#b" + format(v, f"0{w}b"), "(@bbterm " + " ".join(b) + ")")
write("bitvectors", R)

R = []
D3 = "(declare-fun x () (_ BitVec 4)) (declare-fun y () (_ BitVec 4)) (declare-fun p () Bool) (declare-fun q () Bool)"
for a, b in (("(_ extract 3 1)", "(_ extract 3 1)"), ("(_ extract 3 1)", "(_ extract 2 0)"), ("(_ sign_extend 2)", "(_ sign_extend 2)"),
             ("(_ zero_extend 2)", "(_ sign_extend 2)"), ("(_ @bit_of 1)", "(_ @bit_of 1)"), ("(_ @bit_of 1)", "(_ @bit_of 2)"), ("(_ repeat 2)", "(_ repeat 2)"), ("(_ rotate_left 1)", "(_ rotate_left 2)"), ("(_ rotate_left 1)", "(_ rotate_right 1)")):
    R.append(("cong", "indexed operators", D3, f"(assume h1 (= x y)) (step t2 (cl (= ({a} x) ({b} y))) :rule cong :premises (h1))"))
    R.append(("eq_congruent", "indexed operators", D3, f"(step t2 (cl (not (= x y)) (= ({a} x) ({b} y))) :rule eq_congruent)"))
for o in ("bvadd", "bvmul", "bvand", "bvconcat", "bvsub", "bvudiv"):
    R.append(("cong", "bit-vector operators", D3, f"(assume h1 (= x y)) (step t2 (cl (= ({o} x x) ({o} x y))) :rule cong :premises (h1))"))
    R.append(("cong", "bit-vector operators", D3, f"(assume h1 (= x y)) (step t2 (cl (= ({o} x y) ({o} y x))) :rule cong :premises (h1 h1))"))
write("congruence", R)
# ---- pseudo-Boolean rules
R = []
def cp(rule, prems, concl, args=None, extra=""):
    defs = " ".join(f"(declare-fun {x} () Int)" for x in "abc") + " (declare-fun p () Bool) (declare-fun q () Bool)"
    pr = "".join(f"(assume h{i} {t})" for i, t in enumerate(prems))
    ar = f" :args ({args})" if args is not None else ""
    ps = f" :premises ({' '.join('h%d' % i for i in range(len(prems)))})" if prems else ""
    R.append((rule, rule, defs, f"{pr}{extra}(step t (cl {concl}) :rule {rule}{ps}{ar})"))
def pbsum(*ts):
    v = [f"(* {c} {l if l[0] != '~' else '(- 1 ' + l[1:] + ')'})" for c, l in ts]
    return "0" if not v else v[0] if len(v) == 1 else "(+ " + " ".join(v) + ")"
def ge(k, *ts): return f"(>= {pbsum(*ts)} {k})"
for d in (1, 2, 3, 7):
    for k in (0, 1, 4, 5):
        cd = lambda c: -(-c // d)
        ts = [(3, "a"), (5, "~b"), (1, "c")]
        cp("cp_division", [ge(k, *ts)], ge(cd(k), *[(cd(c), l) for c, l in ts]), d)
        cp("cp_division", [ge(k, (6, "a"))], ge(cd(k), (cd(6), "a")), d)
        cp("cp_division", [ge(k, (6, "a"), (0, "b"))], ge(cd(k), (cd(6), "a")), d)
        ts = [(2, "~a"), (4, "b")]
        cp("cp_multiplication", [ge(k, *ts)], ge(k * d, *[(c * d, l) for c, l in ts]), d)
    for op in ("or",):
        cp("cp_division", [f"(or p {ge(4, (3, 'a'))})"], ge(-(-4 // d), (-(-3 // d), "a")), d)
for k in (0, 1, 2, 3, 5):
    ts = [(3, "a"), (5, "~b"), (1, "c")]
    cp("cp_saturation", [ge(k, *ts)], ge(k, *[(min(c, k), l) for c, l in ts]))
    cp("cp_saturation", [ge(k, (4, "~a"))], ge(k, (min(4, k), "~a")))
# a premise clause of several literals
for i, o in ((0, "h0"), (1, "h0")):
    two = [ge(3, (5, "a")), "p"] if i == 0 else ["p", ge(3, (5, "a"))]
    ex = f"(step s (cl {two[0]} {two[1]}) :rule or :premises (h0))"
    h = f"(or {two[0]} {two[1]})"
    for rule, c, a in (("cp_saturation", ge(3, (3, "a")), ""), ("cp_division", ge(2, (3, "a")), " :args (2)"), ("cp_multiplication", ge(6, (10, "a")), " :args (2)"), ("cp_addition", ge(6, (10, "a")), "")):
        pr = "(s s)" if rule == "cp_addition" else "(s)"
        defs = "(declare-fun a () Int) (declare-fun p () Bool)"
        R.append((rule, rule + " two literals", defs, f"(assume h0 {h}){ex}(step t (cl {c}) :rule {rule} :premises {pr}{a})"))
        R.append((rule, rule + " two literals", defs, f"(assume h0 {h}){ex}(step t (cl {c} p) :rule {rule} :premises {pr}{a})"))
A = [([(2, "a"), (3, "~b")], 2), ([(1, "~a"), (1, "c")], 1), ([(4, "b")], 3), ([(2, "~a"), (3, "b")], 4), ([], 0), ([(1, "a"), (1, "~a")], 1)]
def red(x, k):
    m = {}
    for c, l in x: m[l] = m.get(l, 0) + c
    for v in "abc":
        s = min(m.get(v, 0), m.get("~" + v, 0))
        if s:
            m[v] -= s; m["~" + v] -= s; k -= s
    return ge(k, *[(c, l) for l, c in m.items() if c])
for x, kx in A:
    for y, ky in A:
        cp("cp_addition", [ge(kx, *x), ge(ky, *y)], red(x + y, kx + ky))
for l in ("a", "(- 1 a)", "b"):
    cp("cp_literal", [], f"(>= {l} 0)", l)
    cp("cp_literal", [], f"(>= (* 1 {l}) 0)", f"(* 1 {l})")
    cp("cp_literal", [], f"(>= (* 1 {l}) 0)", l)
for rel in (">=", ">", "<", "<=", "="):
    for l, r in (("(+ (* 2 a) (* (- 3) b))", "1"), ("(+ a b)", "(+ c 1)"), ("(- a b)", "0"), ("(- (* 2 a) b c)", "(* 3 b)"), ("(* (- 1) a)", "(- 1)"), ("(+ a (+ b c) a)", "2"), ("(- (+ a b))", "(- 2)"), ("(+ (* 2 (- 1 a)) b)", "1"), ("2", "(* 3 a)"), ("(- a (- b c))", "1")):
        g = "(>= 0 0)"
        cp("cp_normalize", [], f"(= ({rel} {l} {r}) {g})")
        cp("cp_normalize", [], f"(= ({rel} {l} {r}) (and {g} {g}))")
        cp("cp_normalize", [], f"(= (not ({rel} {l} {r})) {g})")
# normal forms computed here
import itertools
def lin(*ts): return "(+ " + " ".join(f"(* {c if c >= 0 else '(- %d)' % -c} {v})" for c, v in ts) + ")"
for cs in itertools.product((-2, -1, 1, 3), repeat=2):
    for k in (-1, 0, 2):
        for rel in (">=", ">", "<", "<="):
            c2, k2 = list(cs), k
            if rel in ("<", "<="): c2, k2 = [-c for c in c2], -k2
            if rel in (">", "<"): k2 += 1
            ts = []
            for c, v in zip(c2, "ab"):
                if c < 0: ts.append((-c, "~" + v)); k2 -= c
                else: ts.append((c, v))
            ks = str(k) if k >= 0 else f"(- {-k})"
            k2s = str(k2) if k2 >= 0 else f"(- {-k2})"
            cp("cp_normalize", [], f"(= ({rel} {lin(*zip(cs, 'ab'))} {ks}) (>= {pbsum(*ts)} {k2s}))")
write("cutting_planes", R)
R = []
def io(x, i): return f"((_ @int_of {i}) {x})"
def pb(rule, w, l, r, args=None):
    defs = " ".join(f"(declare-fun {x} () (_ BitVec {w}))" for x in "xyz") + " (declare-fun i () Int) (declare-fun j () Int)"
    ar = f" :args ({args})" if args else ""
    R.append((rule, f"{rule} width {w}", defs, f"(step t (cl (= {l} {r})) :rule pbblast_{rule}{ar})"))
def usum(x, w, hi=None): 
    v = [f"(* {2 ** k} {io(x, k)})" for k in range(w if hi is None else hi)]
    return "0" if not v else v[0] if len(v) == 1 else "(+ " + " ".join(v) + ")"
def sgn(x, w):
    return f"(- {usum(x, w, w - 1)} (* {2 ** (w - 1)} {io(x, w - 1)}))"
for w in (1, 2, 3, 4):
    for x, y in (("x", "y"), ("y", "x"), ("x", "x"), ("x", "#b" + "10" * 2 if w == 4 else "z")):
        pb("bveq", w, f"(= {x} {y})", f"(= (- {usum(x, w)} {usum(y, w)}) 0)")
        for op, a, b, k in (("uge", x, y, 0), ("ugt", x, y, 1), ("ule", y, x, 0), ("ult", y, x, 1)):
            pb("bv" + op, w, f"(bv{op} {x} {y})", f"(>= (- {usum(a, w)} {usum(b, w)}) {k})")
        for op, a, b, k in (("sge", x, y, 0), ("sgt", x, y, 1), ("sle", y, x, 0), ("slt", y, x, 1)):
            pb("bv" + op, w, f"(bv{op} {x} {y})", f"(>= (- {sgn(a, w)} {sgn(b, w)}) {k})")
            if w > 1:
                A1, B1 = usum(a, w, w - 1), usum(b, w, w - 1)
                top = 2 ** (w - 1)
                pb("bv" + op, w, f"(bv{op} {x} {y})", f"(>= (- (+ {A1} (* {top} {io(b, w - 1)})) (+ {B1} (* {top} {io(a, w - 1)}))) {k})")
    pb("pbbvar", w, "x", "(@pbbterm " + " ".join(io("x", k) for k in range(w)) + ")")
    pb("pbbvar", w, "(bvnot x)", "(@pbbterm " + " ".join(io("(bvnot x)", k) for k in range(w)) + ")")
    for v in range(2 ** w):
        pb("pbbconst", w, "#b" + format(v, f"0{w}b"), "(@pbbterm " + " ".join(str(v >> k & 1) for k in range(w)) + ")")
    T = lambda f: "(@pbbterm " + " ".join(f(k) for k in range(w)) + ")"
    for v in ("z", "k"):
        pb("bvand", w, "(bvand x y)", T(lambda k: f"(choice (({v} Int)) (and (>= {io('x', k)} {v}) (>= {io('y', k)} {v}) (>= (+ {v} 1) (+ {io('x', k)} {io('y', k)}))))"))
        pb("bvxor", w, "(bvxor x y)", T(lambda k: f"(choice (({v} Int)) (and (>= (+ {io('x', k)} {io('y', k)}) {v}) (>= (+ {v} {io('x', k)}) {io('y', k)}) (>= (+ {v} {io('y', k)}) {io('x', k)}) (>= 2 (+ {v} {io('x', k)} {io('y', k)}))))"))
write("pb_blasting", R)
R = []
DQ = "(declare-fun p () Bool) (declare-fun q () Bool) (declare-sort S 0) (declare-fun f (Int) Bool) (declare-fun g (Int Int) Bool) (declare-fun x () Int) (declare-fun y () Int)"
for a, b, body in (("(x Int)", "(x Int)", "(f x)"), ("(x Int)", "(y Int)", "(f x)"), ("(x Int)", "(y Int)", "(g x y)"), ("(x Int) (y Int)", "(y Int) (x Int)", "(g x y)"),
                   ("(x Int) (y Int)", "(x Int) (x Int)", "(g x y)"), ("(x Int)", "(x Int) (y Int)", "(g x y)"), ("(x Int) (y Int)", "(x Int)", "(g x y)"), ("(x Int)", "(x Real)", "(f x)"), ("(x Int)", "(z Int)", "(f x)"),
                   ("(x Int) (y Int)", "(z Int) (w Int)", "(g x y)")):
    R.append(("connective_def", "binders", DQ, f"(step t (cl (= (exists ({a}) {body}) (not (forall ({b}) (not {body}))))) :rule connective_def)"))
for l, r in (("(xor p q)", "(or (and (not p) q) (and p (not q)))"), ("(xor p q)", "(or (and p q) (and (not p) (not q)))"), ("(= p q)", "(and (=> p q) (=> p q))"), ("(= p q)", "(and (=> p q) (=> q p))"),
             ("(ite p q x)", "(and (=> p q) (=> (not p) x))"), ("(ite p q f)", "(and (=> p q) (=> (not p) q))"), ("(ite p q p)", "(and (=> p q) (=> (not p) p))"), ("(ite p q p)", "(and (=> p q) (=> (not p) q))")):
    R.append(("connective_def", "connectives", DQ, f"(step t (cl (= {l} {r})) :rule connective_def)"))
write("tautology", R)

R = []
LD = "(declare-fun n () Int) (declare-fun k () Int) (declare-fun a () Real) (declare-fun b () Real)"
def la(lits, args):
    R.append(("la_generic", "la_generic", LD, f"(step t (cl {' '.join(lits)}) :rule la_generic :args ({' '.join(args)}))"))
OPS = (">", ">=", "<", "<=")
def I(c): return f"(- {-c})" if c < 0 else str(c)
def Q(c): return f"(- {-c}.0)" if c < 0 else f"{c}.0"
for c in (1, 2, 3):
    for x in (0, 1, 2):
        for y in (0, 1, 2, 3):
            for o, p in ((">", ">="), (">=", ">"), (">", ">"), ("<", "<="), ("<=", "<"), (">=", ">=")):
                t = f"(* {c} n)" if c > 1 else "n"
                la([f"(not ({o} {t} {x}))", f"({p} {t} {y})"], ["1", "1"])
                if c == 2:
                    la([f"(not ({o} (+ {t} (* 4 k)) {x}))", f"({p} (+ {t} (* 4 k)) {y})"], ["1", "1"])
                    la([f"(not ({o} (* 2.0 a) {x}.0))", f"({p} (* 2.0 a) {y}.0)"], ["1.0", "1.0"])
for l, r in (("(- n k n)", "(- k)"), ("(- n k 1)", "(- n (- k 1))"), ("(- n k 1)", "(- (- n k) 1)"), ("(+ n (* (- 2) k))", "(- n (* 2 k))"), ("(* 2 (- n k))", "(- (* 2 n) k)"),
             ("(* (- n k) 2)", "(- (* 2 n) (* 2 k))"), ("(- (- n))", "n"), ("(- n n n)", "n"), ("(- n n n)", "(- n)"), ("(- 3 1 1)", "1"), ("(- 3 1 1)", "3"), ("(* 2 (* 3 n))", "(* 6 n)"), ("(* 2 (* 3 n))", "(* 5 n)")):
    for o in OPS:
        la([f"(not ({o} {l} {r}))"], ["1"])
        la([f"({o} {l} {r})"], ["1"])
        R.append(("la_tautology", "la_tautology", LD, f"(step t (cl ({o} {l} {r})) :rule la_tautology)"))
    la([f"(not (= {l} {r}))"], ["1"])
for o in OPS:
    for l, r in (("(+ a b)", "(+ b a)"), ("(* a 2.0)", "(* 3.0 a)"), ("(* (/ 1.0 2.0) a)", "(* (/ 2.0 4.0) a)"), ("(- a)", "(* (- 1.0) a)"), ("(+ a 1.0)", "a")):
        R.append(("la_tautology", "la_tautology", LD, f"(step t (cl ({o} {l} {r})) :rule la_tautology)"))
        la([f"(not ({o} {l} {r}))"], ["1.0"])
write("linear_arithmetic", R)

R = []
PD = "(declare-fun n () Int) (declare-fun k () Int) (declare-fun x () Real) (declare-fun y () Real) (declare-fun b () (_ BitVec 4)) (declare-fun c () (_ BitVec 4))"
def ps(l, r):
    R.append(("poly_simp", "poly", PD, f"(step t (cl (= {l} {r})) :rule poly_simp)"))
for f in ("(div {} 2)", "(mod {} 3)", "(abs {})", "(div 6 {})", "(div {} (- 2))", "(to_int (to_real {}))", "(to_int (/ (to_real {}) 2.0))", "(* {} k)", "(* 2 {})", "(- {})"):
    F = f.format
    ps(F("n"), F("n"))
    ps(F("(+ n k)"), F("(+ k n)"))
    ps(F("(* 3 n)"), f"(+ n {F('n')})")
    ps(F("(* 3 n)"), f"(* 3 {F('n')})")
    ps(F("(+ n k)"), f"(+ {F('n')} {F('k')})")
    ps(F("(- n)"), f"(- {F('n')})")
    ps(F("(+ n 2)"), f"(+ {F('n')} 1)")
for f in ("(/ {} 2.0)", "(/ 6.0 {})", "(abs {})", "(* {} y)", "(/ {} y)", "(/ {} 0.0)", "(to_real (to_int {}))", "(- {})", "(* {} (/ 1.0 3.0))", "(/ {} (- 4.0))"):
    F = f.format
    ps(F("x"), F("x"))
    ps(F("(* 3.0 x)"), f"(+ x {F('x')})")
    ps(F("(* 3.0 x)"), f"(* 3.0 {F('x')})")
    ps(F("(+ x y)"), f"(+ {F('x')} {F('y')})")
    ps(F("(- x)"), f"(- {F('x')})")
ps("(- n k 1)", "(- n (+ k 1))"); ps("(- n k 1)", "(- n (- k 1))"); ps("(* (+ n 1) (- n 1))", "(- (* n n) 1)"); ps("(* (+ n k) (+ n k))", "(+ (* n n) (* 2 n k) (* k k))"); ps("(* n n k)", "(* k (* n n))"); ps("(* n n k)", "(* n k k)")
for f in ("(bvudiv {} #x3)", "(bvurem {} #x3)", "(bvnot {})", "(bvshl {} #x1)", "(bvlshr {} #x1)", "(bvmul {} c)", "(bvmul #x8 {})", "(bvneg {})", "(bvsub {} c)", "(bvsub c {})", "(bvand {} c)", "(concat ((_ extract 1 0) {}) ((_ extract 3 2) {}))"):
    F = lambda t: f.replace("{}", t)
    ps(F("b"), F("b"))
    ps(F("(bvmul #x3 b)"), f"(bvmul #x3 {F('b')})")
    ps(F("(bvadd b c)"), f"(bvadd {F('b')} {F('c')})")
    ps(F("(bvneg b)"), f"(bvneg {F('b')})")
    ps(F("(bvadd b #x8 #x8)"), F("b"))
ps("(bvmul #x4 (bvmul #x4 b))", "#x0"); ps("(bvadd b b b b b b b b b b b b b b b b)", "#x0"); ps("(bvadd b b b b b b b b)", "(bvmul #x8 b)"); ps("(bvneg b)", "(bvmul #xf b)"); ps("(bvsub #x0 b)", "(bvneg b)")
write("polynomial", R)
