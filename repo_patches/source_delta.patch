From a5b8d1059a1b21ff23ef50de1611c78e67621658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 01/28] fix: keep pivots re-introduced by a clause during
 greedy resolution

---
 carcara/src/resolution.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/carcara/src/resolution.rs b/carcara/src/resolution.rs
index e8dc80c..797a70c 100644
--- a/carcara/src/resolution.rs
+++ b/carcara/src/resolution.rs
@@ -115,6 +115,10 @@ pub fn greedy_resolution(
         //     (step t2 (cl (= false true) false true) :rule equiv_neg2)
         //     (step t3 (cl (= false true)) :rule resolution :premises (t1 t2))
         let mut eliminated_clause_pivot = false;
+
+        // A clause cannot eliminate a pivot that it itself introduces, so we only add the pivots of
+        // this clause after going through all of its terms
+        let mut new_pivots = Vec::new();
         for term in premise {
             let (n, inner) = term.remove_all_negations();
             let n = n as i32;
@@ -166,12 +170,16 @@ pub fn greedy_resolution(
             } else if conclusion.contains(&(n, inner)) {
                 working_clause.insert((n, inner));
             } else {
-                // If the term is not in the conclusion clause, it must be a pivot. If it was
-                // not already in the pivots set, we insert `false`, to indicate that it was
-                // not yet eliminated
-                pivots.entry((n, inner)).or_insert(false);
+                // If the term is not in the conclusion clause, it must be a pivot
+                new_pivots.push((n, inner));
             }
         }
+
+        // We insert `false` to indicate that the pivot was not yet eliminated. If it was already in
+        // the pivots set, this occurrence of it still needs to be eliminated
+        for pivot in new_pivots {
+            pivots.insert(pivot, false);
+        }
     }
 
     // There are some special cases in the resolution rules that are valid, but leave a pivot
-- 
2.43.0


From 2e3ac8406ee7bec27f3dcf2e8b8aa21cb2d69e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:40 +0000
Subject: [PATCH 02/28] fix: only apply la_generic strengthening rules to
 integer-valued disequalities

---
 .../src/checker/rules/linear_arithmetic.rs    | 48 ++++++++++---------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/carcara/src/checker/rules/linear_arithmetic.rs b/carcara/src/checker/rules/linear_arithmetic.rs
index 6b6718f..dae93f6 100644
--- a/carcara/src/checker/rules/linear_arithmetic.rs
+++ b/carcara/src/checker/rules/linear_arithmetic.rs
@@ -201,20 +201,26 @@ impl LinearComb {
         // have to return one instead
         std::cmp::max(Integer::from(1), result)
     }
+
+    /// Returns `true` if the non-constant part of the linear combination can only have integer
+    /// values, that is, if all its terms are integers and so are their coefficients.
+    fn is_integral(&self, pool: &dyn TermPool) -> bool {
+        self.0.iter().all(|(term, coeff)| {
+            coeff.is_integer()
+                && (matches!(term.as_ref(), Term::Op(Operator::ToReal, _))
+                    || pool.sort(term).as_sort() == Some(&Sort::Int))
+        })
+    }
 }
 
-fn strengthen(op: Operator, disequality: &mut LinearComb, a: &Rational) -> Operator {
-    // Multiplications are expensive, so we avoid them if we can
-    let is_integer = if *a == 0 {
-        true
-    } else if *a == 1 {
-        disequality.1.is_integer()
-    } else {
-        (disequality.1.clone() * a).is_integer()
-    };
+fn strengthen(op: Operator, disequality: &mut LinearComb, pool: &dyn TermPool) -> Operator {
+    // The strengthening rules are only valid over the integers
+    if !disequality.is_integral(pool) {
+        return op;
+    }
 
     match op {
-        Operator::GreaterEq if is_integer => op,
+        Operator::GreaterEq if disequality.1.is_integer() => op,
 
         // In some cases, when the disequality is over integers, we can make the strengthening
         // rules even stronger. Consider for instance the following example:
@@ -243,24 +249,19 @@ fn strengthen(op: Operator, disequality: &mut LinearComb, a: &Rational) -> Opera
         // all coefficients will continue being integers after the division. This strengthening is
         // still valid because, since the variables are integers, the result of their linear
         // combination will always be a multiple of their GCD.
-        Operator::GreaterThan if is_integer => {
+        Operator::GreaterThan | Operator::GreaterEq => {
             // Instead of dividing and then multiplying back, we just multiply the "+ 1"
             // that is added by the strengthening rule
             disequality.1.floor_mut();
             disequality.1 += disequality.coefficients_gcd();
             Operator::GreaterEq
         }
-        Operator::GreaterThan | Operator::GreaterEq => {
-            disequality.1.floor_mut();
-            disequality.1 += 1;
-            Operator::GreaterEq
-        }
         Operator::LessThan | Operator::LessEq => unreachable!(),
         _ => op,
     }
 }
 
-pub fn la_generic(RuleArgs { conclusion, args, .. }: RuleArgs) -> RuleResult {
+pub fn la_generic(RuleArgs { conclusion, args, pool, .. }: RuleArgs) -> RuleResult {
     assert_num_args(args, conclusion.len())?;
 
     let args: Vec<_> = args
@@ -293,12 +294,13 @@ pub fn la_generic(RuleArgs { conclusion, args, .. }: RuleArgs) -> RuleResult {
             }
 
             // Step 4: Apply strengthening rules
-            let op = strengthen(op, &mut disequality, &a);
+            let op = strengthen(op, &mut disequality, pool);
 
-            // Step 5: Multiply disequality by a
-            let a = match op {
-                Operator::Equals => a,
-                _ => a.abs(),
+            // Step 5: Multiply disequality by a. If a is zero, the result is just 0 = 0
+            let (op, a) = match op {
+                _ if a == 0 => (Operator::Equals, a),
+                Operator::Equals => (op, a),
+                _ => (op, a.abs()),
             };
             disequality.mul(&a);
 
@@ -310,8 +312,8 @@ pub fn la_generic(RuleArgs { conclusion, args, .. }: RuleArgs) -> RuleResult {
                 let (op, diseq) = item?;
                 let new_acc = acc.add(diseq);
                 let new_op = match (acc_op, op) {
+                    (Operator::GreaterThan, _) | (_, Operator::GreaterThan) => Operator::GreaterThan,
                     (_, Operator::GreaterEq) => Operator::GreaterEq,
-                    (Operator::Equals, Operator::GreaterThan) => Operator::GreaterThan,
                     _ => acc_op,
                 };
                 Ok((new_op, new_acc))
-- 
2.43.0


From 690fe5f2210c5b7de48486cdcc15ec119291eeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:52 +0000
Subject: [PATCH 03/28] fix: interpret signed bit-vectors with two's complement
 in evaluation

---
 carcara/src/ast/evaluate.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/carcara/src/ast/evaluate.rs b/carcara/src/ast/evaluate.rs
index 8dc3c25..69abbf0 100644
--- a/carcara/src/ast/evaluate.rs
+++ b/carcara/src/ast/evaluate.rs
@@ -76,8 +76,7 @@ impl Value {
     pub fn as_signed_bitvec(&self) -> Option<(Integer, usize)> {
         let (val, w) = self.as_bitvec()?;
         let val = if val.get_bit((w - 1) as u32) {
-            let m = Integer::from(1) << w;
-            m.clone() - val
+            val.clone() - (Integer::from(1) << w)
         } else {
             val.clone()
         };
-- 
2.43.0


From b7927c2d62a8ef226b7b6aae7530afbb6bf5ef00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:07 +0000
Subject: [PATCH 04/28] fix: include the most significant bit when evaluating a
 bit-vector extract

---
 carcara/src/ast/evaluate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carcara/src/ast/evaluate.rs b/carcara/src/ast/evaluate.rs
index 69abbf0..cb2dee3 100644
--- a/carcara/src/ast/evaluate.rs
+++ b/carcara/src/ast/evaluate.rs
@@ -504,7 +504,7 @@ fn eval_param_op(op: ParamOperator, op_args: &[Rc<Term>], args: &[Rc<Term>]) ->
             let i = op_args[0].as_int()?.to_usize().unwrap();
             let j = op_args[1].as_int()?.to_usize().unwrap();
             let (bits, _) = args[0].as_bitvec()?;
-            let bits = bits.clone().keep_bits(i as u32) >> j;
+            let bits = bits.clone().keep_bits(i as u32 + 1) >> j;
             Value::new_bitvec(bits, i - j + 1)
         }
         ParamOperator::ZeroExtend => {
-- 
2.43.0


From cbe2c7333d5a29b29929620262de2e87b83085bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:21 +0000
Subject: [PATCH 05/28] fix: evaluate bvsmod with floored remainder

---
 carcara/src/ast/evaluate.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/carcara/src/ast/evaluate.rs b/carcara/src/ast/evaluate.rs
index cb2dee3..f0cd088 100644
--- a/carcara/src/ast/evaluate.rs
+++ b/carcara/src/ast/evaluate.rs
@@ -1,5 +1,5 @@
 use super::{Constant, Operator, ParamOperator, Rc, Term, TermPool};
-use rug::{Integer, Rational};
+use rug::{ops::RemRounding, Integer, Rational};
 use std::collections::{HashMap, HashSet};
 
 /// A representation of the value of an SMT-LIB/Alethe term. This is constructed by evaluating a
@@ -400,11 +400,9 @@ fn eval_op(op: Operator, args: &[Rc<Term>]) -> Option<Value> {
             if b.is_zero() {
                 return None;
             }
-            let signum: Integer = if op == Operator::BvSRem { &a } else { &b }
-                .signum_ref()
-                .into();
-            let value = a.abs() % b.abs();
-            Value::new_bitvec(value * signum, w)
+            // The sign of `bvsrem` follows the dividend, and the sign of `bvsmod` the divisor
+            let value = if op == Operator::BvSRem { a % b } else { a.rem_floor(b) };
+            Value::new_bitvec(value, w)
         }
         Operator::BvShl => {
             let ((a, w), (b, _)) = (args[0].as_bitvec()?, args[1].as_bitvec()?);
-- 
2.43.0


From ade8e86d873c1c3ddc785efcb137400206186604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:38 +0000
Subject: [PATCH 06/28] fix: evaluate bit-vector shifts and rotations by more
 than the width

---
 carcara/src/ast/evaluate.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/carcara/src/ast/evaluate.rs b/carcara/src/ast/evaluate.rs
index f0cd088..8da834d 100644
--- a/carcara/src/ast/evaluate.rs
+++ b/carcara/src/ast/evaluate.rs
@@ -406,7 +406,12 @@ fn eval_op(op: Operator, args: &[Rc<Term>]) -> Option<Value> {
         }
         Operator::BvShl => {
             let ((a, w), (b, _)) = (args[0].as_bitvec()?, args[1].as_bitvec()?);
-            Value::new_bitvec(a.clone() << b.to_usize()?, w)
+            // Shifting by the width or more leaves only zeroes
+            let value = match b.to_usize() {
+                Some(b) if b < w => a.clone() << b,
+                _ => Integer::new(),
+            };
+            Value::new_bitvec(value, w)
         }
         Operator::BvLShr => {
             let ((a, w), (b, _)) = (args[0].as_bitvec()?, args[1].as_bitvec()?);
@@ -414,7 +419,8 @@ fn eval_op(op: Operator, args: &[Rc<Term>]) -> Option<Value> {
         }
         Operator::BvAShr => {
             let ((a, w), (b, _)) = (args[0].as_bitvec()?, args[1].as_bitvec()?);
-            let b = b.to_usize().unwrap();
+            // Shifting by more than the width gives the same result as shifting by the width
+            let b = b.to_usize().map_or(w, |b| b.min(w));
             let mut result = a.clone() >> b;
             if a.get_bit((w - 1) as u32) {
                 // If the leading bit is 1, we have to fill the new bits with 1s. The mask is b 1s
@@ -519,7 +525,7 @@ fn eval_param_op(op: ParamOperator, op_args: &[Rc<Term>], args: &[Rc<Term>]) ->
             let i = op_args[0].as_int()?.to_usize().unwrap();
             let (value, w) = args[0].as_bitvec()?;
             // A left rotation by i bits is just a right rotation by w - i bits
-            Value::new_bitvec(rotate_right(value, w, w - i), w)
+            Value::new_bitvec(rotate_right(value, w, w - i % w), w)
         }
         ParamOperator::RotateRight => {
             let i = op_args[0].as_int()?.to_usize().unwrap();
-- 
2.43.0


From 6a5b8d838f381b5fad4f83e138e69b4b9cd7e71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:52 +0000
Subject: [PATCH 07/28] fix: evaluate integer division as Euclidean and leave
 division by zero unevaluated

---
 carcara/src/ast/evaluate.rs | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/carcara/src/ast/evaluate.rs b/carcara/src/ast/evaluate.rs
index 8da834d..1d72007 100644
--- a/carcara/src/ast/evaluate.rs
+++ b/carcara/src/ast/evaluate.rs
@@ -1,5 +1,8 @@
 use super::{Constant, Operator, ParamOperator, Rc, Term, TermPool};
-use rug::{ops::RemRounding, Integer, Rational};
+use rug::{
+    ops::{DivRounding, RemRounding},
+    Integer, Rational,
+};
 use std::collections::{HashMap, HashSet};
 
 /// A representation of the value of an SMT-LIB/Alethe term. This is constructed by evaluating a
@@ -277,9 +280,32 @@ fn eval_op(op: Operator, args: &[Rc<Term>]) -> Option<Value> {
         },
         Operator::Sub => arith_op!(-, args),
         Operator::Mult => arith_op!(*, args),
-        Operator::IntDiv => arith_op!(/, args),
-        Operator::RealDiv => arith_op!(/, args, "real"),
-        Operator::Mod => Value::Integer(args[0].as_int()? % args[1].as_int()?),
+        Operator::IntDiv => {
+            // The result of `div` by zero is not specified, so it cannot be evaluated
+            let first = args[0].as_int()?;
+            Value::Integer(args[1..].iter().try_fold(first, |acc, arg| {
+                let arg = arg.as_int().filter(|arg| !arg.is_zero())?;
+                Some(acc.div_euc(arg))
+            })?)
+        }
+        Operator::RealDiv => {
+            let is_zero = |v: &Value| match v {
+                Value::Integer(i) => i.is_zero(),
+                Value::Real(r) => r.is_zero(),
+                _ => false,
+            };
+            if args[1..].iter().any(is_zero) {
+                return None;
+            }
+            arith_op!(/, args, "real")
+        }
+        Operator::Mod => {
+            let (a, b) = (args[0].as_int()?, args[1].as_int()?);
+            if b.is_zero() {
+                return None;
+            }
+            Value::Integer(a % b)
+        }
         Operator::Abs => match &args[0] {
             Value::Integer(i) => Value::Integer(i.clone().abs()),
             Value::Real(r) => Value::Real(r.clone().abs()),
-- 
2.43.0


From e011d41dc7c06e0ae9ff7228862a6662cec04f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:33 +0000
Subject: [PATCH 08/28] fix: only remove duplicates of idempotent operators in
 aci_simp

---
 carcara/src/checker/rules/simplification.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/carcara/src/checker/rules/simplification.rs b/carcara/src/checker/rules/simplification.rs
index 230667f..50d9038 100644
--- a/carcara/src/checker/rules/simplification.rs
+++ b/carcara/src/checker/rules/simplification.rs
@@ -757,6 +757,14 @@ fn is_assoc(op: Operator) -> bool {
     )
 }
 
+// Operators for which aci_simp may remove duplicate arguments
+fn is_idempotent(op: Operator) -> bool {
+    matches!(
+        op,
+        Operator::And | Operator::Or | Operator::BvAnd | Operator::BvOr
+    )
+}
+
 // Term is given as argument as well because if the operator is
 // parametric, such as a BV operator, the width of the arguments will
 // be relevant.
@@ -859,9 +867,9 @@ fn apply_aci_simp(
         return t.clone();
     }
     let result = match term.as_ref() {
-        // flatten and remove duplicate on the result
+        // flatten and, if the operator is idempotent, remove duplicates on the result
         Term::Op(opp, args) if *opp == op => {
-            let args: Vec<_> = args
+            let args = args
                 .iter()
                 .flat_map(|term| {
                     let term = apply_aci_simp(pool, cache, term, op, identity);
@@ -870,9 +878,12 @@ fn apply_aci_simp(
                         _ => vec![term.clone()],
                     }
                 })
-                .dedup()
-                .filter(|t| identity.is_none() || *t.as_ref() != identity.clone().unwrap())
-                .collect();
+                .filter(|t| identity.is_none() || *t.as_ref() != identity.clone().unwrap());
+            let args: Vec<_> = if is_idempotent(op) {
+                args.dedup().collect()
+            } else {
+                args.collect()
+            };
             if args.len() == 1 {
                 args[0].clone()
             } else {
-- 
2.43.0


From 6baec8f84f2d8a2d9244f27607c566be6ba8935a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:56 +0000
Subject: [PATCH 09/28] fix: read integer division of constants as Euclidean
 division in as_fraction

---
 carcara/src/ast/term.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/carcara/src/ast/term.rs b/carcara/src/ast/term.rs
index d1ee88d..f7b8331 100644
--- a/carcara/src/ast/term.rs
+++ b/carcara/src/ast/term.rs
@@ -1,7 +1,7 @@
 use super::{PrimitivePool, Rc, TermPool};
 use crate::CheckerError;
 use indexmap::{map::Entry, IndexMap};
-use rug::{Integer, Rational};
+use rug::{ops::DivRounding, Integer, Rational};
 use std::{collections::HashSet, hash::Hash, ops::Deref};
 
 /// A term.
@@ -893,8 +893,19 @@ impl Term {
     pub fn as_fraction(&self) -> Option<Rational> {
         fn as_unsigned_fraction(term: &Term) -> Option<Rational> {
             match term {
-                Term::Op(Operator::IntDiv | Operator::RealDiv, args) if args.len() == 2 => {
-                    Some(args[0].as_signed_number()? / args[1].as_signed_number()?)
+                Term::Op(op @ (Operator::IntDiv | Operator::RealDiv), args) if args.len() == 2 => {
+                    let (n, d) = (args[0].as_signed_number()?, args[1].as_signed_number()?);
+                    // The value of a division by zero is not specified
+                    if d.is_zero() {
+                        return None;
+                    }
+                    Some(match op {
+                        Operator::IntDiv => {
+                            let [n, d] = [n, d].map(|x| x.into_numer_denom().0);
+                            n.div_euc(d).into()
+                        }
+                        _ => n / d,
+                    })
                 }
                 _ => term.as_number(),
             }
-- 
2.43.0


From 7d4269223d38e3e765856da5cfc8d9f7ff4946d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:41 +0000
Subject: [PATCH 10/28] fix: require the context to rename the bound variables
 in bind

---
 carcara/src/checker/rules/subproof.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/carcara/src/checker/rules/subproof.rs b/carcara/src/checker/rules/subproof.rs
index 2544335..4f119e2 100644
--- a/carcara/src/checker/rules/subproof.rs
+++ b/carcara/src/checker/rules/subproof.rs
@@ -88,6 +88,10 @@ pub fn bind(
         return Err(SubproofError::BindBindingIsFreeVarInPhi(y).into());
     }
 
+    // The context must rename the variables bound in the left side to the ones bound in the right
+    // side
+    let renamed: IndexSet<_> = l_bindings.iter().map(|x| context.apply(pool, x)).collect();
+
     // Since we are closing a subproof, we only care about the substitutions that were introduced
     // in it
     let context = context.last().unwrap();
@@ -116,9 +120,20 @@ pub fn bind(
         SubproofError::BindDifferentNumberOfBindings(l_bindings.len(), r_bindings.len())
     );
 
+    // The order of the bindings is only irrelevant in quantifiers
+    let is_renaming = match l_binder {
+        Binder::Forall | Binder::Exists => renamed == r_bindings,
+        Binder::Choice | Binder::Lambda => renamed.iter().eq(r_bindings.iter()),
+    };
+    if !is_renaming {
+        let y = r_bindings.iter().find(|&y| !renamed.contains(y));
+        let y = y.or(r_bindings.first()).unwrap().as_var().unwrap();
+        return Err(SubproofError::BindingIsNotInContext(y.to_owned()).into());
+    }
+
     let (l_bindings, r_bindings): (IndexSet<_>, IndexSet<_>) = (
         l_bindings.difference(&r_bindings).cloned().collect(),
-        r_bindings.difference(&r_bindings).cloned().collect(),
+        r_bindings.difference(&l_bindings).cloned().collect(),
     );
 
     // `l_bindings` should be a subset of `xs` and `r_bindigns` should be a subset of `ys`
-- 
2.43.0


From 730f4df1c9c4137a090df1e6d205fe5b25784f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:35 +0000
Subject: [PATCH 11/28] fix: add the coefficients of repeated literals in
 pseudo-Boolean sums

---
 carcara/src/checker/rules/cutting_planes.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index 7d61d65..3db760d 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -48,7 +48,8 @@ fn get_pb_hashmap(pbsum: &Rc<Term>) -> Result<PbHash, CheckerError> {
             };
 
         let coeff = coeff.as_integer_err()?;
-        hm.insert(literal, coeff);
+        // The same literal may occur more than once in the sum
+        *hm.entry(literal).or_insert_with(Integer::new) += coeff;
     }
     Ok(hm)
 }
-- 
2.43.0


From 25b29ea5367266a2b39619775d5c8bd824551aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:47 +0000
Subject: [PATCH 12/28] fix: compare zero coefficients in the conclusion of
 cp_addition

---
 carcara/src/checker/rules/cutting_planes.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index 3db760d..0c1655c 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -207,10 +207,8 @@ pub fn cp_addition(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> Rul
 
     // Verify pseudo-boolean sums match
     for (literal, coeff_c) in &pbsum_c {
-        if *coeff_c == 0 {
-            continue;
-        }
         match pbsum_lr_reduced.get(literal) {
+            None if *coeff_c == 0 => {}
             Some(coeff_lr_reduced) => {
                 rassert!(
                     coeff_lr_reduced == coeff_c,
-- 
2.43.0


From 1a7710318e1b0e70888ee970abe5f541f2bec86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:01 +0000
Subject: [PATCH 13/28] fix: negate the argument of unary minus in cp_normalize

---
 carcara/src/checker/rules/cutting_planes.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index 0c1655c..21b2e53 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -562,6 +562,11 @@ fn flatten_addition_tree(
         Term::Op(Operator::Add, args) => accumulate_sum(args),
         Term::Op(Operator::Sub, args) => {
             let (mut va, ca) = flatten_addition_tree(&args[0])?;
+            if args.len() == 1 {
+                // Unary minus
+                negate_sum(&mut va);
+                return Ok((va, -ca));
+            }
             let (mut vb, cb) = accumulate_sum(&args[1..])?;
             negate_sum(&mut vb);
             va.append(&mut vb);
-- 
2.43.0


From 960dd3a65401c121784dd9a17bfb58e1dd261472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:37 +0000
Subject: [PATCH 14/28] fix: require cp_literal to conclude about a
 pseudo-Boolean literal

---
 carcara/src/checker/rules/cutting_planes.rs | 31 +++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index 21b2e53..acc992c 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -358,6 +358,33 @@ pub fn cp_saturation(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> R
     Ok(())
 }
 
+/// Asserts that the term can stand for a 0-1 variable, that is, that it is not an arithmetic
+/// constant or operation
+fn assert_is_pb_variable(term: &Rc<Term>) -> RuleResult {
+    rassert!(
+        !matches!(term.as_ref(), Term::Const(_) | Term::Op(..)),
+        CheckerError::Explanation(format!("Expected pseudo-Boolean variable, got {term}"))
+    );
+    Ok(())
+}
+
+/// Asserts that the term is a 0-1 variable or its negation, possibly multiplied by a non-negative
+/// constant
+fn assert_is_scaled_pb_literal(term: &Rc<Term>) -> RuleResult {
+    let mut literal = term;
+    if let Some((coeff, l)) = match_term!((* coeff l) = term) {
+        rassert!(
+            coeff.as_integer_err()? >= 0,
+            CheckerError::ExpectedNonnegInteger(coeff.clone())
+        );
+        literal = l;
+    }
+    match match_term!((- 1 l) = literal) {
+        Some((_, l)) => assert_is_pb_variable(l),
+        None => assert_is_pb_variable(literal),
+    }
+}
+
 pub fn cp_literal(RuleArgs { pool, args, conclusion, .. }: RuleArgs) -> RuleResult {
     assert_num_args(args, 1)?;
     // TODO: Set args type to FF 2
@@ -368,6 +395,7 @@ pub fn cp_literal(RuleArgs { pool, args, conclusion, .. }: RuleArgs) -> RuleResu
             CheckerError::ExpectedInteger(1.into(), c.clone()),
         );
         let neg_l = build_term!(pool,(- 1 {l.clone()}));
+        assert_is_pb_variable(l)?;
         return assert_eq(&neg_l, &args[0]);
     }
     if let Some(((c, l), _)) = match_term!((>= (* c l) 0) = &conclusion[0]) {
@@ -375,13 +403,16 @@ pub fn cp_literal(RuleArgs { pool, args, conclusion, .. }: RuleArgs) -> RuleResu
             c.as_integer_err()? == 1,
             CheckerError::ExpectedInteger(1.into(), c.clone()),
         );
+        assert_is_scaled_pb_literal(l)?;
         return assert_eq(l, &args[0]);
     }
     if let Some(((_, l), _)) = match_term!((>= (- 1 l) 0) = &conclusion[0]) {
         let neg_l = build_term!(pool,(- 1 {l.clone()}));
+        assert_is_pb_variable(l)?;
         return assert_eq(&neg_l, &args[0]);
     }
     if let Some((l, _)) = match_term!((>= l 0) = &conclusion[0]) {
+        assert_is_scaled_pb_literal(l)?;
         return assert_eq(l, &args[0]);
     }
     Err(CheckerError::Explanation(
-- 
2.43.0


From 5a3aee7188be249027f9856a54fd05659613bed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:37 +0000
Subject: [PATCH 15/28] fix: require the summations in pbblast comparisons to
 cover every bit

---
 carcara/src/checker/rules/pb_blasting.rs | 43 ++++++++++++++----------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/carcara/src/checker/rules/pb_blasting.rs b/carcara/src/checker/rules/pb_blasting.rs
index fecddb2..fc50644 100644
--- a/carcara/src/checker/rules/pb_blasting.rs
+++ b/carcara/src/checker/rules/pb_blasting.rs
@@ -21,13 +21,14 @@ fn check_pbblast_sum(
     pool: &mut dyn TermPool,
     bitvector: &Rc<Term>,
     sum: &[Rc<Term>],
+    sign_bits: usize,
 ) -> RuleResult {
     // Obtain the bitvector width from the pool.
     let width = get_bit_width(bitvector, pool)?;
 
-    // The summation must have at most as many summands as the bitvector has bits.
+    // The summation must have as many summands as the bitvector has bits, not counting sign bits.
     rassert!(
-        width >= sum.len(),
+        width == sum.len() + sign_bits,
         CheckerError::Explanation(format!(
             "Mismatched number of summands {} and bits {}",
             width,
@@ -81,10 +82,14 @@ fn check_pbblast_sum(
 
 // Helper to check that a summation has the expected shape
 // when the bitvector is a @pbbterm application "short-circuiting"
-fn check_pbblast_sum_short_circuit(pbbterm: &[Rc<Term>], sum: &[Rc<Term>]) -> RuleResult {
-    // The summation must have at most as many summands as the bitvector has bits.
+fn check_pbblast_sum_short_circuit(
+    pbbterm: &[Rc<Term>],
+    sum: &[Rc<Term>],
+    sign_bits: usize,
+) -> RuleResult {
+    // The summation must have as many summands as the bitvector has bits, not counting sign bits.
     rassert!(
-        pbbterm.len() >= sum.len(),
+        pbbterm.len() == sum.len() + sign_bits,
         CheckerError::Explanation(format!(
             "Mismatched number of summands {} and bits {}",
             pbbterm.len(),
@@ -121,21 +126,23 @@ fn check_pbblast_sum_short_circuit(pbbterm: &[Rc<Term>], sum: &[Rc<Term>]) -> Ru
 /// A helper that checks the two summations that occur in a pseudo–Boolean constraint.
 /// Here, `left_sum` and `right_sum` come from two bitvectors `left_bv` and `right_bv` respectively.
 /// (The overall constraint is something like `(>= (- (+ left_sum) (+ right_sum)) constant)`.)
+/// `sign_bits` is the number of most significant bits that are not part of the summations.
 fn check_pbblast_constraint(
     pool: &mut dyn TermPool,
     left_bv: &Rc<Term>,
     right_bv: &Rc<Term>,
     left_sum: &[Rc<Term>],
     right_sum: &[Rc<Term>],
+    sign_bits: usize,
 ) -> RuleResult {
     if let Some(pbb_l) = match_term!((pbbterm ...) = left_bv) {
         // Case when x is application of `@pbbterm` so we must short-circuit the indexing
         let pbb_r = match_term_err!((pbbterm ...) = right_bv)?;
-        check_pbblast_sum_short_circuit(pbb_l, left_sum)?;
-        check_pbblast_sum_short_circuit(pbb_r, right_sum)
+        check_pbblast_sum_short_circuit(pbb_l, left_sum, sign_bits)?;
+        check_pbblast_sum_short_circuit(pbb_r, right_sum, sign_bits)
     } else {
-        check_pbblast_sum(pool, left_bv, left_sum)?;
-        check_pbblast_sum(pool, right_bv, right_sum)
+        check_pbblast_sum(pool, left_bv, left_sum, sign_bits)?;
+        check_pbblast_sum(pool, right_bv, right_sum, sign_bits)
     }
 }
 
@@ -152,7 +159,7 @@ pub fn pbblast_bveq(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
 
     // Check that the summations have the correct structure.
     // (For equality the order is: sum_x for x and sum_y for y.)
-    check_pbblast_constraint(pool, x, y, sum_x, sum_y)
+    check_pbblast_constraint(pool, x, y, sum_x, sum_y, 0)
 }
 
 /// Implements the unsigned-less-than rule.
@@ -167,7 +174,7 @@ pub fn pbblast_bvult(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     let sum_y = split_summation(sum_y);
 
     // For bvult the summations occur in reverse: the "left" sum comes from y and the "right" from x.
-    check_pbblast_constraint(pool, y, x, sum_y, sum_x)
+    check_pbblast_constraint(pool, y, x, sum_y, sum_x, 0)
 }
 
 /// Implements the unsigned-greater-than rule.
@@ -183,7 +190,7 @@ pub fn pbblast_bvugt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     let sum_y = split_summation(sum_y);
 
     // For bvugt the summations appear in the same order as in equality.
-    check_pbblast_constraint(pool, x, y, sum_x, sum_y)
+    check_pbblast_constraint(pool, x, y, sum_x, sum_y, 0)
 }
 
 /// Implements the unsigned-greater-or-equal rule.
@@ -198,7 +205,7 @@ pub fn pbblast_bvuge(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     let sum_x = split_summation(sum_x);
     let sum_y = split_summation(sum_y);
 
-    check_pbblast_constraint(pool, x, y, sum_x, sum_y)
+    check_pbblast_constraint(pool, x, y, sum_x, sum_y, 0)
 }
 
 /// Implements the unsigned-less-or-equal rule.
@@ -213,7 +220,7 @@ pub fn pbblast_bvule(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     let sum_x = split_summation(sum_x);
     let sum_y = split_summation(sum_y);
 
-    check_pbblast_constraint(pool, x, y, sum_x, sum_y)
+    check_pbblast_constraint(pool, x, y, sum_x, sum_y, 0)
 }
 
 /// Helper that checks the the `sign` term has the format -(2<sup>n-1</sup>) x<sub>n-1</sub>
@@ -278,7 +285,7 @@ pub fn pbblast_bvslt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     check_pbblast_signed_relation(n, sign_x, x)?;
 
     // For bvult the summations occur in reverse: the "left" sum comes from y and the "right" from x.
-    check_pbblast_constraint(pool, y, x, sum_y, sum_x)
+    check_pbblast_constraint(pool, y, x, sum_y, sum_x, 1)
 }
 
 /// Implements the signed-greater-than rule.
@@ -299,7 +306,7 @@ pub fn pbblast_bvsgt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     check_pbblast_signed_relation(n, sign_x, x)?;
     check_pbblast_signed_relation(n, sign_y, y)?;
 
-    check_pbblast_constraint(pool, x, y, sum_x, sum_y)
+    check_pbblast_constraint(pool, x, y, sum_x, sum_y, 1)
 }
 
 /// Implements the signed-greater-equal rule.
@@ -320,7 +327,7 @@ pub fn pbblast_bvsge(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     check_pbblast_signed_relation(n, sign_x, x)?;
     check_pbblast_signed_relation(n, sign_y, y)?;
 
-    check_pbblast_constraint(pool, x, y, sum_x, sum_y)
+    check_pbblast_constraint(pool, x, y, sum_x, sum_y, 1)
 }
 
 /// Implements the signed-less-equal rule.
@@ -342,7 +349,7 @@ pub fn pbblast_bvsle(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     check_pbblast_signed_relation(n, sign_x, x)?;
 
     // For bvsle the summations occur in reverse: the "left" sum comes from y and the "right" from x.
-    check_pbblast_constraint(pool, y, x, sum_y, sum_x)
+    check_pbblast_constraint(pool, y, x, sum_y, sum_x, 1)
 }
 
 /// Implements the blasting of a bitvector variable
-- 
2.43.0


From 4f0953fe3c1aaa170dfbc12d44203eb830fe50f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:47 +0000
Subject: [PATCH 16/28] fix: tell apart (- 1 l) and l when both are negated in
 cp_normalize

---
 carcara/src/checker/rules/cutting_planes.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index acc992c..53ffabe 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -496,6 +496,9 @@ impl PartialEq for CoeffTimesVar<'_> {
         // has shape `(- 1 l)`  and the negated has shape `l`
 
         // * 1. self is `negated l`, other is `!negated (- 1 l)`
+        if self.negated == other.negated {
+            return false;
+        }
         if self.negated {
             if let Some((_, l)) = match_term!((- 1 l) = other.var) {
                 return l == self.var;
-- 
2.43.0


From 5dc0099d8d3e19bd78b7f0a2990d41b09e4a0365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:18 +0000
Subject: [PATCH 17/28] fix: reject negative scalars in cp_multiplication

---
 carcara/src/checker/rules/cutting_planes.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index 53ffabe..4e58d06 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -238,6 +238,12 @@ pub fn cp_multiplication(RuleArgs { premises, args, conclusion, .. }: RuleArgs)
     assert_num_args(args, 1)?;
     let scalar: Integer = args[0].as_integer_err()?;
 
+    // Multiplying by a negative number would reverse the inequality
+    rassert!(
+        scalar >= 0,
+        CheckerError::ExpectedNonnegInteger(args[0].clone())
+    );
+
     // Check there is exactly one conclusion
     assert_clause_len(conclusion, 1)?;
     let conclusion = &conclusion[0];
-- 
2.43.0


From cb1a0e9988559ee5b11b3a6cff92cbfad5cdf9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:43 +0000
Subject: [PATCH 18/28] fix: avoid captures of renamed variables and substitute
 into let values

---
 carcara/src/ast/substitution.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/carcara/src/ast/substitution.rs b/carcara/src/ast/substitution.rs
index 8360ea0..496589d 100644
--- a/carcara/src/ast/substitution.rs
+++ b/carcara/src/ast/substitution.rs
@@ -138,6 +138,7 @@ impl Substitution {
         let was_present = self.map.swap_remove(x).is_some();
         if was_present {
             self.should_be_renamed = None;
+            self.cache.clear();
         }
     }
 
@@ -213,8 +214,9 @@ impl Substitution {
                 self.apply_to_binder(pool, term, *binder, binding_list.as_ref(), inner)
             }
             Term::Let(binding_list, inner) => {
+                self.compute_should_be_renamed(pool);
                 let (new_bindings, mut renaming) =
-                    self.rename_binding_list(pool, binding_list, true);
+                    self.rename_binding_list(pool, binding_list, inner, true);
                 let new_term = if renaming.is_empty() {
                     self.apply(pool, inner)
                 } else {
@@ -318,7 +320,7 @@ impl Substitution {
             return original_term.clone();
         }
 
-        let (new_bindings, mut renaming) = self.rename_binding_list(pool, binding_list, false);
+        let (new_bindings, mut renaming) = self.rename_binding_list(pool, binding_list, inner, false);
         let new_term = if renaming.is_empty() {
             self.apply(pool, inner)
         } else {
@@ -340,10 +342,20 @@ impl Substitution {
         &mut self,
         pool: &mut dyn TermPool,
         binding_list: &[SortedVar],
+        inner: &Rc<Term>,
         is_value_list: bool,
     ) -> (BindingList, Self) {
         let mut new_substitution = Self::empty();
         let mut new_vars = IndexSet::new();
+
+        // The new names must not capture variables that are free in the binder term
+        let free_in_inner: IndexSet<String> = pool
+            .free_vars(inner)
+            .into_iter()
+            .filter_map(|v| v.as_var().map(str::to_owned))
+            .filter(|v| binding_list.iter().all(|(bound, _)| bound != v))
+            .collect();
+
         let new_binding_list = binding_list
             .iter()
             .map(|(var, value)| {
@@ -362,6 +374,7 @@ impl Substitution {
                 loop {
                     if !new_vars.contains(&new_var)
                         && !self.should_be_renamed.as_ref().unwrap().contains(&new_var)
+                        && !(changed && free_in_inner.contains(&new_var))
                     {
                         break;
                     }
@@ -378,13 +391,13 @@ impl Substitution {
                     // We can safely unwrap here because `old` and `new` are guaranteed to have the
                     // same sort
                     new_substitution.insert(pool, old, new).unwrap();
-                    new_vars.insert(new_var.clone());
                 }
+                new_vars.insert(new_var.clone());
 
-                // If the binding list is a "value" list, we need to apply the current substitution
-                // to each variable's value
+                // If the binding list is a "value" list, we need to apply this substitution to each
+                // variable's value
                 let new_value = if is_value_list {
-                    new_substitution.apply(pool, value)
+                    self.apply(pool, value)
                 } else {
                     value.clone()
                 };
-- 
2.43.0


From 1d31640de3315fef5e4a7d223fd2953353791d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:03 +0000
Subject: [PATCH 19/28] fix: count the free variables of let values

---
 carcara/src/ast/pool/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/carcara/src/ast/pool/mod.rs b/carcara/src/ast/pool/mod.rs
index cdeed27..5d2b56e 100644
--- a/carcara/src/ast/pool/mod.rs
+++ b/carcara/src/ast/pool/mod.rs
@@ -428,6 +428,9 @@ impl PrimitivePool {
                     let term = self.add_with_priorities((var.clone(), sort).into(), prior_pools);
                     vars.swap_remove(&term);
                 }
+                for (_, value) in bindings {
+                    vars.extend(self.free_vars_with_priorities(value, prior_pools));
+                }
                 vars
             }
             Term::Var(..) => {
-- 
2.43.0


From 66fc11502142e54a2484929ea8eefb4669626363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:15 +0000
Subject: [PATCH 20/28] fix: keep variables local to a subproof from being
 confused with outer ones

---
 carcara/src/ast/context.rs      | 24 ++++++++++++++-
 carcara/src/ast/substitution.rs | 13 ++++++++
 carcara/src/checker/error.rs    |  3 ++
 carcara/src/checker/shared.rs   | 53 ++++++++++++++++++++++++++++++++-
 4 files changed, 91 insertions(+), 2 deletions(-)

diff --git a/carcara/src/ast/context.rs b/carcara/src/ast/context.rs
index 5c38f74..c53c35d 100644
--- a/carcara/src/ast/context.rs
+++ b/carcara/src/ast/context.rs
@@ -146,6 +146,22 @@ impl ContextStack {
             std::cmp::min(self.num_cumulative_calculated, self.stack.len());
     }
 
+    /// Returns the variables introduced by the contexts in the stack, starting from the context at
+    /// position `from`. The boolean indicates whether the variable is assigned a value.
+    pub fn variables_from(&self, from: usize) -> Vec<(SortedVar, bool)> {
+        let mut result = Vec::new();
+        for &id in self.stack.iter().skip(from) {
+            let context = self.context_vec[id].1.read().unwrap();
+            for arg in &context.as_ref().unwrap().args {
+                result.push(match arg {
+                    AnchorArg::Variable(var) => (var.clone(), false),
+                    AnchorArg::Assign(var, _) => (var.clone(), true),
+                });
+            }
+        }
+        result
+    }
+
     fn catch_up_cumulative(&mut self, pool: &mut dyn TermPool, up_to: usize) {
         for i in self.num_cumulative_calculated..std::cmp::max(up_to + 1, self.len()) {
             // Requires read guard. Since the i-th context will be mutated far
@@ -179,11 +195,17 @@ impl ContextStack {
                 match a {
                     AnchorArg::Variable((name, sort)) => {
                         let var_term = pool.add(Term::new_var(name, sort.clone()));
-                        substitution.remove(&var_term);
+                        substitution.shadow(pool, &var_term);
                     }
                     AnchorArg::Assign(var, value) => {
                         let var_term = pool.add(var.clone().into());
                         let new_value = substitution.apply(pool, value);
+                        substitution.shadow(pool, &var_term);
+                        // If the new value refers to a variable that is being shadowed, we have
+                        // no way of expressing it
+                        if pool.free_vars(&new_value).contains(&var_term) {
+                            continue;
+                        }
                         // It is safe to unwrap here because we ensure by contruction that
                         // `var_term` is a variable term, with he same sort as `value`
                         substitution
diff --git a/carcara/src/ast/substitution.rs b/carcara/src/ast/substitution.rs
index 496589d..a59c081 100644
--- a/carcara/src/ast/substitution.rs
+++ b/carcara/src/ast/substitution.rs
@@ -142,6 +142,19 @@ impl Substitution {
         }
     }
 
+    /// Accounts for `x` being bound anew: removes the mapping for `x`, and all mappings to terms in
+    /// which the shadowed `x` appears, since these terms can no longer be referred to.
+    pub(super) fn shadow(&mut self, pool: &mut dyn TermPool, x: &Rc<Term>) {
+        self.remove(x);
+        let len = self.map.len();
+        self.map
+            .retain(|k, t| k == t || !pool.free_vars(t).contains(x));
+        if self.map.len() != len {
+            self.should_be_renamed = None;
+            self.cache.clear();
+        }
+    }
+
     /// Computes which binder variables will need to be renamed, and stores the result in
     /// `self.should_be_renamed`.
     fn compute_should_be_renamed(&mut self, pool: &mut dyn TermPool) {
diff --git a/carcara/src/checker/error.rs b/carcara/src/checker/error.rs
index 98a25af..79d10b9 100644
--- a/carcara/src/checker/error.rs
+++ b/carcara/src/checker/error.rs
@@ -387,6 +387,9 @@ pub enum SubproofError {
     #[error("only the `subproof` rule may discharge local assumptions")]
     DischargeInWrongRule,
 
+    #[error("variable '{0}' is used outside of the scope of its subproof")]
+    LocalVariableOutOfScope(String),
+
     #[error("binding '{0}' appears as free variable in phi")]
     BindBindingIsFreeVarInPhi(String),
 
diff --git a/carcara/src/checker/shared.rs b/carcara/src/checker/shared.rs
index 0cfc64d..941c321 100644
--- a/carcara/src/checker/shared.rs
+++ b/carcara/src/checker/shared.rs
@@ -94,7 +94,7 @@ pub struct StepCheckContext<'a> {
 /// and execution logic that's identical between single-threaded and parallel implementations.
 pub fn check_step_core<CR: CollectResults + Send + Default>(
     step: &ProofStep,
-    rule_args: RuleArgs,
+    mut rule_args: RuleArgs,
     context: StepCheckContext,
     stats: &mut Option<&mut CheckerStatistics<CR>>,
 ) -> RuleResult {
@@ -126,6 +126,8 @@ pub fn check_step_core<CR: CollectResults + Send + Default>(
         *context.is_holey = true;
     }
 
+    check_local_variables(&mut rule_args, &context)?;
+
     // Execute the rule with the provided arguments
     rule(rule_args)?;
 
@@ -144,6 +146,55 @@ pub fn check_step_core<CR: CollectResults + Send + Default>(
     Ok(())
 }
 
+/// Checks that no term is moved to a scope where one of its variables has a different meaning. That
+/// is, the variables that are assigned a value in a subproof must not appear in the conclusion of
+/// the subproof, and variables that appear in a premise from outside of the subproof must not be
+/// shadowed in it.
+fn check_local_variables(args: &mut RuleArgs, context: &StepCheckContext) -> RuleResult {
+    use crate::checker::error::{CheckerError, SubproofError};
+
+    let mut check = |terms: &[Rc<Term>], vars: Vec<(SortedVar, bool)>| {
+        for (var, _) in vars {
+            let var_term = args.pool.add(var.clone().into());
+            for term in terms {
+                if args.pool.free_vars(term).contains(&var_term) {
+                    return Err(CheckerError::Subproof(
+                        SubproofError::LocalVariableOutOfScope(var.0),
+                    ));
+                }
+            }
+        }
+        Ok(())
+    };
+
+    let depth = context.subproof_depth;
+    let is_end_step = context.is_end_step;
+    let visible_from = |contexts: &ContextStack, from: usize| {
+        let mut vars = contexts.variables_from(from);
+        if is_end_step {
+            // What was shown in a subproof holds for every value of the variables it introduces
+            // without assigning them a value, so in the step that ends the subproof they may be
+            // identified with the variables they shadow
+            let last = contexts.variables_from(depth - 1);
+            vars.truncate(vars.len() - last.len());
+            vars.extend(last.into_iter().filter(|&(_, is_assigned)| is_assigned));
+        }
+        vars
+    };
+
+    if is_end_step {
+        let vars = visible_from(args.context, depth - 1);
+        check(args.conclusion, vars)?;
+    }
+    for premise in args.premises {
+        if premise.index.0 < depth {
+            let vars = visible_from(args.context, premise.index.0);
+            check(premise.clause, vars)?;
+        }
+    }
+    Ok(())
+}
+
 /// Shared discharge checking logic
 pub fn check_discharge_shared(
     subproof: &[ProofCommand],
-- 
2.43.0


From 32c9894bf43da7621b7ba7cca4c54433e30b6690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 21/28] fix: reject pbblast choice terms that capture a
 variable of their operands

---
 carcara/src/checker/rules/pb_blasting.rs | 32 ++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/carcara/src/checker/rules/pb_blasting.rs b/carcara/src/checker/rules/pb_blasting.rs
index fc50644..5c00b87 100644
--- a/carcara/src/checker/rules/pb_blasting.rs
+++ b/carcara/src/checker/rules/pb_blasting.rs
@@ -452,6 +452,22 @@ fn get_bitvector_terms(bv: &Rc<Term>, pool: &mut dyn TermPool) -> Vec<Rc<Term>>
     }
 }
 
+/// Asserts that the variable `name`, which is bound by the choice terms in the rules below, doesn't
+/// occur free in the terms that appear under the binder, and so is not captured by it.
+fn assert_not_captured(
+    pool: &mut dyn TermPool,
+    (name, sort): (&str, &Rc<Term>),
+    x: &Rc<Term>,
+    y: &Rc<Term>,
+) -> RuleResult {
+    let var = pool.add(Term::new_var(name, sort.clone()));
+    rassert!(
+        !pool.free_vars(x).contains(&var) && !pool.free_vars(y).contains(&var),
+        CheckerError::Explanation(format!("Variable {name} is captured in choice term"))
+    );
+    Ok(())
+}
+
 /// Implements the bitwise exclusive or operation.
 pub fn pbblast_bvxor(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
     let ((x, y), bit_constraints) =
@@ -474,6 +490,11 @@ pub fn pbblast_bvxor(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
             *z_type.as_sort().unwrap() == Sort::Int,
             CheckerError::Explanation(format!("Expected {z_type} to be Sort::Int"))
         );
+        rassert!(
+            bindings.len() == 1,
+            CheckerError::Explanation(format!("Expected only {z_name} to be bound"))
+        );
+        assert_not_captured(pool, (z_name, z_type), xi, yi)?;
 
         // c1 : (>= (+ xi yi) z)
         let ((xic, yic), zc) = match_term_err!((>= (+ xi yi) z) = c1)?;
@@ -537,6 +558,11 @@ pub fn pbblast_bvand(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
             *z_type.as_sort().unwrap() == Sort::Int,
             CheckerError::Explanation(format!("Expected {z_type} to be Sort::Int"))
         );
+        rassert!(
+            bindings.len() == 1,
+            CheckerError::Explanation(format!("Expected only {z_name} to be bound"))
+        );
+        assert_not_captured(pool, (z_name, z_type), xi, yi)?;
 
         // c1 : (>= @x0 z)
         let (xic, zc) = match_term_err!((>= xi z) = c1)?;
@@ -578,6 +604,9 @@ pub fn pbblast_bvxor_ith_bit(RuleArgs { args, pool, conclusion, .. }: RuleArgs)
     let y = &args[1];
     let (c1, c2, c3, c4) = match_term_err!((and c1 c2 c3 c4) = &conclusion[0])?;
 
+    let int_sort = pool.add(Term::Sort(Sort::Int));
+    assert_not_captured(pool, ("z", &int_sort), x, y)?;
+
     // Build the expected choice term
     let the_r = build_term!(pool,(choice (("z" Int)) (and
          (>= (+ {x.clone()} {y.clone()}) (let z Int))
@@ -624,6 +653,9 @@ pub fn pbblast_bvand_ith_bit(RuleArgs { args, pool, conclusion, .. }: RuleArgs)
     let y = &args[1];
     let (c1, c2, c3) = match_term_err!((and c1 c2 c3) = &conclusion[0])?;
 
+    let int_sort = pool.add(Term::Sort(Sort::Int));
+    assert_not_captured(pool, ("z", &int_sort), x, y)?;
+
     // Build the expected choice term
     let the_r = build_term!(pool,(choice (("z" Int)) (and
          (>= {x.clone()} (let z Int))
-- 
2.43.0


From 6953a6b9a5942527037fb20694e33c50cb7e56e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 22/28] fix: key pseudo-Boolean sums by term, so that a
 variable named ~x is not the negation of x

---
 carcara/src/checker/rules/cutting_planes.rs | 37 +++++++++++----------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index 4e58d06..50b134f 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -7,7 +7,10 @@ use crate::checker::Rc;
 use rug::Integer;
 use std::collections::HashMap;
 
-type PbHash = HashMap<String, Integer>;
+/// A 0-1 variable, and whether it is negated
+type PbLiteral = (Rc<Term>, bool);
+
+type PbHash = HashMap<PbLiteral, Integer>;
 
 // Helper to unwrap a summation list
 pub fn split_summation(sum_term: &Rc<Term>) -> &[Rc<Term>] {
@@ -39,10 +42,10 @@ fn get_pb_hashmap(pbsum: &Rc<Term>) -> Result<PbHash, CheckerError> {
         let (coeff, literal) =
             // Negated literal  (* c (- 1 x1))
             if let Some((coeff, (_, literal))) = match_term!((* coeff (- 1 literal)) = term) {
-                (coeff, format!("~{}",literal))
+                (coeff, (literal.clone(), true))
             // Plain literal    (* c x1)
             } else if let Some((coeff, literal)) = match_term!((* coeff literal) = term) {
-                (coeff, format!("{}",literal))
+                (coeff, (literal.clone(), false))
             } else {
                 return Err(CheckerError::Explanation(format!("Term is neither plain nor negated: {}",term)));
             };
@@ -71,21 +74,21 @@ fn add_pbsums(pbsum_a: &PbHash, pbsum_b: &PbHash) -> PbHash {
     res
 }
 
-fn is_negated_literal(lit: &str) -> bool {
-    lit.starts_with('~')
+fn is_negated_literal((_, negated): &PbLiteral) -> bool {
+    *negated
+}
+
+fn opposite_literal((var, negated): &PbLiteral) -> PbLiteral {
+    (var.clone(), !negated)
 }
 
 trait NegatedLiterals {
-    fn get_opposite(&self, lit: &str) -> Option<&Integer>;
+    fn get_opposite(&self, lit: &PbLiteral) -> Option<&Integer>;
 }
 
 impl NegatedLiterals for PbHash {
-    fn get_opposite(&self, lit: &str) -> Option<&Integer> {
-        if let Some(plain_lit) = lit.strip_prefix('~') {
-            self.get(plain_lit)
-        } else {
-            self.get(&format!("~{}", lit))
-        }
+    fn get_opposite(&self, lit: &PbLiteral) -> Option<&Integer> {
+        self.get(&opposite_literal(lit))
     }
 }
 
@@ -93,7 +96,7 @@ impl NegatedLiterals for PbHash {
 fn reduce_pbsum(pbsum: &PbHash) -> (PbHash, Integer) {
     let mut slack = Integer::from(0);
     let mut res = pbsum.clone();
-    let mut changes: Vec<(String, Integer)> = Vec::new();
+    let mut changes: Vec<(PbLiteral, Integer)> = Vec::new();
 
     for lit in res.keys() {
         if is_negated_literal(lit) {
@@ -113,11 +116,11 @@ fn reduce_pbsum(pbsum: &PbHash) -> (PbHash, Integer) {
         if pos > neg {
             let diff = pos.clone() - neg;
             changes.push((lit.clone(), diff)); // Update lit to diff
-            changes.push((format!("~{lit}"), Integer::from(0))); // Set ~lit to 0
+            changes.push((opposite_literal(lit), Integer::from(0))); // Set ~lit to 0
         } else {
             let diff = neg.clone() - pos;
             changes.push((lit.clone(), Integer::from(0))); // Set lit to 0
-            changes.push((format!("~{lit}"), diff)); // Update ~lit to neg - pos
+            changes.push((opposite_literal(lit), diff)); // Update ~lit to neg - pos
         }
     }
 
@@ -142,7 +145,7 @@ fn assert_pbsum_subset_keys(pbsum_a: &PbHash, pbsum_b: &PbHash) -> Result<(), Ch
 
         if pbsum_b.get(key).is_none() {
             return Err(CheckerError::Explanation(format!(
-                "Key {} of {:?} not found in {:?}",
+                "Key {:?} of {:?} not found in {:?}",
                 key, pbsum_b, pbsum_a
             )));
         }
@@ -218,7 +221,7 @@ pub fn cp_addition(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> Rul
             // ¬∃ x, (x ∈ C) ∧ ¬(x ∈ L) ∧ ¬(x ∈ R)
             _ => {
                 return Err(CheckerError::Explanation(format!(
-                    "Literal of the conclusion not present in either premises: {}",
+                    "Literal of the conclusion not present in either premises: {:?}",
                     literal
                 )));
             }
-- 
2.43.0


From 463dd6a4fa748b6467098d65fdd04ef14db086ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:32 +0000
Subject: [PATCH 23/28] fix: cp_division and cp_saturation require the premise
 to be a unit clause

---
 carcara/src/checker/rules/cutting_planes.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index 50b134f..83cfaae 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -281,6 +281,7 @@ pub fn cp_multiplication(RuleArgs { premises, args, conclusion, .. }: RuleArgs)
 
 pub fn cp_division(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> RuleResult {
     assert_num_premises(premises, 1)?;
+    assert_clause_len(premises[0].clause, 1)?;
     let clause = &premises[0].clause[0];
 
     // Check there is exactly one arg
@@ -331,6 +332,7 @@ pub fn cp_division(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> Rul
 
 pub fn cp_saturation(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> RuleResult {
     assert_num_premises(premises, 1)?;
+    assert_clause_len(premises[0].clause, 1)?;
     assert_num_args(args, 0)?;
     let clause = &premises[0].clause[0];
 
-- 
2.43.0


From f29c6e9283ccb5cf2280b33fd007e2597d562754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:45 +0000
Subject: [PATCH 24/28] fix: a proof checker that is used again starts from a
 clean state

---
 carcara/src/checker/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/carcara/src/checker/mod.rs b/carcara/src/checker/mod.rs
index 678eb02..d4df34a 100644
--- a/carcara/src/checker/mod.rs
+++ b/carcara/src/checker/mod.rs
@@ -124,6 +124,11 @@ impl<'c> ProofChecker<'c> {
         proof: &Proof,
         mut stats: Option<&mut CheckerStatistics<CR>>,
     ) -> CarcaraResult<bool> {
+        // The same checker may be used for more than one proof
+        self.context = ContextStack::new();
+        self.reached_empty_clause = false;
+        self.is_holey = false;
+
         // Similarly to the parser, to avoid stack overflows in proofs with many nested subproofs,
         // we check the subproofs iteratively, instead of recursively
         let mut iter = proof.iter();
-- 
2.43.0


From 6f20f77edbfc57a9fb30c99c4bf034f9b9a9692a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:07 +0000
Subject: [PATCH 25/28] fix: parallel checker counts the empty clause concluded
 by the end step of a subproof

---
 carcara/src/checker/parallel/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/carcara/src/checker/parallel/mod.rs b/carcara/src/checker/parallel/mod.rs
index 1a8325d..f0698e1 100644
--- a/carcara/src/checker/parallel/mod.rs
+++ b/carcara/src/checker/parallel/mod.rs
@@ -290,7 +290,10 @@ impl<'c> ParallelProofChecker<'c> {
                             }
                         })?;
 
-                    if step.clause.is_empty() && self.context.is_empty() {
+                    // A step that ends a subproof is concluded in the enclosing subproof, even
+                    // though the context of the subproof it ends was not popped yet
+                    let conclusion_depth = iter.depth() - usize::from(iter.is_end_step());
+                    if step.clause.is_empty() && conclusion_depth == 0 {
                         self.reached_empty_clause = true;
                     }
                 }
-- 
2.43.0


From 39e93c7f7c6b0e1f7ecf87a6c09a89ed39803bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:32 +0000
Subject: [PATCH 26/28] fix: scheduler panicked when a worker was left with no
 steps at the end of the proof

---
 carcara/src/checker/parallel/scheduler.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/carcara/src/checker/parallel/scheduler.rs b/carcara/src/checker/parallel/scheduler.rs
index 16a0cd5..3c71e8f 100644
--- a/carcara/src/checker/parallel/scheduler.rs
+++ b/carcara/src/checker/parallel/scheduler.rs
@@ -121,7 +121,11 @@ impl Scheduler {
                 top.id == top.cmds.len()
             } {
                 for schedule_id in &stack.last().unwrap().used_by {
-                    let last = loads[*schedule_id].last().unwrap();
+                    // This schedule may be empty, if everything that was assigned to it was
+                    // useless context insertions
+                    let Some(last) = loads[*schedule_id].last() else {
+                        continue;
+                    };
                     // If it's an useless context insertion
                     if last.0 < stack.len()
                         && matches!(stack[last.0].cmds[last.1], ProofCommand::Subproof(_))
-- 
2.43.0


From 81088f961e0a3e09aa14773c1365867ee44acccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:33 +0000
Subject: [PATCH 27/28] fix: layered term pools allocated the same term or sort
 more than once

A context or local pool allocated new objects for subterms, sorts and terms
that were already stored in the global pool, or in the pool of another thread.
Terms and sorts are compared by reference, so steps that are valid failed to
check, or made the checker panic, when checking with multiple threads.
---
 carcara/src/ast/pool/advanced.rs | 40 ++++++++------------------------
 carcara/src/ast/pool/mod.rs      | 10 ++++++++
 carcara/src/ast/pool/storage.rs  | 19 +++++++++++----
 3 files changed, 35 insertions(+), 34 deletions(-)

diff --git a/carcara/src/ast/pool/advanced.rs b/carcara/src/ast/pool/advanced.rs
index 086b12b..038232b 100644
--- a/carcara/src/ast/pool/advanced.rs
+++ b/carcara/src/ast/pool/advanced.rs
@@ -16,16 +16,13 @@ impl Default for ContextPool {
 
 impl ContextPool {
     pub fn new() -> Self {
-        Self {
-            global_pool: Arc::new(PrimitivePool::new()),
-            inner: Arc::new(RwLock::new(PrimitivePool::new())),
-        }
+        Self::from_global(&Arc::new(PrimitivePool::new()))
     }
 
     pub fn from_global(global_pool: &Arc<PrimitivePool>) -> Self {
         Self {
             global_pool: global_pool.clone(),
-            inner: Arc::new(RwLock::new(PrimitivePool::new())),
+            inner: Arc::new(RwLock::new(PrimitivePool::with_prior(global_pool))),
         }
     }
 
@@ -39,14 +36,11 @@ impl ContextPool {
 
 impl TermPool for ContextPool {
     fn add(&mut self, term: Term) -> Rc<Term> {
-        // If the global pool has the term
-        if let Some(entry) = self.global_pool.storage.get(&term) {
+        // If the term already exists, we don't need to acquire the write guard
+        if let Some(entry) = self.inner.read().unwrap().storage.get(&term) {
             return entry.clone();
         }
-        let mut ctx_guard = self.inner.write().unwrap();
-        let term = ctx_guard.storage.add(term);
-        ctx_guard.compute_sort(&term);
-        term
+        self.inner.write().unwrap().add(term)
     }
 
     fn sort(&self, term: &Rc<Term>) -> Rc<Term> {
@@ -71,6 +65,7 @@ impl TermPool for ContextPool {
 
 pub struct LocalPool {
     pub(crate) ctx_pool: ContextPool,
+    /// Only used to cache the free variables of terms
     pub(crate) inner: PrimitivePool,
 }
 
@@ -100,28 +95,13 @@ impl LocalPool {
 
 impl TermPool for LocalPool {
     fn add(&mut self, term: Term) -> Rc<Term> {
-        // If there is a constant pool and has the term
-        if let Some(entry) = self.ctx_pool.global_pool.storage.get(&term) {
-            entry.clone()
-        }
-        // If this term was inserted by the context
-        else if let Some(entry) = self.ctx_pool.inner.read().unwrap().storage.get(&term) {
-            entry.clone()
-        } else {
-            self.inner.add(term)
-        }
+        // Every term must be stored in the pool that is shared between the threads, because the
+        // contexts (and the substitutions they cache) are shared as well
+        self.ctx_pool.add(term)
     }
 
     fn sort(&self, term: &Rc<Term>) -> Rc<Term> {
-        if let Some(sort) = self.ctx_pool.global_pool.sorts_cache.get(term) {
-            sort.clone()
-        }
-        // A sort inserted by context
-        else if let Some(entry) = self.ctx_pool.inner.read().unwrap().storage.get(term) {
-            entry.clone()
-        } else {
-            self.inner.sorts_cache[term].clone()
-        }
+        self.ctx_pool.sort(term)
     }
 
     fn free_vars(&mut self, term: &Rc<Term>) -> IndexSet<Rc<Term>> {
diff --git a/carcara/src/ast/pool/mod.rs b/carcara/src/ast/pool/mod.rs
index 5d2b56e..ab67e09 100644
--- a/carcara/src/ast/pool/mod.rs
+++ b/carcara/src/ast/pool/mod.rs
@@ -6,6 +6,7 @@ mod storage;
 use super::{Binder, Operator, Rc, Sort, Substitution, Term};
 use crate::ast::{Constant, ParamOperator};
 use indexmap::{IndexMap, IndexSet};
+use std::sync::Arc;
 use storage::Storage;
 
 pub trait TermPool {
@@ -69,6 +70,15 @@ impl PrimitivePool {
         Self::default()
     }
 
+    /// Constructs a new pool on top of an existing one. Terms that are already stored in the prior
+    /// pool are not allocated again.
+    pub fn with_prior(prior: &Arc<PrimitivePool>) -> Self {
+        Self {
+            storage: Storage::with_prior(prior),
+            ..Self::default()
+        }
+    }
+
     /// Computes the sort of a term and adds it to the sort cache.
     fn compute_sort(&mut self, term: &Rc<Term>) -> Rc<Term> {
         if let Some(sort) = self.sorts_cache.get(term) {
diff --git a/carcara/src/ast/pool/storage.rs b/carcara/src/ast/pool/storage.rs
index 824e904..c5fd07d 100644
--- a/carcara/src/ast/pool/storage.rs
+++ b/carcara/src/ast/pool/storage.rs
@@ -6,7 +6,7 @@
 
 use crate::ast::*;
 use indexmap::IndexSet;
-use std::{borrow::Borrow, hash::Hash};
+use std::{borrow::Borrow, hash::Hash, sync::Arc};
 
 /// Since `ast::Rc` intentionally implements hashing and equality by reference (instead of by
 /// value), we cannot safely implement `Borrow<Term>` for `Rc<Term>`, so we cannot access a
@@ -34,15 +34,21 @@ impl Borrow<Term> for ByValue {
     }
 }
 
+/// The second field is an optional prior pool. Terms that are already stored in the prior pool are
+/// never allocated again in this storage.
 #[derive(Debug, Clone, Default)]
-pub struct Storage(IndexSet<ByValue>);
+pub struct Storage(IndexSet<ByValue>, Option<Arc<PrimitivePool>>);
 
 impl Storage {
+    pub fn with_prior(prior: &Arc<PrimitivePool>) -> Self {
+        Self(IndexSet::new(), Some(prior.clone()))
+    }
+
     pub fn add(&mut self, term: Term) -> Rc<Term> {
         // If the `hash_set_entry` feature was stable, this would be much simpler to do using
         // `get_or_insert_with` (and would avoid rehashing the term)
-        match self.0.get(&term) {
-            Some(t) => t.0.clone(),
+        match self.get(&term) {
+            Some(t) => t.clone(),
             None => {
                 // SAFETY: We have just checked that the term does not exist in the pool, so we
                 // can create a new allocation.
@@ -54,6 +60,11 @@ impl Storage {
     }
 
     pub fn get(&self, term: &Term) -> Option<&Rc<Term>> {
+        if let Some(prior) = &self.1 {
+            if let Some(t) = prior.storage.get(term) {
+                return Some(t);
+            }
+        }
         self.0.get(term).map(|t| &t.0)
     }
 
-- 
2.43.0


From 8dce542a947a5370fa43db737cd51ee71b7d7241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:37 +0000
Subject: [PATCH 28/28] fix: qnt_cnf must not capture variables that are free
 in the quantified formula

---
 carcara/src/checker/rules/quantifier.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/carcara/src/checker/rules/quantifier.rs b/carcara/src/checker/rules/quantifier.rs
index a7a925e..fab65c2 100644
--- a/carcara/src/checker/rules/quantifier.rs
+++ b/carcara/src/checker/rules/quantifier.rs
@@ -259,7 +259,7 @@ fn conjunctive_normal_form(term: &Rc<Term>) -> CnfFormula {
 pub fn qnt_cnf(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
     assert_clause_len(conclusion, 1)?;
 
-    let (l_bindings, phi, r_bindings, phi_prime) = {
+    let (left, l_bindings, phi, r_bindings, phi_prime) = {
         let (l, r) = match_term_err!((or (not l) r) = &conclusion[0])?;
         let (l_q, l_b, phi) = l.as_quant_err()?;
         let (r_q, r_b, phi_prime) = r.as_quant_err()?;
@@ -268,7 +268,7 @@ pub fn qnt_cnf(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
         assert_is_expected(&l_q, Binder::Forall)?;
         assert_is_expected(&r_q, Binder::Forall)?;
 
-        (l_b, phi, r_b, phi_prime)
+        (l, l_b, phi, r_b, phi_prime)
     };
 
     let r_bindings = r_bindings.iter().cloned().collect::<IndexSet<_>>();
@@ -294,6 +294,15 @@ pub fn qnt_cnf(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
         )));
     }
 
+    // The variables introduced by the prenexing step may not be free in the left-hand side, as the
+    // right-hand quantifier would then capture their occurrences there
+    let left_free_vars = pool.free_vars(left);
+    for var in &r_bindings {
+        if left_free_vars.contains(&pool.add(var.clone().into())) {
+            return Err(QuantifierError::MiniscopeFreeVar(var.0.clone(), left.clone()).into());
+        }
+    }
+
     let selected_clause = clauses
         .iter()
         .find(|&clause| clause == phi_prime)
-- 
2.43.0

