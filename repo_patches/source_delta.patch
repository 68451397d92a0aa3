From a917d6cdb11957b6243daa30653e78af3077b3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:15 +0000
Subject: [PATCH 01/30] fix: variables whose occurrences cancel out kept a
 coefficient of one

A variable with a total coefficient of zero (x - x, 0 * x) stayed in the sum
as if it had a coefficient of one. Drop it, and evaluate constraints that
are left without variables (which used to panic or be rejected).
---
 amzn-smt-eager-arithmetic/src/canonicalize.rs | 75 +++++++++++--------
 1 file changed, 44 insertions(+), 31 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/canonicalize.rs b/amzn-smt-eager-arithmetic/src/canonicalize.rs
index d6486f0..ddde44e 100644
--- a/amzn-smt-eager-arithmetic/src/canonicalize.rs
+++ b/amzn-smt-eager-arithmetic/src/canonicalize.rs
@@ -15,7 +15,7 @@ use aws_smt_ir::{
 use either::Either;
 use num_traits::{One, Zero};
 use smallvec::{smallvec, SmallVec};
-use std::{collections::BTreeMap, iter};
+use std::{cmp::Ordering, collections::BTreeMap, iter};
 
 pub struct Canonicalizer<'a> {
     context: &'a mut Ctx,
@@ -111,25 +111,26 @@ impl<'a> Canonicalizer<'a> {
             use std::cmp::Ordering::*;
             res.extend(
                 map.into_iter()
-                    .map(|(HashOrdered(v), (pos, neg))| match pos.cmp(&neg) {
+                    .filter_map(|(HashOrdered(v), (pos, neg))| match pos.cmp(&neg) {
                         Less => {
                             let x = neg - pos;
-                            if x.is_one() {
+                            Some(if x.is_one() {
                                 Canonicalizer::negate(v.into())
                             } else {
                                 let neg_coeff = Canonicalizer::negate(Constant::Numeral(x).into());
                                 Mul([neg_coeff, v.into()].into()).into()
-                            }
+                            })
                         }
                         Greater => {
                             let x = pos - neg;
-                            if x.is_one() {
+                            Some(if x.is_one() {
                                 v.into()
                             } else {
                                 Mul([Constant::Numeral(x).into(), v.into()].into()).into()
-                            }
+                            })
                         }
-                        Equal => v.into(),
+                        // The occurrences of the variable cancel out
+                        Equal => None,
                     }),
             );
             res
@@ -206,6 +207,34 @@ impl<'a> Canonicalizer<'a> {
         };
         (Plus(args).into(), rhs)
     }
+
+    /// If a normalized constraint doesn't contain any variables, compares its two sides.
+    fn compare_ground(l: &Term, r: &Term) -> Option<Ordering> {
+        match l {
+            Term::OtherOp(op) if matches!(op.as_ref(), Op::Arith(ArithOp::Plus(args)) if args.is_empty()) => {
+                let (x, pos) = int_term(r)?;
+                let ord = Numeral::zero().cmp(x);
+                Some(if pos { ord } else { ord.reverse() })
+            }
+            _ => None,
+        }
+    }
+
+    fn eq(l: Term, r: Term) -> Term {
+        let (l, r) = Self::normalize_constraint(l, r);
+        match Self::compare_ground(&l, &r) {
+            Some(ord) => (ord == Ordering::Equal).into(),
+            None => CoreOp::Eq([l, r].into()).into(),
+        }
+    }
+
+    fn gte(l: Term, r: Term) -> Term {
+        let (l, r) = Self::normalize_constraint(l, r);
+        match Self::compare_ground(&l, &r) {
+            Some(ord) => (ord != Ordering::Less).into(),
+            None => Op::Arith(ArithOp::Gte([l, r].into())).into(),
+        }
+    }
 }
 
 impl IntraLogicFolder<ALL> for Canonicalizer<'_> {
@@ -226,10 +255,7 @@ impl IntraLogicFolder<ALL> for Canonicalizer<'_> {
                     .ok_or_else(|| UnknownSort(CoreOp::Eq(args.clone()).into()))
                     .and_then(|arg| arg.sort(self.context));
                 if sort == Ok(ISort::int()) {
-                    chained(args, |l, r| {
-                        let (l, r) = Self::normalize_constraint(l, r);
-                        CoreOp::Eq([l, r].into()).into()
-                    })
+                    chained(args, Self::eq)
                 } else {
                     CoreOp::Eq(args).into()
                 }
@@ -244,15 +270,9 @@ impl IntraLogicFolder<ALL> for Canonicalizer<'_> {
                 );
                 if sort == ISort::int() {
                     let res = Term::from(self.context.fresh_var(sort)?);
-                    let if_true = {
-                        let (l, r) = Self::normalize_constraint(res.clone(), consq);
-                        CoreOp::Eq([l, r].into()).into()
-                    };
+                    let if_true = Self::eq(res.clone(), consq);
                     self.new_asserts.push(implies(cond.clone(), if_true));
-                    let if_false = {
-                        let (l, r) = Self::normalize_constraint(res.clone(), alt);
-                        CoreOp::Eq([l, r].into()).into()
-                    };
+                    let if_false = Self::eq(res.clone(), alt);
                     self.new_asserts.push(implies(!cond, if_false));
                     res
                 } else {
@@ -264,10 +284,7 @@ impl IntraLogicFolder<ALL> for Canonicalizer<'_> {
                     .ok_or_else(|| UnknownSort(CoreOp::Distinct(args.clone()).into()))
                     .and_then(|arg| arg.sort(self.context));
                 if sort == Ok(ISort::int()) {
-                    pairwise(&args, |x, y| {
-                        let (l, r) = Self::normalize_constraint(x, y);
-                        !Term::from(CoreOp::Eq([l, r].into()))
-                    })
+                    pairwise(&args, |x, y| !Self::eq(x, y))
                 } else {
                     CoreOp::Distinct(args).into()
                 }
@@ -280,10 +297,6 @@ impl IntraLogicFolder<ALL> for Canonicalizer<'_> {
         use ArithOp::*;
         use Op::*;
 
-        let normalize_gte = |l, r| {
-            let (l, r) = Self::normalize_constraint(l, r);
-            Gte([l, r].into()).into()
-        };
         let op = match op.super_fold_with(self)? {
             Arith(Plus(args)) => Self::canonicalize_plus(args),
             Arith(Neg(arg)) => Self::negate(arg),
@@ -302,10 +315,10 @@ impl IntraLogicFolder<ALL> for Canonicalizer<'_> {
                 }
                 _ => anyhow::bail!("term invalid in LIA: {}", Mul(args)),
             },
-            Arith(Gte(args)) => chained(args, normalize_gte),
-            Arith(Gt(args)) => chained(args, |l, r| !normalize_gte(r, l)),
-            Arith(Lte(args)) => chained(args, |l, r| normalize_gte(r, l)),
-            Arith(Lt(args)) => chained(args, |l, r| !normalize_gte(l, r)),
+            Arith(Gte(args)) => chained(args, Self::gte),
+            Arith(Gt(args)) => chained(args, |l, r| !Self::gte(r, l)),
+            Arith(Lte(args)) => chained(args, |l, r| Self::gte(r, l)),
+            Arith(Lt(args)) => chained(args, |l, r| !Self::gte(l, r)),
             op => op.into(),
         };
         Ok(op)
-- 
2.43.0


From de70817b522c700bf342debabde3c9b7f9ce307f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:15 +0000
Subject: [PATCH 02/30] fix: solution bound ignored terms moved to the
 right-hand side

Constraints without a constant had an arbitrary term moved to their
right-hand side, where the classification into separation constraints and
the number of variables per constraint don't account for it: y = 9 * x with
x >= 9 was reported to be unsatisfiable.
---
 amzn-smt-eager-arithmetic/src/canonicalize.rs | 25 +++++++++----------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/canonicalize.rs b/amzn-smt-eager-arithmetic/src/canonicalize.rs
index ddde44e..54c7562 100644
--- a/amzn-smt-eager-arithmetic/src/canonicalize.rs
+++ b/amzn-smt-eager-arithmetic/src/canonicalize.rs
@@ -189,19 +189,18 @@ impl<'a> Canonicalizer<'a> {
             Less => Constant::Numeral(neg - pos).into(),
             Greater => Self::negate(Constant::Numeral(pos - neg).into()),
             Equal => {
-                if args.len() > 1 {
-                    let mut to_move = 0;
-                    for (i, t) in args.iter().enumerate() {
-                        if let Term::OtherOp(op) = t {
-                            if let Arith(Neg(..)) = op.as_ref() {
-                                to_move = i;
-                                break;
-                            }
-                        }
-                    }
-                    Self::negate(args.swap_remove(to_move))
-                } else {
-                    Constant::Numeral(Numeral::zero()).into()
+                // `x - y >= 0` becomes `x >= y`. All other constraints keep all of their terms on
+                // the left-hand side, which is what the solution bound is computed from.
+                let to_move = match args.as_slice() {
+                    [Term::Variable(_), Term::OtherOp(op)] => Some((1, op)),
+                    [Term::OtherOp(op), Term::Variable(_)] => Some((0, op)),
+                    _ => None,
+                }
+                .filter(|(_, op)| matches!(op.as_ref(), Arith(Neg(Term::Variable(_)))))
+                .map(|(i, _)| i);
+                match to_move {
+                    Some(i) => Self::negate(args.swap_remove(i)),
+                    None => Constant::Numeral(Numeral::zero()).into(),
                 }
             }
         };
-- 
2.43.0


From 81cb96abd9831747ce579c718c179fe017889e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:15 +0000
Subject: [PATCH 03/30] fix: decoding of integers wider than 63 bits overflowed

---
 amzn-smt-eager-arithmetic/src/encoding.rs | 25 ++++++++---------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/encoding.rs b/amzn-smt-eager-arithmetic/src/encoding.rs
index 5e819d3..4b0242a 100644
--- a/amzn-smt-eager-arithmetic/src/encoding.rs
+++ b/amzn-smt-eager-arithmetic/src/encoding.rs
@@ -569,23 +569,16 @@ impl Encoder {
                 Variable::Int(v) => {
                     let bits = self.int_var_bits(v);
                     let len = bits.len();
-                    let val = bits
-                        .enumerate()
-                        .filter(|(_, bit)| bit.evaluate(assignment).unwrap())
-                        .map(|(bit, _)| {
-                            let x = 2isize.pow(bit as u32);
-                            if bit == len - 1 {
-                                -x
-                            } else {
-                                x
-                            }
-                        })
-                        .sum::<isize>();
-                    let abs = Constant::Numeral(Numeral::from(val.unsigned_abs())).into();
-                    let val = if val >= 0 {
-                        abs
+                    let bits: Vec<u8> = bits
+                        .map(|bit| bit.evaluate(assignment).unwrap().into())
+                        .collect();
+                    let is_negative = bits.last() == Some(&1);
+                    let val = Numeral::from_radix_le(&bits, 2).expect("bits are binary digits");
+                    let val = if is_negative {
+                        let abs = (Numeral::from(1u8) << len) - val;
+                        Op::Arith(ArithOp::Neg(Constant::Numeral(abs).into())).into()
                     } else {
-                        Op::Arith(ArithOp::Neg(abs)).into()
+                        Constant::Numeral(val).into()
                     };
                     (symbol, val)
                 }
-- 
2.43.0


From ce78f755f25b523aacb25f5adf01b0da0a2363fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:12 +0000
Subject: [PATCH 04/30] fix: bits of binary bit-vector constants were read and
 written in reverse

Binary constants start with the most-significant bit (#b100 is 4), but were
treated as if they started with the least-significant one, both in formulas
and in models.
---
 amzn-smt-eager-arithmetic/src/encoding.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/encoding.rs b/amzn-smt-eager-arithmetic/src/encoding.rs
index 4b0242a..c114ef2 100644
--- a/amzn-smt-eager-arithmetic/src/encoding.rs
+++ b/amzn-smt-eager-arithmetic/src/encoding.rs
@@ -69,7 +69,13 @@ impl InterLogicFolder<ALL> for Encoder {
 
     fn fold_var(&mut self, var: IVar<QualIdentifier>) -> Result<Term<Self::U>, Self::Error> {
         if let Some(bv) = var.to_bitvec_literal() {
-            Ok(bv.into())
+            Ok(match bv {
+                // The bits of `(_ bvX n)` are produced starting with the least-significant, whereas
+                // binary constants are written starting with the most-significant
+                Constant::Binary(bits) => Constant::Binary(bits.into_iter().rev().collect()),
+                c => c,
+            }
+            .into())
         } else {
             Ok(Term::from(IVar::from(self.var(&var)?)))
         }
@@ -245,7 +251,7 @@ impl Encoder {
     > {
         match c {
             Constant::Numeral(n) => Ok(Either::Left(Self::int_const_bits(n.clone()))),
-            Constant::Binary(bits) => Ok(Either::Right(bits.iter().copied().map_into())),
+            Constant::Binary(bits) => Ok(Either::Right(bits.iter().rev().copied().map_into())),
             Constant::Hexadecimal(_) => {
                 todo!("hexadecimal bit iterator")
             }
@@ -584,10 +590,11 @@ impl Encoder {
                 }
                 Variable::Bool(v) => (symbol, assignment[&v].into()),
                 Variable::Bv(bv) => {
+                    // Binary constants start with the most-significant bit
                     let bits = self
                         .bit_vec_bits(&bv)
                         .map(|bit| bit.evaluate(assignment).unwrap());
-                    (bv.sym().clone(), Constant::Binary(bits.collect()).into())
+                    (bv.sym().clone(), Constant::Binary(bits.rev().collect()).into())
                 }
             })
             .collect()
-- 
2.43.0


From f0a89e8712c8bb625f7f8edd0aff084307dde2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:12 +0000
Subject: [PATCH 05/30] fix: reject equality of bit-vectors instead of
 panicking

---
 amzn-smt-eager-arithmetic/src/stats.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/stats.rs b/amzn-smt-eager-arithmetic/src/stats.rs
index 47152eb..4b1d46e 100644
--- a/amzn-smt-eager-arithmetic/src/stats.rs
+++ b/amzn-smt-eager-arithmetic/src/stats.rs
@@ -361,11 +361,9 @@ impl Visitor<ALL> for StatsVisitor<'_> {
     fn visit_var(&mut self, var: &IVar<QualIdentifier>) -> ControlFlow<Self::BreakTy> {
         match self.expecting {
             Expecting::Summand | Expecting::Variable | Expecting::Sum | Expecting::Rhs => {
-                debug_assert_eq!(
-                    self.context.const_sort(var.sym()),
-                    Some(&ISort::int()),
-                    "sums contain integer variables"
-                );
+                if self.context.const_sort(var.sym()) != Some(&ISort::int()) {
+                    return ControlFlow::Break(self.invalid(var.clone()));
+                }
                 self.set_current_patition(var.clone());
                 self.with_stats(|stats| {
                     stats.vars.insert(var.sym().clone());
-- 
2.43.0


From e175de2834fd0e16bec7e13a9146ea56d8eccd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:01 +0000
Subject: [PATCH 06/30] fix: hexadecimal bit-vector constants panicked

---
 amzn-smt-eager-arithmetic/src/encoding.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/encoding.rs b/amzn-smt-eager-arithmetic/src/encoding.rs
index c114ef2..7d4eaa3 100644
--- a/amzn-smt-eager-arithmetic/src/encoding.rs
+++ b/amzn-smt-eager-arithmetic/src/encoding.rs
@@ -251,9 +251,14 @@ impl Encoder {
     > {
         match c {
             Constant::Numeral(n) => Ok(Either::Left(Self::int_const_bits(n.clone()))),
-            Constant::Binary(bits) => Ok(Either::Right(bits.iter().rev().copied().map_into())),
-            Constant::Hexadecimal(_) => {
-                todo!("hexadecimal bit iterator")
+            Constant::Binary(bits) => Ok(Either::Right(Either::Left(
+                bits.iter().rev().copied().map_into(),
+            ))),
+            Constant::Hexadecimal(digits) => {
+                let bits: Vec<Bit> = (digits.iter().rev())
+                    .flat_map(|digit| (0..4).map(move |bit| ((digit >> bit) & 1 == 1).into()))
+                    .collect();
+                Ok(Either::Right(Either::Right(bits.into_iter())))
             }
             c => bail!("expected integer or bit-vector constant, got: {}", c),
         }
-- 
2.43.0


From 948764c005904ab685999ca4d569dcd2bdd0868f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:18 +0000
Subject: [PATCH 07/30] fix: sums that cancel out had no sort

`(= (- x x) 0)` and `(distinct (- 3 3) x)` were left unnormalized because an
empty sum has no sort, and then rejected (or, with debug assertions, a panic).
---
 amzn-smt-eager-arithmetic/src/canonicalize.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amzn-smt-eager-arithmetic/src/canonicalize.rs b/amzn-smt-eager-arithmetic/src/canonicalize.rs
index 54c7562..dfe692d 100644
--- a/amzn-smt-eager-arithmetic/src/canonicalize.rs
+++ b/amzn-smt-eager-arithmetic/src/canonicalize.rs
@@ -173,6 +173,8 @@ impl<'a> Canonicalizer<'a> {
         match c_pos.cmp(&c_neg) {
             Less => args.push(Self::negate(Constant::Numeral(c_neg - c_pos).into())),
             Greater => args.push(Constant::Numeral(c_pos - c_neg).into()),
+            // A sum without any terms wouldn't have a sort
+            Equal if args.is_empty() => args.push(Constant::Numeral(Numeral::zero()).into()),
             Equal => (),
         }
         Plus(args).into()
-- 
2.43.0


From 21641a320bf7b5496e7f2e14f42718db8d3d5252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:07 +0000
Subject: [PATCH 08/30] fix: multiplication by large constants panicked or took
 exponential space

Coefficients beyond 64 bits made the encoder panic, and smaller ones were expanded into that many additions.
---
 amzn-smt-eager-arithmetic/src/encoding.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/encoding.rs b/amzn-smt-eager-arithmetic/src/encoding.rs
index 7d4eaa3..365d78b 100644
--- a/amzn-smt-eager-arithmetic/src/encoding.rs
+++ b/amzn-smt-eager-arithmetic/src/encoding.rs
@@ -136,8 +136,15 @@ impl InterLogicFolder<ALL> for Encoder {
                         let x = x.fold_with(self)?;
                         let (c, pos) = int_term(c)
                             .expect("canonicalization produced malformed multiplication");
-                        let c = c.to_usize().unwrap();
-                        let sum = (0..c).try_fold(z, |acc, _| self.encode_plus(acc, x.clone()))?;
+                        // Double and add, starting with the most-significant bit
+                        let sum = (0..c.bits()).rev().try_fold(z, |acc: Reduced, bit| {
+                            let acc = self.encode_plus(acc.clone(), acc)?;
+                            if c.bit(bit) {
+                                self.encode_plus(acc, x.clone())
+                            } else {
+                                Ok(acc)
+                            }
+                        })?;
                         if pos {
                             sum
                         } else {
-- 
2.43.0


From c49ed254d2485be15608ed914596cc9a0e9c7214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:29 +0000
Subject: [PATCH 09/30] fix: a script of set-option commands only panicked the
 string function updater

---
 amzn-smt-string-fct-updater/src/transpiler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amzn-smt-string-fct-updater/src/transpiler.rs b/amzn-smt-string-fct-updater/src/transpiler.rs
index 6e1fe22..0e0c232 100644
--- a/amzn-smt-string-fct-updater/src/transpiler.rs
+++ b/amzn-smt-string-fct-updater/src/transpiler.rs
@@ -234,7 +234,7 @@ pub fn modernize_string_fcts(commands: impl Iterator<Item = Command>) -> Vec<Com
             "QF_S"
         };
         let mut i = 0;
-        while let Command::SetOption { .. } = v[i] {
+        while let Some(Command::SetOption { .. }) = v.get(i) {
             i += 1;
         }
         v.insert(
-- 
2.43.0


From 0e83b10f4435e50eb742c65fd6025196a46b252c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:29 +0000
Subject: [PATCH 10/30] fix: an escape sequence right after an incomplete one
 was not converted

---
 amzn-smt-string-fct-updater/src/transpiler.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-string-fct-updater/src/transpiler.rs b/amzn-smt-string-fct-updater/src/transpiler.rs
index 0e0c232..504c5c2 100644
--- a/amzn-smt-string-fct-updater/src/transpiler.rs
+++ b/amzn-smt-string-fct-updater/src/transpiler.rs
@@ -109,7 +109,8 @@ fn convert_z3escapes(s: &str) -> String {
                 } else {
                     new_string.push('x');
                     new_string.push(c);
-                    state = State::Base;
+                    // c may start the next escape sequence
+                    state = if c == '\\' { State::Esc } else { State::Base };
                 }
             }
 
@@ -119,12 +120,13 @@ fn convert_z3escapes(s: &str) -> String {
                     new_string.push(x);
                     new_string.push(c);
                     new_string.push('}');
+                    state = State::Base;
                 } else {
                     new_string.push('x');
                     new_string.push(x);
                     new_string.push(c);
+                    state = if c == '\\' { State::Esc } else { State::Base };
                 };
-                state = State::Base;
             }
         }
     }
-- 
2.43.0


From 9755675dfae3853dce620be52202851658ff72a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:48 +0000
Subject: [PATCH 11/30] fix: arithmetic was not taken into account when
 guessing the logic

Arithmetic operators are parsed as theory operations, not as uninterpreted functions, so the guess was always QF_S.
---
 amzn-smt-string-fct-updater/src/transpiler.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-string-fct-updater/src/transpiler.rs b/amzn-smt-string-fct-updater/src/transpiler.rs
index 504c5c2..f516e79 100644
--- a/amzn-smt-string-fct-updater/src/transpiler.rs
+++ b/amzn-smt-string-fct-updater/src/transpiler.rs
@@ -8,7 +8,7 @@ use aws_smt_ir::fold::IntraLogicFolder;
 use aws_smt_ir::fold::SuperFold;
 use aws_smt_ir::smt2parser::concrete::*;
 use aws_smt_ir::{fold::Fold, logic::*, Command as IRCommand, ParseError, Script, Term as IRTerm};
-use aws_smt_ir::{IConst, ISymbol, IVar, Index, IUF};
+use aws_smt_ir::{IConst, IOp, ISymbol, IVar, Index, IUF};
 
 use std::convert::Infallible;
 use std::convert::TryInto;
@@ -210,6 +210,13 @@ impl IntraLogicFolder<ALL> for ModernizeStringsBuilder {
         })
     }
 
+    fn fold_theory_op(&mut self, op: IOp<ALL>) -> Result<Term, Self::Error> {
+        if let all::Op::Arith(..) = op.as_ref() {
+            self.has_arith = true;
+        }
+        Ok(op.super_fold_with(self)?.into())
+    }
+
     fn fold_set_logic(&mut self, logic: ISymbol) -> Result<Command, Self::Error> {
         self.logic = Some(logic.0.clone());
         Ok(Command::SetLogic { symbol: logic })
-- 
2.43.0


From 2ac156974037cb04ba3f5f4ce2f75c8e849c1af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 12/30] fix: negated xor of three or more arguments was not
 negated

---
 amzn-smt-eager-arithmetic/src/canonicalize.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/amzn-smt-eager-arithmetic/src/canonicalize.rs b/amzn-smt-eager-arithmetic/src/canonicalize.rs
index dfe692d..ecb8711 100644
--- a/amzn-smt-eager-arithmetic/src/canonicalize.rs
+++ b/amzn-smt-eager-arithmetic/src/canonicalize.rs
@@ -290,6 +290,12 @@ impl IntraLogicFolder<ALL> for Canonicalizer<'_> {
                     CoreOp::Distinct(args).into()
                 }
             }
+            // The CNF transformation negates only applications of `xor` to two arguments correctly
+            CoreOp::Xor(args) if args.len() > 2 => {
+                let mut args = args.into_iter();
+                let first = args.next().expect("there are more than two arguments");
+                args.fold(first, |l, r| l ^ r)
+            }
             op => op.into(),
         })
     }
-- 
2.43.0


From 3ea1af99b160a27a0476e70d8fef7c60be86bc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 13/30] fix: literals next to other siblings dropped what the
 siblings were built from

Adding sibling literals to a node replaced the node's data (its string
function and the literals it was built from); the process then crashed on
terms such as (str.prefixof "a" (str.++ "bc" x)).
---
 amzn-smt-string-transformer/src/callgraph.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/amzn-smt-string-transformer/src/callgraph.rs b/amzn-smt-string-transformer/src/callgraph.rs
index dcef018..a61ec8d 100644
--- a/amzn-smt-string-transformer/src/callgraph.rs
+++ b/amzn-smt-string-transformer/src/callgraph.rs
@@ -252,18 +252,22 @@ impl CallGraph {
         }
         // update siblings with the new sibling nodes, and new sibling strings
         for sib_id in &sib_ids {
+            let data = if !sib_strings.is_empty() {
+                // adding to the string_lits_built_from, the node keeps what it already has
+                let mut data = self.get_data_for_ind(sib_id)?.clone();
+                data.string_lits_built_from
+                    .extend(sib_strings.iter().cloned());
+                Some(data)
+            } else {
+                None
+            };
             self.forest.update_node_at_index(
                 *sib_id,
                 NodeModStruct::<NodeId, CallnodeData> {
                     parent: None,
                     child: None,
                     siblings: Some(sib_ids.clone()),
-                    data: if !sib_strings.is_empty() {
-                        // adding to the string_lits_built_from
-                        Some(CallnodeData::new(StringFct::NO_OP, sib_strings.clone()))
-                    } else {
-                        None
-                    },
+                    data,
                 },
             )?;
         }
-- 
2.43.0


From 4e3decda77549453a70f8299948fcbedede3e101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 14/30] fix: ranges could start or end on a character that must
 not be used

Only one of the illegal characters was skipped when placing a range.
---
 amzn-smt-string-transformer/src/transpiler.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index f2c8e2a..45e98b7 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -464,6 +464,14 @@ impl CharMap {
         self.char_to_char = char_to_char;
     }
 
+    /// get the first offset from the given one on that isn't an illegal character
+    fn next_legal_offset(&self, mut offset: u32) -> u32 {
+        while self.illegal_chars.iter().any(|c| *c as u32 == offset) {
+            offset += 1;
+        }
+        offset
+    }
+
     /// check if the given range is in the CharMap
     pub fn has_range(&self, c1: char, c2: char) -> bool {
         for range in &self.ranges {
@@ -702,6 +710,7 @@ fn initialize_charmap(
     // example: "12" and "2345" --> should store "2"
     char_map.setup_string_lit_oriented_props(partitions, char_level_substring_vars);
 
+    offset = char_map.next_legal_offset(offset);
     char_map.non_range_offset = offset;
     char_map.non_range_start = offset;
     char_map
@@ -783,6 +792,7 @@ fn initialize_charmap_with_ranges(
     // that range will just be skipped
     for (c1, c2) in ranges {
         if !char_map.has_range(c1, c2) {
+            offset = char_map.next_legal_offset(offset);
             let orig_offset = offset;
             let cur_range = RangeParams::new(c1, c2, offset + 1);
             char_map
@@ -792,7 +802,6 @@ fn initialize_charmap_with_ranges(
             for illegal_char in &char_map.illegal_chars {
                 if (*illegal_char as u32) <= offset && (*illegal_char as u32) > orig_offset {
                     offset += 1;
-                    break;
                 }
             }
             char_map
-- 
2.43.0


From 1678dc984990c626fedc3339172e3f1331475902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:18 +0000
Subject: [PATCH 15/30] fix: strings that keep digits were cut off at the first
 digit

With digits to be kept, only the first one made it into the mapped string,
and as integers all digits became the same one.
---
 .../src/string_mappings.rs                    | 45 ++++++++++---------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index 61ac689..e6f465c 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -60,8 +60,8 @@ fn update_and_get_next_char(char_map: &mut CharMap, offset: u32, update_map_offs
 pub fn map_string_char_to_char(s: &str, char_map: &mut CharMap) -> Result<String, StringMapError> {
     // error if the string has to maintain all properties
     if matches!(
-        char_map.string_lit_props.get(s).unwrap(),
-        StringSetProperties::Everything
+        char_map.string_lit_props.get(s),
+        Some(StringSetProperties::Everything)
     ) {
         return Err(StringMapError::MaintainEverythingStringProps);
     }
@@ -116,33 +116,38 @@ pub fn gen_string_keep_ranges(
     len_bool: bool,
     keep_ints: KeepInts,
     consider_substrings: bool,
-) -> String {
+) -> Result<String, StringMapError> {
     let mut to_ret = "".to_string();
-    let mut cur_range: Option<&RangeParams> = None;
+    let mut cur_range: Option<RangeParams> = None;
+    // is the previous character an integer character we kept?
+    let mut after_int = false;
     // iterate over the string to be mapped, character by character
     for c in s.chars() {
         // if we're keeping ints (decimal)
         match (keep_ints, c.is_ascii_digit()) {
             (KeepInts::AsInts, true) => {
-                to_ret.push('0');
-                break;
+                // any digit would do, but different ones have to stay different
+                to_ret.push_str(&map_string_char_to_char(&c.to_string(), char_map)?);
+                after_int = true;
+                continue;
             }
             (KeepInts::ExactInts, true) => {
                 to_ret.push(c);
-                break;
+                after_int = true;
+                continue;
             }
             _ => {}
         }
-        let new_range = char_map.get_range_for_char(c);
+        let new_range = char_map.get_range_for_char(c).cloned();
         // get the next char
         // if it's a range, just use the first value in the range
         // if it's not a range, just get the next available value
-        let next_char = match new_range {
+        let next_char = match &new_range {
             Some(RangeParams { start_char: s, .. }) => *char_map.char_map.get(s).unwrap(),
             None => char::from_u32(char_map.non_range_start).unwrap(),
         };
         // are we reaching a new range?
-        if match (cur_range, new_range) {
+        if match (&cur_range, &new_range) {
             (None, None) => false,
             (None, _) => true,
             (_, None) => true,
@@ -162,30 +167,28 @@ pub fn gen_string_keep_ranges(
             cur_range = new_range;
             if !len_bool {
                 to_ret.push(next_char);
+                after_int = false;
             }
         }
         // if we're keeping the length, then add a new char every time
         // there's gotta be at least one character
-        if len_bool || to_ret.is_empty() {
+        // (and the integer characters alone would be a number)
+        if len_bool || to_ret.is_empty() || after_int {
             to_ret.push(next_char);
         }
+        after_int = false;
     }
     // deal with the case that this generated string is already in the map
     // this is where we consider substrings if this argument is true
-    let repeat_fix = fix_repeated_string(
+    fix_repeated_string(
         s.to_string(),
-        to_ret.clone(),
+        to_ret,
         char_map,
         100u8, // number of retries allowed
         keep_ints,
         consider_substrings,
         len_bool,
-    );
-    if let Ok(to_ret) = repeat_fix {
-        to_ret
-    } else {
-        map_string_char_to_char(s, char_map).unwrap()
-    }
+    )
 }
 
 /// check to see if a mapped string is already in the map.
@@ -695,7 +698,7 @@ fn gen_gap_mapped(
     len_bool: bool,
     keep_ints: KeepInts,
 ) -> Result<String, StringMapError> {
-    let gap_mapped = gen_string_keep_ranges(&gap_string, char_map, len_bool, keep_ints, true);
+    let gap_mapped = gen_string_keep_ranges(&gap_string, char_map, len_bool, keep_ints, true)?;
     // last bool is consider_substrings
     let gap_mapped = fix_repeated_string(
         gap_string, gap_mapped, char_map, 100u8, keep_ints, true, len_bool,
@@ -843,7 +846,7 @@ pub fn map_string_no_reconstruct(
                         to_ret = gen_string_freeforall(s, char_map)?;
                     } else if !keep_substrings {
                         // range case! keep ranges (if there's none, that is fine)
-                        to_ret = gen_string_keep_ranges(s, char_map, len_bool, keep_ints, false);
+                        to_ret = gen_string_keep_ranges(s, char_map, len_bool, keep_ints, false)?;
                     } else {
                         // keep substrings should have already been mapped, so now bail and map with char-to-char
                         to_ret = map_string_char_to_char(s, char_map).unwrap();
-- 
2.43.0


From 2b29737743f37afa493d217acd25b5bae7ca3619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:43 +0000
Subject: [PATCH 16/30] fix: retries for a repeated mapped string were not
 always counted

Such a retry went on until the process crashed, or worked on a stale
character.
---
 amzn-smt-string-transformer/src/string_mappings.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index e6f465c..0336139 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -230,6 +230,12 @@ fn fix_repeated_string(
                     })
                 )))
     }) {
+        cur_try += 1;
+        if cur_try > retries_allowed {
+            // error out if we have exceeded retries allowed
+            return Err(StringMapError::RemapRetryCountExceeded);
+        }
+
         // get next non-range char in the charmap
         let next_char = char::from_u32(update_and_get_next_char(
             char_map,
@@ -277,12 +283,6 @@ fn fix_repeated_string(
             retry_char = to_ret.chars().nth(retry_ind).unwrap();
             continue;
         }
-        cur_try += 1;
-        if cur_try > retries_allowed {
-            // error out if we have exceeded retries allowed
-            return Err(StringMapError::RemapRetryCountExceeded);
-        }
-
         // actually modify the string
         // at this point we're guaranteed the modification will maintain relevant properties
         to_ret.replace_range(
@@ -304,6 +304,7 @@ fn fix_repeated_string(
                 reps += 1;
             }
         }
+        retry_char = to_ret.chars().nth(retry_ind).unwrap();
     }
     Ok(to_ret)
 }
-- 
2.43.0


From 25397abd491a78aff55f5c56781ce23a7d1542c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 17/30] fix: lengths were not kept for str.substr

(str.substr x 2 2) depends on where things are in the string.
---
 amzn-smt-string-transformer/src/string_fcts.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_fcts.rs b/amzn-smt-string-transformer/src/string_fcts.rs
index 96329a3..3fe08cc 100644
--- a/amzn-smt-string-transformer/src/string_fcts.rs
+++ b/amzn-smt-string-transformer/src/string_fcts.rs
@@ -217,7 +217,6 @@ impl StringFct {
             | Self::ReplaceAll
             | Self::ReplaceRe
             | Self::ReplaceReAll
-            | Self::Substr
             | Self::SuffixOf
             | Self::ToRe => {
                 set_props = set_props.update_with_truths(StringSetProperties::Some {
@@ -296,7 +295,7 @@ impl StringFct {
                 })
             }
             // keep both length and the relevant substrings
-            Self::IndexOf | Self::SingStrAt => {
+            Self::IndexOf | Self::SingStrAt | Self::Substr => {
                 set_props = set_props.update_with_truths(StringSetProperties::Some {
                     len: true,
                     ranges: HashSet::new(),
-- 
2.43.0


From 3f77a70fa64e4033b01b2113e07aef107742af00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 18/30] fix: strings whose code points matter were changed

str.to_code and str.from_code depend on the very characters, just like str.<.
---
 amzn-smt-string-transformer/src/string_fcts.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_fcts.rs b/amzn-smt-string-transformer/src/string_fcts.rs
index 3fe08cc..7d2100e 100644
--- a/amzn-smt-string-transformer/src/string_fcts.rs
+++ b/amzn-smt-string-transformer/src/string_fcts.rs
@@ -285,7 +285,7 @@ impl StringFct {
                 })
             }
             // the actual value of digit chars are used as ints: maintain these chars as-is
-            Self::FromCode | Self::FromInt | Self::ToCode | Self::ToInt => {
+            Self::FromInt | Self::ToInt => {
                 set_props = set_props.update_with_truths(StringSetProperties::Some {
                     len: false,
                     ranges: HashSet::new(),
@@ -307,7 +307,8 @@ impl StringFct {
 
             // if one of the terms is an application of a function we don't handle,
             // then we can't condense the strings at all
-            Self::LexOrd | Self::RefClosLexOrd => {
+            // (code points and the order of strings depend on the very characters)
+            Self::FromCode | Self::LexOrd | Self::RefClosLexOrd | Self::ToCode => {
                 set_props = set_props.update_with_truths(StringSetProperties::Everything);
             }
         }
-- 
2.43.0


From 8cb7d150b3f2d95ed4a77381661d6a2ae02106a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 19/30] fix: string properties were not propagated along chains
 of variables

With x equal to y and y equal to z, what z is used with did not reach the
literals x is used with; neither did it for nested applications without
any variable.
---
 amzn-smt-string-transformer/src/callgraph.rs | 30 ++++++++++++++------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/amzn-smt-string-transformer/src/callgraph.rs b/amzn-smt-string-transformer/src/callgraph.rs
index a61ec8d..c716edb 100644
--- a/amzn-smt-string-transformer/src/callgraph.rs
+++ b/amzn-smt-string-transformer/src/callgraph.rs
@@ -477,17 +477,31 @@ impl CallGraph {
         let mut contrib_string_lits: BTreeSet<String> =
             cur_node.data.string_lits_built_from.clone();
 
-        // iterate over the cliques and collect the info from those who contain the current var
+        // what it is built from and used to build belongs to the same partition
+        for contrib in cur_node
+            .data
+            .built_from
+            .iter()
+            .chain(&cur_node.data.used_to_build)
+        {
+            contrib_vars.extend(contrib.vars.iter().cloned());
+            contrib_string_fcts.extend(contrib.string_fcts.iter().cloned());
+            contrib_string_lits.extend(contrib.string_lits.iter().cloned());
+        }
+
+        // iterate over the cliques and collect the info from those who share a var with what we have,
+        // until there are no more of them
         let mut cids: Vec<&NodeId> = cliques.keys().collect::<Vec<_>>();
         cids.sort();
 
-        for cid in cids {
-            let clique = &cliques[cid];
-            if clique.vars.contains(&var) {
-                contrib_vars.extend(clique.vars.iter().cloned());
-                contrib_string_fcts.extend(clique.string_fcts.iter().cloned());
-                contrib_string_lits.extend(clique.string_lits.iter().cloned());
-            }
+        while let Some(ind) = cids
+            .iter()
+            .position(|cid| !cliques[cid].vars.is_disjoint(&contrib_vars))
+        {
+            let clique = &cliques[cids.remove(ind)];
+            contrib_vars.extend(clique.vars.iter().cloned());
+            contrib_string_fcts.extend(clique.string_fcts.iter().cloned());
+            contrib_string_lits.extend(clique.string_lits.iter().cloned());
         }
 
         // finally, once the data has all been collected, update the current node with the contribs
-- 
2.43.0


From 40ebdc14edf853644cbe0228310e13f8d35447c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 20/30] fix: the same string was made up twice when there are
 many literals

---
 amzn-smt-string-transformer/src/string_mappings.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index 0336139..83b7a54 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -747,7 +747,8 @@ pub fn gen_string_freeforall(_s: &str, char_map: &mut CharMap) -> Result<String,
         cur_offset += 1;
         cur_tries += 1;
     }
-    if cur_tries > retries {
+    // the retries are used up and the string is still there
+    if char_map.string_map.values().any(|val| val == &to_ret) {
         return Err(StringMapError::RemapRetryCountExceeded);
     }
     Ok(to_ret)
-- 
2.43.0


From 64820200e2ea91d63c0371c3420d06e4d5f34756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 21/30] fix: literals with non-ASCII characters panicked in
 concatenations

---
 amzn-smt-string-transformer/src/transpiler.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index 45e98b7..e9c2101 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -515,8 +515,10 @@ impl CharMap {
         for i in (1..std::cmp::min(s1.len(), s2.len())).rev() {
             // if they're never not equal then the entire string
             // is contained, so already in the map (return None)
-            if s1[0..i] == s2[s2.len() - i..s2.len()] {
-                return Some(&s1[0..i]);
+            // (None if this isn't a char boundary)
+            let prefix = s1.get(0..i);
+            if prefix.is_some() && prefix == s2.get(s2.len() - i..s2.len()) {
+                return prefix;
             }
         }
         None
-- 
2.43.0


From 3cbd4c921a8f6a5acad18a6b37884144c424bbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 22/30] fix: shared prefixes lost the properties they had as
 literals

---
 amzn-smt-string-transformer/src/transpiler.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index e9c2101..7a438ce 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -557,10 +557,18 @@ impl CharMap {
                                 Self::get_prefix_suffix(string_lit, sub_string_lit)
                             {
                                 if !new_rel_string.is_empty() {
-                                    suffix_prefixes.insert(
-                                        new_rel_string.to_string(),
-                                        sub_props.clone().update_with_truths(props.clone()),
-                                    );
+                                    let mut new_props =
+                                        sub_props.clone().update_with_truths(props.clone());
+                                    // it can come up more than once, or be a string literal itself
+                                    for known_props in suffix_prefixes
+                                        .get(new_rel_string)
+                                        .into_iter()
+                                        .chain(self.string_lit_props.get(new_rel_string))
+                                    {
+                                        new_props =
+                                            new_props.update_with_truths(known_props.clone());
+                                    }
+                                    suffix_prefixes.insert(new_rel_string.to_string(), new_props);
                                 }
                             }
                         }
-- 
2.43.0


From 39da5bf5fd4581a3f488b435fe7325cfb46dfc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 23/30] fix: declared functions were renamed in their
 declaration only

---
 .../src/transpiler_visitors.rs                       | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-string-transformer/src/transpiler_visitors.rs b/amzn-smt-string-transformer/src/transpiler_visitors.rs
index 361e7d7..0a8306d 100644
--- a/amzn-smt-string-transformer/src/transpiler_visitors.rs
+++ b/amzn-smt-string-transformer/src/transpiler_visitors.rs
@@ -12,7 +12,7 @@ use aws_smt_ir::args::Arguments;
 use aws_smt_ir::fold::{IntraLogicFolder, SuperFold};
 use aws_smt_ir::logic::ALL;
 use aws_smt_ir::smt2parser::concrete::*;
-use aws_smt_ir::{CoreOp, IConst, ISort, ISymbol, IVar};
+use aws_smt_ir::{CoreOp, IConst, ISort, ISymbol, IVar, IUF};
 use std::collections::hash_map::Entry;
 use std::collections::{BTreeSet, HashMap, HashSet};
 use std::convert::Infallible;
@@ -254,6 +254,16 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
         Ok(v.into())
     }
 
+    /// visit applications of declared functions
+    /// these are renamed just like the variables
+    fn fold_uninterpreted_func(&mut self, uf: IUF<ALL>) -> Result<Term, Self::Error> {
+        let mut uf = uf.super_fold_with(self)?;
+        if let Some(sym) = self.alpha_renaming_map.get(&uf.func) {
+            uf.func = sym.clone();
+        }
+        Ok(uf.into())
+    }
+
     /// visit constants
     /// if it's a string constant, add it to the list of string constants
     fn fold_const(&mut self, constant: IConst) -> Result<Term, Self::Error> {
-- 
2.43.0


From b7b3ae911955e05d1b2fface24a343b46cb824b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 24/30] fix: made-up strings could break substring relations

The parts made up for a string could coincide with what other literals are
mapped to; now the relations are checked, and broken ones lead to the
char-to-char mapping.
---
 .../src/string_mappings.rs                    |  2 +
 amzn-smt-string-transformer/src/transpiler.rs | 39 +++++++++++++++++++
 2 files changed, 41 insertions(+)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index 83b7a54..9d8a3f9 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -31,6 +31,8 @@ pub enum StringMapError {
     SuffixPrefixOverlap,
     /// required substrings partially overlap (an edge case we don't handle)
     MidstringPartialOverlap,
+    /// mapped strings that don't relate to each other like the original strings
+    RelationNotKept,
 }
 
 /// update the given CharMap so the next non-range (i.e. not in any of the tracked ranges) character
diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index 7a438ce..bf1eb27 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -306,9 +306,48 @@ fn construct_mapping(
         }?;
         string_map.insert(s.clone(), mapped_string.clone());
     }
+    // whole strings were made up, so make sure these are still related like the original ones
+    if !char_map.char_to_char {
+        check_relations(&string_map, char_map)?;
+    }
     Ok(string_map)
 }
 
+/// check that the newly mapped strings relate to each other and to all the strings already mapped
+/// the way the original strings do
+fn check_relations(
+    string_map: &HashMap<String, String>,
+    char_map: &CharMap,
+) -> Result<(), string_mappings::StringMapError> {
+    let keep_substrings = |s: &String| {
+        matches!(
+            char_map.string_lit_props.get(s),
+            Some(StringSetProperties::Some {
+                keep_substrings: true,
+                ..
+            })
+        )
+    };
+    for (s1, m1) in string_map {
+        for (s2, m2) in char_map.string_map.iter().chain(string_map) {
+            let same_substrings = |(s1, m1): (&String, &String), (s2, m2): (&String, &String)| {
+                s1.contains(s2.as_str()) == m1.contains(m2.as_str())
+                    && s1.starts_with(s2.as_str()) == m1.starts_with(m2.as_str())
+                    && s1.ends_with(s2.as_str()) == m1.ends_with(m2.as_str())
+            };
+            if (s1 == s2) != (m1 == m2)
+                || (keep_substrings(s1)
+                    && keep_substrings(s2)
+                    && !(same_substrings((s1, m1), (s2, m2))
+                        && same_substrings((s2, m2), (s1, m1))))
+            {
+                return Err(string_mappings::StringMapError::RelationNotKept);
+            }
+        }
+    }
+    Ok(())
+}
+
 struct StringSwapper {
     string_map: HashMap<String, String>,
 }
-- 
2.43.0


From 461df5444ce3e45c1ec3a97c66341d2d18cae079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:14 +0000
Subject: [PATCH 25/30] fix: variables of subformulas were not numbered

---
 amzn-smt-string-transformer/src/subformula_parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-string-transformer/src/subformula_parser.rs b/amzn-smt-string-transformer/src/subformula_parser.rs
index 5df5c1d..5a0d448 100644
--- a/amzn-smt-string-transformer/src/subformula_parser.rs
+++ b/amzn-smt-string-transformer/src/subformula_parser.rs
@@ -201,7 +201,9 @@ impl IntraLogicFolder<ALL> for VariableNameNormalizer {
 
     fn fold_term(&mut self, term: Term) -> Result<Term, Self::Error> {
         match term {
-            Term::CoreOp(..) | Term::OtherOp(..) | Term::UF(..) => term.super_fold_with(self),
+            Term::Variable(..) | Term::CoreOp(..) | Term::OtherOp(..) | Term::UF(..) => {
+                term.super_fold_with(self)
+            }
             _ => Ok(term),
         }
     }
-- 
2.43.0


From 5a9b8c87bc0cc9b8c8adbec2f80f407b816b9a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:15 +0000
Subject: [PATCH 26/30] fix: literals in branches of ite were not transformed

The others were, so equal literals became different; in arguments of string
functions the process crashed.
---
 amzn-smt-string-transformer/src/string_fcts.rs         | 6 ++++++
 amzn-smt-string-transformer/src/transpiler_visitors.rs | 8 +++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_fcts.rs b/amzn-smt-string-transformer/src/string_fcts.rs
index 7d2100e..0d3f036 100644
--- a/amzn-smt-string-transformer/src/string_fcts.rs
+++ b/amzn-smt-string-transformer/src/string_fcts.rs
@@ -48,6 +48,7 @@ pub enum StringFct {
     SingStrAt,
     StrConcat,
     StrEquality,
+    StrIte,
     Substr,
     SuffixOf,
     ToCode,
@@ -109,6 +110,7 @@ impl StringFct {
             | Self::ReplaceReAll
             | Self::SingStrAt
             | Self::StrConcat
+            | Self::StrIte
             | Self::Substr => IdentType::StringType,
             Self::NO_OP => IdentType::ConstraintVarType,
         }
@@ -158,6 +160,7 @@ impl StringFct {
             | Self::Len
             | Self::LexOrd
             | Self::StrEquality
+            | Self::StrIte
             | Self::ReRange
             | Self::ReAll
             | Self::ReAllChar
@@ -198,6 +201,7 @@ impl StringFct {
             // no extra properties needed (equality/non-equality always maintained)
             Self::Distinct
             | Self::StrEquality
+            | Self::StrIte
             | Self::ReAll
             | Self::ReAllChar
             | Self::ReCompl
@@ -445,4 +449,6 @@ pub const STRING_FCTS: &[(&str, StringFct)] = &[
     ("=", StringFct::StrEquality),
     // also not in smtlib string theory but still a valid operation on strings
     ("distinct", StringFct::Distinct),
+    // just like this one
+    ("ite", StringFct::StrIte),
 ];
diff --git a/amzn-smt-string-transformer/src/transpiler_visitors.rs b/amzn-smt-string-transformer/src/transpiler_visitors.rs
index 0a8306d..e5317c8 100644
--- a/amzn-smt-string-transformer/src/transpiler_visitors.rs
+++ b/amzn-smt-string-transformer/src/transpiler_visitors.rs
@@ -112,7 +112,9 @@ impl IdentifyStringsBuilder {
         // build up all the string constant args, and use this to check for non-string equality
         let mut non_string_arguments = false;
         if let Some(op) = t.op() {
-            for arg in op.args() {
+            // the condition of an ite doesn't matter
+            let skip = if sfc == StringFct::StrIte { 1 } else { 0 };
+            for arg in op.args().skip(skip) {
                 if let Term::Constant(c) = arg {
                     if let Constant::String(s) = c.as_ref() {
                         string_const_args.insert(s.to_string());
@@ -125,8 +127,8 @@ impl IdentifyStringsBuilder {
                 non_string_arguments = true;
             }
         }
-        if non_string_arguments && sfc == StringFct::StrEquality {
-            // if it's equality, it might not be over strings
+        if non_string_arguments && matches!(sfc, StringFct::StrEquality | StringFct::StrIte) {
+            // if it's equality (or an ite), it might not be over strings
             // only proceed if all args are strings or some of our created string vars
             return None;
         }
-- 
2.43.0


From 83f78afcf8676c396d1f6a9ce81d1e49175ed907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:32 +0000
Subject: [PATCH 27/30] fix: lengths were not kept for re.allchar

(str.in_re x re.allchar) became true for longer literals, which were mapped to
single characters.
---
 amzn-smt-string-transformer/src/string_fcts.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_fcts.rs b/amzn-smt-string-transformer/src/string_fcts.rs
index 0d3f036..ede2af5 100644
--- a/amzn-smt-string-transformer/src/string_fcts.rs
+++ b/amzn-smt-string-transformer/src/string_fcts.rs
@@ -203,7 +203,6 @@ impl StringFct {
             | Self::StrEquality
             | Self::StrIte
             | Self::ReAll
-            | Self::ReAllChar
             | Self::ReCompl
             | Self::ReDiff
             | Self::ReIntersect
@@ -268,8 +267,9 @@ impl StringFct {
                     set_props = set_props.update_with_truths(StringSetProperties::Everything);
                 }
             }
-            // length-specific functions (loop and pow mean a specific number of repetitions)
-            Self::Len | Self::ReLoop | Self::RePow => {
+            // length-specific functions (loop and pow mean a specific number of repetitions,
+            // allchar matches a single character)
+            Self::Len | Self::ReAllChar | Self::ReLoop | Self::RePow => {
                 set_props = set_props.update_with_truths(StringSetProperties::Some {
                     len: true,
                     ranges: HashSet::new(),
-- 
2.43.0


From 1edb1107c272678d713065e277a927c34bac4852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:30 +0000
Subject: [PATCH 28/30] fix: literals outside of string functions were not
 transformed

Literals in arguments of declared functions, or compared with these or with
bound variables, stayed as they were while the same ones elsewhere changed; in
arguments of string functions the process crashed.
---
 amzn-smt-string-transformer/src/transpiler.rs | 31 +++++++++++++-
 .../src/transpiler_visitors.rs                | 42 +++++++++++++++++--
 2 files changed, 68 insertions(+), 5 deletions(-)

diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index bf1eb27..e3d3d9c 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -977,7 +977,34 @@ pub fn transform_ast(
 
     // iterate over all the string vars
     let mut var_index = 0;
-    while var_index < string_vars.len() {
+    loop {
+        if var_index == string_vars.len() {
+            // done with these; the remaining literals are no arguments of string functions
+            // (but, e.g., of declared ones), so there's nothing but equality to be maintained
+            let other_strings = identify_builder
+                .string_consts
+                .iter()
+                .filter(|s| !char_map.string_map.contains_key(*s))
+                .collect::<Vec<_>>();
+            for s in &other_strings {
+                char_map.string_lit_props.entry(s.to_string()).or_default();
+            }
+            match construct_mapping(other_strings, &mut char_map) {
+                Ok(string_map) => char_map.string_map.extend(string_map),
+                Err(_) if !char_map.char_to_char => {
+                    // restart with char_to_char, as below
+                    char_map.char_to_char = true;
+                    char_map.string_map.clear();
+                    replace_terms.clear();
+                    failed_mod_constraint_vars.clear();
+                    mod_constraint_vars.clear();
+                    var_index = 0;
+                    continue;
+                }
+                Err(_) => {} // these belong to a var that failed
+            }
+            break;
+        }
         let sym = string_vars[var_index];
         if let Some(var_defn) = identify_builder.string_var_defn_map.get(sym) {
             // transpile strings related to the current string var
@@ -1078,7 +1105,7 @@ pub fn transform_ast(
     );
 
     // actually replace the terms with the remapped strings
-    let mut simplify_builder = SimplifyStringsBuilder::new(replace_terms);
+    let mut simplify_builder = SimplifyStringsBuilder::new(replace_terms, char_map.string_map);
     output = output
         .into_iter()
         .map(|c| c.fold_with(&mut simplify_builder))
diff --git a/amzn-smt-string-transformer/src/transpiler_visitors.rs b/amzn-smt-string-transformer/src/transpiler_visitors.rs
index e5317c8..1659368 100644
--- a/amzn-smt-string-transformer/src/transpiler_visitors.rs
+++ b/amzn-smt-string-transformer/src/transpiler_visitors.rs
@@ -12,6 +12,7 @@ use aws_smt_ir::args::Arguments;
 use aws_smt_ir::fold::{IntraLogicFolder, SuperFold};
 use aws_smt_ir::logic::ALL;
 use aws_smt_ir::smt2parser::concrete::*;
+use aws_smt_ir::visit::{ControlFlow, Visit, Visitor};
 use aws_smt_ir::{CoreOp, IConst, ISort, ISymbol, IVar, IUF};
 use std::collections::hash_map::Entry;
 use std::collections::{BTreeSet, HashMap, HashSet};
@@ -40,7 +41,7 @@ pub struct IdentifyStringsBuilder {
     /// literals available for simplification
     pub string_var_defn_map: HashMap<ISymbol, Term>,
     /// hashset of all string constants
-    string_consts: BTreeSet<String>,
+    pub string_consts: BTreeSet<String>,
     /// build the callgraph as we visit the whole AST
     pub callgraph: CallGraph,
     /// mapping of symbols to new symbols (for alpha renaming)
@@ -123,6 +124,10 @@ impl IdentifyStringsBuilder {
                 } else if let Term::Variable(v) = arg {
                     non_string_arguments |= !self.string_var_list.contains(v.sym());
                     continue;
+                } else {
+                    // literals further down, e.g. in arguments of declared functions
+                    let mut nested = NestedStrings(&mut string_const_args);
+                    let _ = arg.visit_with(&mut nested);
                 }
                 non_string_arguments = true;
             }
@@ -161,6 +166,20 @@ impl IdentifyStringsBuilder {
     }
 }
 
+/// collects all string literals in a term
+struct NestedStrings<'a>(&'a mut BTreeSet<String>);
+
+impl Visitor<ALL> for NestedStrings<'_> {
+    type BreakTy = Infallible;
+
+    fn visit_const(&mut self, constant: &IConst) -> ControlFlow<Self::BreakTy> {
+        if let Constant::String(s) = constant.as_ref() {
+            self.0.insert(s.to_string());
+        }
+        ControlFlow::CONTINUE
+    }
+}
+
 /// create the assertion for a new var (think: variable initialization)
 /// example: given "new_var1" and term t, this creates an assertion
 /// (assert (= new_var1 t))
@@ -282,13 +301,19 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
 pub struct SimplifyStringsBuilder {
     /// map of all terms to replace, and their replacements
     replaced_terms: HashMap<Term, Term>,
+    /// replacements of the string literals in all other terms
+    string_map: HashMap<String, String>,
 }
 
 /// member functions on the SimplifyStringsBuilder
 impl SimplifyStringsBuilder {
     /// constructor: takes a map of terms to be replaced and what they should be replaced with.
-    pub fn new(replaced_terms: HashMap<Term, Term>) -> Self {
-        Self { replaced_terms }
+    /// literals in other terms are replaced by what they're mapped to
+    pub fn new(replaced_terms: HashMap<Term, Term>, string_map: HashMap<String, String>) -> Self {
+        Self {
+            replaced_terms,
+            string_map,
+        }
     }
 }
 
@@ -305,6 +330,17 @@ impl IntraLogicFolder<ALL> for SimplifyStringsBuilder {
             None => t.super_fold_with(self),
         }
     }
+
+    /// visit constants that are no argument of a string function; replace string literals
+    fn fold_const(&mut self, constant: IConst) -> Result<Term, Self::Error> {
+        Ok(match constant.as_ref() {
+            Constant::String(s) => match self.string_map.get(s) {
+                Some(new_s) => Constant::String(new_s.clone()).into(),
+                None => constant.into(),
+            },
+            _ => constant.into(),
+        })
+    }
 }
 
 /// extension to QualIdentifier; adds member functions for converting to/from symbols and for
-- 
2.43.0


From cb5601bd1a8f35b44857c90bfb678116b6133ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:17 +0000
Subject: [PATCH 29/30] fix: bound variables and defined functions were
 confused with the renamed symbols

---
 .../src/transpiler_visitors.rs                | 112 ++++++++++++++++--
 1 file changed, 104 insertions(+), 8 deletions(-)

diff --git a/amzn-smt-string-transformer/src/transpiler_visitors.rs b/amzn-smt-string-transformer/src/transpiler_visitors.rs
index 1659368..e01b324 100644
--- a/amzn-smt-string-transformer/src/transpiler_visitors.rs
+++ b/amzn-smt-string-transformer/src/transpiler_visitors.rs
@@ -9,11 +9,13 @@
 // Copyright Amazon.com, Inc. or its affiliates. All Rights Reserved.
 // SPDX-License-Identifier: Apache-2.0
 use aws_smt_ir::args::Arguments;
-use aws_smt_ir::fold::{IntraLogicFolder, SuperFold};
+use aws_smt_ir::fold::{Fold, IntraLogicFolder, SuperFold};
 use aws_smt_ir::logic::ALL;
 use aws_smt_ir::smt2parser::concrete::*;
 use aws_smt_ir::visit::{ControlFlow, Visit, Visitor};
-use aws_smt_ir::{CoreOp, IConst, ISort, ISymbol, IVar, IUF};
+use aws_smt_ir::{
+    CoreOp, FunctionDec, IConst, ILet, IQuantifier, ISort, ISymbol, IVar, Let, Quantifier, IUF,
+};
 use std::collections::hash_map::Entry;
 use std::collections::{BTreeSet, HashMap, HashSet};
 use std::convert::Infallible;
@@ -46,6 +48,10 @@ pub struct IdentifyStringsBuilder {
     pub callgraph: CallGraph,
     /// mapping of symbols to new symbols (for alpha renaming)
     pub alpha_renaming_map: HashMap<ISymbol, ISymbol>,
+    /// number of names handed out for declared symbols
+    num_declared: usize,
+    /// number of names handed out for bound variables
+    num_bound: usize,
     /// list of original constraint variables that appear in a context that implies
     /// that all characters in string literals used with are all characters need to be respected
     pub char_level_substring_vars: HashSet<ISymbol>,
@@ -68,6 +74,33 @@ impl IdentifyStringsBuilder {
         }
     }
 
+    /// rename a declared (or defined) symbol to aX (where X is an int referring to this being the nth one)
+    fn rename(&mut self, symbol: ISymbol) -> ISymbol {
+        let new_sym = ISymbol::from(format!("a{}", self.num_declared));
+        self.num_declared += 1;
+        self.alpha_renaming_map.insert(symbol, new_sym.clone());
+        new_sym
+    }
+
+    /// fold something in the scope of bound variables, which are renamed to bX
+    /// (they might be called like the new names of others, or hide others)
+    fn fold_bound<'a, T>(
+        &mut self,
+        bound_vars: impl IntoIterator<Item = &'a mut ISymbol>,
+        fold: impl FnOnce(&mut Self) -> T,
+    ) -> T {
+        let outer_renaming_map = self.alpha_renaming_map.clone();
+        for var in bound_vars {
+            let new_sym = ISymbol::from(format!("b{}", self.num_bound));
+            self.num_bound += 1;
+            let old_sym = std::mem::replace(var, new_sym.clone());
+            self.alpha_renaming_map.insert(old_sym, new_sym);
+        }
+        let folded = fold(self);
+        self.alpha_renaming_map = outer_renaming_map;
+        folded
+    }
+
     /// inspect the term parameters (if any), and attach the parent/child in the callgraph
     /// also initialize direct siblings in the args
     fn inspect_parameters(&mut self, var_sym: ISymbol, t: &Term, sfc: StringFct) {
@@ -217,9 +250,7 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
     /// these are all the original variables in the query
     /// rename them to aX (where X is an int referring to this being the nth var declared)
     fn fold_declare_const(&mut self, symbol: ISymbol, sort: ISort) -> Result<Command, Self::Error> {
-        let new_var_name = format!("a{}", self.alpha_renaming_map.len());
-        let new_sym = ISymbol::from(new_var_name);
-        self.alpha_renaming_map.insert(symbol, new_sym.clone());
+        let new_sym = self.rename(symbol);
 
         // if it's a string var add it to the list of string vars and the callgraph
         if sort.get_type() == IdentType::StringType {
@@ -244,9 +275,7 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
         parameters: Vec<ISort>,
         sort: ISort,
     ) -> Result<Command, Self::Error> {
-        let new_var_name = format!("a{}", self.alpha_renaming_map.len());
-        let new_sym = ISymbol::from(new_var_name);
-        self.alpha_renaming_map.insert(symbol, new_sym.clone());
+        let new_sym = self.rename(symbol);
 
         // if it's a string var add it to the list of string vars and the callgraph
         if sort.get_type() == IdentType::StringType {
@@ -265,6 +294,73 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
         Ok(out)
     }
 
+    /// visit function definitions
+    /// the function and its parameters are renamed just like the variables
+    fn fold_define_fun(
+        &mut self,
+        mut sig: FunctionDec,
+        body: Term,
+    ) -> Result<Command, Self::Error> {
+        let params = sig.parameters.iter_mut().map(|(sym, _)| sym);
+        let term = self.fold_bound(params, |folder| body.fold_with(folder))?;
+        sig.name = self.rename(sig.name);
+        Ok(Command::DefineFun { sig, term })
+    }
+
+    /// basically the same, but the body may refer to the function
+    fn fold_define_fun_rec(
+        &mut self,
+        mut sig: FunctionDec,
+        body: Term,
+    ) -> Result<Command, Self::Error> {
+        sig.name = self.rename(sig.name);
+        let params = sig.parameters.iter_mut().map(|(sym, _)| sym);
+        let term = self.fold_bound(params, |folder| body.fold_with(folder))?;
+        Ok(Command::DefineFunRec { sig, term })
+    }
+
+    /// now the bodies may refer to all the functions
+    fn fold_define_funs_rec(
+        &mut self,
+        mut funs: Vec<(FunctionDec, Term)>,
+    ) -> Result<Command, Self::Error> {
+        for (sig, _) in &mut funs {
+            sig.name = self.rename(sig.name.clone());
+        }
+        let funs = funs
+            .into_iter()
+            .map(|(mut sig, body)| {
+                let params = sig.parameters.iter_mut().map(|(sym, _)| sym);
+                let body = self.fold_bound(params, |folder| body.fold_with(folder))?;
+                Ok((sig, body))
+            })
+            .collect::<Result<_, Self::Error>>()?;
+        Ok(Command::DefineFunsRec { funs })
+    }
+
+    /// visit let binders; what the variables are bound to isn't in their scope
+    fn fold_let(&mut self, l: ILet<ALL>) -> Result<Term, Self::Error> {
+        let Let { bindings, term } = l.as_ref().clone();
+        let mut bindings = bindings
+            .into_iter()
+            .map(|(sym, t)| Ok((sym, t.fold_with(self)?)))
+            .collect::<Result<Vec<_>, Self::Error>>()?;
+        let vars = bindings.iter_mut().map(|(sym, _)| sym);
+        let term = self.fold_bound(vars, |folder| term.fold_with(folder))?;
+        Ok(Let { bindings, term }.into())
+    }
+
+    /// visit quantifiers
+    fn fold_quantifier(&mut self, quantifier: IQuantifier<ALL>) -> Result<Term, Self::Error> {
+        let mut quantifier = quantifier.as_ref().clone();
+        let (vars, body) = match &mut quantifier {
+            Quantifier::Forall(vars, body) | Quantifier::Exists(vars, body) => (vars, body),
+        };
+        let syms = vars.iter_mut().map(|(sym, _)| sym);
+        *body = self.fold_bound(syms, |folder| body.clone().fold_with(folder))?;
+        Ok(quantifier.into())
+    }
+
     /// visit symbols
     /// if the symbol is one of the variables we have renamed, then
     /// replace it with the new name
-- 
2.43.0


From c2e113107d47deb6b3a519be8948492c40868315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:35 +0000
Subject: [PATCH 30/30] fix: assertions that a string function equals a
 compound term were dropped

---
 amzn-smt-string-transformer/src/subformula_parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-string-transformer/src/subformula_parser.rs b/amzn-smt-string-transformer/src/subformula_parser.rs
index 5a0d448..bbf2c7d 100644
--- a/amzn-smt-string-transformer/src/subformula_parser.rs
+++ b/amzn-smt-string-transformer/src/subformula_parser.rs
@@ -75,7 +75,10 @@ impl IntraLogicFolder<ALL> for StringSubformulaCountBuilder {
                         if let [Term::Variable(v), f @ (Term::CoreOp(..) | Term::OtherOp(..) | Term::UF(..))] =
                             args.as_slice()
                         {
-                            if v.sym_str().starts_with("new_var") {
+                            // the first one is the initialization, others are assertions of the query
+                            if v.sym_str().starts_with("new_var")
+                                && !self.string_fct_calls.contains_key(v.sym())
+                            {
                                 self.string_fct_calls.insert(v.sym().clone(), f.clone());
                                 useless_command = true;
                             }
-- 
2.43.0

