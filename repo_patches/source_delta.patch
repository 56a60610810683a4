From 317184478034b0df3dc30f56fb55a76bd70b6bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:29 +0000
Subject: [PATCH 01/31] fix: exec's direct definition ranges over the
 conditions of the earlier steps

---
 .../cryptovampire/src/problem/crypto_assumptions/unfolding.rs   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/unfolding.rs b/crates/cryptovampire/src/problem/crypto_assumptions/unfolding.rs
index 21db0b3..f7227d1 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/unfolding.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/unfolding.rs
@@ -118,7 +118,7 @@ impl<'bump> Unfolding<'bump> {
                 mforall!(s!1:step; {HAPPENS.f([s]) >>
                   meq(ev.eval(exec.f([s])),
                   mforall!(s2!2:step;
-                      {LESS_THAN_EQ_STEP.f([s2, s]) >> ev.eval(self.cond().f([s]))}))})
+                      {LESS_THAN_EQ_STEP.f([s2, s]) >> ev.eval(self.cond().f([s2]))}))})
             });
 
             chain!(
-- 
2.43.0


From d2f0e8bcf8be8dbe239e71af464dc61f034ce71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:29 +0000
Subject: [PATCH 02/31] fix: gt is the converse of lt, not its negation

---
 crates/cryptovampire/src/problem/general_assertions/order.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/problem/general_assertions/order.rs b/crates/cryptovampire/src/problem/general_assertions/order.rs
index fa64abd..d84f224 100644
--- a/crates/cryptovampire/src/problem/general_assertions/order.rs
+++ b/crates/cryptovampire/src/problem/general_assertions/order.rs
@@ -63,7 +63,7 @@ pub fn generate<'bump>(
                     (leq.f([t2.into(), pred.apply([t1])]) | leq.f([t1, t2]))}), // ax11
             // other
             mforall!(a!0:step, b!1:step;
-                {!meq(gt.f([a, b]), lt.f([b, a]))}),
+                {meq(gt.f([a, b]), lt.f([b, a]))}),
         ]
         .into_iter()
         .map(Axiom::theory), // .chain(pbl.protocol().ordering().iter().cloned().map(Axiom::base)),
-- 
2.43.0


From 06426cc7fe0c89ff571b29b2363495ce35377c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:07 +0000
Subject: [PATCH 03/31] fix: a cell's assignment only holds at steps that
 happen, and after evaluation

---
 .../cryptovampire/src/problem/crypto_assumptions/cell.rs  | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/cell.rs b/crates/cryptovampire/src/problem/crypto_assumptions/cell.rs
index 8685f1d..78fc16a 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/cell.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/cell.rs
@@ -8,7 +8,7 @@ use crate::{
     formula::{
         file_descriptior::{axioms::Axiom, declare::Declaration},
         formula,
-        function::builtin::PRED,
+        function::builtin::{HAPPENS, PRED},
         sort::builtins::STEP,
         variable::{from_usize, Variable},
     },
@@ -79,7 +79,11 @@ impl Cell {
                                 (
                                     formula::forall(
                                         bvars.clone(),
-                                        ands.shallow_copy() >> formula::meq(&cell_call, content),
+                                        (HAPPENS.f([step_var]) & ands.shallow_copy())
+                                            >> formula::meq(
+                                                pbl.evaluator().eval(&cell_call),
+                                                pbl.evaluator().eval(content),
+                                            ),
                                     ),
                                     formula::forall(bvars, !ands.shallow_copy()),
                                 )
-- 
2.43.0


From 8f730109bf2243feed08dc9b485dba6b9cfd9372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:07 +0000
Subject: [PATCH 04/31] fix: --legacy-evaluate congruence relates the two
 argument lists

---
 .../cryptovampire/src/problem/general_assertions/evaluate.rs  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/problem/general_assertions/evaluate.rs b/crates/cryptovampire/src/problem/general_assertions/evaluate.rs
index 6db6675..f2c721e 100644
--- a/crates/cryptovampire/src/problem/general_assertions/evaluate.rs
+++ b/crates/cryptovampire/src/problem/general_assertions/evaluate.rs
@@ -178,8 +178,8 @@ pub fn generate<'bump>(
                             .collect_vec();
 
                         let premise =
-                            formula::ands(vars1.iter().zip(vars2.iter()).map(|(v1, _v2)| {
-                                meq(pbl.evaluator().eval(v1), pbl.evaluator().eval(v1))
+                            formula::ands(vars1.iter().zip(vars2.iter()).map(|(v1, v2)| {
+                                meq(pbl.evaluator().eval(v1), pbl.evaluator().eval(v2))
                             }));
                         let conclusion = meq(
                             pbl.evaluator().eval(f.f(&vars1)), //.map(|v| v.into_formula()))),
-- 
2.43.0


From fbd0e17059663519608ed181f070203c9635569f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:48 +0000
Subject: [PATCH 05/31] fix: substituting under a quantifier no longer captures
 or frees variables

---
 .../src/formula/formula/formula.rs            | 16 ++--
 .../src/formula/manipulation/mod.rs           |  1 +
 .../manipulation/substitution/substitution.rs | 78 ++++++++++++++++---
 3 files changed, 80 insertions(+), 15 deletions(-)

diff --git a/crates/cryptovampire/src/formula/formula/formula.rs b/crates/cryptovampire/src/formula/formula/formula.rs
index 1473b39..281e038 100644
--- a/crates/cryptovampire/src/formula/formula/formula.rs
+++ b/crates/cryptovampire/src/formula/formula/formula.rs
@@ -15,7 +15,7 @@ use crate::formula::{
         signature::Signature,
         Function,
     },
-    manipulation::{Substitution, Translate},
+    manipulation::{substitute, Substitution, Translate},
     quantifier::Quantifier,
     sort::{
         builtins::BOOL,
@@ -116,11 +116,15 @@ impl<'bump> RichFormula<'bump> {
         if cfg!(debug_assertions) && vars.len() != fs.len() {
             panic!("assertion failed:\n{vars:?}\n[{}]", fs.iter().join(", "))
         }
-        self.apply_some(|v| {
-            vars.iter()
-                .position(|v2| v2 == &v.id)
-                .map(|i| fs[i].clone())
-        })
+        substitute(
+            &|v| {
+                vars.iter()
+                    .position(|v2| v2 == &v.id)
+                    .map(|i| fs[i].clone())
+                    .unwrap_or(v.into())
+            },
+            &self,
+        )
     }
 
     pub fn apply_substitution2(&self, per: &impl Substitution<'bump>) -> ARichFormula<'bump> {
diff --git a/crates/cryptovampire/src/formula/manipulation/mod.rs b/crates/cryptovampire/src/formula/manipulation/mod.rs
index e7458a5..1277831 100644
--- a/crates/cryptovampire/src/formula/manipulation/mod.rs
+++ b/crates/cryptovampire/src/formula/manipulation/mod.rs
@@ -1,6 +1,7 @@
 mod substitution;
 mod unifier;
 
+pub(crate) use substitution::substitution::substitute;
 pub use substitution::{
     substitution::{Chain, Substitution, Translate},
     variable_substitution::{
diff --git a/crates/cryptovampire/src/formula/manipulation/substitution/substitution.rs b/crates/cryptovampire/src/formula/manipulation/substitution/substitution.rs
index 02cdf71..e9a4dd3 100644
--- a/crates/cryptovampire/src/formula/manipulation/substitution/substitution.rs
+++ b/crates/cryptovampire/src/formula/manipulation/substitution/substitution.rs
@@ -1,5 +1,10 @@
+use std::sync::Arc;
+
+use logic_formula::Formula;
+
 use crate::formula::{
     formula::{ARichFormula, RichFormula},
+    quantifier::Quantifier,
     variable::{uvar, Variable},
 };
 
@@ -10,16 +15,10 @@ pub trait Substitution<'bump> {
     fn get(&self, var: &Variable<'bump>) -> ARichFormula<'bump>;
 
     /// Recursively apply [Substitution::get] to substitute all the variables in `f`
+    ///
+    /// This never captures: see [substitute]
     fn apply(&self, f: impl AsRef<RichFormula<'bump>>) -> ARichFormula<'bump> {
-        match f.as_ref() {
-            RichFormula::Var(v) => self.get(v),
-            RichFormula::Fun(fun, args) => {
-                RichFormula::Fun(*fun, args.iter().map(|arg| self.apply(arg)).collect()).into_arc()
-            }
-            RichFormula::Quantifier(q, arg) => {
-                RichFormula::Quantifier(q.clone(), self.apply(arg)).into_arc()
-            }
-        }
+        substitute(&|v| self.get(v), f.as_ref())
     }
 
     /// To chain two substitutions.
@@ -48,6 +47,67 @@ pub trait Substitution<'bump> {
     }
 }
 
+/// Replace the *free* variables of `f` following `get`.
+///
+/// Bound variables are left alone, unless they would capture a variable brought in by `get`, in
+/// which case they are renamed.
+pub(crate) fn substitute<'bump>(
+    get: &dyn Fn(&Variable<'bump>) -> ARichFormula<'bump>,
+    f: &RichFormula<'bump>,
+) -> ARichFormula<'bump> {
+    match f {
+        RichFormula::Var(v) => get(v),
+        RichFormula::Fun(fun, args) => RichFormula::Fun(
+            *fun,
+            args.iter().map(|arg| substitute(get, arg.as_ref())).collect(),
+        )
+        .into_arc(),
+        RichFormula::Quantifier(q, arg) => {
+            let bound = q.get_variables();
+            // the variables that must not be captured
+            let incoming: Vec<uvar> = arg
+                .free_vars_iter()
+                .filter(|v| bound.iter().all(|b| b.id != v.id))
+                .flat_map(|v| get(&v).free_vars_iter().map(|v| v.id).collect::<Vec<_>>())
+                .collect();
+            let mut fresh = itertools::chain!(
+                incoming.iter().copied(),
+                arg.used_vars_iter().map(|v| v.id),
+                bound.iter().map(|v| v.id)
+            )
+            .max()
+            .map_or(0, |id| id + 1);
+            let renamed: Arc<[Variable<'bump>]> = bound
+                .iter()
+                .map(|v| {
+                    let mut v = *v;
+                    if incoming.contains(&v.id) {
+                        v.id = fresh;
+                        fresh += 1;
+                    }
+                    v
+                })
+                .collect();
+            let arg = substitute(
+                &|v| match bound.iter().position(|b| b.id == v.id) {
+                    Some(i) => RichFormula::Var(Variable {
+                        id: renamed[i].id,
+                        ..*v
+                    })
+                    .into_arc(),
+                    None => get(v),
+                },
+                arg.as_ref(),
+            );
+            let q = match q {
+                Quantifier::Exists { .. } => Quantifier::Exists { variables: renamed },
+                Quantifier::Forall { .. } => Quantifier::Forall { variables: renamed },
+            };
+            RichFormula::Quantifier(q, arg).into_arc()
+        }
+    }
+}
+
 /// To chain two substitutions.
 ///
 /// The resulting substitution apply the current `self` *then* `other`.
-- 
2.43.0


From a639e69ccdcc171e83abb6d77bd7f059bac6163c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:33 +0000
Subject: [PATCH 06/31] fix: a let binds its variable in its body only, and
 evaluates what it binds once

---
 .../src/parser/parser/parsable_trait.rs            | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index 608d474..f911c7f 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -130,9 +130,21 @@ where
             t1,
             t2,
         } = self;
+        let bn = bvars.len();
+        // the variable is only visible in `t2`
+        let SnN { span, name } = (&var.type_name).into();
+        let sort = get_sort(env, span, name)?;
+        // evaluation is done where the variable is used
+        let t1_realm = match sort.maybe_evaluated_sort() {
+            Some(_) => Realm::Symbolic,
+            None => state.get_realm(),
+        };
+        let t1 = t1.parse(env, bvars, &t1_realm, Some(sort.into()))?;
+        bvars.truncate(bn);
+
         let var = var.parse(env, bvars, state, None)?;
-        let t1 = t1.parse(env, bvars, state, Some(var.sort().into()))?;
         let t2 = t2.parse(env, bvars, state, expected_sort)?;
+        bvars.truncate(bn);
 
         Ok(t2.apply_substitution2(&OneVarSubstF::new(var, t1)))
     }
-- 
2.43.0


From c291dda19b41519e74b258cdc6050acc17b11324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:33 +0000
Subject: [PATCH 07/31] fix: a shadowed variable resolves to its innermost
 binding

---
 crates/cryptovampire/src/parser/parser/parsable_trait.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index f911c7f..c86e65b 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -410,6 +410,7 @@ where
                 // check if it is a variable
                 bvars
                     .iter()
+                    .rev() // the innermost binding shadows the others
                     .find(|(s, _)| s == content)
                     .map(|(_, v)| {
                         let VarProxy { id, sort } = v;
-- 
2.43.0


From a4b3643fe2c070c74922deb37ed2f071a9bdd4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:23 +0000
Subject: [PATCH 08/31] fix: the occurrence axioms of special functions look
 into their variable arguments

---
 crates/cryptovampire/src/subterm/mod.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/subterm/mod.rs b/crates/cryptovampire/src/subterm/mod.rs
index 8c29c35..d445018 100644
--- a/crates/cryptovampire/src/subterm/mod.rs
+++ b/crates/cryptovampire/src/subterm/mod.rs
@@ -27,7 +27,7 @@ use crate::{
     },
     formula::{
         file_descriptior::declare::{self, Declaration},
-        formula::{self, exists, forall, meq, ARichFormula},
+        formula::{self, exists, forall, meq, ARichFormula, RichFormula},
         function::{self, builtin::TRUE, Function, InnerFunction},
         manipulation::Unifier,
         sort::Sort,
@@ -812,6 +812,18 @@ where
         );
 
         let SubtermResult { unifier, nexts } = self.subterm.aux.is_subterm_and_next(self.x, &f);
+
+        // a variable may stand for a term in which `x` occurs
+        if let RichFormula::Var(v) = f.as_ref() {
+            if unifier.is_none() && v.sort().is_evaluatable() {
+                let mut guard = vec![self.subterm.f_a(&self.realm, self.x.clone(), f.clone())];
+                if self.keep_guard {
+                    guard.extend(state.condition().into_iter().cloned())
+                }
+                helper.push_result((state.owned_bound_variable(), formula::ands(guard)));
+            }
+        }
+
         unifier
             .map(|u| {
                 let mut guard = if_chain!(
-- 
2.43.0


From ed05ba3d43c3afbcf6d5403bcf59ed3e014405fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:23 +0000
Subject: [PATCH 09/31] fix: unfolding msg or cond renames the variables of the
 step's content too

---
 crates/cryptovampire/src/formula/utils/formula_expander.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/formula/utils/formula_expander.rs b/crates/cryptovampire/src/formula/utils/formula_expander.rs
index 43a5b41..2646ec3 100644
--- a/crates/cryptovampire/src/formula/utils/formula_expander.rs
+++ b/crates/cryptovampire/src/formula/utils/formula_expander.rs
@@ -235,7 +235,10 @@ impl<'bump> Unfolder<'bump> {
                     nvars.iter().copied(),
                     meq(arg, s.function().f(nvars.iter().map(ARichFormula::from))),
                 );
-                Unfolder { state, content }
+                Unfolder {
+                    state,
+                    content: content.apply_substitution2(&collision_var),
+                }
             })
             .collect_vec()
     }
-- 
2.43.0


From f1c271d896457bcae6fed965260cfab6b3c7847b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:32 +0000
Subject: [PATCH 10/31] fix: names in the conditions up to and including a step
 occur in its exec

---
 .../src/formula/utils/formula_expander.rs              | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/formula/utils/formula_expander.rs b/crates/cryptovampire/src/formula/utils/formula_expander.rs
index 2646ec3..edf164e 100644
--- a/crates/cryptovampire/src/formula/utils/formula_expander.rs
+++ b/crates/cryptovampire/src/formula/utils/formula_expander.rs
@@ -326,6 +326,8 @@ where
 
     let step_origin = args.last().unwrap();
     let is_input = to_expand.is_input();
+    // `exec` is made of the conditions of all the previous steps, itself included
+    let is_exec = to_expand.is_exec();
 
     let cells_iter = cells.iter().flat_map(|c| c.assignements().iter()).map(
         move |ma @ Assignement {
@@ -362,7 +364,7 @@ where
             }
         },
     );
-    let input_iter = input
+    let input_iter = (*input || is_exec)
         .then(move || {
             steps.into_iter().flat_map(move |step| {
                 trace!("in input");
@@ -375,7 +377,11 @@ where
                     .map(move |content| {
                         let state = state.add_condition(
                             vars.iter().map(|v| collision_var.get_var(v)),
-                            Step::strict_before(step_f.shallow_copy(), step_origin.clone()),
+                            if is_exec {
+                                Step::before(step_f.shallow_copy(), step_origin.clone())
+                            } else {
+                                Step::strict_before(step_f.shallow_copy(), step_origin.clone())
+                            },
                         );
 
                         Unfolder {
-- 
2.43.0


From 777f4df78b51d06f724b14b5d65875b0a2f37639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:26 +0000
Subject: [PATCH 11/31] fix: the general unforgeability axioms give verify its
 signature first

---
 crates/cryptovampire/src/problem/crypto_assumptions/euf_cma.rs | 2 +-
 crates/cryptovampire/src/problem/crypto_assumptions/uf_cma.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/euf_cma.rs b/crates/cryptovampire/src/problem/crypto_assumptions/euf_cma.rs
index 0cd36f9..0c2aed5 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/euf_cma.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/euf_cma.rs
@@ -135,7 +135,7 @@ impl<'bump> EufCma<'bump> {
                 formula: mforall!(m!1:message_sort, sigma!2:message_sort, k!3:nonce_sort; {
                     let k_f = pbl.name_caster().cast(message_sort, k);
                     let ev = pbl.evaluator();
-                    ev.eval(self.verify.apply([m.into(), sigma.into(), self.pk.f([ k_f.clone()])])) >>
+                    ev.eval(self.verify.apply([sigma.into(), m.into(), self.pk.f([ k_f.clone()])])) >>
                     mexists!(u!4:message_sort; {
                         meq(ev.eval(u), ev.eval(m)) &
                         (
diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma.rs b/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma.rs
index 34c73cd..2b5e8a0 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma.rs
@@ -170,7 +170,7 @@ impl<'bump> UfCma<'bump> {
                 formula : mforall!(m!1:message_sort, sigma!2:message_sort, k!3:nonce_sort; {
                     let k_f = pbl.name_caster().cast(message_sort, k);
                     let ev = pbl.evaluator();
-                    ev.eval(self.verify.f([m.into(), sigma.into(), k_f.clone()])) >>
+                    ev.eval(self.verify.f([sigma.into(), m.into(), k_f.clone()])) >>
                     mexists!(u!4:message_sort; {
                         meq(ev.eval(u), ev.eval(m)) &
                         (
-- 
2.43.0


From 8b4edc256c711c9e62a5decf20580021eaae121a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:26 +0000
Subject: [PATCH 12/31] fix: the general int-ctxt axiom decrypts with the key,
 not the name

---
 crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs b/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
index 652e1fd..61f2c53 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
@@ -139,7 +139,7 @@ impl<'bump> IntCtxt<'bump> {
                 formula: mforall!(c!1:message_sort, k!3:nonce_sort; {
                     let k_f = nc.cast(message_sort, k);
                     // ev.eval(self.verify.apply([c.into(), k_f.clone()])) >>
-                    (!meq(ev.eval(self.dec.f([c, k])), ev.eval(self.fail()))) >>
+                    (!meq(ev.eval(self.dec.f([c.into(), k_f.clone()])), ev.eval(self.fail()))) >>
                     mexists!(m!4:message_sort, r!5:nonce_sort; {
                         let r_f = nc.cast(message_sort, r);
                         let c2 = self.enc.f([m.into(), r_f.clone(), k_f.clone()]);
-- 
2.43.0


From c0d0e827d4e7352ec3f3ebfd28e9515b52feeef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:26 +0000
Subject: [PATCH 13/31] fix: hashes on the other side of a hash comparison are
 honest ones too

---
 .../src/problem/crypto_assumptions/uf_cma/subterm.rs        | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma/subterm.rs b/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma/subterm.rs
index c89cb36..708bca0 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma/subterm.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma/subterm.rs
@@ -167,18 +167,22 @@ impl<'bump> UfCmaMainSubtAux<'bump> {
             if let [left, right] = args.as_ref();
             then {
                 let mut nexts = Vec::with_capacity(2*4);
+                let mut found = false;
                 for e in [left, right] {
                     if_chain!{
                         if let RichFormula::Fun(m_mac, m_args) = e.as_ref();
                         if *m_mac == uf_cma.mac();
                         then {
                             debug_assert_eq!(m_args.len(), 2); // should be ensured by the *m_mac == uf_cma.mac() check
+                            found = true;
                             nexts.extend(m_args.iter().cloned())
+                        } else {
+                            nexts.push(e.clone())
                         }
                     }
                 }
 
-                if !nexts.is_empty() {
+                if found {
                     return nexts.into_iter().collect()
                 }
              }
-- 
2.43.0


From c7fd60f16a186df2752204250bf4a430deecdeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:18 +0000
Subject: [PATCH 14/31] fix: --disallow-shadowing holds for every command

---
 crates/cryptovampire/src/cli.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/cli.rs b/crates/cryptovampire/src/cli.rs
index df5b95d..6e9f412 100644
--- a/crates/cryptovampire/src/cli.rs
+++ b/crates/cryptovampire/src/cli.rs
@@ -316,6 +316,7 @@ impl<'bump> IntoWith<Environement<'bump>, &'bump ScopedContainer<'bump>> for &Ar
             *legacy_evaluate => Flags::LEGACY_EVALUATE,
             *skolemnise => Flags::SKOLEMNISE,
             *no_bitstring && realm.is_symbolic() => Flags::NO_BITSTRING,
+            *disallow_shadowing => Flags::DISALLOW_SHADOWING,
             // *ignore_lemmas => Flags::IGNORE_LEMMAS
         );
 
@@ -354,8 +355,7 @@ impl<'bump> IntoWith<Environement<'bump>, &'bump ScopedContainer<'bump>> for &Ar
                 flags |= mk_bitflag!(
                     *lemmas => Flags::LEMMA,
                     *assert_theory=> Flags::ASSERT_THEORY,
-                    *assert_ground => Flags::ASSERT_GROUND,
-                    *disallow_shadowing => Flags::DISALLOW_SHADOWING
+                    *assert_ground => Flags::ASSERT_GROUND
                 );
                 if *cvc5 {
                     flags -= Flags::ASSERT_GROUND | Flags::ASSERT_NOT | Flags::ASSERT_THEORY;
-- 
2.43.0


From 0f4b3db030fcaf6530b4123be3efdab1a6ce246a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:38 +0000
Subject: [PATCH 15/31] fix: evaluating a quantified condition keeps its bound
 variables bound

---
 .../assertion_preprocessor.rs                 | 43 ++++++++++---------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/crates/cryptovampire/src/problem/general_assertions/assertion_preprocessor.rs b/crates/cryptovampire/src/problem/general_assertions/assertion_preprocessor.rs
index b203578..8775afb 100644
--- a/crates/cryptovampire/src/problem/general_assertions/assertion_preprocessor.rs
+++ b/crates/cryptovampire/src/problem/general_assertions/assertion_preprocessor.rs
@@ -84,29 +84,30 @@ fn preprocess_after_eval<'bump>(
                 }) => match inner {
                     InnerQuantifier::FindSuchThat { .. } => None,
                     InnerQuantifier::Forall { content } | InnerQuantifier::Exists { content } => {
-                        Some({
-                            let content = content.apply_substitution2(&FrozenSubstF::new_from(
-                                bound_variables.iter().map(Variable::id).collect_vec(),
+                        let variables = bound_variables.clone();
+                        let q = match inner {
+                            InnerQuantifier::Forall { .. } => {
+                                formula::quantifier::Quantifier::Forall { variables }
+                            }
+                            InnerQuantifier::Exists { .. } => {
+                                formula::quantifier::Quantifier::Exists { variables }
+                            }
+                            _ => unreachable!(),
+                        };
+                        // substituting in the quantified formula keeps `args` from being captured
+                        let quantified = RichFormula::Quantifier(q, content.shallow_copy())
+                            .into_arc()
+                            .apply_substitution2(&FrozenSubstF::new_from(
+                                free_variables.iter().map(Variable::id).collect_vec(),
                                 args,
                             ));
-                            let content = preprocess_after_eval(content.as_ref(), env);
-
-                            let q = match inner {
-                                InnerQuantifier::Forall { .. } => {
-                                    formula::quantifier::Quantifier::Forall {
-                                        variables: free_variables.clone(),
-                                    }
-                                }
-                                InnerQuantifier::Exists { .. } => {
-                                    formula::quantifier::Quantifier::Exists {
-                                        variables: free_variables.clone(),
-                                    }
-                                }
-                                _ => unreachable!(),
-                            };
-
-                            RichFormula::Quantifier(q, content.into())
-                        })
+                        match quantified.as_ref() {
+                            RichFormula::Quantifier(q, content) => Some(RichFormula::Quantifier(
+                                q.clone(),
+                                preprocess_after_eval(content.as_ref(), env).into(),
+                            )),
+                            _ => unreachable!(),
+                        }
                     }
                 },
                 None => None,
-- 
2.43.0


From 1abc3eec6df071171adfd4ae269a403899ed7bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:19 +0000
Subject: [PATCH 16/31] fix: in the default mode an evaluated function prints
 as the declared one

---
 crates/cryptovampire/src/smt/smt/display.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/smt/smt/display.rs b/crates/cryptovampire/src/smt/smt/display.rs
index 7cdafb6..fc69eb4 100644
--- a/crates/cryptovampire/src/smt/smt/display.rs
+++ b/crates/cryptovampire/src/smt/smt/display.rs
@@ -5,7 +5,7 @@ use log::{log_enabled, trace};
 
 use crate::{
     environement::traits::{KnowsRealm, Realm},
-    formula::file_descriptior::axioms::RewriteKind,
+    formula::{file_descriptior::axioms::RewriteKind, function::InnerFunction},
 };
 
 use super::{fun_list_fmt, Smt, SmtFile, SmtFormula};
@@ -120,6 +120,11 @@ impl<'a, 'bump> fmt::Display for SmtDisplayer<&'a SmtEnv, &'a SmtFormula<'bump>>
                 args[0].prop(*self).fmt(f)
             }
             SmtFormula::Fun(fun, args) => {
+                // the evaluated functions only exist next to the symbolic ones
+                let fun = match fun.as_inner() {
+                    InnerFunction::EvaluatedFun(f) if self.env.is_evaluated_realm() => f.base(),
+                    _ => *fun,
+                };
                 if !args.is_empty() {
                     write!(f, "({} ", fun.name())?;
                     for arg in args {
-- 
2.43.0


From 2b2bcb21a612d8df401ece3ff247ee29c77c1530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:30 +0000
Subject: [PATCH 17/31] fix: the occurrence search keeps its bound variables
 apart from the goal's, and looks into variables for messages too

---
 .../src/formula/utils/formula_expander.rs     | 24 ++++++---
 crates/cryptovampire/src/subterm/mod.rs       | 50 +++++++++----------
 2 files changed, 42 insertions(+), 32 deletions(-)

diff --git a/crates/cryptovampire/src/formula/utils/formula_expander.rs b/crates/cryptovampire/src/formula/utils/formula_expander.rs
index edf164e..abee6c0 100644
--- a/crates/cryptovampire/src/formula/utils/formula_expander.rs
+++ b/crates/cryptovampire/src/formula/utils/formula_expander.rs
@@ -58,6 +58,9 @@ pub struct UnfoldingState<'bump> {
     /// The variables bound by the search (quantifiers or otherwise)
     #[builder(setter(into), default = "Rc::new([])")]
     bound_variables: Rc<[Variable<'bump>]>, // faster than Vec in our usecase
+    /// The free variables of the terms involved in the search, which must not be captured
+    #[builder(setter(into), default = "Rc::new([])")]
+    free_variables: Rc<[Variable<'bump>]>,
     /// Some condition to get here
     #[builder(setter(into, strip_option), default)]
     guard: Option<ARichFormula<'bump>>,
@@ -113,6 +116,13 @@ impl<'bump> UnfoldingState<'bump> {
         self.guard.as_ref()
     }
 
+    /// All the variables a newly bound one must differ from
+    fn used_variables(&self) -> Vec<Variable<'bump>> {
+        chain!(self.bound_variables.iter(), self.free_variables.iter())
+            .cloned()
+            .collect()
+    }
+
     pub fn add_condition(
         &self,
         vars: impl IntoIterator<Item = Variable<'bump>>,
@@ -214,7 +224,7 @@ impl<'bump> Unfolder<'bump> {
         kind: step_macro::MessageOrCondition,
     ) -> Vec<Unfolder<'bump>> {
         destvec!([arg] = args);
-        let state_variables = self.state.bound_variables();
+        let state_variables = self.state.used_variables();
         steps
             .into_iter()
             .map(|s| {
@@ -225,7 +235,7 @@ impl<'bump> Unfolder<'bump> {
                 .shallow_copy();
 
                 let collision_var =
-                    make_collision_avoiding_subst(s.free_variables(), state_variables);
+                    make_collision_avoiding_subst(s.free_variables(), &state_variables);
                 let nvars = s
                     .free_variables()
                     .iter()
@@ -279,8 +289,7 @@ impl<'bump> Unfolder<'bump> {
             args.iter().cloned().collect_vec(),
         );
         let collistion_avoidance = {
-            let to_avoid = chain!(q.free_variables.iter(), self.state.bound_variables())
-                .cloned()
+            let to_avoid = chain!(q.free_variables.iter().cloned(), self.state.used_variables())
                 .collect_vec();
             make_collision_avoiding_subst(q.bound_variables.iter(), &to_avoid)
         };
@@ -318,7 +327,8 @@ fn unfold_cell_or_input<'b, 'bump>(
 where
     'bump: 'b,
 {
-    let state_variables = state.bound_variables();
+    let state_variables: Rc<[_]> = state.used_variables().into();
+    let step_variables = state_variables.clone();
     // let max_var = state_variables.iter().map(|v| v.id).max().unwrap_or(0);
     trace!("expand_cell_or_input");
     let Ancestors { input, cells } = graph.ancestors(to_expand).unwrap();
@@ -341,7 +351,7 @@ where
 
             let collision_var = make_collision_avoiding_subst(
                 chain!(vars.iter(), fresh_vars.iter()),
-                state_variables,
+                &state_variables,
             );
 
             let step_f = step.function().f(vars.iter().map(|v| collision_var.get(v)));
@@ -369,7 +379,7 @@ where
             steps.into_iter().flat_map(move |step| {
                 trace!("in input");
                 let vars = step.free_variables();
-                let collision_var = make_collision_avoiding_subst(vars, state_variables);
+                let collision_var = make_collision_avoiding_subst(vars, &step_variables);
                 let step_f = step.function().f(vars.iter().map(|v| collision_var.get(v)));
 
                 [step.message_arc(), step.condition_arc()]
diff --git a/crates/cryptovampire/src/subterm/mod.rs b/crates/cryptovampire/src/subterm/mod.rs
index d445018..e9ba05b 100644
--- a/crates/cryptovampire/src/subterm/mod.rs
+++ b/crates/cryptovampire/src/subterm/mod.rs
@@ -415,7 +415,8 @@ where
                     warn!("collision in the variables ({:} in {:}, {:?})",x, &formula, &bounded_variables)
                 }
                 // (, formula)
-                let passing = UnfoldingStateBuilder::default().flags(deeper_kind).bound_variables(bounded_variables).build().unwrap();
+                let free_variables = [x, &formula].into_iter().flat_map(|f| f.free_vars_iter()).unique().collect_vec();
+                let passing = UnfoldingStateBuilder::default().flags(deeper_kind).bound_variables(bounded_variables).free_variables(free_variables).build().unwrap();
                 logic_formula::Content::Next { formula, passing }
             }).collect_vec();
         OwnedPile::new(
@@ -814,19 +815,18 @@ where
         let SubtermResult { unifier, nexts } = self.subterm.aux.is_subterm_and_next(self.x, &f);
 
         // a variable may stand for a term in which `x` occurs
-        if let RichFormula::Var(v) = f.as_ref() {
-            if unifier.is_none() && v.sort().is_evaluatable() {
-                let mut guard = vec![self.subterm.f_a(&self.realm, self.x.clone(), f.clone())];
-                if self.keep_guard {
-                    guard.extend(state.condition().into_iter().cloned())
-                }
-                helper.push_result((state.owned_bound_variable(), formula::ands(guard)));
-            }
-        }
-
-        unifier
-            .map(|u| {
-                let mut guard = if_chain!(
+        let is_variable =
+            matches!(f.as_ref(), RichFormula::Var(v) if v.sort().is_evaluatable());
+
+        let guard = if is_variable {
+            Some(vec![self.subterm.f_a(
+                &self.realm,
+                self.x.clone(),
+                f.clone(),
+            )])
+        } else {
+            unifier.map(|u| {
+                if_chain!(
                     if let Some(ovs) = u.is_unifying_to_variable();
                     if ovs.f() == self.x;
                     then {
@@ -834,18 +834,18 @@ where
                     } else {
                         u.as_equalities().unwrap()
                     }
-                );
-                if self.keep_guard {
-                    guard.extend(state.condition().into_iter().cloned())
-                }
-                let formula = formula::ands(guard);
-                trace!("{formula}");
-                (state.owned_bound_variable(), formula)
+                )
             })
-            .into_iter()
-            .for_each(|r| {
-                helper.push_result(r);
-            });
+        };
+
+        if let Some(mut guard) = guard {
+            if self.keep_guard {
+                guard.extend(state.condition().into_iter().cloned())
+            }
+            let formula = formula::ands(guard);
+            trace!("{formula}");
+            helper.push_result((state.owned_bound_variable(), formula));
+        }
 
         helper.extend_child_same_passing(nexts, state);
     }
-- 
2.43.0


From bc8ce40b19e33cf44eace2b22b7324257f600cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:55 +0000
Subject: [PATCH 18/31] fix: int-ctxt compares the randomness of encryptions it
 finds, under quantifiers too, and requires it to be used once

---
 .../problem/crypto_assumptions/int_ctxt.rs    | 250 +++++++++---------
 1 file changed, 128 insertions(+), 122 deletions(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs b/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
index 61f2c53..0501f45 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
@@ -1,11 +1,13 @@
 use std::{collections::BTreeSet, hash::Hash, sync::Arc};
 
 use if_chain::if_chain;
-use itertools::Itertools;
+use itertools::{chain, Itertools};
 use log::trace;
 use logic_formula::iterators::AllTermsIterator;
 
-use crate::formula::utils::formula_expander::NO_REC_MACRO;
+use crate::formula::utils::formula_expander::{
+    UnfolderBuilder, UnfoldingStateBuilder, NO_REC_MACRO,
+};
 use crate::formula::utils::Applicable;
 use crate::formula::variable::IntoVariableIter;
 use crate::subterm::{
@@ -19,7 +21,7 @@ use crate::{
     formula::{
         file_descriptior::{axioms::Axiom, declare::Declaration},
         formula::{ands, forall, meq, ARichFormula, RichFormula},
-        function::{builtin::TRUE, Function},
+        function::Function,
         function::{inner::subterm::Subsubterm, name_caster_collection::NameCasterCollection},
         manipulation::Unifier,
         sort::{
@@ -116,8 +118,14 @@ impl<'bump> IntCtxt<'bump> {
 
         if env.preprocess_instances() {
             assertions.extend(
-                self.preprocess(env, pbl, subterm_main.as_ref(), subterm_key.as_ref())
-                    .map(Axiom::base),
+                self.preprocess(
+                    env,
+                    pbl,
+                    subterm_main.as_ref(),
+                    subterm_key.as_ref(),
+                    subterm_rand.as_ref(),
+                )
+                .map(Axiom::base),
             )
         }
 
@@ -140,25 +148,31 @@ impl<'bump> IntCtxt<'bump> {
                     let k_f = nc.cast(message_sort, k);
                     // ev.eval(self.verify.apply([c.into(), k_f.clone()])) >>
                     (!meq(ev.eval(self.dec.f([c.into(), k_f.clone()])), ev.eval(self.fail()))) >>
-                    mexists!(m!4:message_sort, r!5:nonce_sort; {
-                        let r_f = nc.cast(message_sort, r);
-                        let c2 = self.enc.f([m.into(), r_f.clone(), k_f.clone()]);
-                        meq(ev.eval(c), ev.eval(c2.clone())) &
-                        (
-                            subterm_main.f_a(env,  c2.clone(), c.into()) |
-                            subterm_key.f_a(env,  k, c) |
-                            subterm_rand.f_a(env, r, c) |
-                            (mexists!(m2!6:message_sort, k2!7:message_sort, r2!8:message_sort; {
-                                subterm_main.f_a(env, self.enc.f([m2.into(), r2.into(), k_f.clone()]), c.into())
-                                & (
-                                    (mforall!(n!9:nonce_sort; {!meq(r2, nc.cast(message_sort, n))})) |
-                                    ( meq(r2, r_f.clone()) &
-                                        ((!meq(m2, m)) | (!meq(k2, k_f.clone())))
-                                    )
-                                )
-                            }))
-                        )
-                    })
+                    (
+                        // the key leaks
+                        subterm_key.f_a(env, k, c) |
+                        // or `c` is an honest ciphertext
+                        mexists!(m!4:message_sort, r!5:nonce_sort; {
+                            let r_f = nc.cast(message_sort, r);
+                            let c2 = self.enc.f([m.into(), r_f.clone(), k_f.clone()]);
+                            meq(ev.eval(c), ev.eval(c2.clone())) &
+                            subterm_main.f_a(env, c2.clone(), c.into())
+                        }) |
+                        // or the randomness of an honest ciphertext is not used properly
+                        mexists!(m2!6:message_sort, r2!8:message_sort; {
+                            subterm_main.f_a(env, self.enc.f([m2.into(), r2.into(), k_f.clone()]), c.into())
+                            & (
+                                (mforall!(n!9:nonce_sort; {!meq(r2, nc.cast(message_sort, n))})) |
+                                (mexists!(n!9:nonce_sort; {
+                                    meq(r2, nc.cast(message_sort, n)) & subterm_rand.f_a(env, n, c)
+                                })) |
+                                (mexists!(m3!10:message_sort, k3!11:message_sort; {
+                                    subterm_main.f_a(env, self.enc.f::<ARichFormula<'bump>, _>([m3.into(), r2.into(), k3.into()]), c.into())
+                                    & ((!meq(m3, m2)) | (!meq(k3, k_f.clone())))
+                                }))
+                            )
+                        })
+                    )
                 }),
             })
         }
@@ -186,8 +200,8 @@ impl<'bump> IntCtxt<'bump> {
         pbl: &'a Problem<'bump>,
         subterm_main: &'a Subterm<'bump, impl SubtermAux<'bump>>,
         subterm_key: &'a Subterm<'bump, impl SubtermAux<'bump>>,
+        subterm_rand: &'a Subterm<'bump, impl SubtermAux<'bump>>,
     ) -> impl Iterator<Item = ARichFormula<'bump>> + 'a {
-        let mut side_condition = true;
         let max_var = pbl.max_var();
         // let pile1 = RefCell::new(Vec::new());
         // let pile2 = RefCell::new(Vec::new());
@@ -231,39 +245,40 @@ impl<'bump> IntCtxt<'bump> {
             .unique()
             .collect_vec();
 
-        // term of the for enc(_, nonce(_), _)
-        // with variables unchanged
-        let candidates_enc = pbl
-            .list_top_level_terms()
-            // .flat_map(move |f| f.iter()) // sad...
-            .filter_map(|formula| match formula.as_ref() {
-                RichFormula::Fun(fun, args) => {
+        // the arguments of the encryptions of a term, with variables unchanged
+        let encs_of = |f: &ARichFormula<'bump>| {
+            let state = UnfoldingStateBuilder::default()
+                .flags(NO_REC_MACRO)
+                .free_variables(f.free_vars_iter().unique().collect_vec())
+                .build()
+                .unwrap();
+            let mut encs = Vec::new();
+            let mut pile = vec![(f.shallow_copy(), state)];
+            while let Some((formula, state)) = pile.pop() {
+                if let RichFormula::Fun(fun, args) = formula.as_ref() {
                     if fun == &self.enc {
-                        if_chain! {
-                            if let RichFormula::Fun(nf, args2) = args[1].as_ref();
-                            if nf == pbl.name_caster().cast_function(&MESSAGE.as_sort()).unwrap();
-                            then {
-                            let [message, key, rand] =
-                                [&args[0], &args[2], &args2[0]]
-                                // .map(|f| f.translate_vars(max_var).into_arc());
-                                .map(|f| f.clone());
-                                Some(IntCtxtEncCandidates {
-                                        message,
-                                        key,
-                                        rand,
-                                    })
-                            } else {
-                                side_condition = false;
-                                None
-                            }
-                        }
-                    } else {
-                        None
+                        let [message, rand, key] = [0, 1, 2].map(|i| args[i].clone());
+                        encs.push(IntCtxtEncCandidates { message, key, rand })
                     }
-                    // } else {None}
+                    pile.extend(args.iter().map(|arg| (arg.shallow_copy(), state.clone())))
                 }
-                _ => None,
-            })
+                pile.extend(
+                    UnfolderBuilder::default()
+                        .state(state)
+                        .content(formula)
+                        .build()
+                        .unwrap()
+                        .unfold([], pbl.protocol().graph())
+                        .into_iter()
+                        .map(|u| u.as_tuple()),
+                )
+            }
+            encs
+        };
+        let ptcl_encs = pbl
+            .protocol()
+            .list_top_level_terms_short_lifetime()
+            .flat_map(encs_of)
             .unique()
             .collect_vec();
 
@@ -293,7 +308,41 @@ impl<'bump> IntCtxt<'bump> {
                     .cast(MESSAGE.as_sort(), r_var.into_formula());
                 let max_var = max_var + 2;
 
-                let k_sc = side_condition
+                // every encryption the axiom is about
+                let candidates_enc = chain!(ptcl_encs.iter().cloned(), encs_of(&cipher))
+                    .unique()
+                    .collect_vec();
+                // those that use that key take their randomness from names...
+                let key_as_message = pbl.name_caster().cast(MESSAGE.as_sort(), key.clone());
+                let name_of = |rand: &ARichFormula<'bump>| match rand.as_ref() {
+                    RichFormula::Fun(nf, args) if nf == cast_messages => Some(args[0].clone()),
+                    _ => None,
+                };
+                // ...that are not used for anything else
+                let rand_sc = candidates_enc
+                    .iter()
+                    .filter(|c| {
+                        Unifier::mgu(&key_as_message, &c.key.translate_vars(max_var).into_arc())
+                            .is_some()
+                    })
+                    .all(|c| match name_of(&c.rand) {
+                        None => false,
+                        Some(r) => subterm_rand
+                            .preprocess_terms(
+                                &realm,
+                                pbl.protocol(),
+                                &r.translate_vars(max_var).into_arc(),
+                                pbl.protocol()
+                                    .list_top_level_terms_short_lifetime_and_bvars()
+                                    .chain([cipher.shallow_copy().into()]),
+                                false,
+                                NO_REC_MACRO,
+                            )
+                            .next()
+                            .is_none(),
+                    });
+
+                let k_sc = rand_sc
                     && subterm_key
                         .preprocess_terms(
                             &realm,
@@ -323,80 +372,37 @@ impl<'bump> IntCtxt<'bump> {
                     // let key_variables: BTreeSet<_> = key.get_free_vars().into_iter().collect();
 
                     let other_sc = {
-                        // ensure r is well used
-                        // the candidate with the right key (message, rand, unifier_key)
-                        #[allow(clippy::needless_borrow)]
-                        let candidates_enc = candidates_enc
-                            .iter()
-                            .tuple_combinations::<(_, _)>()
-                            .filter_map(
-                                |(
-                                    IntCtxtEncCandidates {
-                                        rand: r1,
-                                        message: m1,
-                                        key: k1,
-                                    },
-                                    IntCtxtEncCandidates {
-                                        rand: r2,
-                                        message: m2,
-                                        key: k2,
-                                    },
-                                )| {
-                                    fn unify<'bump>(
-                                        a: &ARichFormula<'bump>,
-                                        b: &ARichFormula<'bump>,
-                                    ) -> Option<Vec<ARichFormula<'bump>>>
-                                    {
-                                        Unifier::mgu(a, b).map(|u| {
-                                            u.as_equalities()
-                                                .unwrap_or(vec![TRUE.clone().into_arc()])
-                                        })
-                                    }
-                                    let unifier_k = unify(&k_f, &k1)?;
-
-                                    let r2 = r2.translate_vars(max_var).into_arc();
-                                    let unfier_r = unify(&r1, &r2)?;
-
-                                    let k2 = k2.translate_vars(max_var).into_arc();
-                                    let unifier_k12 = unify(&k1, &k2)?;
-
-                                    let m2 = m2.translate_vars(max_var).into_arc();
-                                    let unifier_m = unify(&m1, &m2)?;
-
+                        // ensure r is well used: no randomness of an encryption with the right
+                        // key serves for another message or key
+                        ands(
+                            candidates_enc
+                                .iter()
+                                .cartesian_product(candidates_enc.iter())
+                                .filter_map(|(c1, c2)| {
+                                    let [m1, k1, r1] = [&c1.message, &c1.key, &c1.rand]
+                                        .map(|f| f.translate_vars(max_var).into_arc());
+                                    let max_var = [&m1, &k1, &r1]
+                                        .into_iter()
+                                        .max_var_or_max(max_var);
+                                    let [m2, k2, r2] = [&c2.message, &c2.key, &c2.rand]
+                                        .map(|f| f.translate_vars(max_var).into_arc());
+                                    let unifier_k =
+                                        Unifier::mgu(&k_f, &k1)?.as_equalities().unwrap();
+                                    let unifier_r =
+                                        Unifier::mgu(&r1, &r2)?.as_equalities().unwrap();
                                     let free_vars = BTreeSet::from_iter(
-                                        [&r1, &m1, &k1, &r2, &m2, &r2]
+                                        [&r1, &m1, &k1, &r2, &m2, &k2]
                                             .into_iter()
                                             .flat_map(|f| f.free_vars_iter()),
                                     );
-
                                     Some(forall(
                                         free_vars,
-                                        ands(itertools::chain!(unfier_r, unifier_k,))
-                                            >> ands(itertools::chain!(unifier_k12, unifier_m)),
+                                        ands(chain!(unifier_r, unifier_k))
+                                            >> (meq(k1, k2) & meq(m1, m2)),
                                     ))
-                                },
-                            );
-                        ands(candidates_enc)
+                                }),
+                        )
                     };
-                    let _max_var = 2 * max_var;
-                    // candidates_enc
-                    //     .iter()
-                    //     .map(|IntCtxtEncCandidates { rand, message, key }| {
-                    //         let free_vars = rand
-                    //             .get_free_vars()
-                    //             .iter()
-                    //             .chain(message.get_free_vars().iter())
-                    //             .chain(key.get_free_vars().iter())
-                    //             // .map(|v: &&Variable<'bump>| **v)
-                    //             .unique()
-                    //             .cloned()
-                    //             .collect_vec();
-                    //         mforall!(free_vars, {
-                    //             meq(r_var, rand.shallow_copy())
-                    //                 >> (meq(message.shallow_copy(), u_f.clone())
-                    //                     & meq(key.shallow_copy(), k_f.clone()))
-                    //         })
-                    //     });
 
                     Some(mforall!(free_vars, {
                         (/* pbl.evaluator()
-- 
2.43.0


From 6c12f45dc9676a1457e6a2c2c896cb97641d56f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:45 +0000
Subject: [PATCH 19/31] fix: chains of => == <=> keep every operand, <=> in
 symbolic terms terminates, surplus arguments are rejected

---
 .../src/parser/parser/parsable_trait.rs       | 67 +++++++++++++++----
 1 file changed, 53 insertions(+), 14 deletions(-)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index c86e65b..c3d8153 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -504,6 +504,20 @@ where
     let signature = function.signature();
     let mut formula_realm = signature.realm();
 
+    let args: Vec<_> = args.into_iter().collect();
+
+    // check arity
+    if !signature.args_size().contains(&args.len().into()) {
+        let range = signature.args_size();
+        bail_at!(
+            span,
+            "wrong number of arguments: got {}, expected [{}, {}]",
+            args.len(),
+            range.start(),
+            range.end()
+        )
+    }
+
     // parse further
     let n_args: Result<Vec<_>, _> = {
         // propagate the right state if it changed
@@ -520,18 +534,6 @@ where
     };
     let n_args = n_args?;
 
-    // check arity
-    if !signature.args_size().contains(&n_args.len().into()) {
-        let range = signature.args_size();
-        bail_at!(
-            span,
-            "wrong number of arguments: got {}, expected [{}, {}]",
-            n_args.len(),
-            range.start(),
-            range.end()
-        )
-    }
-
     let ifun = function.get_function();
     // if it's a name, cast it
     let formula = if let Some(name) = ifun.as_name() {
@@ -733,6 +735,22 @@ where
                 .parse(env, bvars, state, expected_sort)
                 .debug_continue(),
             },
+            // a chain `a == b == c` relates each term to the next one
+            ast::Operation::Eq | ast::Operation::Iff
+                if self.terms.len() > 2 && state.get_realm().is_evaluated() =>
+            {
+                Self {
+                    operation: ast::Operation::And,
+                    terms: as_pair_of_term(
+                        &self.span,
+                        self.operation,
+                        self.terms.iter().tuple_windows(),
+                    ),
+                    span: self.span.clone(),
+                }
+                .parse(env, bvars, state, expected_sort)
+                .debug_continue()
+            }
             ast::Operation::Eq => match state.get_realm() {
                 Realm::Evaluated => parse_application(
                     env,
@@ -785,14 +803,35 @@ where
                     operation: ast::Operation::And,
                     terms: as_pair_of_term(
                         &self.span,
-                        self.operation,
-                        self.terms.iter().tuple_windows(),
+                        ast::Operation::Implies,
+                        self.terms
+                            .iter()
+                            .tuple_windows()
+                            .flat_map(|(a, b)| [(a, b), (b, a)]),
                     ),
                     span: self.span.clone(),
                 }
                 .parse(env, bvars, state, expected_sort)
                 .debug_continue(),
             },
+            // `a => b => c` is `a => (b => c)`
+            ast::Operation::Implies if self.terms.len() > 2 => Self {
+                operation: ast::Operation::Implies,
+                terms: vec![
+                    self.terms[0].clone(),
+                    ast::Term {
+                        span: self.span.clone(),
+                        inner: ast::InnerTerm::Infix(Arc::new(Self {
+                            operation: ast::Operation::Implies,
+                            terms: self.terms[1..].to_vec(),
+                            span: self.span.clone(),
+                        })),
+                    },
+                ],
+                span: self.span.clone(),
+            }
+            .parse(env, bvars, state, expected_sort)
+            .debug_continue(),
             ast::Operation::Implies => {
                 let function = match state.get_realm() {
                     Realm::Symbolic => IMPLIES_TA_CACHE(),
-- 
2.43.0


From dbcd861c56d4f4edc2a58f739e4e8c232b8984ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:35 +0000
Subject: [PATCH 20/31] fix: --no-bitstring files do not use the evaluated
 functions they do not declare

---
 .../cryptovampire/src/problem/problem/mod.rs  | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/problem/problem/mod.rs b/crates/cryptovampire/src/problem/problem/mod.rs
index e675c99..0fef85c 100644
--- a/crates/cryptovampire/src/problem/problem/mod.rs
+++ b/crates/cryptovampire/src/problem/problem/mod.rs
@@ -243,7 +243,7 @@ impl<'bump> Generator<'bump> for Problem<'bump> {
             self.assertions
                 .iter()
                 .cloned()
-                .map(|a| propagate_evaluate(a.as_ref(), &self.evaluator))
+                .map(|a| self.push_evaluate(env, a))
                 .map(Axiom::base),
         );
         trace!("[G]\t\t[DONE]");
@@ -251,7 +251,7 @@ impl<'bump> Generator<'bump> for Problem<'bump> {
         trace!("[G]\t- query...");
         assertions.push(Axiom::Comment("query".into()));
         assertions.push(Axiom::Query {
-            formula: propagate_evaluate(self.query.as_ref(), &self.evaluator),
+            formula: self.push_evaluate(env, self.query.shallow_copy()),
         });
 
         trace!("[G]\t\t[DONE]");
@@ -260,3 +260,19 @@ impl<'bump> Generator<'bump> for Problem<'bump> {
         declarations.sort();
     }
 }
+
+impl<'bump> Problem<'bump> {
+    /// push the evaluations of `f` towards its leaves, unless the functions over evaluated terms
+    /// are not declared
+    fn push_evaluate(
+        &self,
+        env: &Environement<'bump>,
+        f: ARichFormula<'bump>,
+    ) -> ARichFormula<'bump> {
+        if env.no_bitstring_functions() {
+            f
+        } else {
+            propagate_evaluate(f.as_ref(), &self.evaluator)
+        }
+    }
+}
-- 
2.43.0


From fa65af43085f34e2bc3fc7b01de77f26011977fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:23 +0000
Subject: [PATCH 21/31] fix: the cells read by the messages and the conditions
 of the steps are reachable from the input

---
 .../src/problem/cell_dependancies/graph.rs    | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/crates/cryptovampire/src/problem/cell_dependancies/graph.rs b/crates/cryptovampire/src/problem/cell_dependancies/graph.rs
index fbe7429..a805f94 100644
--- a/crates/cryptovampire/src/problem/cell_dependancies/graph.rs
+++ b/crates/cryptovampire/src/problem/cell_dependancies/graph.rs
@@ -45,9 +45,10 @@ pub struct DependancyGraph<'bump> {
     edges: Vec<Edges<'bump>>,
 }
 
+/// The node for the input: what the messages and the conditions of the steps call
 #[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Default)]
 struct InputNode {
-    pub edges_starts: usize,
+    pub edges: Vec<usize>,
 }
 
 /// A non input node in the graph
@@ -148,16 +149,17 @@ impl<'bump> DependancyGraph<'bump> {
             );
         }
 
-        let input = InputNode {
-            edges_starts: edges.len(),
-        };
+        edges.extend(input_edges);
 
+        let mut input = InputNode::default();
         for (i, Edges { from, .. }) in edges.iter().enumerate() {
-            if let FromNode::CellCall(InnerCellCall { cell_idx: cell, .. }) = from {
-                cells[*cell].edges.push(i)
+            match from {
+                FromNode::CellCall(InnerCellCall { cell_idx: cell, .. }) => {
+                    cells[*cell].edges.push(i)
+                }
+                FromNode::Message { .. } | FromNode::Condition { .. } => input.edges.push(i),
             }
         }
-        edges.extend(input_edges);
         DependancyGraph {
             cells,
             edges,
@@ -190,8 +192,6 @@ impl<'bump> DependancyGraph<'bump> {
                 .collect(),
         };
 
-        let input_edges = (self.input.edges_starts..self.edges.len()).collect_vec();
-
         while let Some(next) = to_visit_idx.pop() {
             if visited[next] {
                 continue;
@@ -203,7 +203,7 @@ impl<'bump> DependancyGraph<'bump> {
                 self.cells
                     .get(next)
                     .map(|c| c.edges.as_slice())
-                    .unwrap_or(input_edges.as_slice()) // if out of bound, it's an input
+                    .unwrap_or(self.input.edges.as_slice()) // if out of bound, it's an input
                     .iter()
                     .map(|ei| &self.edges[*ei])
                     .map(|edge| edge.to.get_cell_idx().unwrap_or(input_idx)), // .filter(|i| !visited[*i]),
-- 
2.43.0


From 8ce446433f7b02dbaa1d787f6ae063ace44f7d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:32 +0000
Subject: [PATCH 22/31] fix: the evaluation of a negation or a quantifier is
 given in both directions

---
 .../problem/general_assertions/evaluate.rs    | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/crates/cryptovampire/src/problem/general_assertions/evaluate.rs b/crates/cryptovampire/src/problem/general_assertions/evaluate.rs
index f2c721e..4950195 100644
--- a/crates/cryptovampire/src/problem/general_assertions/evaluate.rs
+++ b/crates/cryptovampire/src/problem/general_assertions/evaluate.rs
@@ -231,8 +231,9 @@ fn generate_connectives<'bump>(
         }))),
         Connective::BaseConnective(BaseConnective::Not) => {
             assertions.push(Axiom::base(mforall!(a!0:cond; {
-                pbl.evaluator().eval(function.apply([a])) >>
-                    !pbl.evaluator().eval(a)
+                meq(
+                    pbl.evaluator().eval(function.apply([a])),
+                    !pbl.evaluator().eval(a))
             })))
         }
         Connective::BaseConnective(c) => {
@@ -265,20 +266,24 @@ pub fn generate_quantifier<'bump>(
     match q.inner() {
         InnerQuantifier::Forall { content } => {
             assertions.push(Axiom::base(mforall!(q.free_variables.iter().cloned(), {
-                pbl.evaluator()
-                    .eval(function.apply(q.free_variables.iter().map(|v| v.into_formula())))
-                    >> mforall!(q.bound_variables.iter().cloned(), {
+                meq(
+                    pbl.evaluator()
+                        .eval(function.apply(q.free_variables.iter().map(|v| v.into_formula()))),
+                    mforall!(q.bound_variables.iter().cloned(), {
                         pbl.evaluator().eval(content)
-                    })
+                    }),
+                )
             })))
         }
         InnerQuantifier::Exists { content } => {
             assertions.push(Axiom::base(mforall!(q.free_variables.iter().cloned(), {
-                pbl.evaluator()
-                    .eval(function.apply(q.free_variables.iter().map(|v| v.into_formula())))
-                    >> mexists!(q.bound_variables.iter().cloned(), {
+                meq(
+                    pbl.evaluator()
+                        .eval(function.apply(q.free_variables.iter().map(|v| v.into_formula()))),
+                    mexists!(q.bound_variables.iter().cloned(), {
                         pbl.evaluator().eval(content)
-                    })
+                    }),
+                )
             })))
         }
         InnerQuantifier::FindSuchThat {
-- 
2.43.0


From 79a801b6fad52d79b6e39f25f116832fc107ebc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:06 +0000
Subject: [PATCH 23/31] fix: a mac verified under another key is still an
 honest mac

---
 .../src/problem/crypto_assumptions/uf_cma/subterm.rs             | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma/subterm.rs b/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma/subterm.rs
index 708bca0..0b49b4f 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma/subterm.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma/subterm.rs
@@ -156,6 +156,7 @@ impl<'bump> UfCmaMainSubtAux<'bump> {
             if let [sig, message, key] = args.as_ref();
             if let RichFormula::Fun(m_mac, m_args) = sig.as_ref();
             if *m_mac == uf_cma.mac();
+            if uf_cma.is_hmac() || m_args.last() == Some(key); // otherwise the mac is honest
             then {
                 return chain!([message, key], m_args.as_ref().iter()).cloned().collect()
             }
-- 
2.43.0


From 2ac406f0c6a97521d12ab4036de94e94b15d0798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:36 +0000
Subject: [PATCH 24/31] fix: cells read inside quantifiers and searches are
 dependencies

---
 .../cell_dependancies/graph/process_functions.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/cryptovampire/src/problem/cell_dependancies/graph/process_functions.rs b/crates/cryptovampire/src/problem/cell_dependancies/graph/process_functions.rs
index 6c73b4d..780fae0 100644
--- a/crates/cryptovampire/src/problem/cell_dependancies/graph/process_functions.rs
+++ b/crates/cryptovampire/src/problem/cell_dependancies/graph/process_functions.rs
@@ -5,7 +5,10 @@ use crate::formula::function::inner::term_algebra::step_macro;
 use crate::formula::function::inner::term_algebra::TermAlgebra;
 use crate::problem::cell::Assignement;
 
+use crate::formula::manipulation::FrozenSubst;
+
 use if_chain::if_chain;
+use itertools::Itertools;
 use logic_formula::outers::RefPile;
 use logic_formula::Content;
 use logic_formula::FormulaIterator;
@@ -162,6 +165,19 @@ impl<'a, 'bump> FormulaIterator<ARichFormula<'bump>> for ToNodeIterator<'a, 'bum
                         }
                     };
                 }
+                // the content of a quantifier or a search isn't part of its arguments
+                InnerFunction::TermAlgebra(TermAlgebra::Quantifier(q)) => {
+                    let substitution = FrozenSubst::new_from(
+                        q.free_variables.iter().map(|v| v.id).collect_vec(),
+                        args.iter().cloned().collect_vec(),
+                    );
+                    helper.extend_child_with_default(
+                        q.get_content()
+                            .into_vec()
+                            .into_iter()
+                            .map(|f| f.apply_substitution2(&substitution)),
+                    );
+                }
                 InnerFunction::Step(_) => {
                     // let to_node = ToNode::Input(InputCall {
                     //     step: StepCall::General(current.clone()),
-- 
2.43.0


From af2687fca556089c9a83d42434b662bdbca84f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:34 +0000
Subject: [PATCH 25/31] fix: a saturation reported by vampire is not a proof

---
 crates/cryptovampire/src/runner/vampire.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/cryptovampire/src/runner/vampire.rs b/crates/cryptovampire/src/runner/vampire.rs
index 46d188c..909ab35 100644
--- a/crates/cryptovampire/src/runner/vampire.rs
+++ b/crates/cryptovampire/src/runner/vampire.rs
@@ -134,6 +134,17 @@ const SUCCESS_RC: i32 = 0;
 /// Timeout return code
 const TIMEOUT_RC: i32 = 1;
 
+/// Does `vampire` say that it saturated, i.e., that the problem is satisfiable?
+fn is_saturated(stdout: &str) -> bool {
+    [
+        "Termination reason: Satisfiable",
+        "SZS status Satisfiable",
+        "SZS status CounterSatisfiable",
+    ]
+    .iter()
+    .any(|s| stdout.contains(s))
+}
+
 impl Runner for VampireExec {
     type Args<'a> = &'a [VampireArg];
 
@@ -175,6 +186,8 @@ impl Runner for VampireExec {
                 stdout,
                 return_code,
             } => match return_code {
+                // `vampire` also succeeds when it finds out there is no proof
+                SUCCESS_RC if is_saturated(&stdout) => Ok(RunnerOut::Sat(stdout)),
                 SUCCESS_RC => Ok(RunnerOut::Unsat(stdout)),
                 TIMEOUT_RC => Ok(RunnerOut::Timeout(stdout)),
                 _ => Self::unexpected_result(cmd, return_code, stdout).no_location(),
-- 
2.43.0


From ed6bcc1f21cb29431458bafeba922ee8acf90890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:01 +0000
Subject: [PATCH 26/31] fix: each problem of a Squirrel dump gets its own file
 in the output directory

---
 crates/cryptovampire/src/squirrel/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/cryptovampire/src/squirrel/mod.rs b/crates/cryptovampire/src/squirrel/mod.rs
index 57f2491..3e44afd 100644
--- a/crates/cryptovampire/src/squirrel/mod.rs
+++ b/crates/cryptovampire/src/squirrel/mod.rs
@@ -22,6 +22,9 @@ pub fn run_from_json(mut args: Args, str: &str) -> crate::Result<Vec<Return>> {
     };
     trace!("parsing successful");
 
+    // each problem goes in its own file next to the others
+    let output_dir = args.get_mut_output_location().cloned();
+
     trace!("converting to ast");
     convert_squirrel_dump(dump)?
         .into_iter()
@@ -38,9 +41,8 @@ pub fn run_from_json(mut args: Args, str: &str) -> crate::Result<Vec<Return>> {
                 trace!("runnig the {i}th problem with ast:\n\t{ast}");
             }
 
-            match args.get_mut_output_location() {
-                None => (),
-                Some(location) => *location = location.join(format!("{i}")),
+            if let (Some(location), Some(dir)) = (args.get_mut_output_location(), &output_dir) {
+                *location = dir.join(format!("{i}"));
             }
             run_from_ast(&args, ast)
         })
-- 
2.43.0


From e1ebca2b3d9b430dc31d9b71e4dcfcc8e33e5e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:01 +0000
Subject: [PATCH 27/31] fix: Squirrel's <=> is an equivalence, not an equality
 of messages

---
 crates/cryptovampire/src/squirrel/converters/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/squirrel/converters/mod.rs b/crates/cryptovampire/src/squirrel/converters/mod.rs
index a622c5f..4d47fc3 100644
--- a/crates/cryptovampire/src/squirrel/converters/mod.rs
+++ b/crates/cryptovampire/src/squirrel/converters/mod.rs
@@ -39,7 +39,7 @@ static REMMAPPED_FUNCTION: HashMap<&'static str, StrRef<'static>> = {
         ("and", AND.name()),
         ("||", OR.name()),
         ("or", OR.name()),
-        ("<=>", EQUALITY.name()),
+        ("<=>", "<=>".into()),
         ("=>", IMPLIES.name()),
         ("=", EQUALITY.name()),
         ("<>", "!=".into()),
-- 
2.43.0


From 311f608ce74980b974681fcdafa80fa703896b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:01 +0000
Subject: [PATCH 28/31] fix: a global macro's inputs are those of the actions
 that receive them

---
 .../src/squirrel/converters/ast_convertion.rs   |  9 +++++----
 .../cryptovampire/src/squirrel/json/mmacro.rs   | 17 ++++++++++++-----
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/crates/cryptovampire/src/squirrel/converters/ast_convertion.rs b/crates/cryptovampire/src/squirrel/converters/ast_convertion.rs
index 2ef5478..7acf41b 100644
--- a/crates/cryptovampire/src/squirrel/converters/ast_convertion.rs
+++ b/crates/cryptovampire/src/squirrel/converters/ast_convertion.rs
@@ -190,13 +190,14 @@ impl<'a> json::Action<'a> {
         let output = term.convert(ctx).bind(|term| {
             fst_global_macro
                 .iter()
-                .flat_map(|g| g.inputs().rev().enumerate())
-                .map(|(i, v)| {
+                .flat_map(|g| g.inputs_with_depth())
+                .map(|(depth, v)| {
+                    let path = &self.action[0..depth];
                     let a = ctx
                         .dump()
-                        .get_action_from_action_v(&self.action[0..i])
+                        .get_action_from_action_v(path)
                         .ok_or_else(|| {
-                            let actions = self.action[0..i]
+                            let actions = path
                                 .iter()
                                 .map(serde_json::to_string_pretty)
                                 .map(Result::unwrap)
diff --git a/crates/cryptovampire/src/squirrel/json/mmacro.rs b/crates/cryptovampire/src/squirrel/json/mmacro.rs
index 3016d17..2283fa4 100644
--- a/crates/cryptovampire/src/squirrel/json/mmacro.rs
+++ b/crates/cryptovampire/src/squirrel/json/mmacro.rs
@@ -11,13 +11,20 @@ pub enum Data<'a> {
 }
 
 impl<'a> Data<'a> {
-    pub fn inputs<'b>(&'b self) -> impl DoubleEndedIterator<Item = &'b Variable<'a>> {
+    /// The inputs with the number of nested actions up to and including the one
+    /// that receives it.
+    ///
+    /// `squirrel` lists one input per action, dummy or not, the latest first.
+    pub fn inputs_with_depth<'b>(&'b self) -> impl Iterator<Item = (usize, &'b Variable<'a>)> {
         match self {
-            Data::Global(gm) => Some(gm.inputs()),
-            _ => None,
+            Data::Global(gm) => gm.data.inputs.as_slice(),
+            _ => &[],
         }
-        .into_iter()
-        .flatten()
+        .iter()
+        .rev()
+        .zip(1..)
+        .map(|(v, depth)| (depth, v))
+        .filter(|(_, v)| !v.is_dummy())
     }
 }
 
-- 
2.43.0


From d0a4bf78945283518b16c944ddf4ec1ac67cfc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:01 +0000
Subject: [PATCH 29/31] fix: the first element of a Squirrel tuple is the
 outermost of the pairs

---
 .../converters/helper_functions/convertion_functions.rs        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/squirrel/converters/helper_functions/convertion_functions.rs b/crates/cryptovampire/src/squirrel/converters/helper_functions/convertion_functions.rs
index 277fdcb..1a47315 100644
--- a/crates/cryptovampire/src/squirrel/converters/helper_functions/convertion_functions.rs
+++ b/crates/cryptovampire/src/squirrel/converters/helper_functions/convertion_functions.rs
@@ -301,7 +301,8 @@ pub fn convert_tuple<'a>(
 ) -> RAoO<ast::Term<'a, StrRef<'a>>> {
     let empty =
         mdo! { pure ast::Application::new_app(Default::default(),EMPTY_FUN_NAME.into(), []).into()};
-    elements.iter().fold(empty, |acc, t| {
+    // the first element is the outermost one, see [convert_projection]
+    elements.iter().rev().fold(empty, |acc, t| {
         let acc = acc?;
         let t = t.convert(ctx)?;
         mdo! {
-- 
2.43.0


From 893a4c71ad410e2a49c13f3ffb44b15f5fee0823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:01 +0000
Subject: [PATCH 30/31] fix: operators with a definition are applied as the
 macros they are declared as

---
 .../helper_functions/convertion_functions.rs  | 29 +++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/crates/cryptovampire/src/squirrel/converters/helper_functions/convertion_functions.rs b/crates/cryptovampire/src/squirrel/converters/helper_functions/convertion_functions.rs
index 1a47315..e03d44d 100644
--- a/crates/cryptovampire/src/squirrel/converters/helper_functions/convertion_functions.rs
+++ b/crates/cryptovampire/src/squirrel/converters/helper_functions/convertion_functions.rs
@@ -72,7 +72,9 @@ where
     N: Equivalent<NameName<'a>> + std::hash::Hash + Sanitizable<'a>,
     O: Equivalent<OperatorName<'a>> + std::hash::Hash + Sanitizable<'a>,
 {
+    let is_macro = is_concrete(symb.right(), ctx);
     let args: Vec<_> = if_chain! {
+        if !is_macro;
         if let Some(f) = ctx.dump().get_name_or_operator_fun_type(symb);
         let args_type = f.args.as_slice();
         if args_type.len() == 1;
@@ -99,11 +101,35 @@ where
                 let [condition, left, right] = args.try_into().map_err(|_| error_at!(@ "wrong number of arguments to if"))?;
                 ast::IfThenElse {span: Default::default(), condition, left, right}.into()
             }
+            SpecialFunction::Other(symb) if is_macro => apply_macro(symb, args),
             SpecialFunction::Other(symb) => ast::Application::new_app(Default::default(),symb, args).into()
         }
     }
 }
 
+/// Is `symb` declared as a macro, see [super::super::top_level_converter]
+fn is_concrete<'a, O>(symb: Option<&O>, ctx: Context<'_, 'a>) -> bool
+where
+    O: Equivalent<OperatorName<'a>> + std::hash::Hash,
+{
+    symb.and_then(|symb| ctx.dump().get_operator(symb))
+        .is_some_and(|op| op.def().is_concrete())
+}
+
+fn apply_macro<'a>(
+    name: StrRef<'a>,
+    args: Vec<Term<'a, StrRef<'a>>>,
+) -> Term<'a, StrRef<'a>> {
+    ast::AppMacro {
+        span: Default::default(),
+        inner: ast::InnerAppMacro::Other {
+            name: name.into(),
+            args,
+        },
+    }
+    .into()
+}
+
 enum SpecialFunction<'a> {
     Op(Operation),
     If,
@@ -332,6 +358,9 @@ pub fn convert_function<'a>(
         .get_operator(symb)
         .map(|f| f.sort.args.is_empty())
     {
+        if is_concrete(Some(symb), ctx) {
+            return pure!(apply_macro(symb.sanitized(&ctx), vec![]));
+        }
         pure!(ast::Application::new_app(Default::default(), symb.sanitized(&ctx), []).into())
     } else {
         bail_at!(@ "no high order...")
-- 
2.43.0


From 16f4b71038bc4e5ca218abcd27528fb1a23891ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:24 +0000
Subject: [PATCH 31/31] fix: the inputs of every global macro of an action are
 bound, also in its updates

---
 .../src/squirrel/converters/ast_convertion.rs | 24 +++++++------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/crates/cryptovampire/src/squirrel/converters/ast_convertion.rs b/crates/cryptovampire/src/squirrel/converters/ast_convertion.rs
index 7acf41b..8126225 100644
--- a/crates/cryptovampire/src/squirrel/converters/ast_convertion.rs
+++ b/crates/cryptovampire/src/squirrel/converters/ast_convertion.rs
@@ -14,7 +14,7 @@ use crate::{
     squirrel::{
         converters::ContextBuilder,
         json::{
-            self, mmacro,
+            self,
             operator::{OperatorName, OperatorNameRef},
             NameNameRef,
         },
@@ -116,7 +116,7 @@ impl<'a> ToAst<'a> for json::Action<'a> {
             output,
             action: _,
             input: _,
-            globals,
+            globals: _,
         } = self;
 
         let name = ast::StepName::from(name.sanitized(&ctx));
@@ -153,17 +153,9 @@ impl<'a> ToAst<'a> for json::Action<'a> {
             .build()
             .unwrap();
 
-        let fst_global_macro = globals
-            .iter()
-            .filter_map(|symb| {
-                // FIXME: better deal with the option
-                ctx.dump().get_macro(symb)
-            })
-            .next();
-
         mdo! {
-            let! message = self.prepare_term(output.term(), fst_global_macro, ctx);
-            let! condition = self.prepare_term(condition.term(), fst_global_macro, ctx);
+            let! message = self.prepare_term(output.term(), ctx);
+            let! condition = self.prepare_term(condition.term(), ctx);
             let! assignements = Ok(AoOV::transpose_iter(assignements.clone()));
             let! args = Ok(AoOV::transpose_iter(args.clone()));
             pure ast::Step {
@@ -184,13 +176,15 @@ impl<'a> json::Action<'a> {
     fn prepare_term<'b>(
         &self,
         term: &json::Term<'a>,
-        fst_global_macro: Option<&mmacro::Data<'a>>,
         ctx: Context<'b, 'a>,
     ) -> RAoO<ast::Term<'a, StrRef<'a>>> {
         let output = term.convert(ctx).bind(|term| {
-            fst_global_macro
+            self.globals
                 .iter()
+                // FIXME: better deal with the option
+                .filter_map(|symb| ctx.dump().get_macro(symb))
                 .flat_map(|g| g.inputs_with_depth())
+                .unique()
                 .map(|(depth, v)| {
                     let path = &self.action[0..depth];
                     let a = ctx
@@ -255,7 +249,7 @@ impl<'a, 'b> ToAst<'a> for json::action::UpdateRef<'a, 'b> {
         mdo! {
             let! args = Ok(AoOV::transpose_iter(args));
             let! fresh_vars = Ok(AoOV::transpose_iter(fresh_vars.clone()));
-            let! term = body.convert(ctx);
+            let! term = action.prepare_term(body, ctx);
             pure ast::Assignement {
                 span: Default::default(),
                 cell: ast::Application::new_app(Default::default(),  symb.sanitized(&ctx), args.clone()),
-- 
2.43.0

