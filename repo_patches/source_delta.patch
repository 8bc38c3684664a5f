From 7159bcd3f943cf5838674dcda729c847cc3bd62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 01/10] fix: depth of the empty list is 1 instead of a panic

---
 src/enumo/sexp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/enumo/sexp.rs b/src/enumo/sexp.rs
index 597e618..c0b80b3 100644
--- a/src/enumo/sexp.rs
+++ b/src/enumo/sexp.rs
@@ -109,7 +109,7 @@ impl Sexp {
             Sexp::List(s) => match metric {
                 Metric::Atoms => s.iter().map(|x| x.measure(metric)).sum::<usize>(),
                 Metric::Lists => s.iter().map(|x| x.measure(metric)).sum::<usize>() + 1,
-                Metric::Depth => s.iter().map(|x| x.measure(metric)).max().unwrap() + 1,
+                Metric::Depth => s.iter().map(|x| x.measure(metric)).max().unwrap_or(0) + 1,
             },
         }
     }
-- 
2.43.0


From 5b739618a0ca4684db1a8367e1c22408b63937a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 02/10] fix: plugging keeps terms that contain the empty list

---
 src/enumo/sexp.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/enumo/sexp.rs b/src/enumo/sexp.rs
index c0b80b3..7c9c696 100644
--- a/src/enumo/sexp.rs
+++ b/src/enumo/sexp.rs
@@ -91,6 +91,7 @@ impl Sexp {
         match self {
             Sexp::Atom(s) if s == name => pegs.to_vec(),
             Sexp::Atom(_) => vec![self.clone()],
+            Sexp::List(sexps) if sexps.is_empty() => vec![self.clone()],
             Sexp::List(sexps) => sexps
                 .iter()
                 .map(|x| x.plug(name, pegs))
-- 
2.43.0


From 5e38db8bac2317e7f69c4994216a3e0a84b107a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 03/10] fix: plugging an empty workload excludes the literal
 name, not a pattern parsed from it

---
 src/enumo/workload.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/enumo/workload.rs b/src/enumo/workload.rs
index 913d333..7289943 100644
--- a/src/enumo/workload.rs
+++ b/src/enumo/workload.rs
@@ -127,7 +127,7 @@ impl Workload {
         match workload {
             // Empty plug is the same as filter excludes
             Workload::Set(xs) if xs.is_empty() => {
-                self.filter(Filter::Excludes(name.into().parse().unwrap()))
+                self.filter(Filter::Excludes(Pattern::Lit(name.into())))
             }
             _ => Workload::Plug(Box::new(self), name.into(), Box::new(workload.clone())),
         }
-- 
2.43.0


From c97540793bd6da741d7af0fb109f4833cd458484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 04/10] fix: validate encodes all bits of literals wider than
 64 bits

---
 src/bv.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bv.rs b/src/bv.rs
index 99323e9..8205eba 100644
--- a/src/bv.rs
+++ b/src/bv.rs
@@ -250,7 +250,11 @@ macro_rules! impl_bv {
                     for node in expr.as_ref().iter() {
                         match node {
                             Bv::Var(v) => buf.push(z3::ast::BV::new_const(&ctx, v.to_string(), $n)),
-                            Bv::Lit(c) => buf.push(z3::ast::BV::from_u64(&ctx, c.0 as u64, $n)),
+                            Bv::Lit(c) => buf.push(
+                                z3::ast::BV::from_u64(&ctx, (c.0 >> 64) as u64, 64)
+                                    .concat(&z3::ast::BV::from_u64(&ctx, c.0 as u64, 64))
+                                    .extract($n - 1, 0),
+                            ),
                             Bv::Add([a, b]) => buf.push(buf[usize::from(*a)].bvadd(&buf[usize::from(*b)])),
                             Bv::Sub([a, b]) => buf.push(buf[usize::from(*a)].bvsub(&buf[usize::from(*b)])),
                             Bv::Mul([a, b]) => buf.push(buf[usize::from(*a)].bvmul(&buf[usize::from(*b)])),
-- 
2.43.0


From 95d05dd736c00b4730801ae32a525efbbbdc0b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 05/10] fix: a workload without variables can be turned into an
 e-graph

---
 src/bv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bv.rs b/src/bv.rs
index 8205eba..e69f08a 100644
--- a/src/bv.rs
+++ b/src/bv.rs
@@ -231,7 +231,7 @@ macro_rules! impl_bv {
 
                 let mut cvecs = self_product(&consts, vars.len());
 
-                egraph.analysis.cvec_len = cvecs[0].len();
+                egraph.analysis.cvec_len = cvecs.first().map_or(1, |cvec| cvec.len());
 
                 for (i, v) in vars.iter().enumerate() {
                     let id = egraph.add(Bv::Var(Symbol::from(v.clone())));
-- 
2.43.0


From b6e2b49a9dada4109989c614e5260243c6ef720f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 06/10] fix: a malformed binary literal is a parse error
 instead of a panic

---
 src/bv.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bv.rs b/src/bv.rs
index e69f08a..2263653 100644
--- a/src/bv.rs
+++ b/src/bv.rs
@@ -113,8 +113,7 @@ impl<const N: Inner> std::str::FromStr for BV<N> {
     type Err = std::num::ParseIntError;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         if let Some(stripped) = s.strip_prefix("#b") {
-            let i = Inner::from_str_radix(stripped, 2).unwrap();
-            return Ok(Self::new(i));
+            return Inner::from_str_radix(stripped, 2).map(Self::new);
         }
         s.parse::<Inner>().map(Self::new)
     }
-- 
2.43.0


From 457703a5e3a4cb9c773323d533e61e77e5e72ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 07/10] fix: cvec_match requires a common defined entry, as
 documented

---
 src/enumo/ruleset.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/enumo/ruleset.rs b/src/enumo/ruleset.rs
index ac0130e..2c28608 100644
--- a/src/enumo/ruleset.rs
+++ b/src/enumo/ruleset.rs
@@ -280,13 +280,15 @@ impl<L: SynthLanguage> Ruleset<L> {
             .collect();
 
         let compare = |cvec1: &CVec<L>, cvec2: &CVec<L>| -> bool {
+            let mut overlap = false;
             for tup in cvec1.iter().zip(cvec2) {
                 match tup {
                     (Some(a), Some(b)) if a != b => return false,
+                    (Some(_), Some(_)) => overlap = true,
                     _ => (),
                 }
             }
-            true
+            overlap
         };
         let mut candidates = Ruleset::default();
         let extract = Extractor::new(egraph, AstSize);
-- 
2.43.0


From daa472158c58849d19653a7ddfe8e0d161fd116f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 08/10] fix: a reverse rule that is not a candidate is not
 reported as invalid

---
 src/enumo/ruleset.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/enumo/ruleset.rs b/src/enumo/ruleset.rs
index 2c28608..3ec865c 100644
--- a/src/enumo/ruleset.rs
+++ b/src/enumo/ruleset.rs
@@ -376,10 +376,12 @@ impl<L: SynthLanguage> Ruleset<L> {
                 // If reverse direction is also in candidates, add it at the same time
                 let reverse = Rule::new(&rule.rhs, &rule.lhs);
                 if let Some(reverse) = reverse {
-                    if self.contains(&reverse) && reverse.is_valid() {
-                        selected.add(reverse);
-                    } else {
-                        invalid.add(reverse);
+                    if self.contains(&reverse) {
+                        if reverse.is_valid() {
+                            selected.add(reverse);
+                        } else {
+                            invalid.add(reverse);
+                        }
                     }
                 }
             } else {
-- 
2.43.0


From 6de699969fb361b73178dd19307ac05809bd2ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 09/10] fix: rule separators do not need surrounding whitespace

---
 src/enumo/rule.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/enumo/rule.rs b/src/enumo/rule.rs
index 9ebdf2d..8fffe26 100644
--- a/src/enumo/rule.rs
+++ b/src/enumo/rule.rs
@@ -26,6 +26,10 @@ impl<L: SynthLanguage> Display for Rule<L> {
 impl<L: SynthLanguage> Rule<L> {
     pub fn from_string(s: &str) -> Result<(Self, Option<Self>), String> {
         if let Some((l, r)) = s.split_once("=>") {
+            let (l, bidirectional) = match l.strip_suffix('<') {
+                Some(l) => (l, true),
+                None => (l.strip_suffix('=').unwrap_or(l), false),
+            };
             let l_pat: Pattern<L> = l.parse().unwrap();
             let r_pat: Pattern<L> = r.parse().unwrap();
 
@@ -41,7 +45,7 @@ impl<L: SynthLanguage> Rule<L> {
                 .unwrap(),
             };
 
-            if s.contains("<=>") {
+            if bidirectional {
                 let backwards = Self {
                     name: format!("{} ==> {}", r_pat, l_pat).into(),
                     lhs: r_pat.clone(),
-- 
2.43.0


From 43bae56b435c439097eade21786fa5439fc7f77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 10/10] fix: recursive_rules builds a grammar for the operator
 arities it is given

---
 src/recipe_utils.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/recipe_utils.rs b/src/recipe_utils.rs
index af9771f..4446654 100644
--- a/src/recipe_utils.rs
+++ b/src/recipe_utils.rs
@@ -173,11 +173,7 @@ pub fn recursive_rules<L: SynthLanguage>(
         Ruleset::default()
     } else {
         let mut rec = recursive_rules(metric, n - 1, lang.clone(), prior.clone());
-        let base_lang = if lang.ops.len() == 2 {
-            base_lang(2)
-        } else {
-            base_lang(3)
-        };
+        let base_lang = base_lang(lang.ops.len());
         let mut wkld = iter_metric(base_lang, "EXPR", metric, n)
             .filter(Filter::Contains("VAR".parse().unwrap()))
             .plug("VAR", &Workload::new(lang.vars))
-- 
2.43.0

