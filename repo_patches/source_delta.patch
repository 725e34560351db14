From ac8393195d8ee53e121f26390e121c7e0d4a470b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:42 +0000
Subject: [PATCH 01/22] verif: expose the conflict handler under
 cfg(splr_verif)

---
 src/solver/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/solver/mod.rs b/src/solver/mod.rs
index b9ea893..4299e1c 100644
--- a/src/solver/mod.rs
+++ b/src/solver/mod.rs
@@ -22,6 +22,13 @@ pub use self::{
 
 use crate::{assign::AssignStack, cdb::ClauseDB, state::*, types::*};
 
+/// Access to the steps of the search engine, for verification harnesses only.
+#[allow(unexpected_cfgs)]
+#[cfg(splr_verif)]
+pub mod verif {
+    pub use super::conflict::handle_conflict;
+}
+
 /// Normal results returned by Solver.
 #[derive(Debug, Eq, PartialEq)]
 pub enum Certificate {
-- 
2.43.0


From 25c0922adb863a6d67fe9cf68fb3393df570d507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:29 +0000
Subject: [PATCH 02/22] fix: purge removed clauses from the occurrence lists of
 assigned vars

A clause id is recycled as soon as its clause is removed. Leaving the id in
the occurrence lists of assigned vars makes add_cid_occur meet it again when a
resolvent reuses the slot: debug builds panic with 'found a strange negative
clause', release builds register the clause twice.
---
 src/processor/simplify.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/processor/simplify.rs b/src/processor/simplify.rs
index f62dbdb..a34fed1 100644
--- a/src/processor/simplify.rs
+++ b/src/processor/simplify.rs
@@ -385,11 +385,9 @@ impl Eliminator {
         debug_assert!(!cid.is_lifted_lit());
         debug_assert!(!c.is_dead());
         c.turn_off(FlagClause::OCCUR_LINKED);
+        // Occurrences in assigned vars must be purged too, because 'cid' can be reused.
         for l in c.iter() {
-            if asg.assign(l.vi()).is_none() {
-                self.remove_lit_occur(asg, *l, cid);
-                self.enqueue_var(asg, l.vi(), true);
-            }
+            self.remove_lit_occur(asg, *l, cid);
         }
     }
     /// set eliminator's mode to **dormant**.
-- 
2.43.0


From 68b520ebb19bd36cb7d7b1923db8b9d98de0980f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:25 +0000
Subject: [PATCH 03/22] verif: make the base length of search stages settable
 under cfg(splr_verif)

---
 src/solver/mod.rs    | 3 +++
 src/solver/search.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/solver/mod.rs b/src/solver/mod.rs
index 4299e1c..154b54d 100644
--- a/src/solver/mod.rs
+++ b/src/solver/mod.rs
@@ -27,6 +27,9 @@ use crate::{assign::AssignStack, cdb::ClauseDB, state::*, types::*};
 #[cfg(splr_verif)]
 pub mod verif {
     pub use super::conflict::handle_conflict;
+    /// The base length of a stage of the search, in learnt clauses.
+    pub static STAGE_SIZE: std::sync::atomic::AtomicUsize =
+        std::sync::atomic::AtomicUsize::new(32);
 }
 
 /// Normal results returned by Solver.
diff --git a/src/solver/search.rs b/src/solver/search.rs
index 1fa2c27..9dcd6ce 100644
--- a/src/solver/search.rs
+++ b/src/solver/search.rs
@@ -230,6 +230,9 @@ fn search(
     let mut current_core: usize = 999_999;
     let mut core_was_rebuilt: Option<usize> = None;
     let stage_size: usize = 32;
+    #[allow(unexpected_cfgs)]
+    #[cfg(splr_verif)]
+    let stage_size = super::verif::STAGE_SIZE.load(std::sync::atomic::Ordering::Relaxed);
     #[cfg(feature = "rephase")]
     let mut sls_core = cdb.derefer(cdb::property::Tusize::NumClause);
 
-- 
2.43.0


From fa05a1496d53ad8aa59d88a0ec50c983029ba759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:32 +0000
Subject: [PATCH 04/22] fix: reject zero and out-of-range literals in
 inject_assignment

---
 src/solver/validate.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/solver/validate.rs b/src/solver/validate.rs
index acdb66d..4f06dc6 100644
--- a/src/solver/validate.rs
+++ b/src/solver/validate.rs
@@ -12,7 +12,8 @@ pub trait ValidateIF {
     ///
     /// # Errors
     ///
-    /// if solver becomes inconsistent.
+    /// * `SolverError::InvalidLiteral` if a literal is zero or out of range for var index.
+    /// * otherwise if solver becomes inconsistent.
     fn inject_assignment(&mut self, vec: &[i32]) -> MaybeInconsistent;
     /// return `true` is the loaded assignment set is satisfiable (a model of a problem).
     fn validate(&self) -> Option<Vec<i32>>;
@@ -40,6 +41,12 @@ impl ValidateIF for Solver {
         if vec.is_empty() {
             return Err(SolverError::Inconsistent);
         }
+        if vec
+            .iter()
+            .any(|i| *i == 0 || self.asg.num_vars < i.unsigned_abs() as usize)
+        {
+            return Err(SolverError::InvalidLiteral);
+        }
         for i in vec {
             self.asg.assign_at_root_level(Lit::from(*i))?;
         }
-- 
2.43.0


From eacae6d13f15eb0caffb7b150737039585dd861f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:31 +0000
Subject: [PATCH 05/22] fix: count added variables in the description the
 eliminator is built from

---
 src/state.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/state.rs b/src/state.rs
index d5b9845..0019352 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -229,6 +229,7 @@ impl Instantiate for State {
     fn handle(&mut self, e: SolverEvent) {
         match e {
             SolverEvent::NewVar => {
+                self.cnf.num_of_variables += 1;
                 self.target.num_of_variables += 1;
             }
             SolverEvent::Assert(_) => (),
-- 
2.43.0


From cfee71fdeea2858d2e1e5029348aa486c5aec244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:47 +0000
Subject: [PATCH 06/22] fix: report a malformed DIMACS header as an error
 instead of panicking

---
 src/types/cnf.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/types/cnf.rs b/src/types/cnf.rs
index f9145f1..e609642 100644
--- a/src/types/cnf.rs
+++ b/src/types/cnf.rs
@@ -120,11 +120,11 @@ impl TryFrom<&Path> for CNFReader {
                     let mut iter = buf.split_whitespace();
                     if iter.next() == Some("p")
                         && iter.next() == Some("cnf")
-                        && let Some(v) = iter.next().map(|s| s.parse::<usize>().ok().unwrap())
-                        && let Some(c) = iter.next().map(|s| s.parse::<usize>().ok().unwrap())
+                        && let Some(v) = iter.next()
+                        && let Some(c) = iter.next()
                     {
-                        nv = v;
-                        nc = c;
+                        nv = v.parse::<usize>().map_err(|_| SolverError::IOError)?;
+                        nc = c.parse::<usize>().map_err(|_| SolverError::IOError)?;
                         found_valid_header = true;
                         break;
                     }
-- 
2.43.0


From be571a67b64cb1e008913c974de2331567b65cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:34 +0000
Subject: [PATCH 07/22] fix: read every clause of a DIMACS file and reject what
 is no clause

Several clauses on a line, clauses over several lines and the '%' end mark
are read; out-of-range literals and other tokens are errors.
---
 src/solver/build.rs | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/solver/build.rs b/src/solver/build.rs
index b47a399..7aaaebb 100644
--- a/src/solver/build.rs
+++ b/src/solver/build.rs
@@ -287,37 +287,39 @@ impl Solver {
         self.state.progress(&self.asg, &self.cdb);
         self.state.flush("Initialization phase: loading...");
         let mut buf = String::new();
+        // A clause ends at its 0, whether or not the line does.
+        let mut v: Vec<Lit> = Vec::new();
         loop {
             buf.clear();
-            let mut ends_zero = false;
             match reader.read_line(&mut buf) {
                 Ok(0) => break,
                 Ok(_) if buf.starts_with('c') => continue,
+                // the end mark of SATLIB files
+                Ok(_) if buf.trim() == "%" => break,
                 Ok(_) => {
-                    let iter = buf.split_whitespace();
-                    let mut v: Vec<Lit> = Vec::new();
-                    for s in iter {
+                    for s in buf.split_whitespace() {
                         match s.parse::<i32>() {
                             Ok(0) => {
-                                ends_zero = true;
-                                break;
+                                if self.add_unchecked_clause(&mut v) == RefClause::EmptyClause {
+                                    return Err(SolverError::EmptyClause);
+                                }
+                                v.clear();
+                            }
+                            Ok(val) if self.asg.num_vars < val.unsigned_abs() as usize => {
+                                return Err(SolverError::InvalidLiteral);
                             }
                             Ok(val) => v.push(Lit::from(val)),
-                            Err(_) => (),
-                        }
-                    }
-                    if v.is_empty() {
-                        if ends_zero {
-                            return Err(SolverError::EmptyClause);
+                            Err(_) => return Err(SolverError::IOError),
                         }
-                        continue;
-                    } else if self.add_unchecked_clause(&mut v) == RefClause::EmptyClause {
-                        return Err(SolverError::EmptyClause);
                     }
                 }
-                Err(e) => panic!("{}", e),
+                Err(_) => return Err(SolverError::IOError),
             }
         }
+        // the last clause might lack its 0
+        if !v.is_empty() && self.add_unchecked_clause(&mut v) == RefClause::EmptyClause {
+            return Err(SolverError::EmptyClause);
+        }
         debug_assert_eq!(self.asg.num_vars, self.state.target.num_of_variables);
         // s.state[Stat::NumBin] = s.cdb.iter().skip(1).filter(|c| c.len() == 2).count();
         Ok(self)
-- 
2.43.0


From 4e90b0e6aae24ecd0c22909867890da54fcdee85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:02 +0000
Subject: [PATCH 08/22] fix: take the last element of the decision heap into
 account when percolating down

---
 src/assign/heap.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/assign/heap.rs b/src/assign/heap.rs
index 2552dca..0c94d6a 100644
--- a/src/assign/heap.rs
+++ b/src/assign/heap.rs
@@ -126,11 +126,11 @@ impl VarHeapIF for AssignStack {
         let ai = self.activity(vi as usize);
         loop {
             let l = 2 * i; // left
-            if l < n as u32 {
+            if l <= n as u32 {
                 let vl = self.var_order.heap[l as usize];
                 let al = self.activity(vl as usize);
                 let r = l + 1; // right
-                let (target, vc, ac) = if r < (n as u32)
+                let (target, vc, ac) = if r <= (n as u32)
                     && al < self.activity(self.var_order.heap[r as usize] as usize)
                 {
                     let vr = self.var_order.heap[r as usize];
-- 
2.43.0


From 7b124f27a70d6259b628c5838cdfe0c237eacdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:04 +0000
Subject: [PATCH 09/22] fix: keep the unit clauses given to CNF::from_vec_i32

---
 src/cnf/mod.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/cnf/mod.rs b/src/cnf/mod.rs
index c9090c7..c0844f1 100644
--- a/src/cnf/mod.rs
+++ b/src/cnf/mod.rs
@@ -93,18 +93,17 @@ impl CnfIf for CNF {
                 }
                 1 => {
                     let l: i32 = ref_c[0];
-                    if cnf.assign.contains(&-l) {
+                    if l.checked_neg().is_some_and(|n| cnf.assign.contains(&n)) {
                         return Err(CNFOperationError::AddignConflictingAssingment);
                     }
                     cnf.assign.insert(l);
                 }
-                _ => {
-                    let mut cc = ref_c.clone();
-                    cc.sort_unstable();
-                    cnf.cls_map.insert(cc);
-                    cnf.clauses.push(ref_c.clone());
-                }
+                _ => (),
             }
+            let mut cc = ref_c.clone();
+            cc.sort_unstable();
+            cnf.cls_map.insert(cc);
+            cnf.clauses.push(ref_c.clone());
             max_var = max_var.max(ref_c.iter().map(|v| v.unsigned_abs()).max().unwrap());
         }
         cnf.num_vars = max_var;
-- 
2.43.0


From 680f5b9c69547e77d641dbfd919d8892a97f75c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:05 +0000
Subject: [PATCH 10/22] fix: dump a CNF without clauses as such

---
 src/cnf/mod.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/cnf/mod.rs b/src/cnf/mod.rs
index c0844f1..1cdbc28 100644
--- a/src/cnf/mod.rs
+++ b/src/cnf/mod.rs
@@ -196,18 +196,13 @@ impl CnfIf for CNF {
     }
     fn dump_to_string(&self) -> String {
         format!(
-            "p cnf {} {}\n{} 0\n",
+            "p cnf {} {}\n{}",
             self.num_vars,
             self.clauses.len(),
             self.clauses
                 .iter()
-                .map(|cls| cls
-                    .iter()
-                    .map(|ch| format!("{ch}"))
-                    .collect::<Vec<_>>()
-                    .join(" "))
-                .collect::<Vec<_>>()
-                .join(" 0\n"),
+                .map(|cls| cls.iter().map(|ch| format!("{ch} ")).collect::<String>() + "0\n")
+                .collect::<String>(),
         )
     }
 }
-- 
2.43.0


From f7723292c73e0cdeebb3c14d95987d85daa47b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:44 +0000
Subject: [PATCH 11/22] fix: report what is no CNF file as an error in
 CNF::load

---
 src/cnf/mod.rs | 55 +++++++++++++++++++++++++++-----------------------
 1 file changed, 30 insertions(+), 25 deletions(-)

diff --git a/src/cnf/mod.rs b/src/cnf/mod.rs
index 1cdbc28..05a76cd 100644
--- a/src/cnf/mod.rs
+++ b/src/cnf/mod.rs
@@ -119,42 +119,43 @@ impl CnfIf for CNF {
         let mut found_valid_header = false;
         let mut clause_extists_already = false;
         let mut cnf = CNF::default();
+        let mut vec: Vec<i32> = Vec::new();
+        let mut add = |cnf: &mut CNF, vec: &mut Vec<i32>| match cnf.add_clause(std::mem::take(vec)) {
+            Err(CNFOperationError::AddingClauseExists) => {
+                clause_extists_already = true;
+                Ok(())
+            }
+            Err(e) => Err(e),
+            Ok(_) => {
+                num_clause += 1;
+                Ok(())
+            }
+        };
         loop {
             buf.clear();
             match reader.read_line(&mut buf) {
                 Ok(0) => break,
-                Ok(_) if buf == "\n" => (),
                 Ok(_) if buf.starts_with('c') => (),
+                // the end mark found in some benchmark files
+                Ok(_) if found_valid_header && buf.trim() == "%" => break,
                 Ok(_) if found_valid_header => {
-                    let mut vec: Vec<i32> = Vec::new();
-                    for seg in buf.split(' ') {
-                        if let Ok(l) = seg.parse::<i32>() {
-                            if l == 0 {
-                                break;
-                            }
-                            vec.push(l);
-                        }
-                    }
-                    debug_assert!(!vec.is_empty());
-                    if let Err(e) = cnf.add_clause(vec) {
-                        if e == CNFOperationError::AddingClauseExists {
-                            clause_extists_already = true;
-                        } else {
-                            return Err(e);
+                    for seg in buf.split_whitespace() {
+                        match seg.parse::<i32>() {
+                            Ok(0) => add(&mut cnf, &mut vec)?,
+                            Ok(l) => vec.push(l),
+                            Err(_) => return Err(CNFOperationError::ParsingCNF),
                         }
-                    } else {
-                        num_clause += 1;
                     }
                 }
                 Ok(_) => {
                     let mut iter = buf.split_whitespace();
                     if iter.next() == Some("p")
                         && iter.next() == Some("cnf")
-                        && let Some(v) = iter.next().map(|s| s.parse::<usize>().ok().unwrap())
-                        && let Some(c) = iter.next().map(|s| s.parse::<usize>().ok().unwrap())
+                        && let Some(v) = iter.next()
+                        && let Some(c) = iter.next()
                     {
-                        nv = v as u32;
-                        nc = c;
+                        nv = v.parse().map_err(|_| CNFOperationError::ParsingCNF)?;
+                        nc = c.parse().map_err(|_| CNFOperationError::ParsingCNF)?;
                         found_valid_header = true;
                         cnf.no_check_uniqueness = TOO_MANY_CLAUSES < nc;
                     }
@@ -164,6 +165,10 @@ impl CnfIf for CNF {
                 }
             }
         }
+        if !vec.is_empty() {
+            // the last clause lacks its terminator
+            add(&mut cnf, &mut vec)?;
+        }
         if !found_valid_header {
             return Err(CNFOperationError::ParsingCNF);
         }
@@ -171,10 +176,10 @@ impl CnfIf for CNF {
             println!("Warning: there are less variables than its declaration.");
         }
         if clause_extists_already {
-            assert_eq!(cnf.num_clauses(), num_clause);
+            debug_assert_eq!(cnf.num_clauses(), num_clause);
             println!("Warning: there are less clauses than its declaration.");
-        } else if cnf.num_clauses() < TOO_MANY_CLAUSES {
-            assert_eq!(cnf.num_clauses(), nc);
+        } else if cnf.num_clauses() < TOO_MANY_CLAUSES && cnf.num_clauses() != nc {
+            return Err(CNFOperationError::ParsingCNF);
         }
         Ok(cnf)
     }
-- 
2.43.0


From fcf67e1817fc7c50151a52e0d3a705d6df1b0c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:19 +0000
Subject: [PATCH 12/22] fix: reject variables that no literal can represent

---
 src/solver/build.rs | 6 ++++++
 src/types/cnf.rs    | 2 +-
 src/types/lit.rs    | 4 ++++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/solver/build.rs b/src/solver/build.rs
index 7aaaebb..9aca204 100644
--- a/src/solver/build.rs
+++ b/src/solver/build.rs
@@ -146,6 +146,9 @@ where
     type Error = SolverResult;
     fn try_from((config, vec): (Config, &[V])) -> Result<Self, Self::Error> {
         let cnf = CNFDescription::from(vec);
+        if MAX_VAR_ID < cnf.num_of_variables {
+            return Err(Err(SolverError::InvalidLiteral));
+        }
         match Solver::instantiate(&config, &cnf).inject_from_vec(vec) {
             Err(SolverError::RootLevelConflict(_)) => Err(Ok(Certificate::UNSAT)),
             Err(e) => Err(Err(e)),
@@ -232,6 +235,9 @@ impl SatSolverIF for Solver {
     #[cfg(not(feature = "no_IO"))]
     fn build(config: &Config) -> Result<Solver, SolverError> {
         let CNFReader { cnf, reader } = CNFReader::try_from(Path::new(&config.cnf_file))?;
+        if MAX_VAR_ID < cnf.num_of_variables {
+            return Err(SolverError::InvalidLiteral);
+        }
         Solver::instantiate(config, &cnf).inject(reader)
     }
     #[cfg(not(feature = "no_IO"))]
diff --git a/src/types/cnf.rs b/src/types/cnf.rs
index e609642..5830f35 100644
--- a/src/types/cnf.rs
+++ b/src/types/cnf.rs
@@ -73,7 +73,7 @@ impl<V: AsRef<[i32]>> From<&[V]> for CNFDescription {
     fn from(vec: &[V]) -> Self {
         let num_of_variables = vec
             .iter()
-            .map(|clause| clause.as_ref().iter().map(|l| l.abs()).max().unwrap_or(0))
+            .map(|clause| clause.as_ref().iter().map(|l| l.unsigned_abs()).max().unwrap_or(0))
             .max()
             .unwrap_or(0) as usize;
         CNFDescription {
diff --git a/src/types/lit.rs b/src/types/lit.rs
index 31ccf20..262c926 100644
--- a/src/types/lit.rs
+++ b/src/types/lit.rs
@@ -7,6 +7,10 @@ use {
     },
 };
 
+/// The largest variable a literal can represent.
+/// Note: the most significant bit is used for lifting literals to clause ids.
+pub const MAX_VAR_ID: VarId = 0x3FFF_FFFF;
+
 /// API for Literal like `vi`, `as_bool`, `is_none` and so on.
 pub trait LitIF {
     /// convert to bool
-- 
2.43.0


From 130c19287a55fbfb3477e173d9d3439c6df93b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:34 +0000
Subject: [PATCH 13/22] fix: give no occurrence statistics when the eliminator
 is not running

---
 src/processor/simplify.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/processor/simplify.rs b/src/processor/simplify.rs
index a34fed1..2ad0bd1 100644
--- a/src/processor/simplify.rs
+++ b/src/processor/simplify.rs
@@ -309,7 +309,9 @@ impl EliminateIF for Eliminator {
     }
     fn stats(&self, vi: VarId) -> Option<(usize, usize)> {
         let w = &self[vi];
-        if w.aborted {
+        // The occurrence lists are valid only while running. Otherwise they say
+        // nothing about `vi`, for example if the eliminator is disabled.
+        if w.aborted || self.mode != EliminatorMode::Running {
             None
         } else {
             Some((w.pos_occurs.len(), w.neg_occurs.len()))
-- 
2.43.0


From 07684bf28ebd109990f33d43f4d649409d3e20e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:09 +0000
Subject: [PATCH 14/22] fix: take the number of clauses in a header for a hint

---
 src/cdb/db.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cdb/db.rs b/src/cdb/db.rs
index 650a669..a45f861 100644
--- a/src/cdb/db.rs
+++ b/src/cdb/db.rs
@@ -239,7 +239,9 @@ impl Instantiate for ClauseDB {
     fn instantiate(config: &Config, cnf: &CNFDescription) -> ClauseDB {
         let nv = cnf.num_of_variables;
         let nc = cnf.num_of_clauses;
-        let mut clause = Vec::with_capacity(1 + nc);
+        let mut clause = Vec::new();
+        // The number of clauses is what a header says. It may be anything.
+        let _ = clause.try_reserve(nc.saturating_add(1));
         clause.push(Clause::default());
         let mut watcher = Vec::with_capacity(2 * (nv + 1));
         for _ in 0..2 * (nv + 1) {
-- 
2.43.0


From 58e123e1b9790f903500632fcaeb46f9ae8abfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:13 +0000
Subject: [PATCH 15/22] fix: refresh cached watch literals after a literal is
 removed from a clause

---
 src/cdb/db.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cdb/db.rs b/src/cdb/db.rs
index a45f861..9a28688 100644
--- a/src/cdb/db.rs
+++ b/src/cdb/db.rs
@@ -686,6 +686,10 @@ impl ClauseDBIF for ClauseDB {
                 debug_assert_eq!(old_l0, l0);
                 debug_assert_eq!(old_l1, l1);
             }
+            // The cached literals must be in the clause. `p` can be satisfied later, while
+            // the clause without it is not.
+            watch_cache[!l0].update_watch(cid, l1);
+            watch_cache[!l1].update_watch(cid, l0);
 
             #[cfg(feature = "maintain_watch_cache")]
             {
-- 
2.43.0


From 04d8d5e9faa4f5ff9f4646d3e72a4e0c6f907cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:41 +0000
Subject: [PATCH 16/22] fix: save the result and the certificate of a CNF that
 is inconsistent at load

---
 src/bin/splr.rs     | 11 +++++++++++
 src/solver/build.rs |  3 +++
 2 files changed, 14 insertions(+)

diff --git a/src/bin/splr.rs b/src/bin/splr.rs
index cc36b38..67031ae 100644
--- a/src/bin/splr.rs
+++ b/src/bin/splr.rs
@@ -90,6 +90,7 @@ fn main() {
                 colored(Ok(false), config.no_color),
                 config.cnf_file.file_name().unwrap().to_string_lossy(),
             );
+            save_unsat(&cnf_file, ans_file);
             std::process::exit(20);
         }
         Err(e) => {
@@ -106,6 +107,16 @@ fn main() {
     });
 }
 
+/// Save the result for a CNF that was found inconsistent while being loaded.
+fn save_unsat(input: &str, output: Option<PathBuf>) {
+    let result = format!(
+        "c The empty assignment set generated by splr-{VERSION} for {input}\nc \ns UNSATISFIABLE\n0\n",
+    );
+    if !output.is_some_and(|file| std::fs::write(file, &result).is_ok()) {
+        print!("{result}");
+    }
+}
+
 fn save_result<S: AsRef<str> + std::fmt::Display>(
     s: &mut Solver,
     res: &SolverResult,
diff --git a/src/solver/build.rs b/src/solver/build.rs
index 9aca204..458b28f 100644
--- a/src/solver/build.rs
+++ b/src/solver/build.rs
@@ -307,6 +307,7 @@ impl Solver {
                         match s.parse::<i32>() {
                             Ok(0) => {
                                 if self.add_unchecked_clause(&mut v) == RefClause::EmptyClause {
+                                    self.cdb.certificate_save();
                                     return Err(SolverError::EmptyClause);
                                 }
                                 v.clear();
@@ -324,6 +325,7 @@ impl Solver {
         }
         // the last clause might lack its 0
         if !v.is_empty() && self.add_unchecked_clause(&mut v) == RefClause::EmptyClause {
+            self.cdb.certificate_save();
             return Err(SolverError::EmptyClause);
         }
         debug_assert_eq!(self.asg.num_vars, self.state.target.num_of_variables);
@@ -352,6 +354,7 @@ impl Solver {
                 return Err(SolverError::EmptyClause);
             }
             if self.add_unchecked_clause(&mut lits) == RefClause::EmptyClause {
+                self.cdb.certificate_save();
                 return Err(SolverError::EmptyClause);
             }
         }
-- 
2.43.0


From 23f5ac34997447cab4f3a3e5d47b21b51e8e0456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:18 +0000
Subject: [PATCH 17/22] fix: command-line options: refuse a too large --crl;
 the value of an option isn't the target file

---
 src/config.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index c4ac8d7..b0b27bc 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -149,7 +149,10 @@ impl Config {
 
         let args = std::env::args();
         let mut iter = args.skip(1);
+        // true if the last argument is an option or its value
+        let mut no_target = false;
         while let Some(arg) = iter.next() {
+            no_target = arg.starts_with('-');
             if let Some(stripped) = arg.strip_prefix("--") {
                 let flags = [
                     "no-color", "quiet", "certify", "heatmap", "journal", "help", "version",
@@ -177,7 +180,10 @@ impl Config {
                                 if let Ok(val) = str.parse::<usize>() {
                                     match name {
                                         "cl" => self.c_cls_lim = val,
-                                        "crl" => self.cls_rdc_lbd = val as u16,
+                                        "crl" => {
+                                            self.cls_rdc_lbd = u16::try_from(val)
+                                                .unwrap_or_else(|_| panic!("invalid value {name}"))
+                                        }
                                         "ecl" => self.elm_cls_lim = val,
                                         "evl" => self.elm_grw_lim = val,
                                         "evo" => self.elm_var_occ = val,
@@ -310,7 +316,7 @@ impl Config {
             println!("{}", env!("CARGO_PKG_VERSION"));
             std::process::exit(0);
         }
-        if self.cnf_file.to_string_lossy().is_empty() {
+        if no_target || self.cnf_file.to_string_lossy().is_empty() {
             println!("No target file specified. Run with '--help' to show help message.");
             std::process::exit(0);
         }
-- 
2.43.0


From 9dbc0873cc1378f40d40969501f564abcb894d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:49 +0000
Subject: [PATCH 18/22] fix: the time limit was truncated to whole seconds

---
 src/state.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/state.rs b/src/state.rs
index 0019352..b778a18 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -1,8 +1,8 @@
 /// Module `state` is a collection of internal data.
 #[cfg(feature = "platform_wasm")]
-use instant::{Duration, Instant};
+use instant::Instant;
 #[cfg(not(feature = "platform_wasm"))]
-use std::time::{Duration, Instant};
+use std::time::Instant;
 use {
     crate::{
         assign, cdb,
@@ -390,13 +390,10 @@ macro_rules! f {
 
 impl StateIF for State {
     fn is_timeout(&self) -> bool {
-        Duration::from_secs(self.config.c_timeout as u64) < self.start.elapsed()
+        self.config.c_timeout.max(0.0) < self.start.elapsed().as_secs_f64()
     }
     fn elapsed(&self) -> Option<f64> {
-        Some(
-            self.start.elapsed().as_secs_f64()
-                / Duration::from_secs(self.config.c_timeout as u64).as_secs_f64(),
-        )
+        Some(self.start.elapsed().as_secs_f64() / self.config.c_timeout.max(0.0))
     }
     fn progress_header(&mut self) {
         if !self.config.splr_interface || self.config.quiet_mode {
-- 
2.43.0


From 8b680e6887b315102f64c0e8c72c464e7c8cbce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:05 +0000
Subject: [PATCH 19/22] fix: dump_cnf lost the assertions

---
 src/cdb/db.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cdb/db.rs b/src/cdb/db.rs
index 9a28688..e062498 100644
--- a/src/cdb/db.rs
+++ b/src/cdb/db.rs
@@ -1276,7 +1276,7 @@ impl ClauseDBIF for ClauseDB {
     /// dump all active clauses and assertions as a CNF file.
     fn dump_cnf(&self, asg: &impl AssignIF, fname: &Path) {
         let nv = asg.derefer(crate::assign::property::Tusize::NumVar);
-        for vi in 1..nv {
+        for vi in 1..=nv {
             if asg.var(vi).is(FlagVar::ELIMINATED) && asg.assign(vi).is_some() {
                 panic!("conflicting var {} {:?}", vi, asg.assign(vi));
             }
@@ -1285,9 +1285,13 @@ impl ClauseDBIF for ClauseDB {
             return;
         };
         let mut buf = std::io::BufWriter::new(out);
-        let na = asg.derefer(crate::assign::property::Tusize::NumAssertedVar);
+        // assertions might have gone from the trail
+        let facts: Vec<Lit> = (1..=nv)
+            .filter(|vi| asg.level(*vi) == asg.root_level())
+            .filter_map(|vi| asg.assign(vi).map(|b| Lit::from((vi, b))))
+            .collect();
         let nc = self.iter().skip(1).filter(|c| !c.is_dead()).count();
-        buf.write_all(format!("p cnf {} {}\n", nv, nc + na).as_bytes())
+        buf.write_all(format!("p cnf {} {}\n", nv, nc + facts.len()).as_bytes())
             .unwrap();
         for c in self.iter().skip(1) {
             if c.is_dead() {
@@ -1300,7 +1304,7 @@ impl ClauseDBIF for ClauseDB {
             buf.write_all(b"0\n").unwrap();
         }
         buf.write_all(b"c from trail\n").unwrap();
-        for x in asg.stack_iter().take(asg.len_upto(0)) {
+        for x in facts.iter() {
             buf.write_all(format!("{} 0\n", i32::from(*x)).as_bytes())
                 .unwrap();
         }
-- 
2.43.0


From 62331f3d8dec38f72e037ed562f5a1d7a7f7bada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:16 +0000
Subject: [PATCH 20/22] fix: the number of learnt clauses stayed too large when
 a learnt clause subsumed a given one

try_subsume cleared the LEARNT flag without correcting num_learnt. The number of
permanent clauses, num_clause - num_learnt, could wrap around.
---
 src/cdb/db.rs            | 7 +++++++
 src/cdb/mod.rs           | 2 ++
 src/processor/subsume.rs | 2 +-
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/cdb/db.rs b/src/cdb/db.rs
index e062498..bbf11f1 100644
--- a/src/cdb/db.rs
+++ b/src/cdb/db.rs
@@ -1033,6 +1033,13 @@ impl ClauseDBIF for ClauseDB {
         }
         learnt
     }
+    fn make_permanent(&mut self, cid: ClauseId) {
+        let c = &mut self.clause[NonZeroU32::get(cid.ordinal) as usize];
+        if c.is(FlagClause::LEARNT) {
+            c.turn_off(FlagClause::LEARNT);
+            self.num_learnt -= 1;
+        }
+    }
     /// reduce the number of 'learnt' or *removable* clauses.
     fn reduce(&mut self, asg: &mut impl AssignIF, setting: ReductionType) {
         let ClauseDB {
diff --git a/src/cdb/mod.rs b/src/cdb/mod.rs
index dced024..8ddb830 100644
--- a/src/cdb/mod.rs
+++ b/src/cdb/mod.rs
@@ -115,6 +115,8 @@ pub trait ClauseDBIF:
     fn transform_by_replacement(&mut self, cid: ClauseId, vec: &mut Vec<Lit>) -> RefClause;
     /// check satisfied and nullified literals in a clause
     fn transform_by_simplification(&mut self, asg: &mut impl AssignIF, cid: ClauseId) -> RefClause;
+    /// turn a learnt clause into a permanent one.
+    fn make_permanent(&mut self, cid: ClauseId);
     /// reduce learnt clauses
     /// # CAVEAT
     /// *precondition*: decision level == 0.
diff --git a/src/processor/subsume.rs b/src/processor/subsume.rs
index eb15d73..284d7a4 100644
--- a/src/processor/subsume.rs
+++ b/src/processor/subsume.rs
@@ -28,7 +28,7 @@ impl Eliminator {
                 );
                 debug_assert!(!cdb[did].is_dead());
                 if !cdb[did].is(FlagClause::LEARNT) {
-                    cdb[cid].turn_off(FlagClause::LEARNT);
+                    cdb.make_permanent(cid);
                 }
                 self.remove_cid_occur(asg, did, &mut cdb[did]);
                 cdb.remove_clause(did);
-- 
2.43.0


From df4a440b4577d469bd2f60974b5368ef3c8c2fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:58 +0000
Subject: [PATCH 21/22] fix: a long file name with multi-byte letters made splr
 panic

---
 src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state.rs b/src/state.rs
index b778a18..54013a1 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -817,7 +817,7 @@ impl fmt::Display for State {
             CNFIndicator::LitVec(n) => format!("(embedded {n} element vector)"),
         };
         if width <= fname.len() {
-            fname.truncate(58 - vclen);
+            fname.truncate(fname.floor_char_boundary(58 - vclen));
         }
         let fnlen = fname.len();
         if width < vclen + fnlen + 1 {
-- 
2.43.0


From 0a126716e313af53431647bd9e448135f066ab50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:58 +0000
Subject: [PATCH 22/22] fix: propagation overlooked literals of clauses with
 more than 65535 literals

---
 src/assign/propagate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/assign/propagate.rs b/src/assign/propagate.rs
index 6246f73..9d4b410 100644
--- a/src/assign/propagate.rs
+++ b/src/assign/propagate.rs
@@ -512,7 +512,7 @@ impl PropagateIF for AssignStack {
                             let new_watch = !*lk;
                             cdb.detach_watch_cache(propagating, &mut source);
                             cdb.transform_by_updating_watch(cid, false_watch_pos, k, true);
-                            cdb[cid].search_from = (k + 1) as u16;
+                            cdb[cid].search_from = (k + 1).min(u16::MAX as usize) as u16;
                             debug_assert_ne!(self.assigned(new_watch), Some(true));
                             check_in!(
                                 cid,
@@ -692,7 +692,7 @@ impl PropagateIF for AssignStack {
                             let new_watch = !*lk;
                             cdb.detach_watch_cache(propagating, &mut source);
                             cdb.transform_by_updating_watch(cid, false_watch_pos, k, true);
-                            cdb[cid].search_from = (k as u16).saturating_add(1);
+                            cdb[cid].search_from = (k + 1).min(u16::MAX as usize) as u16;
                             debug_assert!(
                                 self.assigned(!new_watch) == Some(true)
                                     || self.assigned(!new_watch).is_none()
-- 
2.43.0

