From 02512f5bb5a2bddc79cdc97a6c430d1b7ba0d57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:15 +0000
Subject: [PATCH 1/8] verification hook: UPDATE_INTERVAL under --cfg mbqc_verif

---
 mbqc_scheduling/src/search/threaded.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mbqc_scheduling/src/search/threaded.rs b/mbqc_scheduling/src/search/threaded.rs
index 57f0448..3a762ae 100644
--- a/mbqc_scheduling/src/search/threaded.rs
+++ b/mbqc_scheduling/src/search/threaded.rs
@@ -30,7 +30,9 @@ use crate::{
 
 // after that many steps, the `best_memory` is updated
 // (this is rather a random constant at the moment)
-const UPDATE_INTERVAL: usize = 1000;
+// (verification hook: with `--cfg mbqc_verif`, within the few steps of a small problem)
+#[allow(unexpected_cfgs)]
+const UPDATE_INTERVAL: usize = if cfg!(mbqc_verif) { 3 } else { 1000 };
 
 pub fn search(
     nthreads: u16,
-- 
2.43.0


From b379a8e0f18781380924d77bccd87a6676ff9c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:13 +0000
Subject: [PATCH 2/8] fix: threaded search: don't overwrite another task's
 better result

---
 mbqc_scheduling/src/search/threaded.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mbqc_scheduling/src/search/threaded.rs b/mbqc_scheduling/src/search/threaded.rs
index 3a762ae..adb4c5f 100644
--- a/mbqc_scheduling/src/search/threaded.rs
+++ b/mbqc_scheduling/src/search/threaded.rs
@@ -152,7 +152,9 @@ fn task(
             // Step::Backward, we also update the best_memory for all
             // paths with a longer path length, but we might not have
             // collected a result for them (which is okay there)
-            if let Some(mem) = new_results.remove(&time) {
+            // further, this_mem may have been lowered by `update` after we collected the
+            // result; then the result is worse than one of another task
+            if let Some(mem) = new_results.remove(&time).filter(|mem| mem.0 <= this_mem) {
                 results.insert(time, mem);
             }
         }
-- 
2.43.0


From fafb6e75061d06ac5819fc1cee49be00fd5e1b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:35 +0000
Subject: [PATCH 3/8] fix: NotMeasurable instead of a panic for instructions
 larger than the measurable set

---
 mbqc_scheduling/src/scheduler/time.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbqc_scheduling/src/scheduler/time.rs b/mbqc_scheduling/src/scheduler/time.rs
index 8afe1cb..412960d 100644
--- a/mbqc_scheduling/src/scheduler/time.rs
+++ b/mbqc_scheduling/src/scheduler/time.rs
@@ -201,7 +201,7 @@ impl<'l, T: MeasurableSet> PathGenerator<'l, T> {
     // measurable set
     fn partition(&self, measure_set: &[usize]) -> Result<Vec<usize>, NotMeasurable> {
         let mut new_measurable_set =
-            Vec::with_capacity(self.measurable.set().len() - measure_set.len());
+            Vec::with_capacity(self.measurable.set().len().saturating_sub(measure_set.len()));
         let mut copy_measure_set = measure_set.to_vec();
         for e in self.measurable.set().iter() {
             if let Some(p) = copy_measure_set.iter().position(|m| m == e) {
-- 
2.43.0


From 2c09990b2ff43908cda56b7da32ce3d855f73e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:35 +0000
Subject: [PATCH 4/8] fix: num_remaining_nodes also counts the measurable nodes

---
 mbqc_scheduling/src/scheduler/time.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mbqc_scheduling/src/scheduler/time.rs b/mbqc_scheduling/src/scheduler/time.rs
index 412960d..6a52fd5 100644
--- a/mbqc_scheduling/src/scheduler/time.rs
+++ b/mbqc_scheduling/src/scheduler/time.rs
@@ -105,11 +105,6 @@ impl<'l, T> PathGenerator<'l, T> {
         &self.measurable
     }
 
-    /// How many nodes are left to be measured.
-    pub fn num_remaining_nodes(&self) -> usize {
-        self.deps_counter.len()
-    }
-
     /// Check whether there are qubits that cannot be measured yet.
     pub fn has_unmeasureable(&self) -> bool {
         !self.deps_counter.is_empty()
@@ -117,6 +112,12 @@ impl<'l, T> PathGenerator<'l, T> {
 }
 
 impl<'l, T: MeasurableSet> PathGenerator<'l, T> {
+    /// How many nodes are left to be measured.
+    pub fn num_remaining_nodes(&self) -> usize {
+        // the measurable ones and those that are not measurable yet
+        self.measurable.set().len() + self.deps_counter.len()
+    }
+
     /// Create a new [PathGenerator] from a [PartialOrderGraph]. `dependency_buffer` is
     /// going to own the dependency structure implied by the `graph`, so that it can be
     /// reused again.
-- 
2.43.0


From b2e85e34d7391c2b12ef2341de2511f0947d64cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:46 +0000
Subject: [PATCH 5/8] fix: task_bound 0 is a bound, too

---
 mbqc_scheduling/src/search/threaded.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mbqc_scheduling/src/search/threaded.rs b/mbqc_scheduling/src/search/threaded.rs
index adb4c5f..9aebf9e 100644
--- a/mbqc_scheduling/src/search/threaded.rs
+++ b/mbqc_scheduling/src/search/threaded.rs
@@ -65,7 +65,11 @@ pub fn search(
         // if probabilistic is true, one should maybe already skip here according to
         // the accept_func; but maybe it is actually good to not do it, because this
         // increases the probability that we get at least some results
-        while let Some((scheduler_focused, init_measure)) = scheduler.next_and_focus() {
+        while ntasks < task_bound {
+            let Some((scheduler_focused, init_measure)) = scheduler.next_and_focus()
+            else {
+                break;
+            };
             let best_memory = &best_memory;
             let results = &results;
             let probabilistic = match probabilistic {
@@ -84,9 +88,6 @@ pub fn search(
                 )
             });
             ntasks += 1;
-            if ntasks == task_bound {
-                break;
-            }
         }
 
         // remaining search tasks
-- 
2.43.0


From 8d5b2ea2c8d29adcc17510da78c0398fb3ef3d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:37 +0000
Subject: [PATCH 6/8] fix: interface exports SpacialGraph, which the Python
 wrapper takes from there

---
 mbqc_scheduling/src/interface.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mbqc_scheduling/src/interface.rs b/mbqc_scheduling/src/interface.rs
index 4535a12..8d3c76e 100644
--- a/mbqc_scheduling/src/interface.rs
+++ b/mbqc_scheduling/src/interface.rs
@@ -7,9 +7,12 @@ use std::{error, fmt, fs, fs::File, io, path, time::Duration};
 use pauli_tracker::tracker::frames::induced_order::PartialOrderGraph;
 use serde::{de::DeserializeOwned, Deserialize, Serialize};
 
-use crate::{probabilistic::AcceptFunc, scheduler::space::SpacialGraph, search};
+use crate::{probabilistic::AcceptFunc, search};
 pub use crate::{
-    scheduler::{space::RefSpacialGraph, time::RefPartialOrderGraph},
+    scheduler::{
+        space::{RefSpacialGraph, SpacialGraph},
+        time::RefPartialOrderGraph,
+    },
     search::Steps,
 };
 
-- 
2.43.0


From 033bd6c1f00d0f41c83807f989eccdb6ca9cd08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:27 +0000
Subject: [PATCH 7/8] verification hook: NUM_AVERAGE under --cfg mbqc_verif

---
 results/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/results/src/lib.rs b/results/src/lib.rs
index 644f238..a1e7086 100644
--- a/results/src/lib.rs
+++ b/results/src/lib.rs
@@ -4,7 +4,9 @@ use plots::Args;
 // const NCPUS: u16 = 1;
 const NCPUS: u16 = 30; // cf. ncpus in scripts/exe_hpc.bash
 
-const NUM_AVERAGE: usize = 3000;
+// (verification hook: few with `--cfg mbqc_verif`)
+#[allow(unexpected_cfgs)]
+const NUM_AVERAGE: usize = if cfg!(mbqc_verif) { 2 } else { 3000 };
 // const NUM_AVERAGE: usize = 1000;
 // const NUM_AVERAGE: usize = 50;
 
-- 
2.43.0


From 109d43a4e5e75000acf2ebb72c6df17c0f36ccd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:18 +0000
Subject: [PATCH 8/8] verification hook: averages over 3 problems with --cfg
 mbqc_verif

---
 results/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/results/src/lib.rs b/results/src/lib.rs
index a1e7086..8555880 100644
--- a/results/src/lib.rs
+++ b/results/src/lib.rs
@@ -6,7 +6,7 @@ const NCPUS: u16 = 30; // cf. ncpus in scripts/exe_hpc.bash
 
 // (verification hook: few with `--cfg mbqc_verif`)
 #[allow(unexpected_cfgs)]
-const NUM_AVERAGE: usize = if cfg!(mbqc_verif) { 2 } else { 3000 };
+const NUM_AVERAGE: usize = if cfg!(mbqc_verif) { 3 } else { 3000 };
 // const NUM_AVERAGE: usize = 1000;
 // const NUM_AVERAGE: usize = 50;
 
-- 
2.43.0

