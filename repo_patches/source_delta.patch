From c5dd4d052979486e5a5014bbf79036adb1267370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:40 +0000
Subject: [PATCH 01/29] fix: skip blacklisted exercises when scheduling from
 the review list

---
 src/scheduler.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index 0890e73..dfc29a0 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -936,6 +936,11 @@ impl DepthFirstScheduler {
                     candidates.extend(self.get_candidates_from_lesson(unit_id)?);
                 }
                 UnitType::Exercise => {
+                    // Skip exercises that are blacklisted or inside a blacklisted unit.
+                    if self.data.inside_blacklisted(unit_id)? {
+                        continue;
+                    }
+
                     // Retrieve the exercise's lesson and course IDs.
                     let lesson_id = self.data.get_lesson_id(unit_id).unwrap_or_default();
                     let course_id = self.data.get_course_id(lesson_id).unwrap_or_default();
-- 
2.43.0


From 4413ed3645b3d6bd538d81a535e5443228064510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:05 +0000
Subject: [PATCH 02/29] fix: do not hold the frequency map lock while searching
 the review list

---
 src/scheduler.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index dfc29a0..3c4bdbc 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -923,7 +923,6 @@ impl DepthFirstScheduler {
         // Retrieve candidates from each entry in the review list.
         let mut candidates = vec![];
         let review_list = self.data.review_list.read().get_review_list_entries()?;
-        let frequency_map = self.data.frequency_map.read();
         for unit_id in review_list {
             match self.data.get_unit_type_strict(unit_id)? {
                 UnitType::Course => {
@@ -945,6 +944,15 @@ impl DepthFirstScheduler {
                     let lesson_id = self.data.get_lesson_id(unit_id).unwrap_or_default();
                     let course_id = self.data.get_course_id(lesson_id).unwrap_or_default();
 
+                    // Copy the frequency out of the map so that the lock is not held during the search.
+                    let frequency = self
+                        .data
+                        .frequency_map
+                        .read()
+                        .get(&unit_id)
+                        .copied()
+                        .unwrap_or(0);
+
                     // If the unit is an exercise, directly add it to the list of candidates.
                     candidates.push(Candidate {
                         exercise_id: unit_id,
@@ -957,7 +965,7 @@ impl DepthFirstScheduler {
                             .unwrap_or_default(),
                         urgency: self.unit_scorer.get_exercise_urgency(unit_id)?,
                         velocity: self.unit_scorer.get_exercise_velocity(unit_id)?,
-                        frequency: *frequency_map.get(&unit_id).unwrap_or(&0),
+                        frequency,
                         dead_end: false,
                         encompasses_weight: 0.0,
                         encompassed_weight: 0.0,
-- 
2.43.0


From b5506344e1115d653f69440bd0c7c0755a0e58b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:05 +0000
Subject: [PATCH 03/29] fix: return each exercise at most once in a batch

---
 src/scheduler.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index 3c4bdbc..31e7059 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -1063,10 +1063,13 @@ impl ExerciseScheduler for DepthFirstScheduler {
         &self,
         filter: Option<ExerciseFilter>,
     ) -> Result<Vec<ExerciseManifest>, ExerciseSchedulerError> {
-        // Retrieve an initial batch of candidates based on the type of the filter.
-        let initial_candidates = self
+        // Retrieve an initial batch of candidates based on the type of the filter. A filter can reach
+        // the same exercise more than once, so keep only the first candidate for each exercise.
+        let mut initial_candidates = self
             .get_initial_candidates(filter)
             .map_err(ExerciseSchedulerError::GetExerciseBatch)?;
+        let mut seen = UstrSet::default();
+        initial_candidates.retain(|candidate| seen.insert(candidate.exercise_id));
 
         // Knock out highly encompassed exercises from the initial batch to ensure that they are not
         // overrepresented in the final batch.
-- 
2.43.0


From 836337d0806da9fca85cea97180e2f964cac9f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:39 +0000
Subject: [PATCH 04/29] fix: apply new scheduler options in every scheduler
 component

---
 src/scheduler.rs              | 16 ++++++++++++++--
 src/scheduler/relearn_pile.rs |  5 +++++
 src/scheduler/unit_scorer.rs  | 17 +++++++++++++++++
 3 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index 31e7059..7b3715e 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -204,6 +204,18 @@ impl DepthFirstScheduler {
         }
     }
 
+    /// Updates the options in the scheduler and in all the components that hold a copy of them.
+    fn apply_options(&mut self, options: SchedulerOptions) {
+        self.data.options = options.clone();
+        self.unit_scorer.set_options(options.clone());
+        self.reward_propagator = RewardPropagator {
+            data: self.data.clone(),
+        };
+        self.review_knocker = ReviewKnocker::new(self.data.clone());
+        self.filter = CandidateFilter::new(self.data.clone());
+        self.relearn_pile.set_options(options);
+    }
+
     /// Shuffles the units and pushes them to the given stack. Used with the goal of ensuring that
     /// the units are traversed in a different order each time a new batch is requested.
     fn shuffle_to_stack(curr_unit: &StackItem, mut units: Vec<Ustr>, stack: &mut Vec<StackItem>) {
@@ -1197,11 +1209,11 @@ impl ExerciseScheduler for DepthFirstScheduler {
     }
 
     fn set_scheduler_options(&mut self, options: SchedulerOptions) {
-        self.data.options = options;
+        self.apply_options(options);
     }
 
     fn reset_scheduler_options(&mut self) {
-        self.data.options = SchedulerOptions::default();
+        self.apply_options(SchedulerOptions::default());
     }
 
     fn override_current_timestamp(&mut self, timestamp: Option<i64>) {
diff --git a/src/scheduler/relearn_pile.rs b/src/scheduler/relearn_pile.rs
index ea95227..f76f22c 100644
--- a/src/scheduler/relearn_pile.rs
+++ b/src/scheduler/relearn_pile.rs
@@ -29,6 +29,11 @@ impl RelearnPile {
         }
     }
 
+    /// Sets the scheduler options, keeping the exercises in the pile.
+    pub fn set_options(&mut self, options: SchedulerOptions) {
+        self.options = options;
+    }
+
     /// Updates the relearning pile based on the score of an exercise.
     pub fn update(&self, exercise_id: Ustr, score: &MasteryScore) {
         let mut relearning_pile = self.pile.write();
diff --git a/src/scheduler/unit_scorer.rs b/src/scheduler/unit_scorer.rs
index 329fb57..5e0f1b6 100644
--- a/src/scheduler/unit_scorer.rs
+++ b/src/scheduler/unit_scorer.rs
@@ -85,6 +85,23 @@ impl UnitScorer {
         }
     }
 
+    /// Sets the options used to schedule exercises. Cached scores were computed with the previous
+    /// options, so they are all discarded.
+    pub(super) fn set_options(&mut self, options: SchedulerOptions) {
+        self.data.options = options.clone();
+        self.options = options;
+        self.clear_cached_scores();
+    }
+
+    /// Removes all the cached scores.
+    pub(super) fn clear_cached_scores(&self) {
+        self.exercise_cache.borrow_mut().clear();
+        self.lesson_cache.borrow_mut().clear();
+        self.course_cache.borrow_mut().clear();
+        self.lesson_trials_cache.borrow_mut().clear();
+        self.course_trials_cache.borrow_mut().clear();
+    }
+
     /// Sets the timestamp override used to compute scores.
     pub(super) fn set_override_timestamp(&mut self, timestamp: Option<i64>) {
         self.override_timestamp = timestamp;
-- 
2.43.0


From f02d101af5c55dcc6f855c83cfaf0275c87836d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:39 +0000
Subject: [PATCH 05/29] fix: use num_deltas to limit the deltas used to score
 an exercise

---
 src/scheduler/unit_scorer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scheduler/unit_scorer.rs b/src/scheduler/unit_scorer.rs
index 5e0f1b6..91ecc44 100644
--- a/src/scheduler/unit_scorer.rs
+++ b/src/scheduler/unit_scorer.rs
@@ -223,7 +223,7 @@ impl UnitScorer {
             .data
             .practice_deltas
             .read()
-            .get_deltas(exercise_id, self.options.num_trials)
+            .get_deltas(exercise_id, self.options.num_deltas)
             .unwrap_or_default();
         let score = self
             .exercise_scorer
-- 
2.43.0


From f4e13cba7c70c38b4e0b82a85d80cb46a78127be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:39 +0000
Subject: [PATCH 06/29] fix: discard cached scores when the current timestamp
 is overridden

---
 src/scheduler/unit_scorer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scheduler/unit_scorer.rs b/src/scheduler/unit_scorer.rs
index 91ecc44..385ebfc 100644
--- a/src/scheduler/unit_scorer.rs
+++ b/src/scheduler/unit_scorer.rs
@@ -102,9 +102,11 @@ impl UnitScorer {
         self.course_trials_cache.borrow_mut().clear();
     }
 
-    /// Sets the timestamp override used to compute scores.
+    /// Sets the timestamp override used to compute scores. Cached scores were computed with the
+    /// previous timestamp, so they are all discarded.
     pub(super) fn set_override_timestamp(&mut self, timestamp: Option<i64>) {
         self.override_timestamp = timestamp;
+        self.clear_cached_scores();
     }
 
     /// Returns the current timestamp, using the override if set.
-- 
2.43.0


From bf8e7ddc12edbbd24cc868df7307a4c6320ad94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:39 +0000
Subject: [PATCH 07/29] fix: set the encompassing flag through the Trane facade

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4a02d77..e2a6003 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -660,7 +660,7 @@ impl UnitGraph for Trane {
     }
 
     fn set_encompasing_equals_dependency(&mut self) {
-        self.unit_graph.write().encompasing_equals_dependency();
+        self.unit_graph.write().set_encompasing_equals_dependency();
     }
 
     fn encompasing_equals_dependency(&self) -> bool {
-- 
2.43.0


From 85c9e45de2b5b014310a83de72320e9a1957c5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:16 +0000
Subject: [PATCH 08/29] fix: guard the score caches with locks instead of
 asserting thread safety

---
 src/lib.rs                   |  5 ----
 src/scheduler/data.rs        | 16 ++++++-------
 src/scheduler/unit_scorer.rs | 44 +++++++++++++++++++++++++++---------
 3 files changed, 41 insertions(+), 24 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e2a6003..92b150f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -736,11 +736,6 @@ impl UnitGraph for Trane {
     }
 }
 
-/// Implementation of `Send` and `Sync` for `Trane`. The implementation is safe because all the
-/// internal mutability of `Trane` is managed by `Arc<RwLock<...>>`.
-unsafe impl Send for Trane {}
-unsafe impl Sync for Trane {}
-
 #[cfg(test)]
 #[cfg_attr(coverage, coverage(off))]
 mod test {
diff --git a/src/scheduler/data.rs b/src/scheduler/data.rs
index 6943a0e..704f7c1 100644
--- a/src/scheduler/data.rs
+++ b/src/scheduler/data.rs
@@ -28,28 +28,28 @@ pub struct SchedulerData {
     pub options: SchedulerOptions,
 
     /// The course library storing manifests and info about units.
-    pub course_library: Arc<RwLock<dyn CourseLibrary>>,
+    pub course_library: Arc<RwLock<dyn CourseLibrary + Send + Sync>>,
 
     /// The dependency graph of courses and lessons.
-    pub unit_graph: Arc<RwLock<dyn UnitGraph>>,
+    pub unit_graph: Arc<RwLock<dyn UnitGraph + Send + Sync>>,
 
     /// The deltas between predicted and actual scores.
-    pub practice_deltas: Arc<RwLock<dyn PracticeDeltas>>,
+    pub practice_deltas: Arc<RwLock<dyn PracticeDeltas + Send + Sync>>,
 
     /// The list of previous exercise results.
-    pub practice_stats: Arc<RwLock<dyn PracticeStats>>,
+    pub practice_stats: Arc<RwLock<dyn PracticeStats + Send + Sync>>,
 
     /// The rewards for units based on performance of related units.
-    pub practice_rewards: Arc<RwLock<dyn PracticeRewards>>,
+    pub practice_rewards: Arc<RwLock<dyn PracticeRewards + Send + Sync>>,
 
     /// The list of units to skip during scheduling.
-    pub blacklist: Arc<RwLock<dyn Blacklist>>,
+    pub blacklist: Arc<RwLock<dyn Blacklist + Send + Sync>>,
 
     /// The list of units which should be reviewed by the student.
-    pub review_list: Arc<RwLock<dyn ReviewList>>,
+    pub review_list: Arc<RwLock<dyn ReviewList + Send + Sync>>,
 
     /// The manager used to access unit filters saved by the user.
-    pub filter_manager: Arc<RwLock<dyn FilterManager>>,
+    pub filter_manager: Arc<RwLock<dyn FilterManager + Send + Sync>>,
 
     /// A map storing the number of times an exercise has been scheduled during the lifetime of this
     /// scheduler. The value is used to give more weight during filtering to exercises that have
diff --git a/src/scheduler/unit_scorer.rs b/src/scheduler/unit_scorer.rs
index 385ebfc..e2f0528 100644
--- a/src/scheduler/unit_scorer.rs
+++ b/src/scheduler/unit_scorer.rs
@@ -7,7 +7,7 @@
 
 use anyhow::{Result, anyhow};
 use chrono::Utc;
-use std::cell::RefCell;
+use parking_lot::{RwLock, RwLockReadGuard, RwLockWriteGuard};
 use ustr::{Ustr, UstrMap, UstrSet};
 
 use crate::{
@@ -34,23 +34,45 @@ pub(super) struct CachedScore {
     num_trials: usize,
 }
 
+/// A mapping of unit ID to a cached value, which can be safely shared across threads. The lock must
+/// not be held while computing a value to be cached.
+struct ScoreCache<T>(RwLock<UstrMap<T>>);
+
+impl<T> Default for ScoreCache<T> {
+    fn default() -> Self {
+        Self(RwLock::new(UstrMap::default()))
+    }
+}
+
+impl<T> ScoreCache<T> {
+    /// Returns read access to the cached values.
+    fn borrow(&self) -> RwLockReadGuard<'_, UstrMap<T>> {
+        self.0.read()
+    }
+
+    /// Returns write access to the cached values.
+    fn borrow_mut(&self) -> RwLockWriteGuard<'_, UstrMap<T>> {
+        self.0.write()
+    }
+}
+
 /// Contains the logic to score units based on their previous scores and rewards, as well as the
 /// logic to cache those scores for efficiency.
 pub(super) struct UnitScorer {
     /// A mapping of exercise ID to cached score.
-    exercise_cache: RefCell<UstrMap<CachedScore>>,
+    exercise_cache: ScoreCache<CachedScore>,
 
     /// A mapping of lesson ID to cached score.
-    lesson_cache: RefCell<UstrMap<Option<f32>>>,
+    lesson_cache: ScoreCache<Option<f32>>,
 
     /// A mapping of course ID to cached score.
-    course_cache: RefCell<UstrMap<Option<f32>>>,
+    course_cache: ScoreCache<Option<f32>>,
 
     /// A mapping of lesson ID to cached average number of trials.
-    lesson_trials_cache: RefCell<UstrMap<Option<f32>>>,
+    lesson_trials_cache: ScoreCache<Option<f32>>,
 
     /// A mapping of course ID to cached average number of trials.
-    course_trials_cache: RefCell<UstrMap<Option<f32>>>,
+    course_trials_cache: ScoreCache<Option<f32>>,
 
     /// The data used by the scheduler.
     data: SchedulerData,
@@ -72,11 +94,11 @@ impl UnitScorer {
     /// Constructs a new score cache.
     pub(super) fn new(data: SchedulerData, options: SchedulerOptions) -> Self {
         Self {
-            exercise_cache: RefCell::new(UstrMap::default()),
-            lesson_cache: RefCell::new(UstrMap::default()),
-            course_cache: RefCell::new(UstrMap::default()),
-            lesson_trials_cache: RefCell::new(UstrMap::default()),
-            course_trials_cache: RefCell::new(UstrMap::default()),
+            exercise_cache: ScoreCache::default(),
+            lesson_cache: ScoreCache::default(),
+            course_cache: ScoreCache::default(),
+            lesson_trials_cache: ScoreCache::default(),
+            course_trials_cache: ScoreCache::default(),
             data,
             options,
             exercise_scorer: Box::new(PowerLawScorer {}),
-- 
2.43.0


From 18a73706385c20d90ccef02eedf14d4d663b0bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:32 +0000
Subject: [PATCH 09/29] fix: match unit ID prefixes literally when removing by
 prefix

---
 src/blacklist.rs        | 7 ++++---
 src/practice_deltas.rs  | 7 ++++---
 src/practice_rewards.rs | 4 ++--
 src/practice_stats.rs   | 7 ++++---
 4 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/blacklist.rs b/src/blacklist.rs
index e93ab9b..1f9cb6c 100644
--- a/src/blacklist.rs
+++ b/src/blacklist.rs
@@ -134,9 +134,10 @@ impl LocalBlacklist {
     fn remove_prefix_from_blacklist_helper(&mut self, prefix: &str) -> Result<()> {
         // Search for all the entries with the given prefix.
         let connection = self.connection.lock();
-        let mut stmt =
-            connection.prepare_cached("SELECT unit_id from blacklist WHERE unit_id LIKE $1;")?;
-        let mut rows = stmt.query(params![format!("{}%", prefix)])?;
+        let mut stmt = connection.prepare_cached(
+            "SELECT unit_id from blacklist WHERE substr(unit_id, 1, length($1)) = $1;",
+        )?;
+        let mut rows = stmt.query(params![prefix])?;
 
         // Remove all the entries with the given prefix.
         let mut stmt = connection.prepare_cached("DELETE FROM blacklist WHERE unit_id = $1")?;
diff --git a/src/practice_deltas.rs b/src/practice_deltas.rs
index aa62749..8b85086 100644
--- a/src/practice_deltas.rs
+++ b/src/practice_deltas.rs
@@ -162,10 +162,11 @@ impl LocalPracticeDeltas {
     /// Helper function to remove all the deltas from units that match the given prefix.
     fn remove_deltas_with_prefix_helper(&mut self, prefix: &str) -> Result<()> {
         let connection = self.connection.lock();
-        let mut uid_stmt =
-            connection.prepare_cached("SELECT unit_uid FROM uids WHERE unit_id LIKE $1;")?;
+        let mut uid_stmt = connection.prepare_cached(
+            "SELECT unit_uid FROM uids WHERE substr(unit_id, 1, length($1)) = $1;",
+        )?;
         let uids = uid_stmt
-            .query_map(params![format!("{}%", prefix)], |row| row.get(0))?
+            .query_map(params![prefix], |row| row.get(0))?
             .map(|r| r.context("failed to retrieve UIDs from practice deltas DB"))
             .collect::<Result<Vec<i64>, _>>()?;
 
diff --git a/src/practice_rewards.rs b/src/practice_rewards.rs
index 4a028c0..3c94deb 100644
--- a/src/practice_rewards.rs
+++ b/src/practice_rewards.rs
@@ -252,8 +252,8 @@ impl LocalPracticeRewards {
         // Get all the UIDs for the units that match the prefix.
         let connection = self.connection.lock();
         for row in connection
-            .prepare("SELECT unit_uid FROM uids WHERE unit_id LIKE ?1")?
-            .query_map(params![format!("{}%", prefix)], |row| row.get(0))?
+            .prepare("SELECT unit_uid FROM uids WHERE substr(unit_id, 1, length(?1)) = ?1")?
+            .query_map(params![prefix], |row| row.get(0))?
         {
             let unit_uid: i64 = row?;
             connection.execute(
diff --git a/src/practice_stats.rs b/src/practice_stats.rs
index a05194e..def10f7 100644
--- a/src/practice_stats.rs
+++ b/src/practice_stats.rs
@@ -185,10 +185,11 @@ impl LocalPracticeStats {
     fn remove_scores_with_prefix_helper(&mut self, prefix: &str) -> Result<()> {
         // Get all the UIDs for the units that match the prefix.
         let connection = self.connection.lock();
-        let mut uid_stmt =
-            connection.prepare_cached("SELECT unit_uid FROM uids WHERE unit_id LIKE $1;")?;
+        let mut uid_stmt = connection.prepare_cached(
+            "SELECT unit_uid FROM uids WHERE substr(unit_id, 1, length($1)) = $1;",
+        )?;
         let uids = uid_stmt
-            .query_map(params![format!("{}%", prefix)], |row| row.get(0))?
+            .query_map(params![prefix], |row| row.get(0))?
             .map(|r| r.context("failed to retrieve UIDs from practice stats DB"))
             .collect::<Result<Vec<i64>, _>>()?;
 
-- 
2.43.0


From 990b92cc1a3cbc727b6c5d5353282390afcc5293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:32 +0000
Subject: [PATCH 10/29] fix: trim scores and deltas to the limit when
 timestamps are equal

---
 src/practice_deltas.rs | 6 +++---
 src/practice_stats.rs  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/practice_deltas.rs b/src/practice_deltas.rs
index 8b85086..d7a0c99 100644
--- a/src/practice_deltas.rs
+++ b/src/practice_deltas.rs
@@ -148,9 +148,9 @@ impl LocalPracticeDeltas {
 
         for uid in uids {
             let mut stmt = connection.prepare_cached(
-                "DELETE FROM practice_deltas WHERE unit_uid = $1 AND timestamp NOT IN (
-                    SELECT timestamp FROM practice_deltas WHERE unit_uid = $1
-                    ORDER BY timestamp DESC LIMIT ?2);",
+                "DELETE FROM practice_deltas WHERE id IN (
+                    SELECT id FROM practice_deltas WHERE unit_uid = $1
+                    ORDER BY timestamp DESC LIMIT -1 OFFSET ?2);",
             )?;
             let _ = stmt.execute(params![uid, num_deltas])?;
         }
diff --git a/src/practice_stats.rs b/src/practice_stats.rs
index def10f7..581c018 100644
--- a/src/practice_stats.rs
+++ b/src/practice_stats.rs
@@ -169,9 +169,9 @@ impl LocalPracticeStats {
         // Delete the oldest trials for each UID but keep the most recent `num_scores` trials.
         for uid in uids {
             let mut stmt = connection.prepare_cached(
-                "DELETE FROM practice_stats WHERE unit_uid = $1 AND timestamp NOT IN (
-                    SELECT timestamp FROM practice_stats WHERE unit_uid = $1
-                    ORDER BY timestamp DESC LIMIT ?2);",
+                "DELETE FROM practice_stats WHERE id IN (
+                    SELECT id FROM practice_stats WHERE unit_uid = $1
+                    ORDER BY timestamp DESC LIMIT -1 OFFSET ?2);",
             )?;
             let _ = stmt.execute(params![uid, num_scores])?;
         }
-- 
2.43.0


From 47818835302baa992431edf8cb77c74739738bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:49 +0000
Subject: [PATCH 11/29] fix: compare reward timestamps without overflow

---
 src/practice_rewards.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/practice_rewards.rs b/src/practice_rewards.rs
index 3c94deb..60cfe8d 100644
--- a/src/practice_rewards.rs
+++ b/src/practice_rewards.rs
@@ -48,7 +48,7 @@ pub trait PracticeRewards {
 }
 
 /// Number of seconds in a day.
-const SECONDS_IN_DAY: i64 = 86_400;
+const SECONDS_IN_DAY: u64 = 86_400;
 
 /// The maximum difference in weights between two rewards to consider them similar.
 const WEIGHT_EPSILON: f32 = 0.1;
@@ -74,7 +74,7 @@ impl RewardCache {
             .and_then(|rewards| {
                 rewards.iter().find(|r| {
                     r.value == reward.value
-                        && (r.timestamp - reward.timestamp).abs() < SECONDS_IN_DAY
+                        && r.timestamp.abs_diff(reward.timestamp) < SECONDS_IN_DAY
                         && (r.weight - reward.weight).abs() < WEIGHT_EPSILON
                 })
             })
-- 
2.43.0


From 3842e7d0e4fe714c21a65890f40adb1c5059258c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:21 +0000
Subject: [PATCH 12/29] fix: keep the cache of rewards consistent with the
 stored rewards

---
 src/practice_rewards.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/practice_rewards.rs b/src/practice_rewards.rs
index 60cfe8d..563b9ef 100644
--- a/src/practice_rewards.rs
+++ b/src/practice_rewards.rs
@@ -187,11 +187,16 @@ impl LocalPracticeRewards {
     /// Helper function to record multiple rewards in a single transaction.
     fn record_unit_rewards_helper(&mut self, rewards: &[UnitReward]) -> Result<Vec<Ustr>> {
         let mut updated = Vec::new();
+        let mut pending = RewardCache {
+            cache: UstrMap::default(),
+        };
         let mut connection = self.connection.lock();
         let tx = connection.transaction()?;
         {
             for reward in rewards {
-                if self.cache.has_similar_reward(reward.unit_id, reward) {
+                if self.cache.has_similar_reward(reward.unit_id, reward)
+                    || pending.has_similar_reward(reward.unit_id, reward)
+                {
                     continue;
                 }
 
@@ -219,17 +224,27 @@ impl LocalPracticeRewards {
                 )?;
                 let _ = del_stmt.execute(params![reward.unit_id.as_str()])?;
 
-                self.cache.add_new_reward(reward.unit_id, reward.clone());
+                pending.add_new_reward(reward.unit_id, reward.clone());
                 updated.push(reward.unit_id);
             }
         }
         tx.commit()?;
+
+        // Only cache the rewards once they are stored.
+        for (unit_id, rewards) in pending.cache {
+            for reward in rewards {
+                self.cache.add_new_reward(unit_id, reward);
+            }
+        }
         Ok(updated)
     }
 
     /// Helper function to trim the number of rewards for each unit to the given number. If the
     /// number of rewards is less than the given number, the method deletes no rewards.
     fn trim_rewards_helper(&mut self, num_rewards: u32) -> Result<()> {
+        // The cache must not contain rewards that are no longer stored.
+        self.cache.cache.clear();
+
         let connection = self.connection.lock();
         for row in connection
             .prepare("SELECT unit_uid FROM uids")?
@@ -249,6 +264,9 @@ impl LocalPracticeRewards {
 
     /// Helper function to remove all the rewards from units that match the given prefix.
     fn remove_rewards_with_prefix_helper(&mut self, prefix: &str) -> Result<()> {
+        // The cache must not contain rewards that are no longer stored.
+        self.cache.cache.clear();
+
         // Get all the UIDs for the units that match the prefix.
         let connection = self.connection.lock();
         for row in connection
-- 
2.43.0


From 5c5bf5c0bc8b860cb86e42bb83161292d4f86165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:36 +0000
Subject: [PATCH 13/29] fix: keep courses with a free starting lesson among the
 dependency sinks

---
 src/graph.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index 562b053..7c4bc78 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -611,10 +611,11 @@ impl UnitGraph for InMemoryUnitGraph {
                 .collect();
 
             // Before updating the map, the dependency sinks need to be updated as well. The course
-            // is no longer a dependency sink if any of its starting lessons have dependencies to
-            // other valid units in the graph.
+            // is no longer a dependency sink if all of its starting lessons have dependencies to
+            // other valid units in the graph. Otherwise, the starting lessons without dependencies
+            // could not be reached from anywhere else.
             if self.dependency_sinks.contains(course_id) {
-                let has_starting_dependencies = starting_lessons.iter().any(|lesson_id| {
+                let has_starting_dependencies = starting_lessons.iter().all(|lesson_id| {
                     self.get_dependencies(*lesson_id)
                         .is_some_and(|dependencies| {
                             !dependencies.is_empty()
-- 
2.43.0


From 8945970052ac7b6263cf64a285ad4a58b8e2f706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:27 +0000
Subject: [PATCH 14/29] fix: invalidate the scores of all dependent units when
 clearing a prefix from the blacklist

---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 92b150f..cdfddc9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -381,8 +381,9 @@ impl Blacklist for Trane {
     }
 
     fn remove_prefix_from_blacklist(&mut self, prefix: &str) -> Result<(), BlacklistError> {
-        // Make sure to invalidate any cached scores of units with the given prefix.
-        self.scheduler.invalidate_cached_scores_with_prefix(prefix);
+        // Make sure to invalidate any cached scores. The scores of units outside of the prefix can
+        // depend on those of the units inside it.
+        self.scheduler.invalidate_cached_scores_with_prefix("");
         self.blacklist.write().remove_prefix_from_blacklist(prefix)
     }
 
-- 
2.43.0


From cb30439699ae9760dd1e450c51170c30d55e4892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:27 +0000
Subject: [PATCH 15/29] fix: invalidate cached scores when stored scores,
 deltas, or rewards are changed directly

---
 src/lib.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index cdfddc9..fd540d8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -509,14 +509,22 @@ impl PracticeRewards for Trane {
         &mut self,
         rewards: &[UnitReward],
     ) -> Result<Vec<Ustr>, PracticeRewardsError> {
+        // Make sure to invalidate any cached scores computed without the new rewards.
+        for reward in rewards {
+            self.scheduler.invalidate_cached_score(reward.unit_id);
+        }
         self.practice_rewards.write().record_unit_rewards(rewards)
     }
 
     fn trim_rewards(&mut self, num_rewards: u32) -> Result<(), PracticeRewardsError> {
+        // Make sure to invalidate any cached scores computed from the removed rewards.
+        self.scheduler.invalidate_cached_scores_with_prefix("");
         self.practice_rewards.write().trim_rewards(num_rewards)
     }
 
     fn remove_rewards_with_prefix(&mut self, prefix: &str) -> Result<(), PracticeRewardsError> {
+        // Make sure to invalidate any cached scores computed from the removed rewards.
+        self.scheduler.invalidate_cached_scores_with_prefix("");
         self.practice_rewards
             .write()
             .remove_rewards_with_prefix(prefix)
@@ -539,14 +547,22 @@ impl PracticeDeltas for Trane {
         &mut self,
         deltas: &[ExerciseDelta],
     ) -> Result<(), PracticeDeltasError> {
+        // Make sure to invalidate any cached scores computed without the new deltas.
+        for delta in deltas {
+            self.scheduler.invalidate_cached_score(delta.exercise_id);
+        }
         self.practice_deltas.write().record_exercise_deltas(deltas)
     }
 
     fn trim_deltas(&mut self, num_deltas: u32) -> Result<(), PracticeDeltasError> {
+        // Make sure to invalidate any cached scores computed from the removed deltas.
+        self.scheduler.invalidate_cached_scores_with_prefix("");
         self.practice_deltas.write().trim_deltas(num_deltas)
     }
 
     fn remove_deltas_with_prefix(&mut self, prefix: &str) -> Result<(), PracticeDeltasError> {
+        // Make sure to invalidate any cached scores computed from the removed deltas.
+        self.scheduler.invalidate_cached_scores_with_prefix("");
         self.practice_deltas
             .write()
             .remove_deltas_with_prefix(prefix)
@@ -569,14 +585,22 @@ impl PracticeStats for Trane {
         &mut self,
         trials: &[ExerciseTrial],
     ) -> Result<(), PracticeStatsError> {
+        // Make sure to invalidate any cached scores computed without the new trials.
+        for trial in trials {
+            self.scheduler.invalidate_cached_score(trial.exercise_id);
+        }
         self.practice_stats.write().record_exercise_scores(trials)
     }
 
     fn trim_scores(&mut self, num_scores: u32) -> Result<(), PracticeStatsError> {
+        // Make sure to invalidate any cached scores computed from the removed scores.
+        self.scheduler.invalidate_cached_scores_with_prefix("");
         self.practice_stats.write().trim_scores(num_scores)
     }
 
     fn remove_scores_with_prefix(&mut self, prefix: &str) -> Result<(), PracticeStatsError> {
+        // Make sure to invalidate any cached scores computed from the removed scores.
+        self.scheduler.invalidate_cached_scores_with_prefix("");
         self.practice_stats
             .write()
             .remove_scores_with_prefix(prefix)
-- 
2.43.0


From d09b4f5c51053fb3d013f4891ac02e57ecb17229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:27 +0000
Subject: [PATCH 16/29] fix: invalidate the scores of superseded units when a
 superseding unit is scored

---
 src/scheduler/unit_scorer.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/scheduler/unit_scorer.rs b/src/scheduler/unit_scorer.rs
index e2f0528..7662e42 100644
--- a/src/scheduler/unit_scorer.rs
+++ b/src/scheduler/unit_scorer.rs
@@ -148,6 +148,7 @@ impl UnitScorer {
         self.course_trials_cache.borrow_mut().remove(&unit_id);
 
         // Invalidate the caches depending on the type of the unit.
+        let mut affected_ids = vec![unit_id];
         let graph = self.data.unit_graph.read();
         let mut exercise_cache = self.exercise_cache.borrow_mut();
         match graph.get_unit_type(unit_id) {
@@ -155,6 +156,7 @@ impl UnitScorer {
             // the unit is a lesson, invalidate the cached score of its course.
             Some(UnitType::Exercise) => {
                 if let Some(lesson_id) = graph.get_exercise_lesson(unit_id) {
+                    affected_ids.push(lesson_id);
                     self.lesson_cache.borrow_mut().remove(&lesson_id);
                     self.lesson_trials_cache.borrow_mut().remove(&lesson_id);
                     if let Some(course_id) = graph.get_lesson_course(lesson_id) {
@@ -181,6 +183,7 @@ impl UnitScorer {
                     let mut lesson_cache = self.lesson_cache.borrow_mut();
                     let mut lesson_trials_cache = self.lesson_trials_cache.borrow_mut();
                     for lesson_id in lesson_ids.iter() {
+                        affected_ids.push(*lesson_id);
                         lesson_cache.remove(lesson_id);
                         lesson_trials_cache.remove(lesson_id);
                         if let Some(exercise_ids) = graph.get_lesson_exercises(*lesson_id) {
@@ -193,6 +196,27 @@ impl UnitScorer {
             }
             None => {}
         }
+
+        // A change in the score of a unit can change whether the units it supersedes, directly or
+        // indirectly, have a score. Invalidate their scores and those of their courses.
+        let mut visited = UstrSet::default();
+        while let Some(affected_id) = affected_ids.pop() {
+            if !visited.insert(affected_id) {
+                continue;
+            }
+            if let Some(course_id) = graph.get_lesson_course(affected_id) {
+                affected_ids.push(course_id);
+            }
+            for superseded_id in graph.get_supersedes(affected_id).unwrap_or_default().iter() {
+                self.lesson_cache.borrow_mut().remove(superseded_id);
+                self.course_cache.borrow_mut().remove(superseded_id);
+                if let Some(course_id) = graph.get_lesson_course(*superseded_id) {
+                    self.course_cache.borrow_mut().remove(&course_id);
+                    self.course_trials_cache.borrow_mut().remove(&course_id);
+                }
+                affected_ids.push(*superseded_id);
+            }
+        }
     }
 
     /// Removes the cached score for any unit with the given prefix.
-- 
2.43.0


From 7b32d4024d9d32a642198167ca6b39971101132e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:22 +0000
Subject: [PATCH 17/29] fix: replace the user preferences file atomically

---
 src/lib.rs                 | 14 ++++----------
 src/preferences_manager.rs |  4 ++--
 src/utils.rs               | 17 +++++++++++++++++
 3 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index fd540d8..e8d90cf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -74,12 +74,7 @@ pub mod utils;
 use anyhow::{Context, Result, bail, ensure};
 use error::*;
 use parking_lot::RwLock;
-use std::{
-    fs::{File, create_dir},
-    io::Write,
-    path::Path,
-    sync::Arc,
-};
+use std::{fs::create_dir, path::Path, sync::Arc};
 use ustr::{Ustr, UstrMap, UstrSet};
 
 use crate::{
@@ -100,6 +95,7 @@ use crate::{
     review_list::{LocalReviewList, ReviewList},
     scheduler::{DepthFirstScheduler, ExerciseScheduler, data::SchedulerData},
     study_session_manager::{LocalStudySessionManager, StudySessionManager},
+    utils::replace_file,
 };
 
 /// The path to the folder inside each course library containing the user data.
@@ -224,12 +220,10 @@ impl Trane {
         // Create the user preferences file if it does not exist already.
         let user_prefs_path = trane_path.join(USER_PREFERENCES_PATH);
         if !user_prefs_path.exists() {
-            let mut file = File::create(user_prefs_path.clone())
-                .context("failed to create user_preferences.json file")?;
             let default_prefs = UserPreferences::default();
             let prefs_json = serde_json::to_string_pretty(&default_prefs)? + "\n";
-            file.write_all(prefs_json.as_bytes())
-                .context("failed to write to user_preferences.json file")?;
+            replace_file(&user_prefs_path, &prefs_json)
+                .context("failed to create user_preferences.json file")?;
         } else if !user_prefs_path.is_file() {
             bail!("user preferences file must be a regular file");
         }
diff --git a/src/preferences_manager.rs b/src/preferences_manager.rs
index d1ad431..575acc4 100644
--- a/src/preferences_manager.rs
+++ b/src/preferences_manager.rs
@@ -3,7 +3,7 @@
 use anyhow::{Context, Result};
 use std::{fs, path::PathBuf};
 
-use crate::{PreferencesManagerError, data::UserPreferences};
+use crate::{PreferencesManagerError, data::UserPreferences, utils::replace_file};
 
 /// A trait for managing user preferences.
 pub trait PreferencesManager {
@@ -37,7 +37,7 @@ impl LocalPreferencesManager {
     fn set_user_preferences_helper(&self, preferences: &UserPreferences) -> Result<()> {
         let pretty_json =
             serde_json::to_string_pretty(preferences).context("invalid user preferences")?;
-        fs::write(&self.path, pretty_json).context("failed to write user preferences")
+        replace_file(&self.path, &pretty_json).context("failed to write user preferences")
     }
 }
 
diff --git a/src/utils.rs b/src/utils.rs
index cfec402..3724f53 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,6 +1,11 @@
 //! Contains common utilities used in multiple modules.
 
 use rusqlite::Connection;
+use std::{
+    fs::{self, File},
+    io::{self, Write},
+    path::{Path, PathBuf},
+};
 
 /// Returns the weighted average of the scores.
 #[must_use]
@@ -26,6 +31,18 @@ pub fn new_connection(db_path: &str) -> Result<Connection, rusqlite::Error> {
     Ok(connection)
 }
 
+/// Replaces the contents of the file at the given path. The contents are first written to a temporary
+/// file in the same directory, so that an interrupted write never leaves a partial file behind.
+pub fn replace_file(path: &Path, contents: &str) -> io::Result<()> {
+    let mut temp_path = path.as_os_str().to_owned();
+    temp_path.push(".tmp");
+    let temp_path = PathBuf::from(temp_path);
+    let mut file = File::create(&temp_path)?;
+    file.write_all(contents.as_bytes())?;
+    file.sync_all()?;
+    fs::rename(&temp_path, path)
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0


From 44d782cf52223f45e427a136b86c53a0be5729c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:08 +0000
Subject: [PATCH 18/29] fix: search for courses from the absolute path to the
 library root

---
 src/course_library.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/course_library.rs b/src/course_library.rs
index 323b676..ae40d31 100644
--- a/src/course_library.rs
+++ b/src/course_library.rs
@@ -448,9 +448,10 @@ impl LocalCourseLibrary {
 
         // Start a search for courses from the library root. Courses can be located at any level
         // within the library root. However, the course manifests, assets, and its lessons and
-        // exercises follow a fixed structure.
+        // exercises follow a fixed structure. The search uses the absolute root so that all paths
+        // in the library, and those they are compared against, are absolute.
         let mut courses = Vec::new();
-        for entry in WalkDir::new(library_root)
+        for entry in WalkDir::new(&absolute_root)
             .min_depth(2)
             .into_iter()
             .flatten()
-- 
2.43.0


From 095671e35c91709bb1d4f6b65d9998cd92aa556e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:48 +0000
Subject: [PATCH 19/29] fix: keep the user data inside the library root
 resolved from the working directory

---
 src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e8d90cf..46c5cad 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -300,7 +300,9 @@ impl Trane {
     /// directory. The working directory will be used to resolve relative paths.
     #[cfg_attr(coverage, coverage(off))]
     pub fn new_local(working_dir: &Path, library_root: &Path) -> Result<Trane> {
-        // Initialize the config directory.
+        // Initialize the config directory. Both the user data and the courses are located inside
+        // the resolved library root.
+        let library_root = &working_dir.join(library_root);
         Self::init_config_directory(library_root)?;
 
         // Build all the preferences manager and course library.
@@ -311,7 +313,7 @@ impl Trane {
         }));
         let user_preferences = preferences_manager.read().get_user_preferences()?;
         let course_library = Arc::new(RwLock::new(LocalCourseLibrary::new(
-            &working_dir.join(library_root),
+            library_root,
             user_preferences.clone(),
         )?));
 
-- 
2.43.0


From 6b0507de3af36468943856010cb2ff9aabdd1f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:42 +0000
Subject: [PATCH 20/29] fix: reject scores for units that are not exercises in
 the library

---
 src/scheduler.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index 7b3715e..ae93618 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -1128,6 +1128,12 @@ impl ExerciseScheduler for DepthFirstScheduler {
         score: MasteryScore,
         timestamp: i64,
     ) -> Result<(), ExerciseSchedulerError> {
+        // Reject any unit that is not an exercise in the library. Recording its score would add it to
+        // the relearn pile, from which it could not be scheduled.
+        self.data
+            .get_exercise_manifest(exercise_id)
+            .map_err(ExerciseSchedulerError::ScoreExercise)?;
+
         // Retreive the existing score to compute the delta. Do not apply it to exercises with no
         // trials as those have no previous data for comparison.
         let existing_score = self
-- 
2.43.0


From 5c2cc352dfebd15019356a355cdaa7b9f1c71b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:42 +0000
Subject: [PATCH 21/29] fix: skip review list entries that are no longer in the
 library

---
 src/scheduler.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index ae93618..d102904 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -936,7 +936,11 @@ impl DepthFirstScheduler {
         let mut candidates = vec![];
         let review_list = self.data.review_list.read().get_review_list_entries()?;
         for unit_id in review_list {
-            match self.data.get_unit_type_strict(unit_id)? {
+            // Skip units that are no longer in the library.
+            let Some(unit_type) = self.data.get_unit_type(unit_id) else {
+                continue;
+            };
+            match unit_type {
                 UnitType::Course => {
                     // If the unit is a course, use the course scheduler to retrieve candidates.
                     let course_ids = vec![unit_id];
-- 
2.43.0


From 24bedb447f5d2a6d3bedeaf20a0edc818fd2e854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:42 +0000
Subject: [PATCH 22/29] fix: compute the length of study sessions without
 overflow

---
 src/data/filter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/filter.rs b/src/data/filter.rs
index 89019c4..80f4f6f 100644
--- a/src/data/filter.rs
+++ b/src/data/filter.rs
@@ -361,9 +361,9 @@ impl StudySessionData {
 
         // Find the first part that has not been completed yet. If all parts have been completed,
         // return the last part.
-        let mut session_length = 0;
+        let mut session_length: u32 = 0;
         for part in &self.definition.parts {
-            session_length += part.duration();
+            session_length = session_length.saturating_add(part.duration());
             if minutes_since_start < session_length {
                 return part.clone();
             }
-- 
2.43.0


From b659dd1b7da19af8b0afe1c3217d61a4e58da49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:51 +0000
Subject: [PATCH 23/29] fix: report paths that are not valid UTF-8 as errors

---
 src/data/course_generator/knowledge_base.rs | 6 +++++-
 src/data/course_generator/literacy.rs       | 6 +++++-
 src/lib.rs                                  | 7 +++++++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/data/course_generator/knowledge_base.rs b/src/data/course_generator/knowledge_base.rs
index 3fcbc86..5988deb 100644
--- a/src/data/course_generator/knowledge_base.rs
+++ b/src/data/course_generator/knowledge_base.rs
@@ -655,7 +655,11 @@ impl GenerateManifests for KnowledgeBaseConfig {
             // Check if the directory name is in the format `<SHORT_LESSON_ID>.lesson`. If so, read
             // the knowledge base lesson and its exercises.
             let path = entry.path();
-            let dir_name = path.file_name().unwrap_or_default().to_str().unwrap();
+            let dir_name = path
+                .file_name()
+                .unwrap_or_default()
+                .to_str()
+                .ok_or_else(|| anyhow!("invalid directory name {}", path.display()))?;
             if let Some(short_id) = dir_name.strip_suffix(LESSON_SUFFIX) {
                 lessons.insert(
                     short_id.into(),
diff --git a/src/data/course_generator/literacy.rs b/src/data/course_generator/literacy.rs
index bce10c6..3944f1f 100644
--- a/src/data/course_generator/literacy.rs
+++ b/src/data/course_generator/literacy.rs
@@ -723,7 +723,11 @@ impl GenerateManifests for LiteracyConfig {
             // Check if the directory name is in the format `<SHORT_LESSON_ID>.lesson`. If so, read
             // the knowledge base lesson and its exercises.
             let path = entry.path();
-            let dir_name = path.file_name().unwrap_or_default().to_str().unwrap();
+            let dir_name = path
+                .file_name()
+                .unwrap_or_default()
+                .to_str()
+                .ok_or_else(|| anyhow!("invalid directory name {}", path.display()))?;
             if let Some(short_id) = dir_name.strip_suffix(LESSON_SUFFIX)
                 && !short_id.is_empty()
             {
diff --git a/src/lib.rs b/src/lib.rs
index 46c5cad..9bd8ce3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -238,6 +238,13 @@ impl Trane {
         preferences_manager: Arc<RwLock<LocalPreferencesManager>>,
         course_library: Arc<RwLock<LocalCourseLibrary>>,
     ) -> Result<Trane> {
+        // The paths to the databases must be valid UTF-8.
+        ensure!(
+            library_root.to_str().is_some(),
+            "path to library root {} is not valid UTF-8",
+            library_root.display(),
+        );
+
         let config_path = library_root.join(Path::new(TRANE_CONFIG_DIR_PATH));
         let user_preferences = preferences_manager.read().get_user_preferences()?;
         let unit_graph = course_library.write().get_unit_graph();
-- 
2.43.0


From 7885e4b099eec544f8fa19e8f8aff3a35dffabcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:05 +0000
Subject: [PATCH 24/29] fix: only remove lesson directories inside the root of
 the knowledge base course

---
 src/course_builder/knowledge_base_builder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/course_builder/knowledge_base_builder.rs b/src/course_builder/knowledge_base_builder.rs
index 27857ca..1f9f319 100644
--- a/src/course_builder/knowledge_base_builder.rs
+++ b/src/course_builder/knowledge_base_builder.rs
@@ -10,7 +10,7 @@ use std::{
     collections::{BTreeMap, HashSet},
     fs::{self, File, create_dir_all},
     io::Write,
-    path::{Path, PathBuf},
+    path::{Path, PathBuf, is_separator},
 };
 use ustr::Ustr;
 
@@ -307,6 +307,11 @@ impl SimpleKnowledgeBaseLesson {
             !self.short_id.is_empty(),
             "short ID of lesson cannot be empty"
         );
+        ensure!(
+            !self.short_id.contains(is_separator),
+            "short ID {} of lesson cannot contain path separators",
+            self.short_id
+        );
         let mut short_ids = HashSet::new();
         for exercise in &self.exercises {
             ensure!(
-- 
2.43.0


From 5b93b1f63f344a3a043433659195a87f7043f8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:15 +0000
Subject: [PATCH 25/29] fix: report missing files when building courses

---
 src/course_builder.rs | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/course_builder.rs b/src/course_builder.rs
index 2c1cd94..096efec 100644
--- a/src/course_builder.rs
+++ b/src/course_builder.rs
@@ -95,10 +95,14 @@ impl ExerciseBuilder {
         }
 
         // Verify that all paths mentioned in the manifest are valid.
-        manifest.verify_paths(exercise_directory).context(format!(
-            "failed to verify files for exercise {}",
+        ensure!(
+            manifest.verify_paths(exercise_directory).context(format!(
+                "failed to verify files for exercise {}",
+                manifest.id
+            ))?,
+            "files for exercise {} are missing",
             manifest.id
-        ))?;
+        );
         Ok(())
     }
 }
@@ -151,9 +155,13 @@ impl LessonBuilder {
         }
 
         // Verify that all paths mentioned in the manifest are valid.
-        manifest
-            .verify_paths(lesson_directory)
-            .context(format!("failed to verify files for lesson {}", manifest.id))?;
+        ensure!(
+            manifest
+                .verify_paths(lesson_directory)
+                .context(format!("failed to verify files for lesson {}", manifest.id))?,
+            "files for lesson {} are missing",
+            manifest.id
+        );
         Ok(())
     }
 }
@@ -201,12 +209,16 @@ impl CourseBuilder {
         }
 
         // Verify that all paths mentioned in the manifest are valid.
-        self.course_manifest
-            .verify_paths(&course_directory)
-            .context(format!(
-                "failed to verify files for course {}",
-                self.course_manifest.id
-            ))?;
+        ensure!(
+            self.course_manifest
+                .verify_paths(&course_directory)
+                .context(format!(
+                    "failed to verify files for course {}",
+                    self.course_manifest.id
+                ))?,
+            "files for course {} are missing",
+            self.course_manifest.id
+        );
         Ok(())
     }
 }
-- 
2.43.0


From 3ee7071820e56c78f39761605af92287507a137c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:33 +0000
Subject: [PATCH 26/29] fix: reject libraries in which the score of a unit
 depends on itself

---
 src/graph.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/graph.rs b/src/graph.rs
index 7c4bc78..983b8c2 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -516,6 +516,20 @@ impl InMemoryUnitGraph {
             },
             "cycle in encompassed graph detected",
         )?;
+
+        // The score of a unit depends on the scores of the units that supersede it, and the score
+        // of a course on the scores of its lessons. Check that no score depends on itself.
+        let score_keys: Vec<Ustr> = self.superseded_by.keys().copied().collect();
+        Self::check_graph_cycles(
+            &score_keys,
+            |id| {
+                let superseding = self.get_superseded_by(id).unwrap_or_default();
+                let lessons = self.get_course_lessons(id).unwrap_or_default();
+                Some(superseding.iter().chain(lessons.iter()).copied().collect())
+            },
+            |_, _| Ok(()),
+            "cycle between superseding units and their lessons detected",
+        )?;
         Ok(())
     }
 }
-- 
2.43.0


From 76145dd98e3850546604e37aea7a4a6d5bfcd555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:25 +0000
Subject: [PATCH 27/29] fix: do not overflow on extreme trial timestamps when
 applying rewards

---
 src/reward_scorer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reward_scorer.rs b/src/reward_scorer.rs
index 8706220..9da6039 100644
--- a/src/reward_scorer.rs
+++ b/src/reward_scorer.rs
@@ -125,7 +125,8 @@ impl RewardScorer for WeightedRewardScorer {
         // that are not being performed well.
         let recent_trials = previous_trials.iter().take(3);
         let last_trial = previous_trials.first().unwrap();
-        let num_days = (Utc::now().timestamp() - last_trial.timestamp) as f32 / (86_400.0);
+        let num_days =
+            Utc::now().timestamp().saturating_sub(last_trial.timestamp) as f32 / (86_400.0);
         let average_score = recent_trials.map(|trial| trial.score).sum::<f32>() / 3.0;
         if reward > 0.0 && average_score < 3.0 && num_days < 7.0 {
             return false;
-- 
2.43.0


From bb933fe2fd6ea563cc5c248126b5b8dbe2bc35b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:26 +0000
Subject: [PATCH 28/29] fix: do not overflow or allocate too much with a very
 large batch size

---
 src/scheduler.rs        | 8 ++++++--
 src/scheduler/filter.rs | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index d102904..143f80b 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -744,8 +744,12 @@ impl DepthFirstScheduler {
         allowed_courses: &[Ustr],
     ) -> Result<Vec<Candidate>> {
         // Initialize the list of candidates.
-        let max_candidates = self.data.options.batch_size * MAX_CANDIDATE_FACTOR;
-        let mut all_candidates: Vec<Candidate> = Vec::with_capacity(max_candidates);
+        let max_candidates = self
+            .data
+            .options
+            .batch_size
+            .saturating_mul(MAX_CANDIDATE_FACTOR);
+        let mut all_candidates: Vec<Candidate> = Vec::new();
         let mut lessons_in_progress = UstrSet::default();
 
         // The dependency relationships between a course and its lessons are not explicitly encoded
diff --git a/src/scheduler/filter.rs b/src/scheduler/filter.rs
index 2d1d378..1aa4551 100644
--- a/src/scheduler/filter.rs
+++ b/src/scheduler/filter.rs
@@ -206,7 +206,7 @@ impl CandidateFilter {
         // If there are fewer candidates than three times the batch size, using the full batch size
         // would result in suboptimal filtering. Reduce the batch size to one third of the number
         // of candidates. Otherwise, keep the batch size as is.
-        if num_candidates < batch_size * 3 {
+        if num_candidates < batch_size.saturating_mul(3) {
             return (num_candidates / 3).max(MIN_DYNAMIC_BATCH_SIZE);
         }
         batch_size
-- 
2.43.0


From df5eea3150b9d4ce29dd8088cc9959c70299854b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:18 +0000
Subject: [PATCH 29/29] fix: never return an exercise twice in a batch when
 mastery windows overlap

---
 src/scheduler/filter.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/scheduler/filter.rs b/src/scheduler/filter.rs
index 1aa4551..2e55c3b 100644
--- a/src/scheduler/filter.rs
+++ b/src/scheduler/filter.rs
@@ -265,22 +265,27 @@ impl CandidateFilter {
 
         // Find the candidates that fit in each window. Then combine the mastered and highly
         // encompassed candidates into a single window to ensure that they are not overrepresented
-        // in the final batch.
-        let encompassed_set: UstrSet = result
+        // in the final batch. The windows in the options can overlap, so keep each candidate only in
+        // the first window it fits. Otherwise, it could appear more than once in the final batch.
+        let mut assigned_set: UstrSet = result
             .highly_encompassed
             .iter()
             .map(|c| c.exercise_id)
             .collect();
         let mut mastered_candidates =
-            Self::candidates_in_window(candidates, &encompassed_set, &options.mastered_window_opts);
+            Self::candidates_in_window(candidates, &assigned_set, &options.mastered_window_opts);
+        assigned_set.extend(mastered_candidates.iter().map(|c| c.exercise_id));
         let easy_candidates =
-            Self::candidates_in_window(candidates, &encompassed_set, &options.easy_window_opts);
+            Self::candidates_in_window(candidates, &assigned_set, &options.easy_window_opts);
+        assigned_set.extend(easy_candidates.iter().map(|c| c.exercise_id));
         let current_candidates =
-            Self::candidates_in_window(candidates, &encompassed_set, &options.current_window_opts);
+            Self::candidates_in_window(candidates, &assigned_set, &options.current_window_opts);
+        assigned_set.extend(current_candidates.iter().map(|c| c.exercise_id));
         let target_candidates =
-            Self::candidates_in_window(candidates, &encompassed_set, &options.target_window_opts);
+            Self::candidates_in_window(candidates, &assigned_set, &options.target_window_opts);
+        assigned_set.extend(target_candidates.iter().map(|c| c.exercise_id));
         let new_candidates =
-            Self::candidates_in_window(candidates, &encompassed_set, &options.new_window_opts);
+            Self::candidates_in_window(candidates, &assigned_set, &options.new_window_opts);
         mastered_candidates.extend(result.highly_encompassed);
 
         // Initialize the final list. For each window in descending order of mastery, add the
-- 
2.43.0

