U, S, L = "src/scheduler/unit_scorer.rs", "src/scheduler.rs", "src/lib.rs"
CLOSE = '''            if let Some(course_id) = graph.get_lesson_course(affected_id) {
                affected_ids.push(course_id);
            }
'''
LESSONARM = '''                if let Some(course_id) = graph.get_lesson_course(unit_id) {
                    self.course_cache.borrow_mut().remove(&course_id);
                    self.course_trials_cache.borrow_mut().remove(&course_id);
                }
'''
CASES = [
 ("cache-no-lesson-trials", "breaks", "C08", [(U, "                    self.lesson_trials_cache.borrow_mut().remove(&lesson_id);\n", "")]),
 ("cache-no-course-from-exercise", "breaks", "C08", [(U, "                        self.course_cache.borrow_mut().remove(&course_id);\n                        self.course_trials", "                        self.course_trials")]),
 ("cache-course-only-if-cached", "breaks", "C08", [(U, "                    if let Some(course_id) = graph.get_lesson_course(lesson_id) {", "                    if self.exercise_cache.borrow().is_empty() && let Some(course_id) = graph.get_lesson_course(lesson_id) {")]),
 ("cache-lesson-no-course", "breaks", "C08", [(U, LESSONARM, "")]),
 ("cache-course-exercises", "breaks", "C08", [(U, "                        if let Some(exercise_ids) = graph.get_lesson_exercises(*lesson_id) {", "                        if lesson_ids.len() == 1 && let Some(exercise_ids) = graph.get_lesson_exercises(*lesson_id) {")]),
 ("cache-course-first-exercises", "breaks", "C08", [(U, "for exercise_id in exercise_ids.iter() {\n                                exercise_cache", "for exercise_id in exercise_ids.iter().take(1) {\n                                exercise_cache")]),
 ("cache-no-superseded", "breaks", "C08", [(U, "                self.lesson_cache.borrow_mut().remove(superseded_id);\n", "")]),
 ("cache-superseded-direct", "breaks", "C08", [(U, "                affected_ids.push(*superseded_id);\n", "")]),
 ("cache-superseded-no-courses", "breaks", "C08", [(U, CLOSE, "")]),
 ("cache-superseded-by", "breaks", "C08", [(U, "graph.get_supersedes(affected_id)", "graph.get_superseded_by(affected_id)")]),
 ("cache-superseded-no-lesson", "breaks", "C08", [(U, "                    affected_ids.push(lesson_id);\n", "")]),
 ("cache-own-lesson", "breaks", "C08", [(U, "        self.lesson_cache.borrow_mut().remove(&unit_id);\n", "")]),
 ("cache-own-course-trials", "breaks", "C08", [(U, "        self.course_trials_cache.borrow_mut().remove(&unit_id);\n", "")]),
 ("cache-key", "breaks", "C08", [(U, "self.lesson_trials_cache\n            .borrow_mut()\n            .insert(lesson_id, result);", "self.lesson_cache.borrow_mut().insert(lesson_id, result);"), ]),
 ("cache-unclamped", "breaks", "C08", [(U, "                score: final_score,", "                score: score.value,")]),
 ("cache-swap", "breaks", "C08", [(U, "                urgency: score.urgency,", "                urgency: score.value,")]),
 ("cache-none-score", "breaks", "C08", [(U, "self.course_cache.borrow_mut().insert(course_id, score);", "self.course_cache.borrow_mut().insert(course_id, score.or(Some(0.0)));")]),
 ("cache-blacklist-score", "breaks", "C08", [(U, "            self.lesson_cache.borrow_mut().insert(lesson_id, None);\n            return Ok(None);", "            self.lesson_cache.borrow_mut().insert(lesson_id, Some(0.0));\n            return Ok(None);")]),
 ("cache-cross", "breaks", "C08", [(U, "            self.lesson_cache.borrow_mut().insert(lesson_id, score);\n", "            self.lesson_cache.borrow_mut().insert(lesson_id, score);\n            if let Some(c) = self.data.unit_graph.read().get_lesson_course(lesson_id) { self.course_cache.borrow_mut().insert(c, score); }\n")]),
 ("facade-blacklist-add", "breaks", "C08", [(L, "        self.scheduler.invalidate_cached_score(unit_id);\n        self.blacklist.write().add", "        self.blacklist.write().add")]),
 ("facade-remove-if-listed", "breaks", "C08", [(L, "        self.scheduler.invalidate_cached_score(unit_id);\n        self.blacklist.write().remove", "        if !self.blacklist.read().blacklisted(unit_id)? { self.scheduler.invalidate_cached_score(unit_id); }\n        self.blacklist.write().remove")]),
 ("facade-prefix", "breaks", "C08", [(L, '''        self.scheduler.invalidate_cached_scores_with_prefix("");
        self.blacklist.write().remove_prefix''', '''        self.scheduler.invalidate_cached_scores_with_prefix(prefix);
        self.blacklist.write().remove_prefix''')]),
 ("facade-first-trial", "breaks", "C08", [(L, "        for trial in trials {\n", "        for trial in trials.iter().take(1) {\n")]),
 ("facade-trim-scores", "breaks", "C08", [(L, '''        self.scheduler.invalidate_cached_scores_with_prefix("");
        self.practice_stats.write().trim''', '''        self.practice_stats.write().trim''')]),
 ("score-invalidate-first", "breaks", "C08", [(S, "        self.unit_scorer.invalidate_cached_score(exercise_id);\n        self.relearn", "        self.relearn"), (S, "        // Write the score to the practice stats database, inv", "        self.unit_scorer.invalidate_cached_score(exercise_id);\n        // Write the score to the practice stats database, inv")]),
 ("score-no-reward-invalidation", "breaks", "C08", [(S, "        for unit_id in updated_ids {\n            self.unit_scorer.invalidate_cached_score(unit_id);\n        }\n", "        let _ = updated_ids;\n")]),
 ("score-reward-invalidation-some", "breaks", "C08", [(S, "        for unit_id in updated_ids {\n", "        for unit_id in updated_ids.into_iter().filter(|id| self.data.get_unit_type(*id) == Some(UnitType::Course)) {\n")]),
 ("score-skip-invalidate-same", "breaks", "C08", [(S, "        self.unit_scorer.invalidate_cached_score(exercise_id);\n        self.relearn", "        if (score.float_score() - existing_score).abs() > 0.01 { self.unit_scorer.invalidate_cached_score(exercise_id); }\n        self.relearn")]),
 ("prefix-contains", "breaks", "C08", [(U, "        self.course_trials_cache\n            .borrow_mut()\n            .retain(|unit_id, _| !unit_id.starts_with(prefix));\n", "")]),
 ("prefix-equal", "breaks", "C08", [(U, "        self.lesson_cache\n            .borrow_mut()\n            .retain(|unit_id, _| !unit_id.starts_with(prefix));\n", "        self.lesson_cache\n            .borrow_mut()\n            .retain(|unit_id, _| unit_id.as_str() != prefix);\n")]),
 ("scheduler-noop-prefix", "breaks", "C08", [(S, "        self.unit_scorer\n            .invalidate_cached_scores_with_prefix(prefix);\n", "        if !prefix.is_empty() { self.unit_scorer.invalidate_cached_scores_with_prefix(prefix); }\n")]),
 ("timestamp-keeps", "breaks", "C08", [(U, "        self.override_timestamp = timestamp;\n        self.clear_cached_scores();", "        self.override_timestamp = timestamp;")]),
 ("clear-misses", "breaks", "C08", [(U, "        self.lesson_trials_cache.borrow_mut().clear();\n", "")]),
 # behaviour kept
 ("k-invalidate-helper", "keeps", "C08,C03", [(U, LESSONARM, "                if let Some(course_id) = graph.get_lesson_course(unit_id) {\n                    self.forget_course(course_id);\n                }\n"),
    (U, "    /// Removes the cached score for any unit with the given prefix.\n", "    fn forget_course(&self, course_id: Ustr) {\n        self.course_cache.borrow_mut().remove(&course_id);\n        self.course_trials_cache.borrow_mut().remove(&course_id);\n    }\n\n    /// Removes the cached score for any unit with the given prefix.\n")]),
 ("k-invalidate-loop-match", "keeps", "C08", [(U, "        while let Some(affected_id) = affected_ids.pop() {\n", "        loop {\n            let Some(affected_id) = affected_ids.pop() else { break };\n")]),
 ("k-invalidate-contains", "keeps", "C08", [(U, "            if !visited.insert(affected_id) {\n                continue;\n            }\n", "            if visited.contains(&affected_id) {\n                continue;\n            }\n            visited.insert(affected_id);\n")]),
 ("k-invalidate-iflet", "keeps", "C08", [(U, "            for superseded_id in graph.get_supersedes(affected_id).unwrap_or_default().iter() {", "            let superseded = graph.get_supersedes(affected_id).unwrap_or_default();\n            for superseded_id in superseded.iter() {")]),
 ("k-clear-all", "keeps", "C08", [(U, "        // Invalidate the caches depending on the type of the unit.\n", "        self.clear_cached_scores();\n")]),
 ("k-entries-struct", "keeps", "C08", [(U, "        self.exercise_cache.borrow_mut().insert(\n            exercise_id,\n            CachedScore {\n                score: final_score,\n                urgency: score.urgency,\n                velocity: score.velocity,\n                num_trials: scores.len(),\n            },\n        );", "        let entry = CachedScore {\n            num_trials: scores.len(),\n            velocity: score.velocity,\n            urgency: score.urgency,\n            score: final_score,\n        };\n        self.exercise_cache.borrow_mut().insert(exercise_id, entry);")]),
 ("k-record-iter", "keeps", "C08", [(L, "        for trial in trials {\n            self.scheduler.invalidate_cached_score(trial.exercise_id);\n        }\n", "        trials.iter().for_each(|trial| self.scheduler.invalidate_cached_score(trial.exercise_id));\n")]),
 ("k-record-after", "keeps", "C08,C07", [(L, "        self.scheduler.invalidate_cached_score(unit_id);\n        self.blacklist.write().add_to_blacklist(unit_id)", "        let result = self.blacklist.write().add_to_blacklist(unit_id);\n        self.scheduler.invalidate_cached_score(unit_id);\n        result")]),
 ("k-record-after-ok", "keeps", "C08,C07", [(L, "        self.scheduler.invalidate_cached_score(unit_id);\n        self.blacklist.write().remove_from_blacklist(unit_id)", "        self.blacklist.write().remove_from_blacklist(unit_id)?;\n        self.scheduler.invalidate_cached_score(unit_id);\n        Ok(())")]),
 ("k-retain-helper", "keeps", "C08", [(U, "        self.lesson_cache\n            .borrow_mut()\n            .retain(|unit_id, _| !unit_id.starts_with(prefix));\n        self.course_cache", "        let keep = |unit_id: &Ustr| !unit_id.as_str().starts_with(prefix);\n        self.lesson_cache\n            .borrow_mut()\n            .retain(|unit_id, _| keep(unit_id));\n        self.course_cache")]),
 ("k-score-match", "keeps", "C08", [(U, "        let cached_score = self.lesson_cache.borrow().get(&lesson_id).copied();\n        if let Some(score) = cached_score {\n            return Ok(score);\n        }", "        if let Some(score) = self.cached_lesson(lesson_id) {\n            return Ok(score);\n        }"), (U, "    /// Removes the cached score for any unit with the given prefix.\n", "    fn cached_lesson(&self, lesson_id: Ustr) -> Option<Option<f32>> {\n        self.lesson_cache.borrow().get(&lesson_id).copied()\n    }\n\n    /// Removes the cached score for any unit with the given prefix.\n")]),
 ("k-exercise-compute-helper", "keeps", "C08", [(U, "        let score = self\n            .exercise_scorer\n            .score(exercise_type, &scores, &deltas, self.now())?;\n", "        let now = self.now();\n        let score = match self.exercise_scorer.score(exercise_type, &scores, &deltas, now) {\n            Ok(score) => score,\n            Err(e) => return Err(e),\n        };\n")]),
 ("k-updated-ids-iter", "keeps", "C08", [(S, "        for unit_id in updated_ids {\n            self.unit_scorer.invalidate_cached_score(unit_id);\n        }\n", "        for unit_id in &updated_ids {\n            self.invalidate_cached_score(*unit_id);\n        }\n")]),
]
