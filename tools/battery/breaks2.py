"""Breaking edits about the blacklist, threads and locks."""
CASES = []
S, D, P, BL, US, LIB, RW = ("src/scheduler.rs", "src/scheduler/data.rs", "src/scheduler/relearn_pile.rs", "src/blacklist.rs",
                            "src/scheduler/unit_scorer.rs", "src/lib.rs", "src/practice_rewards.rs")


def b(name, props, *edits):
    CASES.append((name, "breaks", props, list(edits)))


# --- C01
b("b2-bl-lesson-or-course", "C01", (D, "Ok(lesson_blacklisted || course_blacklisted)", "Ok(lesson_blacklisted && course_blacklisted)"))
b("b2-bl-course-of-exercise", "C01", (D, "let course_id = self.get_course_id(lesson_id).unwrap_or_default();\n        let course_blacklisted", "let course_id = self.get_course_id(exercise_id).unwrap_or_default();\n        let course_blacklisted"))
b("b2-pile-own-only", "C01", (P, "data.inside_blacklisted(*id)", "data.blacklisted(*id)"))
b("b2-pile-after", "C01", (P, '''        self.pile
            .write()
            .retain(|id| !data.inside_blacklisted(*id).unwrap_or(false));
        self.select_exercises_helper()''', '''        let selected = self.select_exercises_helper();
        self.pile
            .write()
            .retain(|id| !data.inside_blacklisted(*id).unwrap_or(false));
        selected'''))
b("b2-pile-cond", "C01", (P, '''        self.pile
            .write()
            .retain''', '''        if self.pile.read().len() < self.options.batch_size {
            return self.select_exercises_helper();
        }
        self.pile
            .write()
            .retain'''))
b("b2-lesson-unfiltered", "C01", (S, "let exercises = self.data.all_valid_exercises_in_lesson(item.unit_id);", "let exercises = self.data.get_lesson_exercises(item.unit_id);"))
b("b2-lesson-skip-course", "C01", (D, '''        let course_id = self.get_lesson_course(lesson_id).unwrap_or_default();
        if blacklist.blacklisted(course_id).unwrap_or(false) {
            return vec![];
        }

        // Get all''', '''        // Get all'''))
b("b2-review-own", "C01", (S, "if self.data.inside_blacklisted(unit_id)? {", "if self.data.blacklisted(unit_id)? {"))
b("b2-filter-inverted", "C01", (D, ".filter(|exercise_id| !blacklist.blacklisted(*exercise_id).unwrap_or(false))\n            .collect()\n    }\n\n    /// Returns all the valid exercises in the given unit", ".filter(|exercise_id| !blacklist.blacklisted(lesson_id).unwrap_or(false) || exercise_id.is_empty())\n            .collect()\n    }\n\n    /// Returns all the valid exercises in the given unit"))
b("b2-cand-lesson-swap", "C01", (S, '''        Ok((selected_candidates, avg_score))''', '''        let mut selected_candidates = selected_candidates;
        for candidate in &mut selected_candidates {
            if candidate.depth > 3.0 {
                candidate.exercise_id = item.unit_id;
            }
        }
        Ok((selected_candidates, avg_score))'''))
b("b2-last-seen-none", "C01", (D, '''        let lesson_blacklisted = blacklist.blacklisted(lesson_id)?;''', '''        let lesson_blacklisted = false;'''))
# --- C05
b("b2-unsafe-send", "C05", (US, "impl UnitScorer {", "unsafe impl Sync for UnitScorer {}\n\nimpl UnitScorer {"))
b("b2-unsafe-block", "C05", (D, "        let mut frequency_map = self.frequency_map.write();\n", "        let mut frequency_map = self.frequency_map.write();\n        let exercise_id = unsafe { std::mem::transmute::<Ustr, Ustr>(exercise_id) };\n"))
# --- C06
b("b2-lock-across", "C06", (D, '''        let course_library_len''' if False else '''        let dependencies_unused''' if False else '''        // Decide whether the unit exists by looking for its manifest.
        let library = self.course_library.read();''', '''        // Decide whether the unit exists by looking for its manifest.
        let library = self.course_library.read();
        let _stats = self.practice_stats.write();
        let _again = self.course_library.write();'''))
b("b2-stats-deltas-order", "C06", (S, '''        let existing_score = self
            .unit_scorer
            .get_unit_score(exercise_id)''', '''        let stats_guard = self.data.practice_stats.write();
        let existing_score = self
            .unit_scorer
            .get_unit_score(exercise_id)'''), (S, '''        if num_trials > 0 {
            let delta''', '''        drop(stats_guard);
        if num_trials > 0 {
            let delta'''))
b("b2-rewards-held", "C06", (S, '''        let updated_ids = self
            .data
            .practice_rewards
            .write()
            .record_unit_rewards(&rewards)
            .map_err(|e| ExerciseSchedulerError::ScoreExercise(e.into()))?;

        // Invalidate caches for units were updated.
        for unit_id in updated_ids {
            self.unit_scorer.invalidate_cached_score(unit_id);
        }''', '''        let mut practice_rewards = self.data.practice_rewards.write();
        let updated_ids = practice_rewards
            .record_unit_rewards(&rewards)
            .map_err(|e| ExerciseSchedulerError::ScoreExercise(e.into()))?;

        // Invalidate caches for units were updated.
        for unit_id in updated_ids {
            self.unit_scorer.invalidate_cached_score(unit_id);
            self.unit_scorer.get_unit_score(unit_id).ok();
        }
        drop(practice_rewards);'''))
b("b2-freq-held", "C06", (S, '''                    let frequency = self
                        .data
                        .frequency_map
                        .read()
                        .get(&unit_id)
                        .copied()
                        .unwrap_or(0);
''', '''                    let mut frequency_map = self.data.frequency_map.write();
                    let frequency = *frequency_map.entry(unit_id).or_insert(0);
                    self.data.increment_exercise_frequency(unit_id);
'''))
b("b2-has-entry-held", "C06", (BL, '''        if let Some(has_entry) = self.cache.read().get(&unit_id) {
            return *has_entry;
        }
''', '''        let cache = self.cache.read();
        if let Some(has_entry) = cache.get(&unit_id) {
            return *has_entry;
        }
'''))
b("b2-order-cache-conn", "C06", (BL, '''        // Remove the entry from the database.
        let connection = self.connection.lock();
        let mut stmt = connection.prepare_cached("DELETE FROM blacklist WHERE unit_id = $1")?;
        stmt.execute(params![unit_id.as_str()])?;

        // Update the cache.
        self.cache.write().insert(unit_id, false);''', '''        // Remove the entry from the database.
        let mut cache = self.cache.write();
        let connection = self.connection.lock();
        let mut stmt = connection.prepare_cached("DELETE FROM blacklist WHERE unit_id = $1")?;
        stmt.execute(params![unit_id.as_str()])?;

        // Update the cache.
        cache.insert(unit_id, false);'''))
b("b2-conn-twice", "C06", (RW, '''        // Call the `VACUUM` command to reclaim the space freed by the deleted trials.
        connection.execute_batch("VACUUM;")?;''', '''        // Call the `VACUUM` command to reclaim the space freed by the deleted trials.
        self.connection.lock().execute_batch("VACUUM;")?;
        drop(connection);'''))
b("b2-counts-reentrant", "C06", (D, '''        let mut counts = self.trial_counts.write();
        match score {''', '''        let mut counts = self.trial_counts.write();
        if self.get_success_rate().is_nan() {
            return;
        }
        match score {'''))
b("b2-pile-two", "C06", (P, '''        let pile = self.pile.read();
        let relearn''', '''        let pile = self.pile.read();
        self.pile.write().shrink_to_fit();
        let relearn'''))
b("b2-graph-read-write", "C06", (D, '''        let graph = self.unit_graph.read();
        while let Some''', '''        let graph = self.unit_graph.read();
        let _exclusive = self.unit_graph.write();
        while let Some'''))
