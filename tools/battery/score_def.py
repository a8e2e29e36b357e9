U = "src/scheduler/unit_scorer.rs"
D = "src/scheduler/data.rs"
P = "C41"
SUM = '''                    let avg_score: f32 = valid_exercises
                        .iter()
                        .map(|id| self.get_exercise_score(*id))
                        .sum::<Result<f32>>()?
                        / valid_exercises.len() as f32;
                    Ok(Some(avg_score))'''
FILT = '''                    .filter(|exercise_id| {
                        let blacklisted = blacklist.blacklisted(*exercise_id);
                        !blacklisted.unwrap_or(false)
                    })
                    .collect::<Vec<Ustr>>();'''
COURSE = '''                let avg_score: f32 = valid_lesson_scores
                    .iter()
                    .map(|s| s.unwrap_or_default())
                    .sum::<f32>()
                    / valid_lesson_scores.len() as f32;'''
CASES = [
 ("counts-blacklisted", "breaks", P, [(U, FILT, "                    .collect::<Vec<Ustr>>();")]),
 ("divides-by-all", "breaks", P, [(U, "                        / valid_exercises.len() as f32;", "                        / exercise_ids.len() as f32;")]),
 ("course-divides-by-all", "breaks", P, [(U, "                    / valid_lesson_scores.len() as f32;", "                    / lesson_ids.len() as f32;")]),
 ("lesson-first", "breaks", P, [(U, "                        .map(|id| self.get_exercise_score(*id))\n                        .sum", "                        .take(10).map(|id| self.get_exercise_score(*id))\n                        .sum")]),
 ("lesson-blacklist-zero", "breaks", P, [(U, "        if blacklisted.unwrap_or(false) {\n            self.lesson_cache.borrow_mut().insert(lesson_id, None);\n            return Ok(None);", "        if blacklisted.unwrap_or(false) {\n            self.lesson_cache.borrow_mut().insert(lesson_id, Some(0.0));\n            return Ok(Some(0.0));")]),
 ("lesson-ignore-blacklist", "breaks", P, [(U, "        if blacklisted.unwrap_or(false) {\n            self.lesson_cache", "        if blacklisted.unwrap_or(false) && self.lesson_cache.borrow().is_empty() {\n            self.lesson_cache")]),
 ("course-no-superseded", "breaks", P, [(U, "            && self.is_superseded(course_id, &superseding_ids)", "            && superseding_ids.len() > 1 && self.is_superseded(course_id, &superseding_ids)")]),
 ("lesson-superseded-direct", "breaks", P, [(U, "        let superseding_ids = self.get_superseding_recursive(lesson_id);\n        if", "        let superseding_ids = self.data.get_superseding(lesson_id);\n        if")]),
 ("strict-threshold", "breaks", P, [(U, "|score| *score >= self.data.options.superseding_score", "|score| *score > self.data.options.superseding_score")]),
 ("any-superseding", "breaks", P, [(U, "            .all(|score| *score >= self", "            .any(|score| *score >= self")]),
 ("passing-threshold", "breaks", P, [(U, "self.data.options.superseding_score", "self.data.options.mastered_window_opts.range.0")]),
 ("no-practice-needed", "breaks", P, [(U, "        if !self.all_valid_exercises_have_scores(superseded_id) {\n            return false;\n        }\n", "")]),
 ("any-practised", "breaks", P, [(U, "            .all(|score| score.is_ok() && score.unwrap() > 0.0)", "            .any(|score| score.is_ok() && score.unwrap() > 0.0)")]),
 ("zero-practised", "breaks", P, [(U, "score.unwrap() > 0.0)", "score.unwrap() >= 0.0)")]),
 ("empty-superseded", "breaks", P, [(U, "        if superseding_ids.is_empty() {\n            return false;", "        if superseding_ids.is_empty() {\n            return true;")]),
 ("replace-one-level", "breaks", P, [(U, "result.extend(self.replace_superseding(&superseding));", "result.extend(superseding.iter().copied());")]),
 ("replace-drops", "breaks", P, [(U, "                } else {\n                    result.insert(id);\n                }", "                }")]),
 ("replace-keeps", "breaks", P, [(U, "                    result.extend(self.replace_superseding(&superseding));\n", "                    result.extend(self.replace_superseding(&superseding));\n                    result.insert(id);\n")]),
 ("swap-rewards", "breaks", P, [(U, ".score_rewards(&course_rewards, &lesson_rewards)", ".score_rewards(&lesson_rewards, &course_rewards)")]),
 ("reward-own-lesson", "breaks", P, [(U, "            .get_rewards(lesson_id, self.options.num_rewards)", "            .get_rewards(exercise_id, self.options.num_rewards)")]),
 ("no-clamp", "breaks", P, [(U, "(score.value + reward).clamp(0.0, 5.0)", "(score.value + reward).max(0.0)")]),
 ("always-reward", "breaks", P, [(U, "if self.reward_scorer.apply_reward(reward, &scores) {", "if reward != 0.0 || self.reward_scorer.apply_reward(reward, &scores) {")]),
 ("course-trials-blacklisted", "breaks", P, [(U, "!blacklisted.unwrap_or(false) && !superseded", "!superseded")]),
 ("course-trials-superseded", "breaks", P, [(U, "!blacklisted.unwrap_or(false) && !superseded", "!blacklisted.unwrap_or(false)")]),
 ("lesson-trials-divisor", "breaks", P, [(U, "total_num_trials as f32 / valid_exercise_trials.len() as f32", "total_num_trials as f32 / (valid_exercise_trials.len() as f32 + 1.0)")]),
 ("lesson-trials-round", "breaks", P, [(U, "Some(total_num_trials as f32 / valid_exercise_trials.len() as f32)", "Some((total_num_trials / valid_exercise_trials.len()) as f32)")]),
 ("course-ungraded-zero", "breaks", P, [(U, "                        if score.as_ref().unwrap_or(&None).is_none() {\n                            return false;\n                        }\n                        true", "                        score.is_ok() || true")]),
 ("avg-type-swap", "breaks", P, [(U, "Some(UnitType::Lesson) => self.get_lesson_num_trials(unit_id),", "Some(UnitType::Lesson) => self.get_course_num_trials(unit_id),")]),
 ("valid-course-blacklist", "breaks", P, [(D, "        // If the course to which the lesson belongs is blacklisted, return no exercises.\n", "        if true { return self.unit_graph.read().get_lesson_exercises(lesson_id).unwrap_or_default().iter().copied().collect(); }\n")]),
 # kept
 ("k-sum-loop", "keeps", P + ",C08", [(U, SUM, '''                    let mut total = 0.0;
                    for id in &valid_exercises {
                        total += self.get_exercise_score(*id)?;
                    }
                    Ok(Some(total / valid_exercises.len() as f32))''')]),
 ("k-filter-loop", "keeps", P + ",C08", [(U, '''                let valid_exercises = exercise_ids
                    .iter()
                    .copied()
''' + FILT, '''                let mut valid_exercises: Vec<Ustr> = Vec::new();
                for exercise_id in exercise_ids.iter() {
                    if blacklist.blacklisted(*exercise_id).unwrap_or(false) {
                        continue;
                    }
                    valid_exercises.push(*exercise_id);
                }''')]),
 ("k-one-loop", "keeps", P + ",C08", [(U, COURSE, '''                let mut sum = 0.0f32;
                let mut n = 0;
                for s in &valid_lesson_scores {
                    sum += s.unwrap_or_default();
                    n += 1;
                }
                let avg_score: f32 = sum / n as f32;''')]),
 ("k-avg-helper", "keeps", P + ",C08", [(U, COURSE, "                let avg_score = Self::average(&valid_lesson_scores);"),
    (U, "    /// Returns the score for the given unit. A return", '''    fn average(scores: &[Option<f32>]) -> f32 {
        let total: f32 = scores.iter().map(|s| s.unwrap_or_default()).sum();
        total / scores.len() as f32
    }

    /// Returns the score for the given unit. A return''')]),
 ("k-flatten", "keeps", P + ",C08", [(U, '''                    .map(|s| s.unwrap_or_default())
                    .sum::<f32>()''', '''                    .flatten()
                    .sum::<f32>()''')]),
 ("k-fold", "keeps", P + ",C08", [(U, '''                    .map(|s| s.unwrap_or_default())
                    .sum::<f32>()''', '''                    .fold(0.0, |acc, s| acc + s.unwrap_or_default())''')]),
 ("k-all-loop", "keeps", P + ",C02", [(U, '''        scores
            .iter()
            .all(|score| *score >= self.data.options.superseding_score)''', '''        for score in scores {
            if score < self.data.options.superseding_score {
                return false;
            }
        }
        true''')]),
 ("k-all-direct", "keeps", P + ",C02", [(U, '''            .collect::<Vec<_>>();
        scores
            .iter()
            .all(|score| *score >= self.data.options.superseding_score)''', '''            .all(|score| score >= self.data.options.superseding_score);
        scores''')]),
 ("k-practised-loop", "keeps", P, [(U, '''        let scores: Vec<Result<f32>> = valid_exercises
            .into_iter()
            .map(|id| self.get_exercise_score(id))
            .collect();
        scores
            .into_iter()
            .all(|score| score.is_ok() && score.unwrap() > 0.0)''', '''        for id in valid_exercises {
            match self.get_exercise_score(id) {
                Ok(score) if score > 0.0 => {}
                _ => return false,
            }
        }
        true''')]),
 ("k-practised-all", "keeps", P, [(U, '''        let scores: Vec<Result<f32>> = valid_exercises
            .into_iter()
            .map(|id| self.get_exercise_score(id))
            .collect();
        scores
            .into_iter()
            .all(|score| score.is_ok() && score.unwrap() > 0.0)''', '''        valid_exercises
            .into_iter()
            .all(|id| self.get_exercise_score(id).is_ok_and(|score| score > 0.0))''')]),
 ("k-superseded-helper", "keeps", P + ",C08,C02", [(U, '''        let superseding_ids = self.get_superseding_recursive(lesson_id);
        if let Some(superseding_ids) = superseding_ids
            && self.is_superseded(lesson_id, &superseding_ids)
        {''', '''        if self.currently_superseded(lesson_id) {'''), (U, '''        let superseding_ids = self.get_superseding_recursive(course_id);
        if let Some(superseding_ids) = superseding_ids
            && self.is_superseded(course_id, &superseding_ids)
        {''', '''        if self.currently_superseded(course_id) {'''), (U, '''                let superseding_ids = self.get_superseding_recursive(*lesson_id);
                let superseded = if let Some(superseding_ids) = superseding_ids {
                    self.is_superseded(*lesson_id, &superseding_ids)
                } else {
                    false
                };''', "                let superseded = self.currently_superseded(*lesson_id);"), (U, "    /// Returns the score for the given unit. A return", '''    fn currently_superseded(&self, id: Ustr) -> bool {
        self.get_superseding_recursive(id)
            .is_some_and(|ids| self.is_superseded(id, &ids))
    }

    /// Returns the score for the given unit. A return''')]),
 ("k-replace-match", "keeps", P, [(U, '''            let superseding = self.data.get_superseding(id);
            if let Some(superseding) = superseding {
                // The unit has some superseding units of its own. If the unit has been superseded
                // by them, recursively call this function. Otherwise, add the unit to the result.
                if self.is_superseded(id, &superseding) {
                    result.extend(self.replace_superseding(&superseding));
                } else {
                    result.insert(id);
                }
            } else {
                // The unit has no superseding units, so add it to the result.
                result.insert(id);
            }''', '''            match self.data.get_superseding(id) {
                Some(superseding) if self.is_superseded(id, &superseding) => {
                    for replacement in self.replace_superseding(&superseding) {
                        result.insert(replacement);
                    }
                }
                _ => {
                    result.insert(id);
                }
            }''')]),
 ("k-early-lesson", "keeps", P + ",C08", [(U, '''                if valid_exercises.is_empty() {
                    // If all exercises are blacklisted, the lesson has no valid score.
                    Ok(None)
                } else {''', '''                let count = valid_exercises.len();
                if count == 0 {
                    Ok(None)
                } else {''')]),
 ("k-clamp-minmax", "keeps", P, [(U, "(score.value + reward).clamp(0.0, 5.0)", "(reward + score.value).clamp(0.0, 5.0)")]),
 ("k-trials-let-else", "keeps", P + ",C08", [(U, '''        let result = if valid_lesson_trials.is_empty() {
            None
        } else {
            let total_num_trials: f32 = valid_lesson_trials.iter().sum();
            Some(total_num_trials / valid_lesson_trials.len() as f32)
        };
''', '''        let num_lessons = valid_lesson_trials.len() as f32;
        let result = if valid_lesson_trials.is_empty() {
            None
        } else {
            Some(valid_lesson_trials.iter().sum::<f32>() / num_lessons)
        };
''')]),
]
