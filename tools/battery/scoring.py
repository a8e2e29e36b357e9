CASES = []
S, R, D = "src/scheduler.rs", "src/scheduler/relearn_pile.rs", "src/scheduler/data.rs"


def b(name, props, *edits):
    CASES.append((name, "breaks", props, list(edits)))


def k(name, *edits):
    CASES.append((name, "keeps", "*", list(edits)))


b("score-delta-abs", "C26", (S, "let delta = score.float_score() - existing_score;", "let delta = (score.float_score() - existing_score).abs();"))
b("score-delta-second", "C26", (S, "if num_trials > 0 {", "if num_trials > 1 {"))
b("score-delta-always", "C26", (S, "if num_trials > 0 {", "if num_trials > 0 || existing_score > 0.0 {"))
b("score-delta-swapped", "C26", (S, "score.float_score() - existing_score;", "existing_score - score.float_score();"))
b("score-rewards-only-nonempty-high", "C26", (S, '''        let rewards = self
            .reward_propagator''', '''        if num_trials == 0 {
            return Ok(());
        }
        let rewards = self
            .reward_propagator'''))
b("score-float-table", "C26", ("src/data.rs", "Self::Four => 4.0,", "Self::Four => 4.5,"))
b("pile-three", "C27", (R, "MasteryScore::One | MasteryScore::Two => relearning_pile.insert(exercise_id),\n            MasteryScore::Three |",
                        "MasteryScore::One | MasteryScore::Two | MasteryScore::Three => relearning_pile.insert(exercise_id),\n           "))
b("pile-early", "C27", (S, "        // Retreive the existing score", "        self.relearn_pile.update(exercise_id, &score);\n        // Retreive the existing score"))
b("pile-options", "C27", (S, "self.relearn_pile.set_options(options);", "self.relearn_pile = RelearnPile::new(options);"))
b("pile-selected-dropped", "C27", (R, "        let pile = self.pile.read();\n        let relearn_exercises: Vec<_> = pile.iter().sample(&mut rand::rng(), num_to_add);",
  "        let mut pile = self.pile.write();\n        let relearn_exercises: Vec<_> = pile.iter().copied().sample(&mut rand::rng(), num_to_add);\n        for id in &relearn_exercises { pile.remove(id); }"),
  (R, "exercise_id: *exercise_id,", "exercise_id,"))
b("pile-drop-more", "C27", (R, ".retain(|id| !data.inside_blacklisted(*id).unwrap_or(false));",
                            ".retain(|id| !data.inside_blacklisted(*id).unwrap_or(false) && !id.as_str().is_empty());"))
b("rate-three", "C27", (D, "MasteryScore::One | MasteryScore::Two => counts.1 += 1,\n            MasteryScore::Three | ", "MasteryScore::One | MasteryScore::Two | MasteryScore::Three => counts.1 += 1,\n            "))
b("rate-swapped", "C27", (D, "counts.0 as f32 / total as f32", "counts.1 as f32 / total as f32"))
b("rate-none", "C27", (D, "if total == 0 {\n            1.0", "if total == 0 {\n            0.0"))
b("rate-only-repeat", "C27", (S, "self.data.update_success_rate(&score);", "if num_trials > 0 { self.data.update_success_rate(&score); }"))

k("score-helper", (S, '''        if num_trials > 0 {
            let delta = score.float_score() - existing_score;
            self.data
                .practice_deltas
                .write()
                .record_exercise_deltas(&[ExerciseDelta {
                    exercise_id,
                    delta,
                    timestamp,
                }])
                .map_err(|e| ExerciseSchedulerError::ScoreExercise(e.into()))?;
        }
''', '''        if num_trials >= 1 {
            let record = ExerciseDelta {
                exercise_id,
                delta: score.float_score() - existing_score,
                timestamp,
            };
            let mut store = self.data.practice_deltas.write();
            store
                .record_exercise_deltas(&[record])
                .map_err(|e| ExerciseSchedulerError::ScoreExercise(e.into()))?;
        }
'''))
k("score-order", (S, '''        self.relearn_pile.update(exercise_id, &score);
        self.data.update_success_rate(&score);
''', '''        self.data.update_success_rate(&score);
        self.relearn_pile.update(exercise_id, &score);
'''))
k("score-trials-option", (S, '''            .get_exercise_num_trials(exercise_id)
            .unwrap_or_default()
            .unwrap_or_default();
        if num_trials > 0 {''', '''            .get_exercise_num_trials(exercise_id)
            .unwrap_or_default();
        if let Some(n) = num_trials && n != 0 {'''))
k("score-vec", (S, '''            .record_exercise_scores(&[ExerciseTrial {
                exercise_id,
                score: score.float_score(),
                timestamp,
            }])''', '''            .record_exercise_scores(&vec![ExerciseTrial {
                exercise_id,
                score: score.float_score(),
                timestamp,
            }])'''))
k("pile-if", (R, '''        match score {
            MasteryScore::One | MasteryScore::Two => relearning_pile.insert(exercise_id),
            MasteryScore::Three | MasteryScore::Four | MasteryScore::Five => {
                relearning_pile.remove(&exercise_id)
            }
        };''', '''        if matches!(score, MasteryScore::One | MasteryScore::Two) {
            relearning_pile.insert(exercise_id);
        } else {
            relearning_pile.remove(&exercise_id);
        }'''))
k("pile-if-float", (R, '''        match score {
            MasteryScore::One | MasteryScore::Two => relearning_pile.insert(exercise_id),
            MasteryScore::Three | MasteryScore::Four | MasteryScore::Five => {
                relearning_pile.remove(&exercise_id)
            }
        };''', '''        if score.float_score() < 3.0 {
            relearning_pile.insert(exercise_id);
        } else {
            relearning_pile.remove(&exercise_id);
        }'''))
k("rate-early", (D, '''        let total = counts.0 + counts.1;
        if total == 0 {
            1.0
        } else {
            counts.0 as f32 / total as f32
        }''', '''        let (passed, failed) = *counts;
        let total = failed + passed;
        if total > 0 {
            return passed as f32 / total as f32;
        }
        1.0'''))
k("rate-branch", (D, '''        let mut counts = self.trial_counts.write();
        match score {
            MasteryScore::One | MasteryScore::Two => counts.1 += 1,
            MasteryScore::Three | MasteryScore::Four | MasteryScore::Five => counts.0 += 1,
        }''', '''        let passed = match score {
            MasteryScore::One | MasteryScore::Two => false,
            _ => true,
        };
        let mut counts = self.trial_counts.write();
        if passed {
            counts.0 += 1;
        } else {
            counts.1 += 1;
        }'''))

INC = "            self.data.increment_exercise_frequency(exercise_manifest.id);"
b("freq-skip-relearn", "C25", (S, """        for exercise_manifest in &manifests {
"""+INC, """        for exercise_manifest in manifests.iter().skip(1) {
"""+INC))
b("freq-only-some", "C25", (S, INC, "            if !exercise_manifest.name.is_empty() {\n" + INC + "\n            }"))
b("freq-lesson", "C25", (S, INC, INC.replace(".id)", ".lesson_id)")))
b("freq-twice", "C25", (S, INC, INC + "\n" + INC))
b("freq-before", "C25", (S, "        let manifests = self\n            .candidates_to_exercises(shuffled_candidates)", "        for c in shuffled_candidates.iter().filter(|c| c.frequency > 0) { self.data.increment_exercise_frequency(c.exercise_id); }\n        let manifests = self\n            .candidates_to_exercises(shuffled_candidates)"))
b("freq-two", "C25", (D, "        *frequency += 1;", "        *frequency += 2;"))
b("freq-or-one", "C25", (D, "entry(exercise_id).or_insert(0)", "entry(exercise_id).or_insert(1)"))
b("freq-lesson-key", "C25", (S, "frequency: frequency_map.get(&exercise_id).copied().unwrap_or(0),", "frequency: frequency_map.get(&item.unit_id).copied().unwrap_or(0),"))
b("freq-default", "C25", (S, "frequency: frequency_map.get(&exercise_id).copied().unwrap_or(0),", "frequency: frequency_map.get(&exercise_id).copied().unwrap_or(1),"))
k("freq-foreach", (S, """        for exercise_manifest in &manifests {
"""+INC+"""
        }""", """        manifests
            .iter()
            .for_each(|manifest| self.data.increment_exercise_frequency(manifest.id));"""))
k("freq-entry", (D, """        let frequency = frequency_map.entry(exercise_id).or_insert(0);
        *frequency += 1;""", """        *frequency_map.entry(exercise_id).or_default() += 1;"""))
k("freq-insert", (D, """        let frequency = frequency_map.entry(exercise_id).or_insert(0);
        *frequency += 1;""", """        let frequency = frequency_map.get(&exercise_id).copied().unwrap_or_default();
        frequency_map.insert(exercise_id, frequency + 1);"""))
k("freq-modify", (D, """        let frequency = frequency_map.entry(exercise_id).or_insert(0);
        *frequency += 1;""", """        frequency_map
            .entry(exercise_id)
            .and_modify(|frequency| *frequency += 1)
            .or_insert(1);"""))
k("freq-bulk", (S, """        for exercise_manifest in &manifests {
"""+INC+"""
        }""", """        self.data.increment_frequencies(&manifests);"""), (D, """    pub fn increment_exercise_frequency(""", """    pub fn increment_frequencies(&self, manifests: &[ExerciseManifest]) {
        let mut frequency_map = self.frequency_map.write();
        for manifest in manifests {
            let frequency = frequency_map.entry(manifest.id).or_insert(0);
            *frequency += 1;
        }
    }

    /// Increments.
    #[cfg_attr(not(test), allow(dead_code))]
    pub fn increment_exercise_frequency("""))
