X = "src/exercise_scorer.rs"
R = "src/reward_scorer.rs"
F = "src/scheduler/filter.rs"
S = "src/scheduler.rs"
D = "src/scheduler/data.rs"
DF = "src/data/filter.rs"
L = "src/lib.rs"
K = "src/course_builder/knowledge_base_builder.rs"
CASES = [
    # ---- nothing changes
    ("p-get-part-first", "keeps", "*", [(DF, "            return self.definition.parts[0].clone();",
        "            if let Some(first) = self.definition.parts.first() {\n                return first.clone();\n            }")]),
    ("p-get-part-index", "keeps", "*", [(DF, """        for part in &self.definition.parts {
            session_length = session_length.saturating_add(part.duration());
            if minutes_since_start < session_length {
                return part.clone();
            }
        }
        self.definition.parts.last().unwrap().clone()""", """        let parts = &self.definition.parts;
        for i in 0..parts.len() {
            session_length = session_length.saturating_add(parts[i].duration());
            if minutes_since_start < session_length {
                return parts[i].clone();
            }
        }
        parts[parts.len() - 1].clone()""")]),
    ("p-get-part-while", "keeps", "*", [(DF, """        for part in &self.definition.parts {
            session_length = session_length.saturating_add(part.duration());
            if minutes_since_start < session_length {
                return part.clone();
            }
        }
""", """        let mut i = 0;
        while i < self.definition.parts.len() {
            let part = &self.definition.parts[i];
            session_length = session_length.saturating_add(part.duration());
            if minutes_since_start < session_length {
                return part.clone();
            }
            i += 1;
        }
""")]),
    ("p-get-part-let-else", "keeps", "*", [(DF, """        if self.definition.parts.is_empty() {
            return SessionPart::NoFilter { duration: 0 };
        }
""", """        let Some(last) = self.definition.parts.last() else {
            return SessionPart::NoFilter { duration: 0 };
        };
"""), (DF, "        self.definition.parts.last().unwrap().clone()", "        last.clone()")]),
    ("p-get-part-len", "keeps", "*", [(DF, "        if self.definition.parts.is_empty() {", "        if self.definition.parts.len() == 0 {")]),
    ("p-velocity-len", "keeps", "*", [(X, """        if previous_trials.len() < 2 {
            return None;
        }
""", """        let count = previous_trials.len();
        if !(count >= 2) {
            return None;
        }
"""), (X, "previous_trials.last().unwrap().timestamp;", "previous_trials[count - 1].timestamp;")]),
    ("p-velocity-match", "keeps", "*", [(X, "        let oldest_timestamp = previous_trials.last().unwrap().timestamp;",
        "        let oldest_timestamp = match previous_trials.last() {\n            Some(t) => t.timestamp,\n            None => return None,\n        };")]),
    ("p-sorted-loop", "keeps", "*", [(X, """        if previous_trials
            .windows(2)
            .any(|w| w[0].timestamp < w[1].timestamp)
        {
            return Err""", """        let mut sorted = true;
        for i in 1..previous_trials.len() {
            if previous_trials[i - 1].timestamp < previous_trials[i].timestamp {
                sorted = false;
            }
        }
        if !sorted {
            return Err""")]),
    ("p-sorted-zip", "keeps", "C23", [(X, """        if previous_trials
            .windows(2)
            .any(|w| w[0].timestamp < w[1].timestamp)
        {""", """        if previous_trials
            .iter()
            .zip(previous_trials.iter().skip(1))
            .any(|(a, b)| a.timestamp < b.timestamp)
        {""")]),
    ("p-last-trial-index", "keeps", "*", [(R, "let last_trial = previous_trials.first().unwrap();", "let last_trial = &previous_trials[0];")]),
    ("p-last-trial-expect", "keeps", "*", [(R, "let last_trial = previous_trials.first().unwrap();", "let last_trial = previous_trials.first().expect(\"there are trials\");")]),
    ("p-few-trials", "keeps", "*", [(R, "if previous_trials.len() <= 2 {", "if previous_trials.len() < 3 {")]),
    ("p-slice", "keeps", "C23", [(R, "let recent_trials = previous_trials.iter().take(3);", "let recent_trials = previous_trials[..3].iter();")]),
    ("p-select-noguard", "keeps", "C23", [(F, """        if candidates.len() <= num_to_select {
            return (candidates.to_vec(), vec![]);
        }
""", """        let num_to_select = num_to_select.min(candidates.len());
""")]),
    ("p-remainder-sat", "keeps", "*", [(F, "let num_remainder = batch_size - final_candidates.len();", "let num_remainder = batch_size.saturating_sub(final_candidates.len());")]),
    ("p-remainder-room", "keeps", "*", [(F, """        if final_candidates.len() >= batch_size * 3 / 4 {
            return;
        }
""", """        let threshold = batch_size * 3 / 4;
        if !(final_candidates.len() < threshold) {
            return;
        }
""")]),
    ("p-weight-if", "keeps", "C23", [(F, "(c.urgency / cost.sqrt()).max(MIN_CANDIDATE_WEIGHT)",
        "let weight = c.urgency / cost.sqrt();\n        if weight > MIN_CANDIDATE_WEIGHT { weight } else { MIN_CANDIDATE_WEIGHT }")]),
    ("p-weight-closure", "keeps", "C23", [(F, ".sample_weighted(&mut rng, num_to_select, Self::candidate_weight)", ".sample_weighted(&mut rng, num_to_select, |c| Self::candidate_weight(c))")]),
    ("p-unit-type-match", "keeps", "*", [(S, """            if unit_type.is_none() {
                // The type of the unit is unknown. This can happen when a unit depends on some
                // missing unit not in the course library.
                continue; // grcov-excl-line
            }
            let unit_type = unit_type.unwrap();
""", """            let unit_type = match unit_type {
                Some(t) => t,
                None => continue,
            };
""")]),
    ("p-unit-type-some", "keeps", "*", [(D, "        if unit_type.is_none() {\n            return Ok(false);\n        }\n", "        if !unit_type.is_some() {\n            return Ok(false);\n        }\n")]),
    ("p-helper", "keeps", "*", [(R, "let last_trial = previous_trials.first().unwrap();", "let last_trial = Self::newest(previous_trials);"),
                                (R, "impl WeightedRewardScorer {", "impl WeightedRewardScorer {\n    fn newest(trials: &[ExerciseTrial]) -> &ExerciseTrial {\n        &trials[0]\n    }\n")]),
    ("p-back-file", "keeps", "*", [(K, """        if !self.back.is_empty() {
            asset_builders.push(AssetBuilder {
                file_name: back_file.clone().unwrap(),""", """        if let Some(back_file) = &back_file {
            asset_builders.push(AssetBuilder {
                file_name: back_file.clone(),""")]),
    ("p-to-str-let", "keeps", "*", [(L, """        ensure!(
            library_root.to_str().is_some(),
            "path to library root {} is not valid UTF-8",
            library_root.display(),
        );
""", """        if library_root.to_str().is_none() {
            anyhow::bail!("path to library root {} is not valid UTF-8", library_root.display());
        }
""")]),
    ("p-days-checked", "keeps", "C23", [(R, "Utc::now().timestamp().saturating_sub(last_trial.timestamp) as f32", "(Utc::now().timestamp() as f32 - last_trial.timestamp as f32)")]),
    ("p-elapsed-i128", "keeps", "C23", [(X, "(trial.timestamp.saturating_sub(oldest_timestamp)) as f32 / SECONDS_PER_DAY", "(i128::from(trial.timestamp) - i128::from(oldest_timestamp)) as f32 / SECONDS_PER_DAY")]),
    # ---- something may panic
    ("b-parts-empty", "breaks", "C23", [(DF, "        if self.definition.parts.is_empty() {\n            return SessionPart::NoFilter { duration: 0 };\n        }\n", "")]),
    ("b-parts-index", "breaks", "C23", [(DF, "        self.definition.parts.last().unwrap().clone()", "        self.definition.parts[session_length as usize].clone()")]),
    ("b-session-add", "breaks", "C23", [(DF, "session_length = session_length.saturating_add(part.duration());", "session_length += part.duration();")]),
    ("b-session-rem", "breaks", "C23", [(DF, "        let mut session_length: u32 = 0;", "        let total: u32 = self.definition.parts.iter().fold(0, |a, p| p.duration().saturating_add(a));\n        let minutes_since_start = minutes_since_start % total;\n        let mut session_length: u32 = 0;")]),
    ("p-velocity-guard", "keeps", "C23", [(X, "        if previous_trials.len() < 2 {\n            return None;", "        if previous_trials.len() == 1 {\n            return None;")]),
    ("b-windows", "breaks", "C23", [(X, ".windows(2)\n            .any(|w| w[0].timestamp < w[1].timestamp)", ".windows(2)\n            .any(|w| w[1].timestamp < w[2].timestamp)")]),
    ("b-no-trials", "breaks", "C23", [(X, "        if previous_trials.is_empty() {\n            // Set urgency", "        if previous_trials.is_empty() && previous_deltas.is_empty() {\n            // Set urgency")]),
    ("b-avg-empty", "breaks", "C23", [(X, "        if entries.is_empty() {\n            return 0.0;\n        }\n\n        // Time-based", "        // Time-based")]),
    ("b-elapsed", "breaks", "C23", [(X, "newest_timestamp.saturating_sub(entry.timestamp())", "newest_timestamp - entry.timestamp()")]),
    ("b-now", "breaks", "C23", [(X, "now.saturating_sub(previous_trials[0].timestamp)", "now - previous_trials[0].timestamp")]),
    ("b-reward-guard", "breaks", "C23", [(R, "if previous_trials.len() <= 2 {", "if previous_trials.len() == 2 {")]),
    ("b-reward-slice", "breaks", "C23", [(R, "let recent_trials = previous_trials.iter().take(3);", "let recent_trials = previous_trials[..4].iter();")]),
    ("b-reward-time", "breaks", "C23", [(R, "Utc::now().timestamp().saturating_sub(last_trial.timestamp)", "(Utc::now().timestamp() - last_trial.timestamp)")]),
    ("b-remainder-guard", "breaks", "C23", [(F, "        if final_candidates.len() >= batch_size * 3 / 4 {\n            return;\n        }\n", "")]),
    ("b-remainder-factor", "breaks", "C23", [(F, "if final_candidates.len() >= batch_size * 3 / 4 {", "if final_candidates.len() >= batch_size * 5 / 4 {")]),
    ("b-dynamic", "breaks", "C23", [(F, "num_candidates < batch_size.saturating_mul(3)", "num_candidates < batch_size * 3")]),
    ("b-capacity", "breaks", "C23", [(S, "let mut all_candidates: Vec<Candidate> = Vec::new();", "let mut all_candidates: Vec<Candidate> = Vec::with_capacity(max_candidates);")]),
    ("b-weight-nan", "breaks", "C23", [(F, "(c.urgency / cost.sqrt()).max(MIN_CANDIDATE_WEIGHT)", "c.urgency / cost.sqrt() + MIN_CANDIDATE_WEIGHT")]),
    ("b-weight-clamp", "breaks", "C23", [(F, "(c.urgency / cost.sqrt()).max(MIN_CANDIDATE_WEIGHT)", "(c.urgency / cost.sqrt()).clamp(MIN_CANDIDATE_WEIGHT, 100.0)")]),
    ("b-chunk-zero", "breaks", "C23", [(F, "        let selected_ids: UstrSet = selected.iter().map(|c| c.exercise_id).collect();", "        let selected_ids: UstrSet = selected.chunks(num_to_select).flatten().map(|c| c.exercise_id).collect();")]),
    ("b-sort-nan", "breaks", "C23", [(F, "        // Compute which exercises were not selected in the previous step.", "        let mut selected = selected;\n        selected.sort_by(|a, b| a.velocity.partial_cmp(&b.velocity).unwrap());\n")]),
    ("b-unit-type", "breaks", "C23", [(D, "        if unit_type.is_none() {\n            return Ok(false);\n        }\n", "")]),
    ("b-back-file", "breaks", "C23", [(K, "let back_file = if self.back.is_empty() {", "let back_file = if self.back.len() <= 1 {")]),
    ("b-to-str", "breaks", "C23", [(L, """        ensure!(
            library_root.to_str().is_some(),
            "path to library root {} is not valid UTF-8",
            library_root.display(),
        );
""", "")]),
    ("b-lesson-course", "breaks", "C23", [(S, "                    .get_lesson_course(curr_unit.unit_id)\n                    .unwrap_or_default();\n                if !allow", "                    .get_lesson_course(curr_unit.unit_id)\n                    .unwrap();\n                if !allow")]),
    ("b-filter-unwrap", "breaks", "C23", [(D, "        let unit_type = self.get_unit_type_strict(unit_id)?;\n        match unit_type {\n            // Exercises do not", "        let unit_type = self.get_unit_type_strict(unit_id).unwrap();\n        match unit_type {\n            // Exercises do not")]),
    ("b-assert", "breaks", "C23", [(R, "        let last_trial = previous_trials.first().unwrap();", "        let last_trial = previous_trials.first().unwrap();\n        assert!(last_trial.score >= 0.0);")]),
    ("b-debug-assert", "breaks", "C23", [(F, "        let num_remainder = batch_size", "        debug_assert!(!remainder.is_empty());\n        let num_remainder = batch_size")]),
    ("b-unreachable", "breaks", "C23", [(D, """            UnitType::Exercise => Err(anyhow!(
                "cannot apply metadata filter to exercise with ID {unit_id}",
            )),""", """            UnitType::Exercise => unreachable!(),""")]),
]
