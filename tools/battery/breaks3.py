"""Breaking edits of the graph and of scoring an exercise."""
CASES = []
G, S, D, P = "src/graph.rs", "src/scheduler.rs", "src/scheduler/data.rs", "src/scheduler/relearn_pile.rs"


def b(name, props, *edits):
    CASES.append((name, "breaks", props, list(edits)))


# --- C16
b("b3-dep-only-existing", "C16", (G, '''        for dependency_id in dependencies {
            Arc::make_mut(self.dependent_graph''', '''        for dependency_id in dependencies {
            if !self.type_map.contains_key(dependency_id) {
                continue;
            }
            Arc::make_mut(self.dependent_graph'''))
b("b3-dep-reverse-replace", "C16", (G, '''            Arc::make_mut(self.dependent_graph.entry(*dependency_id).or_default()).insert(unit_id);''', '''            self.dependent_graph
                .insert(*dependency_id, Arc::new([unit_id].into_iter().collect()));'''))
b("b3-dep-replace", "C16", (G, '''        Arc::make_mut(self.dependency_graph.entry(unit_id).or_default()).extend(dependencies);''', '''        self.dependency_graph
            .insert(unit_id, Arc::new(dependencies.iter().copied().collect()));'''))
b("b3-enc-only-listed", "C16", (G, "for (encompassed_id, weight) in full_encompassed {", "for (encompassed_id, weight) in encompassed.iter().copied() {"))
b("b3-enc-weight-one", "C16", (G, '''                .push((unit_id, weight));''', '''                .push((unit_id, if weight > 0.0 { weight } else { 1.0 }));'''))
b("b3-enc-weight-swap", "C16", (G, '''                .entry(encompassed_id)
                .or_default()
                .push((unit_id, weight));''', '''                .entry(unit_id)
                .or_default()
                .push((encompassed_id, weight));'''))
b("b3-sup-reverse-first", "C16", (G, '''        for superseded_id in superseded {
            Arc''', '''        for superseded_id in superseded.iter().take(1) {
            Arc'''))
b("b3-get-encompassed-by-empty", "C16", (G, "if self.encompassed_by.is_empty() {", "if !self.encompassed_by.contains_key(&unit_id) {"))
b("b3-get-enc-dep", "C16", (G, '''        if self.encompasses_graph.is_empty() {
            self.get_dependencies(unit_id)''', '''        if self.encompasses_graph.is_empty() {
            self.get_dependents(unit_id)'''))
b("b3-set-clears-one", "C16", (G, '''        self.encompasses_graph.clear();
        self.encompassed_by.clear();''', '''        self.encompasses_graph.clear();'''))
b("b3-dep-early", "C16", (G, '''        // Update the dependency sinks and dependency map.
''', '''        if self.dependency_graph.contains_key(&unit_id) {
            return Ok(());
        }
        // Update the dependency sinks and dependency map.
'''))
b("b3-get-dependents-nonempty", "C16", (G, '''        self.dependent_graph.get(&unit_id).cloned()''', '''        self.dependent_graph.get(&unit_id).filter(|d| d.len() > 1).cloned()'''))
# --- C17
b("b3-type-overwrite", "C17", (G, '''                if unit_type == *existing_type {
                    Ok(())''', '''                if unit_type == *existing_type || unit_type == UnitType::Course {
                    self.type_map.insert(unit_id, unit_type);
                    Ok(())'''))
b("b3-exercise-reparent", "C17", (G, '''        ensure!(
            !self.type_map.contains_key(&exercise_id),
            "exercise with ID {exercise_id} already exists",
        );
''', '''        ensure!(
            self.get_exercise_lesson(exercise_id) != Some(lesson_id),
            "exercise with ID {exercise_id} already exists",
        );
'''))
b("b3-lesson-known-course", "C17", (G, '''        ensure!(
            !self.type_map.contains_key(&lesson_id),
            "lesson with''', '''        ensure!(
            !self.lesson_course_map.contains_key(&lesson_id),
            "lesson with'''))
b("b3-type-of-dep", "C17", (G, '''            Arc::make_mut(self.dependent_graph.entry(*dependency_id).or_default()).insert(unit_id);
''', '''            Arc::make_mut(self.dependent_graph.entry(*dependency_id).or_default()).insert(unit_id);
            self.type_map.insert(*dependency_id, unit_type.clone());
'''))
b("b3-course-reset", "C17", (G, '''        self.update_unit_type(course_id, UnitType::Course)?;
        Ok(())
    }

    /// Helper function to add a lesson''', '''        self.type_map.remove(&course_id);
        Ok(())
    }

    /// Helper function to add a lesson'''))
# --- C18
b("b3-w-nan", "C18", (G, ".all(|(_, weight)| (0.0..=1.0).contains(weight)),", ".all(|(_, weight)| !(*weight < 0.0 || *weight > 1.0)),"))
b("b3-w-any", "C18", (G, ".all(|(_, weight)| (0.0..=1.0).contains(weight)),", ".any(|(_, weight)| (0.0..=1.0).contains(weight)),"))
b("b3-w-upper", "C18", (G, "(0.0..=1.0).contains(weight)", "*weight >= 0.0"))
b("b3-w-default", "C18", (G, "full_encompassed.push((*dependency, 1.0));", "full_encompassed.push((*dependency, encompassed.len() as f32));"))
b("b3-w-read", "C18", (G, '''                .map(|dependents| dependents.iter().copied().map(|dep| (dep, 1.0)).collect())''', '''                .map(|dependents| dependents.iter().copied().map(|dep| (dep, 1.5)).collect())'''))
b("b3-w-late", "C18", (G, '''        // Update the encompassed and encompassed_by maps.
''', '''        if dependencies.is_empty() {
            full_encompassed.iter_mut().for_each(|(_, weight)| *weight *= 2.0);
        }
        // Update the encompassed and encompassed_by maps.
'''))
# --- C36
b("b3-cycle-path-last", "C36", (G, "if path.contains(&neighbor_id) {", "if path.first() == Some(&neighbor_id) {"))
b("b3-cycle-visited-first", "C36", (G, '''                        check_reverse(current_id, neighbor_id)?;
''', '''                        check_reverse(current_id, neighbor_id)?;
                        if visited.contains(&neighbor_id) {
                            continue;
                        }
'''))
b("b3-cycle-depth", "C36", (G, '''                        let mut new_path = path.clone();
                        new_path.push(neighbor_id);''', '''                        if path.len() > 100 {
                            continue;
                        }
                        let mut new_path = path.clone();
                        new_path.push(neighbor_id);'''))
b("b3-cycle-enc-skip", "C36", (G, "let enc_keys: Vec<Ustr> = self.encompasses_graph.keys().copied().collect();", "let enc_keys: Vec<Ustr> = self.encompassed_by.keys().filter(|id| self.type_map.contains_key(*id)).copied().collect();"))
b("b3-cycle-sup-courses", "C36", (G, "let sup_keys: Vec<Ustr> = self.supersedes_graph.keys().copied().collect();", "let sup_keys: Vec<Ustr> = self.supersedes_graph.keys().filter(|id| self.get_unit_type(**id) == Some(UnitType::Lesson)).copied().collect();"))
b("b3-cycle-neighbors-typed", "C36", (G, '''                    .map(|s| s.iter().copied().collect())
            },
            |current, dep| {''', '''                    .map(|s| s.iter().copied().filter(|d| self.get_unit_type(*d) == self.get_unit_type(id)).collect())
            },
            |current, dep| {'''))
# --- C37
b("b3-start-subset", "C37", (G, "Some(dependencies) => lessons.is_disjoint(&dependencies),", "Some(dependencies) => !dependencies.is_subset(lessons),"))
b("b3-start-nodeps", "C37", (G, "Some(dependencies) => lessons.is_disjoint(&dependencies),", "Some(dependencies) => dependencies.is_empty(),"))
b("b3-sink-any", "C37", (G, '''                let has_starting_dependencies = starting_lessons.iter().all(|lesson_id| {''', '''                let has_starting_dependencies = starting_lessons.iter().any(|lesson_id| {'''))
b("b3-sink-any-dep", "C37", (G, '''                            !dependencies.is_empty()
                                && dependencies
                                    .iter()
                                    .all(|dep|''', '''                            dependencies.is_empty()
                                || dependencies
                                    .iter()
                                    .all(|dep|'''))
b("b3-sink-insert-missing", "C37", (G, '''        for dependency_id in dependencies {
            self.update_dependency_sinks(*dependency_id, &[]);
        }''', '''        for dependency_id in dependencies {
            if self.type_map.contains_key(dependency_id) {
                self.update_dependency_sinks(*dependency_id, &[]);
            }
        }'''))
b("b3-sink-lesson-course", "C37", (G, "if self.get_lesson_course(unit_id).is_some() {", "if self.get_lesson_course(unit_id).is_some() || self.course_lesson_map.contains_key(&unit_id) {"))
b("b3-sink-order", "C37", (G, '''        self.update_dependency_sinks(unit_id, dependencies);
        Arc::make_mut(self.dependency_graph.entry(unit_id).or_default()).extend(dependencies);''', '''        Arc::make_mut(self.dependency_graph.entry(unit_id).or_default()).extend(dependencies);
        self.update_dependency_sinks(unit_id, &dependencies[..dependencies.len().min(1)]);'''))
# --- C26
b("b3-score-ts", "C26", (S, '''                score: score.float_score(),
                timestamp,
            }])''', '''                score: score.float_score(),
                timestamp: Utc::now().timestamp().max(timestamp),
            }])'''))
b("b3-delta-sign", "C26", (S, "let delta = score.float_score() - existing_score;", "let delta = existing_score - score.float_score();"))
b("b3-delta-after", "C26", (S, '''        if num_trials > 0 {
            let delta = score.float_score() - existing_score;''', '''        if num_trials > 0 {
            let existing_score = self
                .unit_scorer
                .get_unit_score(exercise_id)
                .unwrap_or_default()
                .map_or(existing_score, |s| s.max(existing_score + 0.5));
            let delta = score.float_score() - existing_score;'''))
b("b3-delta-threshold", "C26", (S, "if num_trials > 0 {\n            let delta", "if num_trials > 1 {\n            let delta"))
b("b3-delta-nonzero", "C26", (S, "if num_trials > 0 {\n            let delta", "if num_trials > 0 && existing_score > 0.0 {\n            let delta"))
b("b3-no-check", "C26", (S, '''            .get_exercise_manifest(exercise_id)
            .map_err(ExerciseSchedulerError::ScoreExercise)?;

        // Retr''', '''            .get_unit_type_strict(exercise_id)
            .map_err(ExerciseSchedulerError::ScoreExercise)?;

        // Retr'''))
b("b3-rewards-lesson", "C26", (S, "            .propagate_rewards(exercise_id, &score, timestamp);", "            .propagate_rewards(self.data.get_lesson_id(exercise_id).unwrap_or(exercise_id), &score, timestamp);"))
b("b3-rewards-cond", "C26", (S, '''            .record_unit_rewards(&rewards)
''', '''            .record_unit_rewards(if num_trials > 0 { &rewards } else { &[] })
'''))
b("b3-check-late", "C26", (S, '''        self.data
            .get_exercise_manifest(exercise_id)
            .map_err(ExerciseSchedulerError::ScoreExercise)?;

        // Retr''', '''        // Retr'''), (S, '''        // Propagate the rewards along the unit graph and''', '''        self.data
            .get_exercise_manifest(exercise_id)
            .map_err(ExerciseSchedulerError::ScoreExercise)?;

        // Propagate the rewards along the unit graph and'''))
# --- C27
b("b3-pile-two", "C27", (P, "MasteryScore::One | MasteryScore::Two => relearning_pile.insert(exercise_id),\n            MasteryScore::Three |", "MasteryScore::One => relearning_pile.insert(exercise_id),\n            MasteryScore::Two | MasteryScore::Three |"))
b("b3-rate-swap", "C27", (D, "counts.0 as f32 / total as f32", "counts.1 as f32 / total as f32"))
b("b3-rate-zero", "C27", (D, '''        if total == 0 {
            1.0''', '''        if total == 0 {
            0.0'''))
b("b3-rate-three", "C27", (D, '''            MasteryScore::One | MasteryScore::Two => counts.1 += 1,
            MasteryScore::Three |''', '''            MasteryScore::One | MasteryScore::Two | MasteryScore::Three => counts.1 += 1,
            '''))
b("b3-rate-delta-only", "C27", (S, "        self.data.update_success_rate(&score);\n", "        if num_trials > 0 {\n            self.data.update_success_rate(&score);\n        }\n"))
b("b3-pile-sampled", "C27", (P, '''        self.select_exercises_helper()
''', '''        let selected = self.select_exercises_helper();
        let mut pile = self.pile.write();
        for candidate in &selected {
            pile.remove(&candidate.exercise_id);
        }
        drop(pile);
        selected
'''))
b("b3-pile-cap", "C27", (P, '''            MasteryScore::One | MasteryScore::Two => relearning_pile.insert(exercise_id),''', '''            MasteryScore::One | MasteryScore::Two => {
                relearning_pile.len() < 1000 && relearning_pile.insert(exercise_id)
            }'''))
# --- C25
b("b3-freq-two", "C25", (S, '''        for exercise_manifest in &manifests {
            self.data''', '''        for exercise_manifest in manifests.iter().skip(1) {
            self.data'''))
b("b3-freq-candidates", "C25", (S, '''        let manifests = self
            .candidates_to_exercises(shuffled_candidates)
''', '''        for candidate in &shuffled_candidates {
            self.data.increment_exercise_frequency(candidate.lesson_id);
        }
        let manifests = self
            .candidates_to_exercises(shuffled_candidates)
'''))
b("b3-freq-lesson", "C25", (S, "frequency: frequency_map.get(&exercise_id).copied().unwrap_or(0),", "frequency: frequency_map.get(&item.unit_id).copied().unwrap_or(0),"))
b("b3-freq-default", "C25", (D, "let frequency = frequency_map.entry(exercise_id).or_insert(0);\n        *frequency += 1;", "frequency_map.entry(exercise_id).and_modify(|f| *f += 1).or_insert(2);"))
b("b3-freq-early", "C25", (S, '''        for exercise_manifest in &manifests {
            self.data.increment_exercise_frequency(exercise_manifest.id);
        }
        Ok(manifests)''', '''        if manifests.len() < self.data.options.batch_size {
            return Ok(manifests);
        }
        for exercise_manifest in &manifests {
            self.data.increment_exercise_frequency(exercise_manifest.id);
        }
        Ok(manifests)'''))
