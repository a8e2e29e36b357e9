"""Breaking edits of the unit scorer, the search, metadata filters and opening a library."""
CASES = []
US, S, FI, L, D, RP, SD = ("src/scheduler/unit_scorer.rs", "src/scheduler.rs", "src/data/filter.rs", "src/course_library.rs", "src/data.rs",
                           "src/scheduler/reward_propagator.rs", "src/scheduler/data.rs")


def b(name, props, *edits):
    CASES.append((name, "breaks", props, list(edits)))


# --- C08
b("b4-inv-order", "C08", (US, '''            affected_ids.push(course_id);
            }
            for superseded''', '''            let _ = course_id;
            }
            for superseded'''))
b("b4-inv-visited-init", "C08", (US, '''                affected_ids.push(*superseded_id);
''', '''                if visited.insert(*superseded_id) {
                    affected_ids.push(*superseded_id);
                }
'''))
b("b4-inv-sup-lesson-only", "C08", (US, '''                self.course_cache.borrow_mut().remove(superseded_id);
''', ''))
b("b4-inv-exercise-lesson-not-affected", "C08", (US, '''                    affected_ids.push(lesson_id);
                    self''', '''                    self'''))
b("b4-inv-course-trials", "C08", (US, '''                        self.course_cache.borrow_mut().remove(&course_id);
                        self.course_trials_cache.borrow_mut().remove(&course_id);
''', '''                        if self.course_cache.borrow_mut().remove(&course_id).is_some() {
                            self.course_trials_cache.borrow_mut().remove(&course_id);
                        }
'''))
b("b4-inv-early-uncached", "C08", (US, '''        self.exercise_cache.borrow_mut().remove(&unit_id);
''', '''        if self.exercise_cache.borrow_mut().remove(&unit_id).is_none()
            && self.data.get_unit_type(unit_id) == Some(UnitType::Exercise)
        {
            return;
        }
'''))
b("b4-inv-course-exercises-first", "C08", (US, '''                        if let Some(exercise_ids) = graph.get_lesson_exercises(*lesson_id) {
                            for exercise_id in exercise_ids.iter() {
                                exercise_cache.remove(exercise_id);
                            }
                        }
''', '''                        if lesson_cache.remove(lesson_id).is_some()
                            && let Some(exercise_ids) = graph.get_lesson_exercises(*lesson_id)
                        {
                            for exercise_id in exercise_ids.iter() {
                                exercise_cache.remove(exercise_id);
                            }
                        }
'''))
b("b4-prefix-contains", "C08", (US, '''        self.course_trials_cache
            .borrow_mut()
            .retain(|unit_id, _| !unit_id.starts_with(prefix));
''', '''        self.course_trials_cache
            .borrow_mut()
            .retain(|unit_id, _| !unit_id.ends_with(prefix));
'''))
b("b4-cache-wrong-key", "C08", (US, '''        self.lesson_trials_cache
            .borrow_mut()
            .insert(lesson_id, result);
''', '''        self.course_trials_cache
            .borrow_mut()
            .insert(lesson_id, result);
'''))
b("b4-cached-velocity", "C08", (US, '''            .and_then(|c| c.velocity);
        if let Some(velocity) = cached_velocity {
            return Ok(Some(velocity));
        }
''', '''            .map(|c| c.urgency);
        if let Some(velocity) = cached_velocity {
            return Ok(Some(velocity));
        }
'''))
b("b4-set-options-equal", "C08,C03", (US, '''        self.data.options = options.clone();
        self.options = options;
        self.clear_cached_scores();
''', '''        if self.options.num_trials != options.num_trials {
            self.clear_cached_scores();
        }
        self.data.options = options.clone();
        self.options = options;
'''))
b("b4-override-some", "C08", (US, '''        self.override_timestamp = timestamp;
        self.clear_cached_scores();
''', '''        self.override_timestamp = timestamp;
        if timestamp.is_some() {
            self.clear_cached_scores();
        }
'''))
# --- C41
b("b4-clamp-range", "C41", (US, "(score.value + reward).clamp(0.0, 5.0)", "(score.value + reward).clamp(score.value.min(1.0), 5.0)"))
b("b4-reward-swap", "C41", (US, ".score_rewards(&course_rewards, &lesson_rewards)", ".score_rewards(&lesson_rewards, &course_rewards)"))
b("b4-reward-course-of-exercise", "C41", (US, '''graph.get_lesson_course(lesson_id).unwrap_or_default();
        let course_rewards''', '''graph.get_lesson_course(exercise_id).unwrap_or_default();
        let course_rewards'''))
b("b4-deltas-trials", "C03", (US, '''.get_deltas(exercise_id, self.options.num_deltas)''', '''.get_deltas(exercise_id, self.options.num_trials)'''))
b("b4-lesson-div-all", "C41", (US, '''                        / valid_exercises.len() as f32;
                    Ok(Some(avg_score))
                }
            }
        };

        // Update''', '''                        / exercise_ids.len() as f32;
                    Ok(Some(avg_score))
                }
            }
        };

        // Update'''))
b("b4-lesson-empty-zero", "C41", (US, '''                    // If all exercises are blacklisted, the lesson has no valid score.
                    Ok(None)''', '''                    // If all exercises are blacklisted, the lesson has no valid score.
                    Ok(Some(0.0))'''))
b("b4-course-div-lessons", "C41", (US, '''                    .sum::<f32>()
                    / valid_lesson_scores.len() as f32;''', '''                    .sum::<f32>()
                    / lesson_ids.len() as f32;'''))
b("b4-course-blacklist-lesson", "C41", (US, '''        let blacklisted = self.data.blacklist.read().blacklisted(course_id);
        if blacklisted.unwrap_or(false) {''', '''        let blacklisted = self.data.blacklist.read().blacklisted(course_id);
        if blacklisted.unwrap_or(true) && self.data.unit_exists(course_id).unwrap_or(false) {'''))
b("b4-superseded-any", "C41", (US, '''            .all(|score| *score >= self.data.options.superseding_score)''', '''            .any(|score| *score >= self.data.options.superseding_score)'''))
b("b4-superseded-gt", "C41", (US, '''            .all(|score| *score >= self.data.options.superseding_score)''', '''            .all(|score| *score > self.data.options.superseding_score)'''))
b("b4-superseded-passing", "C41", (US, '''            .all(|score| *score >= self.data.options.superseding_score)''', '''            .all(|score| *score >= self.data.options.passing_score.min_score)'''))
b("b4-superseded-superseding-practised", "C41", (US, '''        if !self.all_valid_exercises_have_scores(superseded_id) {
            return false;
        }
''', '''        if !superseding_ids.iter().any(|id| self.all_valid_exercises_have_scores(*id)) {
            return false;
        }
'''))
b("b4-practised-any", "C41", (US, '''            .all(|score| score.is_ok() && score.unwrap() > 0.0)''', '''            .any(|score| score.is_ok() && score.unwrap() > 0.0)'''))
b("b4-practised-ge", "C41", (US, '''            .all(|score| score.is_ok() && score.unwrap() > 0.0)''', '''            .all(|score| score.is_ok() && score.unwrap() >= 0.0)'''))
b("b4-replace-keep", "C41", (US, '''                    result.extend(self.replace_superseding(&superseding));
''', '''                    result.extend(superseding.iter().copied());
'''))
b("b4-replace-both", "C41", (US, '''                    result.extend(self.replace_superseding(&superseding));
''', '''                    result.extend(self.replace_superseding(&superseding));
                    result.insert(id);
'''))
b("b4-replace-not-practised", "C41", (US, '''                if self.is_superseded(id, &superseding) {
                    result''', '''                if !superseding.is_empty() {
                    result'''))
b("b4-lesson-trials-none-zero", "C41", (US, '''            .filter_map(|exercise_id| self.get_exercise_num_trials(*exercise_id).unwrap_or(None))
''', '''            .filter_map(|exercise_id| self.get_exercise_num_trials(*exercise_id).unwrap_or(None))
            .filter(|n| *n > 0)
'''))
b("b4-course-trials-no-superseded", "C41", (US, '''                !blacklisted.unwrap_or(false) && !superseded
''', '''                !blacklisted.unwrap_or(false) || !superseded
'''))
b("b4-avg-trials-lesson-for-course", "C41", (US, '''            Some(UnitType::Course) => self.get_course_num_trials(unit_id),
''', '''            Some(UnitType::Course) => self.get_lesson_num_trials(unit_id),
'''))
# --- C42
b("b4-rw-visited-first", "C42", (RP, '''                && existing_reward.value.abs() >= item.value.abs()
''', '''                && existing_reward.value.abs() > 0.0
'''))
b("b4-rw-signed", "C42", (RP, '''                && existing_reward.value.abs() >= item.value.abs()
''', '''                && existing_reward.value >= item.value
'''))
b("b4-rw-weight-compare", "C42", (RP, '''                && existing_reward.value.abs() >= item.value.abs()
''', '''                && existing_reward.weight >= item.weight
'''))
b("b4-rw-no-factor", "C42", (RP, "let next_weight = *edge_weight * WEIGHT_FACTOR * item.weight;", "let next_weight = *edge_weight * item.weight;"))
b("b4-rw-item-edge", "C42", (RP, "let next_value = *edge_weight * REWARD_FACTOR * item.value;", "let next_value = *edge_weight * REWARD_FACTOR * initial_reward;"))
b("b4-rw-stop-and", "C42", (RP, "reward.abs() < MIN_ABS_REWARD || weight < MIN_WEIGHT", "reward.abs() < MIN_ABS_REWARD && weight < MIN_WEIGHT"))
b("b4-rw-stop-noabs", "C42", (RP, "reward.abs() < MIN_ABS_REWARD || weight < MIN_WEIGHT", "reward < MIN_ABS_REWARD && reward > 0.0 || weight < MIN_WEIGHT"))
b("b4-rw-three-positive", "C42", (RP, "MasteryScore::Three => -0.3,", "MasteryScore::Three => 0.3,"))
b("b4-rw-root-lesson-twice", "C42", (RP, "let next_courses = Self::get_next_units(unit_graph, course_id, initial_reward);", "let next_courses = Self::get_next_units(unit_graph, course_id, -initial_reward);"))
b("b4-rw-first-return", "C42", (RP, '''                if Self::stop_propagation(value, weight) {
                    return;
                }
                stack''', '''                if Self::stop_propagation(value, weight) || !stack.is_empty() && weight < 0.5 {
                    return;
                }
                stack'''))
b("b4-rw-break", "C42", (RP, '''                if Self::stop_propagation(next_value, next_weight) {
                    continue;
                }''', '''                if Self::stop_propagation(next_value, next_weight) {
                    break;
                }'''))
# --- C02
b("b4-thresh-or", "C02", (S, "avg_score >= options.min_score && avg_trials >= options.min_avg_trials", "avg_score >= options.min_score || avg_trials >= options.min_avg_trials"))
b("b4-dep-any", "C02", (S, '''            .all(|target| self.satisfied_effective_dependency(target))''', '''            .any(|target| self.satisfied_effective_dependency(target))'''))
b("b4-dep-course-lesson", "C02", (S, '''            .all(|dependency_id| self.satisfied_dependency(dependency_id, metadata_filter))''', '''            .all(|dependency_id| self.satisfied_dependency(dependency_id, None))'''))
b("b4-dep-only-lessons", "C02", (S, '''            .copied()
            .all(|dependency_id| self.satisfied''', '''            .copied()
            .filter(|id| self.data.get_unit_type(*id) == Some(UnitType::Lesson))
            .all(|dependency_id| self.satisfied'''))
b("b4-starting-not-bridged", "C02", (S, '''                if is_starting_lesson {
                    next''', '''                if is_starting_lesson && next_dependencies.is_empty() {
                    next'''))
b("b4-bridge-visited-shared", "C02", (S, '''        let targets =
            self.resolve_effective_dependencies(dependency_id, metadata_filter, &mut visited);
''', '''        visited.extend(
            self.data
                .unit_graph
                .read()
                .get_dependencies(dependency_id)
                .unwrap_or_default()
                .iter()
                .copied(),
        );
        let targets =
            self.resolve_effective_dependencies(dependency_id, metadata_filter, &mut visited);
'''))
b("b4-bridge-course-none", "C02", (S, '''                if !last_matching_lessons.is_empty() {
                    return last_matching_lessons;
                }
''', '''                if last_matching_lessons.is_empty() {
                    return last_matching_lessons;
                }
'''))
b("b4-last-matching-dependencies", "C02", (S, '''                let dependents = graph.get_dependents(*lesson_id).unwrap_or_default();
                dependents.is_disjoint(&matching_lessons)''', '''                let dependents = graph.get_dependencies(*lesson_id).unwrap_or_default();
                dependents.is_disjoint(&matching_lessons)'''))
b("b4-eff-course-superseded", "C02", (S, '''        let superseding = self.unit_scorer.get_superseding_recursive(dependency_id);
        if let Some(superseding) = superseding
            && self.unit_scorer.is_superseded(dependency_id, &superseding)
        {
            return true;
        }
''', '''        let superseding = self.unit_scorer.get_superseding_recursive(dependency_id);
        if superseding.is_some_and(|s| !s.is_empty()) {
            return true;
        }
'''))
b("b4-eff-bl-inside", "C02", (S, '''        let blacklisted = self.data.blacklisted(dependency_id);
        if blacklisted.unwrap_or(false) {
            return true;
        }

        // Dependencies which''', '''        let blacklisted = self.data.blacklisted(dependency_id);
        if blacklisted.unwrap_or(true) {
            return true;
        }

        // Dependencies which'''))
# --- C38
b("b4-f-values-contains", "C38", (FI, "values.iter().any(|v| v == value)", "values.iter().any(|v| v.starts_with(value))"))
b("b4-f-values-all", "C38", (FI, "values.iter().any(|v| v == value)", "values.iter().all(|v| v == value)"))
b("b4-f-exclude-missing", "C38", (FI, "FilterType::Exclude => !contains_metadata,", "FilterType::Exclude => metadata.contains_key(key) && !contains_metadata,"))
b("b4-f-course-any", "C38", (FI, '''                    FilterOp::All => course_result && other_result,
                    FilterOp::Any => false,''', '''                    FilterOp::All => course_result && other_result,
                    FilterOp::Any => course_result,'''))
b("b4-f-lesson-any-all", "C38", (FI, '''                    FilterOp::Any => filters
                        .iter()
                        .any(|f| f.apply_to_lesson(course_manifest, lesson_manifest)),''', '''                    FilterOp::Any => filters
                        .iter()
                        .any(|f| f.apply_to_lesson(lesson_manifest, course_manifest)),'''))
b("b4-f-lesson-own-or-course", "C38", (FI, '''KeyValueFilter::passes_filter(lesson_metadata, key, value, filter_type)''', '''KeyValueFilter::passes_filter(lesson_metadata, key, value, filter_type)
                    || lesson_metadata.is_empty()
                        && KeyValueFilter::passes_filter(course_metadata, key, value, filter_type)'''))
b("b4-f-only-course-filters", "C38", (FI, '''                if other_filters.is_empty() {
                    return course_result;
                }
''', '''                if other_filters.len() < course_filters.len() {
                    return course_result;
                }
'''))
# --- C44, C04, C21, C29
b("b4-open-skip-err", "C04", (L, '''            let mut exercise_manifest: ExerciseManifest = Self::open_manifest(entry.path())?;
''', '''            let Ok(mut exercise_manifest) = Self::open_manifest::<ExerciseManifest>(entry.path())
            else {
                continue;
            };
'''))
b("b4-open-lesson-parent", "C04", (L, '''exercise_manifest.normalize_paths(entry.path().parent().unwrap())?;''', '''exercise_manifest.normalize_paths(lesson_root)?;'''))
b("b4-open-enc-flag", "C04", (L, '''                if !lesson_manifest.encompassed.is_empty() {
                    encompassing_equals_dependency = false;
                }''', '''                if !lesson_manifest.encompassed.is_empty() && !lesson_manifest.dependencies.is_empty() {
                    encompassing_equals_dependency = false;
                }'''))
b("b4-open-enc-flag-reset", "C04", (L, '''            if !course.manifest.encompassed.is_empty() {
                encompassing_equals_dependency = false;
            }''', '''            encompassing_equals_dependency = course.manifest.encompassed.is_empty();'''))
b("b4-open-sup-dep", "C04", (L, "graph.add_superseded(lesson_manifest.id, &lesson_manifest.superseded);", "graph.add_superseded(lesson_manifest.id, &course_superseded);") if False else
  (L, "graph.add_superseded(lesson_manifest.id, &lesson_manifest.superseded);", '''if !exercises.is_empty() {
                    graph.add_superseded(lesson_manifest.id, &lesson_manifest.superseded);
                }'''))
b("b4-open-verify-swap", "C04", (L, "exercise_manifest.course_id == lesson_manifest.course_id,", "exercise_manifest.course_id == lesson_manifest.course_id || exercise_manifest.course_id.is_empty(),"))
b("b4-open-gen-lessons-drop", "C04", (L, "lessons.extend(generated_course.lessons);", "lessons.extend(generated_course.lessons.into_iter().filter(|(_, e)| !e.is_empty()));"))
b("b4-open-gen-meta", "C04", (L, '''            if generated_course.updated_metadata.is_some() {
                course_manifest.metadata = generated_course.updated_metadata;
            }''', '''            course_manifest.metadata = generated_course.updated_metadata;'''))
b("b4-open-cycle-late", "C04", (L, '''        if encompassing_equals_dependency {
            graph.set_encompasing_equals_dependency();
        }
        graph.check_cycles()?;''', '''        if encompassing_equals_dependency {
            graph.set_encompasing_equals_dependency();
        } else {
            graph.check_cycles()?;
        }'''))
