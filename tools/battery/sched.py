S, D, FI = "src/scheduler.rs", "src/scheduler/data.rs", "src/data/filter.rs"
ALLSAT = '''            .iter()
            .copied()
            .all(|dependency_id| self.satisfied_dependency(dependency_id, metadata_filter))'''
CASES = [
 ("gate-any", "breaks", "C02", [(S, ALLSAT, ALLSAT.replace(".all(", ".any("))]),
 ("gate-skip-missing", "breaks", "C02", [(S, ALLSAT, ALLSAT.replace(".all(", ".filter(|d| self.data.get_unit_type(*d) != Some(UnitType::Course)).all("))]),
 ("gate-take", "breaks", "C02", [(S, ALLSAT, ALLSAT.replace(".all(", ".take(8).all("))]),
 ("gate-no-filter", "breaks", "C02", [(S, ALLSAT, ALLSAT.replace(", metadata_filter)", ", None)"))]),
 ("gate-dependents-unfiltered", "breaks", "C02", [(S, "            .filter(|unit_id| self.all_satisfied_dependencies(*unit_id, metadata_filter))\n", "            .filter(|unit_id| self.data.get_unit_type(*unit_id) == Some(UnitType::Course) || self.all_satisfied_dependencies(*unit_id, metadata_filter))\n")]),
 ("gate-starting-lessons", "breaks", "C02", [(S, "                self.all_satisfied_dependencies(*id, metadata_filter)\n", "                metadata_filter.is_some() || self.all_satisfied_dependencies(*id, metadata_filter)\n")]),
 ("gate-starting-units-exist", "breaks", "C02", [(S, "                    .all(|id| !self.data.unit_exists(*id).unwrap())", "                    .any(|id| !self.data.unit_exists(*id).unwrap())")]),
 ("gate-min-score-strict", "breaks", "C02", [(S, "avg_score >= options.min_score && avg_trials", "avg_score > options.min_score && avg_trials")]),
 ("gate-or", "breaks", "C02", [(S, "avg_score >= options.min_score && avg_trials", "avg_score >= options.min_score || avg_trials")]),
 ("gate-missing-trials", "breaks", "C02", [(S, "if let (Some(avg_score), Some(avg_trials)) = (avg_score, avg_trials) {\n            avg_score >= options.min_score && avg_trials >= options.min_avg_trials", "if let Some(avg_score) = avg_score {\n            avg_score >= options.min_score && avg_trials.unwrap_or_default() >= options.min_avg_trials")]),
 ("gate-default-score", "breaks", "C02", [(S, "        let avg_num_trials = self.unit_scorer.get_avg_trials(dependency_id);\n        Self::passes_threshold", "        let score = Some(score.unwrap_or_default());\n        let avg_num_trials = self.unit_scorer.get_avg_trials(dependency_id);\n        Self::passes_threshold")]),
 ("gate-target-options", "breaks", "C02", [(S, "Self::passes_threshold(&self.data.options.passing_score, score, avg_num_trials)", "Self::passes_threshold(&PassingScoreOptions::default(), score, avg_num_trials)")]),
 ("gate-targets-any", "breaks", "C02", [(S, "            .all(|target| self.satisfied_effective_dependency(target))", "            .any(|target| self.satisfied_effective_dependency(target))")]),
 ("gate-no-course-bridge", "breaks", "C02", [(S, "                if is_starting_lesson {\n", "                if is_starting_lesson && next_dependencies.is_empty() {\n")]),
 ("gate-bridge-no-lesson-deps", "breaks", "C02", [(S, "            _ => UstrSet::default(),\n        }\n    }\n\n    /// Returns whether the unit passses", "            _ => [dependency_id].into_iter().collect(),\n        }\n    }\n\n    /// Returns whether the unit passses")]),
 ("gate-last-lessons-all", "breaks", "C02", [(S, "dependents.is_disjoint(&matching_lessons)", "!dependents.is_empty() || dependents.is_disjoint(&matching_lessons)")]),
 ("gate-last-lessons-unfiltered", "breaks", "C02", [(S, "                    .unit_passes_filter(*lesson_id, metadata_filter)\n                    .unwrap_or(false)\n            })\n            .collect();", "                    .unit_passes_filter(*lesson_id, None)\n                    .unwrap_or(false)\n            })\n            .collect();")]),
 ("gate-course-blacklist-only", "breaks", "C02", [(S, "        if blacklisted.unwrap_or(false) {\n            return true;\n        }\n\n        // Dependencies which are a lesson", "        if !blacklisted.unwrap_or(false) && self.data.get_unit_type(dependency_id).is_none() {\n            return false;\n        }\n        // Dependencies which are a lesson")]),
 ("gate-course-mode-dependents", "breaks", "C02", [(S, "        self.get_candidates_from_graph_helper(stack, visited, None, false, course_ids)", "        for course_id in course_ids { for l in graph.get_course_lessons(*course_id).unwrap_or_default().iter() { if graph.get_dependencies(*l).unwrap_or_default().len() > 3 { stack.push(StackItem { unit_id: *l, depth: 1 }); } } }\n        self.get_candidates_from_graph_helper(stack, visited, None, false, course_ids)")]),
 ("gate-superseded-any", "breaks", "C02", [(S, "            && self.unit_scorer.is_superseded(dependency_id, &superseding)\n", "            && !superseding.is_empty()\n")]),
 # behaviour kept
 ("k-gate-loop", "keeps", "C02", [(S, '''        self.data
            .unit_graph
            .read()
            .get_dependencies(unit_id)
            .unwrap_or_default()
            .iter()
            .copied()
            .all(|dependency_id| self.satisfied_dependency(dependency_id, metadata_filter))''', '''        let dependencies = self.data.unit_graph.read().get_dependencies(unit_id).unwrap_or_default();
        for dependency_id in dependencies.iter() {
            if !self.satisfied_dependency(*dependency_id, metadata_filter) {
                return false;
            }
        }
        true''')]),
 ("k-gate-not-any", "keeps", "C02", [(S, '''        self.data
            .unit_graph
            .read()
            .get_dependencies(unit_id)
            .unwrap_or_default()
            .iter()
            .copied()
            .all(|dependency_id| self.satisfied_dependency(dependency_id, metadata_filter))''', '''        !self.data
            .unit_graph
            .read()
            .get_dependencies(unit_id)
            .unwrap_or_default()
            .iter()
            .copied()
            .any(|dependency_id| !self.satisfied_dependency(dependency_id, metadata_filter))''')]),
 ("k-gate-early-none", "keeps", "C02", [(S, '''        self.data
            .unit_graph
            .read()
            .get_dependencies(unit_id)
            .unwrap_or_default()
            .iter()
            .copied()
            .all(|dependency_id| self.satisfied_dependency(dependency_id, metadata_filter))''', '''        let Some(dependencies) = self.data.unit_graph.read().get_dependencies(unit_id) else {
            return true;
        };
        dependencies.iter().all(|id| self.satisfied_dependency(*id, metadata_filter))''')]),
 ("k-threshold-match", "keeps", "C02", [(S, '''        if let (Some(avg_score), Some(avg_trials)) = (avg_score, avg_trials) {
            avg_score >= options.min_score && avg_trials >= options.min_avg_trials
        } else {
            // If the values cannot be retrieved, consider the dependency as satisfied to avoid
            // blocking the search in the case of blacklisted or missing units.
            true
        }''', '''        match (avg_score, avg_trials) {
            (None, _) | (_, None) => true,
            (Some(s), Some(t)) => !(s < options.min_score || t < options.min_avg_trials),
        }''')]),
 ("k-effective-oneexpr", "keeps", "C02", [(S, '''        if blacklisted.unwrap_or(false) {
            return true;
        }

        // Dependencies which are a lesson''', '''        let own = matches!(blacklisted, Ok(true));
        // Dependencies which are a lesson'''), (S, '''        if self.data.blacklisted(course_id).unwrap_or(false) {
            return true;
        }

        // The dependency''', '''        if own || self.data.blacklisted(course_id).unwrap_or(false) {
            return true;
        }

        // The dependency''')]),
 ("k-targets-loop", "keeps", "C02", [(S, '''        targets
            .into_iter()
            .all(|target| self.satisfied_effective_dependency(target))''', '''        for target in targets {
            if !self.satisfied_effective_dependency(target) {
                return false;
            }
        }
        true''')]),
 ("k-targets-no-empty", "keeps", "C02", [(S, '''        if targets.is_empty() {
            return true;
        }
        targets
            .into''', '''        targets
            .into''')]),
 ("k-push-helper", "keeps", "C02", [(S, '''        stack.extend(units.iter().map(|id| StackItem {
            unit_id: *id,
            depth: curr_unit.depth + 1,
        }));''', '''        for unit_id in units {
            stack.push(StackItem {
                unit_id,
                depth: curr_unit.depth + 1,
            });
        }''')]),
 ("k-valid-dependents-loop", "keeps", "C02", [(S, '''        self.data
            .get_all_dependents(unit_id)
            .into_iter()
            .filter(|unit_id| self.all_satisfied_dependencies(*unit_id, metadata_filter))
            .collect()''', '''        let mut valid = Vec::new();
        for dependent in self.data.get_all_dependents(unit_id) {
            if self.all_satisfied_dependencies(dependent, metadata_filter) {
                valid.push(dependent);
            }
        }
        valid''')]),
 ("k-starting-loop", "keeps", "C02", [(S, '''        starting_courses
            .into_iter()
            .filter(|course_id| {
                graph
                    .get_dependencies(*course_id)
                    .unwrap_or_default()
                    .iter()
                    .all(|id| !self.data.unit_exists(*id).unwrap())
            })
            .collect()''', '''        let mut starting_units = UstrSet::default();
        for course_id in starting_courses {
            let dependencies = graph.get_dependencies(course_id).unwrap_or_default();
            if dependencies.iter().any(|id| self.data.unit_exists(*id).unwrap_or(false)) {
                continue;
            }
            starting_units.insert(course_id);
        }
        starting_units''')]),
 ("k-resolve-helper", "keeps", "C02", [(S, '''        let passes_filter = self
            .data
            .unit_passes_filter(dependency_id, metadata_filter)
            .unwrap_or(false);
        if passes_filter {
            return [dependency_id].into_iter().collect();
        }

        let graph''', '''        if let Ok(true) = self.data.unit_passes_filter(dependency_id, metadata_filter) {
            let mut result = UstrSet::default();
            result.insert(dependency_id);
            return result;
        }

        let graph''')]),
 ("k-resolve-loop", "keeps", "C02", [(S, '''                next_dependencies
                    .into_iter()
                    .flat_map(|next_dependency| {
                        self.resolve_effective_dependencies(
                            next_dependency,
                            metadata_filter,
                            visited,
                        )
                        .into_iter()
                    })
                    .collect()''', '''                let mut resolved = UstrSet::default();
                for next_dependency in next_dependencies {
                    resolved.extend(self.resolve_effective_dependencies(next_dependency, metadata_filter, visited));
                }
                resolved''')]),
 ("k-while-loop", "keeps", "C02", [(S, '''            let unit_type = self.data.get_unit_type(curr_unit.unit_id);
            if unit_type.is_none() {
                // The type of the unit is unknown. This can happen when a unit depends on some
                // missing unit not in the course library.
                continue; // grcov-excl-line
            }
            let unit_type = unit_type.unwrap();''', '''            let Some(unit_type) = self.data.get_unit_type(curr_unit.unit_id) else {
                continue;
            };''')]),
]
CASES += [
 ("f-course-scope", "breaks", "C38", [(S, "if !allow_course_traversal && !allowed_courses.contains(&lesson_course_id) {", "if !allow_course_traversal && !allowed_courses.contains(&lesson_course_id) && curr_unit.depth < 2 {")]),
 ("f-course-scope-empty", "breaks", "C38", [(S, "if !allow_course_traversal && !allowed_courses.contains(&lesson_course_id) {", "if !allow_course_traversal && !allowed_courses.is_empty() && allowed_courses.len() < 10 && !allowed_courses.contains(&lesson_course_id) {")]),
 ("f-course-first", "breaks", "C38", [(S, "self.get_candidates_from_graph_helper(stack, visited, None, false, course_ids)", "self.get_candidates_from_graph_helper(stack, visited, None, course_ids.len() > 5, course_ids)")]),
 ("f-lesson-also-deps", "breaks", "C38", [(S, "                            candidates.extend(self.get_candidates_from_lesson(lesson_id)?);\n                        }\n                        candidates", "                            candidates.extend(self.get_candidates_from_lesson(lesson_id)?);\n                        }\n                        if candidates.is_empty() { candidates = self.get_candidates_from_graph(self.get_initial_stack(None), None)?; }\n                        candidates")]),
 ("f-metadata-dropped", "breaks", "C38", [(S, "self.get_candidates_from_graph(initial_stack, Some(&filter))?", "self.get_candidates_from_graph(initial_stack, None)?")]),
 ("f-skip-lesson-filter", "breaks", "C38", [(S, "blacklisted || !passes_filter || is_lesson_superseded || is_course_superseded", "blacklisted || (!passes_filter && !self.data.get_lesson_exercises(lesson_id).is_empty()) || is_lesson_superseded || is_course_superseded")]),
 ("f-review-course-of-lesson", "breaks", "C38", [(S, "candidates.extend(self.get_candidates_from_lesson(unit_id)?);\n                }\n                UnitType::Exercise", "candidates.extend(self.get_candidates_from_course(&[self.data.get_course_id(unit_id)?])?);\n                }\n                UnitType::Exercise")]),
 ("f-exclude", "breaks", "C38", [(FI, "FilterType::Exclude => !contains_metadata,", "FilterType::Exclude => metadata.contains_key(key) && !contains_metadata,")]),
 ("f-all-values", "breaks", "C38", [(FI, "values.iter().any(|v| v == value)", "values.iter().all(|v| v == value)")]),
 ("f-first-value", "breaks", "C38", [(FI, "values.iter().any(|v| v == value)", "values.first().is_some_and(|v| v == value)")]),
 ("f-ignore-case", "breaks", "C38", [(FI, "values.iter().any(|v| v == value)", "values.iter().any(|v| v.eq_ignore_ascii_case(value))")]),
 ("f-prefix", "breaks", "C38", [(FI, "values.iter().any(|v| v == value)", "values.iter().any(|v| v.starts_with(value))")]),
 ("f-lesson-uses-course-md", "breaks", "C38", [(FI, "KeyValueFilter::passes_filter(lesson_metadata, key, value, filter_type)", "KeyValueFilter::passes_filter(course_metadata, key, value, filter_type)")]),
 ("f-lesson-fallback-md", "breaks", "C38", [(FI, "let lesson_metadata = lesson_manifest.get_metadata().unwrap_or(&default_metadata);", "let lesson_metadata = lesson_manifest.get_metadata().unwrap_or(course_metadata);")]),
 ("f-course-any", "breaks", "C38", [(FI, "                    FilterOp::Any => false,\n", "                    FilterOp::Any => course_result,\n")]),
 ("f-course-all", "breaks", "C38", [(FI, "FilterOp::All => course_result && other_result,", "FilterOp::All => other_result,")]),
 ("f-lesson-op-swap", "breaks", "C38", [(FI, "                    FilterOp::Any => filters\n                        .iter()\n                        .any(|f| f.apply_to_lesson(course_manifest, lesson_manifest)),", "                    FilterOp::Any => filters.len() == 1 || filters\n                        .iter()\n                        .any(|f| f.apply_to_lesson(course_manifest, lesson_manifest)),")]),
 ("f-lesson-swap-args", "breaks", "C38", [(D, ".apply_to_lesson(&*course_manifest, &*lesson_manifest)", ".apply_to_lesson(&*course_manifest, &*course_manifest)")]),
 ("f-session-default", "breaks", "C38", [(S, "                        .get_session_filter(&session_data, Utc::now())?\n                        .map(ExerciseFilter::UnitFilter);", "                        .get_session_filter(&session_data, Utc::now()).ok().flatten()\n                        .map(ExerciseFilter::UnitFilter);")]),
 ("f-session-review", "breaks", "C38", [(D, "            SessionPart::NoFilter { .. } => Ok(None),", "            SessionPart::NoFilter { duration } => Ok(if duration == 0 { Some(UnitFilter::ReviewListFilter) } else { None }),")]),
 ("f-wrong-lesson-id", "breaks", "C38", [(S, "                    lesson_id: item.unit_id,\n", "                    lesson_id: exercise_id,\n")]),
 # kept
 ("k-f-course-any", "keeps", "C38", [(S, "!allowed_courses.contains(&lesson_course_id)", "!allowed_courses.iter().any(|id| *id == lesson_course_id)")]),
 ("k-f-nested-if", "keeps", "C38", [(S, '''                if !allow_course_traversal && !allowed_courses.contains(&lesson_course_id) {
                    continue;
                }''', '''                if !allow_course_traversal {
                    let allowed = allowed_courses.contains(&lesson_course_id);
                    if !allowed {
                        continue;
                    }
                }''')]),
 ("k-f-skip-early", "keeps", "C38,C02", [(S, '''        let passes_filter = self
            .data
            .unit_passes_filter(lesson_id, metadata_filter)
            .unwrap_or(true);

        // Check if the lesson has''', '''        let passes_filter = self
            .data
            .unit_passes_filter(lesson_id, metadata_filter)
            .unwrap_or(true);
        if blacklisted || !passes_filter {
            return true;
        }

        // Check if the lesson has'''), (S, "blacklisted || !passes_filter || is_lesson_superseded || is_course_superseded", "is_lesson_superseded || is_course_superseded")]),
 ("k-f-passes-loop", "keeps", "C38", [(FI, '''        let contains_metadata = metadata
            .get(key)
            .is_some_and(|values| values.iter().any(|v| v == value));''', '''        let mut contains_metadata = false;
        if let Some(values) = metadata.get(key) {
            for v in values {
                if v == value {
                    contains_metadata = true;
                    break;
                }
            }
        }''')]),
 ("k-f-passes-contains", "keeps", "C38", [(FI, "values.iter().any(|v| v == value)", "values.contains(&value.to_string())")]),
 ("k-f-xor", "keeps", "C38", [(FI, '''        match filter_type {
            FilterType::Include => contains_metadata,
            FilterType::Exclude => !contains_metadata,
        }''', '''        contains_metadata == (*filter_type == FilterType::Include)''')]),
 ("k-f-partition", "keeps", "C38", [(FI, '''                let course_filters = filters
                    .iter()
                    .filter(|f| matches!(f, KeyValueFilter::CourseFilter { .. }))
                    .collect::<Vec<_>>();
                let other_filters = filters
                    .iter()
                    .filter(|f| !matches!(f, KeyValueFilter::CourseFilter { .. }))
                    .collect::<Vec<_>>();''', '''                let (course_filters, other_filters): (Vec<_>, Vec<_>) = filters
                    .iter()
                    .partition(|f| matches!(f, KeyValueFilter::CourseFilter { .. }));''')]),
 ("k-f-combine", "keeps", "C38", [(FI, '''                if other_filters.is_empty() {
                    return course_result;
                }

                // Otherwise, return false if the operation is `Any` so that the course is skipped
                // and the decision is made based on the lesson.
                match *op {
                    FilterOp::All => course_result && other_result,
                    FilterOp::Any => false,
                }''', '''                match (other_filters.is_empty(), op) {
                    (true, _) => course_result,
                    (false, FilterOp::All) => course_result && other_result,
                    (false, FilterOp::Any) => false,
                }''')]),
 ("k-f-upf-match", "keeps", "C38,C02", [(D, '''        if metadata_filter.is_none() {
            return Ok(true);
        }

        // Decide''', '''        let Some(filter) = metadata_filter else {
            return Ok(true);
        };

        // Decide'''), (D, '''                Ok(metadata_filter
                    .as_ref()
                    .unwrap()
                    .apply_to_course(&*course_manifest))''', "                Ok(filter.apply_to_course(course_manifest.as_ref()))"), (D, '''                Ok(metadata_filter
                    .as_ref()
                    .unwrap()
                    .apply_to_lesson(''', "                Ok(filter.apply_to_lesson(")]),
 ("k-f-candidate-loop", "keeps", "C38,C02", [(S, '''        let candidates = exercises
            .into_iter()
            .map(|exercise_id| {
                Ok(Candidate {''', '''        let make = |exercise_id: Ustr| -> Result<Candidate> {
                Ok(Candidate {'''), (S, '''                    encompassed_weight: 0.0,
                })
            })
            .collect::<Result<Vec<Candidate>>>()?;''', '''                    encompassed_weight: 0.0,
                })
            };
        let mut candidates = Vec::with_capacity(exercises.len());
        for exercise_id in exercises {
            candidates.push(make(exercise_id)?);
        }''')]),
]
