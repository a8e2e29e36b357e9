"""Behaviour-preserving edits of the scheduler."""
CASES = []
S = "src/scheduler.rs"


def k(name, *edits, f=S):
    CASES.append((name, "keeps", "*", [(f, o, n) for o, n in edits]))


k("r3-apply-options-order", ('''        self.data.options = options.clone();
        self.unit_scorer.set_options(options.clone());
        self.reward_propagator = RewardPropagator {
            data: self.data.clone(),
        };
        self.review_knocker = ReviewKnocker::new(self.data.clone());
        self.filter = CandidateFilter::new(self.data.clone());
        self.relearn_pile.set_options(options);
''', '''        self.relearn_pile.set_options(options.clone());
        self.unit_scorer.set_options(options.clone());
        self.data.options = options;
        let data = self.data.clone();
        self.filter = CandidateFilter::new(data.clone());
        self.review_knocker = ReviewKnocker::new(data.clone());
        self.reward_propagator = RewardPropagator { data };
'''))
k("r3-starting-units-partition", ('''            let mut new_starting_courses = UstrSet::default();
            for course_id in &starting_courses {
                if self.data.unit_exists(*course_id).unwrap_or(false) {
                    new_starting_courses.insert(*course_id);
                } else {
                    new_starting_courses.extend(self.data.get_all_dependents(*course_id).iter());
                }
            }
''', '''            let (mut new_starting_courses, missing): (UstrSet, UstrSet) = starting_courses
                .iter()
                .copied()
                .partition(|course_id| self.data.unit_exists(*course_id).unwrap_or(false));
            for course_id in missing {
                new_starting_courses.extend(self.data.get_all_dependents(course_id));
            }
'''))
k("r3-starting-units-while", ('''            if new_starting_courses.eq(&starting_courses) {
                break;
            }
            starting_courses = new_starting_courses;
        }
''', '''            let done = new_starting_courses == starting_courses;
            starting_courses = new_starting_courses;
            if done {
                break;
            }
        }
'''))
k("r3-starting-filter-any", ('''                    .all(|id| !self.data.unit_exists(*id).unwrap())
            })
            .collect()
''', '''                    .any(|id| self.data.unit_exists(*id).unwrap())
                    .eq(&false)
            })
            .collect()
'''))
k("r3-starting-filter-not-any", ('''            .filter(|course_id| {
                graph
                    .get_dependencies(*course_id)
                    .unwrap_or_default()
                    .iter()
                    .all(|id| !self.data.unit_exists(*id).unwrap())
            })
            .collect()
''', '''            .filter(|course_id| {
                let dependencies = graph.get_dependencies(*course_id).unwrap_or_default();
                !dependencies
                    .iter()
                    .any(|id| self.data.unit_exists(*id).unwrap())
            })
            .collect()
'''))
k("r3-valid-starting-lessons-loop", ('''        Ok(self
            .data
            .unit_graph
            .read()
            .get_starting_lessons(course_id)
            .unwrap_or_default()
            .iter()
            .copied()
            .filter(|id| {
                // Filter out lessons whose dependencies are not satisfied. Otherwise, those lessons
                // would be traversed prematurely.
                self.all_satisfied_dependencies(*id, metadata_filter)
            })
            .collect())
''', '''        let starting_lessons = self
            .data
            .unit_graph
            .read()
            .get_starting_lessons(course_id)
            .unwrap_or_default();
        let mut valid = Vec::with_capacity(starting_lessons.len());
        for lesson_id in starting_lessons.iter() {
            if self.all_satisfied_dependencies(*lesson_id, metadata_filter) {
                valid.push(*lesson_id);
            }
        }
        Ok(valid)
'''))
k("r3-initial-stack-flat", ('''            if lesson_ids.is_empty() {
                // For units with no lessons, insert the unit itself as a starting unit so that its
                // dependents are traversed.
                initial_stack.push(StackItem {
                    unit_id: course_id,
                    depth: 0,
                });
            } else {
                // Insert all the starting lessons in the stack.
                initial_stack.extend(
                    lesson_ids
                        .into_iter()
                        .map(|unit_id| StackItem { unit_id, depth: 0 }),
                );
            }
''', '''            let units = if lesson_ids.is_empty() {
                vec![course_id]
            } else {
                lesson_ids
            };
            for unit_id in units {
                initial_stack.push(StackItem { unit_id, depth: 0 });
            }
'''))
k("r3-select-early", ('''        if candidates.is_empty() {
            return Vec::new();
        }
        if score >= FULL_CANDIDATES_SCORE || score < options.min_score {
            return candidates;
        }
''', '''        if candidates.is_empty() || score >= FULL_CANDIDATES_SCORE || score < options.min_score {
            return candidates;
        }
'''))
k("r3-select-truncate", ('''        let mut candidates = candidates;
        candidates.shuffle(&mut rng());
        candidates.into_iter().take(num_to_select).collect()
''', '''        let mut selected = candidates;
        selected.shuffle(&mut rng());
        selected.truncate(num_to_select);
        selected
'''))
k("r3-lesson-helper-loop", ('''        let candidates = exercises
            .into_iter()
            .map(|exercise_id| {
                Ok(Candidate {
                    exercise_id,
                    lesson_id: item.unit_id,
                    course_id,
                    depth: (item.depth + 1) as f32,
                    exercise_score: self
                        .unit_scorer
                        .get_unit_score(exercise_id)?
                        .unwrap_or_default(),
                    urgency: self.unit_scorer.get_exercise_urgency(exercise_id)?,
                    velocity: self.unit_scorer.get_exercise_velocity(exercise_id)?,
                    frequency: frequency_map.get(&exercise_id).copied().unwrap_or(0),
                    dead_end: false,
                    encompasses_weight: 0.0,
                    encompassed_weight: 0.0,
                })
            })
            .collect::<Result<Vec<Candidate>>>()?;
''', '''        let mut candidates = Vec::new();
        for exercise_id in exercises {
            let score = self.unit_scorer.get_unit_score(exercise_id)?;
            let candidate = Candidate {
                exercise_id,
                lesson_id: item.unit_id,
                course_id,
                depth: (item.depth + 1) as f32,
                exercise_score: score.unwrap_or(0.0),
                urgency: self.unit_scorer.get_exercise_urgency(exercise_id)?,
                velocity: self.unit_scorer.get_exercise_velocity(exercise_id)?,
                frequency: *frequency_map.get(&exercise_id).unwrap_or(&0),
                ..Candidate::default()
            };
            candidates.push(candidate);
        }
'''))
k("r3-new-candidate-helper", ('''            .map(|exercise_id| {
                Ok(Candidate {
                    exercise_id,
                    lesson_id: item.unit_id,
                    course_id,
                    depth: (item.depth + 1) as f32,
                    exercise_score: self
                        .unit_scorer
                        .get_unit_score(exercise_id)?
                        .unwrap_or_default(),
                    urgency: self.unit_scorer.get_exercise_urgency(exercise_id)?,
                    velocity: self.unit_scorer.get_exercise_velocity(exercise_id)?,
                    frequency: frequency_map.get(&exercise_id).copied().unwrap_or(0),
                    dead_end: false,
                    encompasses_weight: 0.0,
                    encompassed_weight: 0.0,
                })
            })
''', '''            .map(|exercise_id| {
                let frequency = frequency_map.get(&exercise_id).copied().unwrap_or(0);
                let depth = (item.depth + 1) as f32;
                self.new_candidate(exercise_id, item.unit_id, course_id, depth, frequency)
            })
'''), ('''                    candidates.push(Candidate {
                        exercise_id: unit_id,
                        lesson_id,
                        course_id,
                        depth: 0.0,
                        exercise_score: self
                            .unit_scorer
                            .get_unit_score(unit_id)?
                            .unwrap_or_default(),
                        urgency: self.unit_scorer.get_exercise_urgency(unit_id)?,
                        velocity: self.unit_scorer.get_exercise_velocity(unit_id)?,
                        frequency,
                        dead_end: false,
                        encompasses_weight: 0.0,
                        encompassed_weight: 0.0,
                    });
''', '''                    candidates
                        .push(self.new_candidate(unit_id, lesson_id, course_id, 0.0, frequency)?);
'''), ('''    /// Returns the list of candidates selected from the given lesson along with the average score.
''', '''    /// Creates a candidate.
    fn new_candidate(
        &self,
        exercise_id: Ustr,
        lesson_id: Ustr,
        course_id: Ustr,
        depth: f32,
        frequency: usize,
    ) -> Result<Candidate> {
        Ok(Candidate {
            exercise_id,
            lesson_id,
            course_id,
            depth,
            exercise_score: self
                .unit_scorer
                .get_unit_score(exercise_id)?
                .unwrap_or_default(),
            urgency: self.unit_scorer.get_exercise_urgency(exercise_id)?,
            velocity: self.unit_scorer.get_exercise_velocity(exercise_id)?,
            frequency,
            dead_end: false,
            encompasses_weight: 0.0,
            encompassed_weight: 0.0,
        })
    }

    /// Returns the list of candidates selected from the given lesson along with the average score.
'''))
k("r3-last-matching-retain", ('''        let matching_lessons: UstrSet = graph
            .get_course_lessons(course_id)
            .unwrap_or_default()
            .iter()
            .copied()
            .filter(|lesson_id| {
                self.data
                    .unit_passes_filter(*lesson_id, metadata_filter)
                    .unwrap_or(false)
            })
            .collect();
        if matching_lessons.is_empty() {
            return UstrSet::default();
        }
''', '''        let mut matching_lessons =
            Arc::unwrap_or_clone(graph.get_course_lessons(course_id).unwrap_or_default());
        matching_lessons.retain(|lesson_id| {
            matches!(
                self.data.unit_passes_filter(*lesson_id, metadata_filter),
                Ok(true)
            )
        });
'''))
k("r3-resolve-visited-contains", ('''        if !visited.insert(dependency_id) {
            return UstrSet::default(); // grcov-excl-line
        }
''', '''        if visited.contains(&dependency_id) {
            return UstrSet::default(); // grcov-excl-line
        }
        visited.insert(dependency_id);
'''))
k("r3-resolve-course-helper", ('''                let course_id = self
                    .data
                    .get_lesson_course(dependency_id)
                    .unwrap_or_default();
                let is_starting_lesson = graph
                    .get_starting_lessons(course_id)
                    .unwrap_or_default()
                    .contains(&dependency_id);
                if is_starting_lesson {
                    next_dependencies.extend(
                        graph
                            .get_dependencies(course_id)
                            .unwrap_or_default()
                            .iter()
                            .copied(),
                    );
                }
''', '''                let course_id = self
                    .data
                    .get_lesson_course(dependency_id)
                    .unwrap_or_default();
                let starting_lessons = graph.get_starting_lessons(course_id).unwrap_or_default();
                if starting_lessons.iter().any(|id| *id == dependency_id) {
                    let course_dependencies =
                        graph.get_dependencies(course_id).unwrap_or_default();
                    for id in course_dependencies.iter() {
                        next_dependencies.insert(*id);
                    }
                }
'''))
k("r3-passes-threshold-zip", ('''        if let (Some(avg_score), Some(avg_trials)) = (avg_score, avg_trials) {
            avg_score >= options.min_score && avg_trials >= options.min_avg_trials
        } else {
            // If the values cannot be retrieved, consider the dependency as satisfied to avoid
            // blocking the search in the case of blacklisted or missing units.
            true
        }
''', '''        let (Some(avg_score), Some(avg_trials)) = (avg_score, avg_trials) else {
            // If the values cannot be retrieved, consider the dependency as satisfied to avoid
            // blocking the search in the case of blacklisted or missing units.
            return true;
        };
        let below = avg_score < options.min_score || avg_trials < options.min_avg_trials;
        !below
'''))
k("r3-effective-or", ('''        let blacklisted = self.data.blacklisted(dependency_id);
        if blacklisted.unwrap_or(false) {
            return true;
        }

        // Dependencies which are a lesson belonging to a blacklisted course are considered as
        // satisfied, so the search can continue past them.
        let course_id = self
            .data
            .get_lesson_course(dependency_id)
            .unwrap_or_default();
        if self.data.blacklisted(course_id).unwrap_or(false) {
            return true;
        }
''', '''        // Dependencies which are a lesson belonging to a blacklisted course are considered as
        // satisfied as well.
        let course_id = self
            .data
            .get_lesson_course(dependency_id)
            .unwrap_or_default();
        if [dependency_id, course_id]
            .into_iter()
            .any(|id| self.data.blacklisted(id).unwrap_or(false))
        {
            return true;
        }
'''))
k("r3-effective-superseded-map", ('''        let superseding = self.unit_scorer.get_superseding_recursive(dependency_id);
        if let Some(superseding) = superseding
            && self.unit_scorer.is_superseded(dependency_id, &superseding)
        {
            return true;
        }
''', '''        let superseded = self
            .unit_scorer
            .get_superseding_recursive(dependency_id)
            .is_some_and(|units| self.unit_scorer.is_superseded(dependency_id, &units));
        if superseded {
            return true;
        }
'''))
k("r3-satisfied-no-shortcut", ('''        if targets.is_empty() {
            return true;
        }
        targets
            .into_iter()
            .all(|target| self.satisfied_effective_dependency(target))
''', '''        !targets
            .iter()
            .any(|target| !self.satisfied_effective_dependency(*target))
'''))
k("r3-skip-course-lazy", ('''        // Check if the course has been superseded by another unit.
        let superseding_units = self
            .unit_scorer
            .get_superseding_recursive(course_id)
            .unwrap_or_default();
        let is_superseded = self
            .unit_scorer
            .is_superseded(course_id, &superseding_units);

        // The course should be skipped if the course is blacklisted, does not pass the filter, has
        // no pending lessons, or if it's been superseded.
        blacklisted || !passes_filter || *pending_lessons == 0 || is_superseded
''', '''        // The course should be skipped if the course is blacklisted, does not pass the filter, has
        // no pending lessons, or if it's been superseded.
        if blacklisted || !passes_filter || *pending_lessons == 0 {
            return true;
        }
        let superseding_units = self
            .unit_scorer
            .get_superseding_recursive(course_id)
            .unwrap_or_default();
        self.unit_scorer
            .is_superseded(course_id, &superseding_units)
'''))
k("r3-skip-lesson-closure", ('''        let superseding_units = self
            .unit_scorer
            .get_superseding_recursive(lesson_id)
            .unwrap_or_default();
        let is_lesson_superseded = self
            .unit_scorer
            .is_superseded(lesson_id, &superseding_units);

        // Check if the lesson's course has been superseded by another unit.
        let course_id = self.data.get_lesson_course(lesson_id).unwrap_or_default();
        let superseding_units = self
            .unit_scorer
            .get_superseding_recursive(course_id)
            .unwrap_or_default();
        let is_course_superseded = self
            .unit_scorer
            .is_superseded(course_id, &superseding_units);
''', '''        let superseded = |unit_id: Ustr| {
            let superseding_units = self
                .unit_scorer
                .get_superseding_recursive(unit_id)
                .unwrap_or_default();
            self.unit_scorer.is_superseded(unit_id, &superseding_units)
        };
        let is_lesson_superseded = superseded(lesson_id);
        let course_id = self.data.get_lesson_course(lesson_id).unwrap_or_default();
        let is_course_superseded = superseded(course_id);
'''))
k("r3-extend-progress", ('''        let in_progress = match lesson_score {
            Some(score) => score <= options.target_window_opts.range.1,
            None => true,
        };
        if in_progress && !lessons_in_progress.contains(&lesson_id) {
            if lessons_in_progress.len() >= options.max_lessons_in_progress {
                return;
            }
            lessons_in_progress.insert(lesson_id);
        }
        all_candidates.extend(candidates);
''', '''        let in_progress =
            lesson_score.is_none_or(|score| score <= options.target_window_opts.range.1);
        if in_progress && !lessons_in_progress.contains(&lesson_id) {
            let full = lessons_in_progress.len() >= options.max_lessons_in_progress;
            if full {
                return;
            }
            lessons_in_progress.insert(lesson_id);
        }
        for candidate in candidates {
            all_candidates.push(candidate);
        }
'''))
k("r3-search-visited-insert", ('''            let unit_type = self.data.get_unit_type(curr_unit.unit_id);
            if unit_type.is_none() {
                // The type of the unit is unknown. This can happen when a unit depends on some
                // missing unit not in the course library.
                continue; // grcov-excl-line
            }
            let unit_type = unit_type.unwrap();
''', '''            let Some(unit_type) = self.data.get_unit_type(curr_unit.unit_id) else {
                // The type of the unit is unknown. This can happen when a unit depends on some
                // missing unit not in the course library.
                continue; // grcov-excl-line
            };
'''))
k("r3-search-pending-helper", ('''                    let pending_lessons = pending_course_lessons
                        .entry(course_id)
                        .or_insert_with(|| self.data.get_num_lessons_in_course(course_id));
                    if *pending_lessons > 0 {
                        *pending_lessons -= 1;
                    }

                    // Check whether there are pending lessons.
                    if *pending_lessons == 0 {
''', '''                    let pending_lessons = pending_course_lessons
                        .entry(course_id)
                        .or_insert_with(|| self.data.get_num_lessons_in_course(course_id));
                    *pending_lessons = pending_lessons.saturating_sub(1);

                    // Check whether there are pending lessons.
                    if *pending_lessons == 0 {
'''))
k("r3-search-match", ('''                let avg_score = if num_candidates > 0 {
                    Some(avg_score)
                } else {
                    None
                };
''', '''                let avg_score = (num_candidates > 0).then_some(avg_score);
'''))
k("r3-search-extend-once", ('''                if !Self::passes_threshold(&self.data.options.passing_score, avg_score, avg_trials)
                {
                    for candidate in &mut candidates {
                        candidate.dead_end = true;
                    }
                    Self::extend_candidates(
                        &mut all_candidates,
                        candidates,
                        curr_unit.unit_id,
                        avg_score,
                        &mut lessons_in_progress,
                        &self.data.options,
                    );
''', '''                let passes =
                    Self::passes_threshold(&self.data.options.passing_score, avg_score, avg_trials);
                for candidate in &mut candidates {
                    candidate.dead_end = !passes;
                }
                Self::extend_candidates(
                    &mut all_candidates,
                    candidates,
                    curr_unit.unit_id,
                    avg_score,
                    &mut lessons_in_progress,
                    &self.data.options,
                );
                if !passes {
'''), ('''                // The search should continue past this lesson. Add its candidates and continue the
                // search via its valid dependents.
                Self::extend_candidates(
                    &mut all_candidates,
                    candidates,
                    curr_unit.unit_id,
                    avg_score,
                    &mut lessons_in_progress,
                    &self.data.options,
                );
''', '''                // The search should continue past this lesson via its valid dependents.
'''))
k("r3-course-stack-map", ('''        for course_id in course_ids {
            let lessons = graph.get_starting_lessons(*course_id).unwrap_or_default();
            stack.extend(lessons.iter().copied().map(|id| StackItem {
                unit_id: id,
                depth: 0,
            }));
            visited.insert(*course_id);
        }
''', '''        visited.extend(course_ids.iter().copied());
        for course_id in course_ids {
            for unit_id in graph
                .get_starting_lessons(*course_id)
                .unwrap_or_default()
                .iter()
                .copied()
            {
                stack.push(StackItem { unit_id, depth: 0 });
            }
        }
'''))
k("r3-review-split", ('''                UnitType::Exercise => {
                    // Skip exercises that are blacklisted or inside a blacklisted unit.
                    if self.data.inside_blacklisted(unit_id)? {
                        continue;
                    }
''', '''                // Skip exercises that are blacklisted or inside a blacklisted unit.
                UnitType::Exercise if self.data.inside_blacklisted(unit_id)? => continue,
                UnitType::Exercise => {
'''))
