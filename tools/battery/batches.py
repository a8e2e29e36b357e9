"""What becomes of the candidates of a search on the way to a batch."""
S, FI, SH, RK = "src/scheduler.rs", "src/scheduler/filter.rs", "src/scheduler/shuffler.rs", "src/scheduler/review_knocker.rs"
CASES = []


def keep(n, *e):
    CASES.append((n, "keeps", "*", list(e)))


def brk(n, *e):
    CASES.append((n, "breaks", "C31", list(e)))


SEEN = """        let mut seen = UstrSet::default();
        initial_candidates.retain(|candidate| seen.insert(candidate.exercise_id));
"""
RELEARN = """            .into_iter()
            .filter(|candidate| {
                !filtered_candidates
                    .iter()
                    .any(|c| c.exercise_id == candidate.exercise_id)
            })
            .collect::<Vec<_>>();
"""
FINAL = """        let final_candidates = filtered_candidates
            .into_iter()
            .chain(relearn_candidates)
            .collect::<Vec<_>>();
"""
MANIFESTS = """        let exercises = candidates
            .into_iter()
            .map(|c| -> Result<_> {
                let manifest = self.data.get_exercise_manifest(c.exercise_id)?;
                Ok(Arc::unwrap_or_clone(manifest))
            })
            .collect::<Result<Vec<_>>>()?;
        Ok(exercises)
"""
WINDOW = """        candidates
            .iter()
            .filter(|c| window_opts.in_window(c.exercise_score))
            .filter(|c| !encompassed_set.contains(&c.exercise_id))
            .cloned()
            .collect()
"""
REST = """        let remainder = candidates
            .iter()
            .filter(|c| !selected_ids.contains(&c.exercise_id))
            .cloned()
            .collect();
"""
VERY = """            .filter(|candidate| {
                let weight = weight_map
                    .get(&candidate.exercise_id)
                    .copied()
                    .unwrap_or(0.0);
                !(weight >= VERY_HIGHLY_WEIGHT && candidate.exercise_score >= VERY_HIGHLY_SCORE)
            })
"""
GROUPS = """        let mut all_groups = grouped_low_candidates;
        all_groups.extend(grouped_high_candidates);
        let mut keyed_groups: Vec<(f32, Vec<Candidate>)> = all_groups
            .into_iter()
            .map(|g| (Self::group_sort_key(&g), g))
            .collect();
"""
PARTITION = """            .partition(|candidate| candidate.exercise_score <= threshold_score);
"""

keep("seen-loop", (S, SEEN, """        let mut seen = UstrSet::default();
        let mut unique = Vec::with_capacity(initial_candidates.len());
        for candidate in initial_candidates {
            if seen.contains(&candidate.exercise_id) {
                continue;
            }
            seen.insert(candidate.exercise_id);
            unique.push(candidate);
        }
        initial_candidates = unique;
"""))
keep("seen-filter", (S, SEEN, """        let mut seen = UstrSet::default();
        initial_candidates = initial_candidates
            .into_iter()
            .filter(|candidate| seen.insert(candidate.exercise_id))
            .collect();
"""))
keep("relearn-set", (S, RELEARN, """            .into_iter()
            .filter(|candidate| !batch_ids.contains(&candidate.exercise_id))
            .collect::<Vec<_>>();
"""), (S, """        // Select candidates from the relearning pile and filter""", """        let batch_ids: UstrSet = filtered_candidates.iter().map(|c| c.exercise_id).collect();
        // Select candidates from the relearning pile and filter"""))
keep("relearn-all", (S, RELEARN, """            .into_iter()
            .filter(|candidate| filtered_candidates.iter().all(|c| c.exercise_id != candidate.exercise_id))
            .collect::<Vec<_>>();
"""))
keep("relearn-loop", (S, RELEARN, ";\n"), (S, "        let relearn_candidates = self\n", "        let pile_candidates = self\n"),
     (S, FINAL, """        let mut final_candidates = filtered_candidates;
        let batch_ids: UstrSet = final_candidates.iter().map(|c| c.exercise_id).collect();
        for candidate in pile_candidates {
            if !batch_ids.contains(&candidate.exercise_id) {
                final_candidates.push(candidate);
            }
        }
"""))
keep("final-extend", (S, FINAL, """        let mut final_candidates = filtered_candidates;
        final_candidates.extend(relearn_candidates);
"""))
keep("final-helper", (S, FINAL, """        let final_candidates = Self::join_candidates(filtered_candidates, relearn_candidates);
"""), (S, """    /// Takes a list of candidates and returns a vector of tuples""", """    /// Joins the two lists.
    fn join_candidates(mut first: Vec<Candidate>, mut second: Vec<Candidate>) -> Vec<Candidate> {
        first.append(&mut second);
        first
    }

    /// Takes a list of candidates and returns a vector of tuples"""))
keep("manifests-loop", (S, MANIFESTS, """        let mut exercises = Vec::with_capacity(candidates.len());
        for c in candidates {
            let manifest = self.data.get_exercise_manifest(c.exercise_id)?;
            exercises.push(Arc::unwrap_or_clone(manifest));
        }
        Ok(exercises)
"""))
keep("window-loop", (FI, WINDOW, """        let mut result = Vec::new();
        for c in candidates {
            if encompassed_set.contains(&c.exercise_id) || !window_opts.in_window(c.exercise_score) {
                continue;
            }
            result.push(c.clone());
        }
        result
"""))
keep("window-one-filter", (FI, WINDOW, """        candidates
            .iter()
            .filter(|c| {
                window_opts.in_window(c.exercise_score) && !encompassed_set.contains(&c.exercise_id)
            })
            .cloned()
            .collect()
"""))
keep("rest-loop", (FI, REST, """        let mut remainder = Vec::new();
        for c in candidates {
            if !selected_ids.contains(&c.exercise_id) {
                remainder.push(c.clone());
            }
        }
"""))
keep("rest-any", (FI, REST, """        let remainder = candidates
            .iter()
            .filter(|c| !selected.iter().any(|s| s.exercise_id == c.exercise_id))
            .cloned()
            .collect();
"""), (FI, """        let selected_ids: UstrSet = selected.iter().map(|c| c.exercise_id).collect();
""", ""))
keep("window-closure", (FI, """            Self::candidates_in_window(candidates, &assigned_set, &options.new_window_opts);
""", """            in_window(&assigned_set, &options.new_window_opts);
"""), (FI, """            Self::candidates_in_window(candidates, &assigned_set, &options.target_window_opts);
""", """            in_window(&assigned_set, &options.target_window_opts);
"""), (FI, """        let mut assigned_set: UstrSet = result""", """        let in_window = |assigned: &UstrSet, window: &MasteryWindow| {
            Self::candidates_in_window(candidates, assigned, window)
        };
        let mut assigned_set: UstrSet = result"""))
keep("take-window-helper", (FI, """        let mut mastered_candidates =
            Self::candidates_in_window(candidates, &assigned_set, &options.mastered_window_opts);
        assigned_set.extend(mastered_candidates.iter().map(|c| c.exercise_id));
        let easy_candidates =
            Self::candidates_in_window(candidates, &assigned_set, &options.easy_window_opts);
        assigned_set.extend(easy_candidates.iter().map(|c| c.exercise_id));
""", """        let mut mastered_candidates =
            Self::take_window(candidates, &mut assigned_set, &options.mastered_window_opts);
        let easy_candidates =
            Self::take_window(candidates, &mut assigned_set, &options.easy_window_opts);
"""), (FI, """    /// Computes the cost assigned to a candidate that""", """    /// Takes the candidates in the window that are not assigned yet.
    fn take_window(
        candidates: &[Candidate],
        assigned: &mut UstrSet,
        window_opts: &MasteryWindow,
    ) -> Vec<Candidate> {
        let taken = Self::candidates_in_window(candidates, assigned, window_opts);
        assigned.extend(taken.iter().map(|c| c.exercise_id));
        taken
    }

    /// Computes the cost assigned to a candidate that"""))
keep("assigned-insert", (FI, """        assigned_set.extend(target_candidates.iter().map(|c| c.exercise_id));
""", """        for candidate in &target_candidates {
            assigned_set.insert(candidate.exercise_id);
        }
"""))
keep("select-and-add", (FI, """        let num_new = (batch_size_float * options.new_window_opts.percentage).max(1.0) as usize;
        let (new_selected, new_remainder) = Self::select_candidates(&new_candidates, num_new);
        final_candidates.extend(new_selected);
""", """        let new_remainder = Self::select_from_window(
            &new_candidates,
            batch_size_float * options.new_window_opts.percentage,
            &mut final_candidates,
        );
"""), (FI, """    /// Computes the batch size to use based on""", """    /// Selects candidates and adds them to the final list.
    fn select_from_window(
        candidates: &[Candidate],
        share: f32,
        final_candidates: &mut Vec<Candidate>,
    ) -> Vec<Candidate> {
        let (selected, remainder) = Self::select_candidates(candidates, share.max(1.0) as usize);
        final_candidates.extend(selected);
        remainder
    }

    /// Computes the batch size to use based on"""))
keep("remainders-loop", (FI, """        Self::add_remainder(batch_size, &mut final_candidates, &easy_remainder, None);
        Self::add_remainder(batch_size, &mut final_candidates, &mastered_remainder, None);
""", """        for remainder in [&easy_remainder, &mastered_remainder] {
            Self::add_remainder(batch_size, &mut final_candidates, remainder, None);
        }
"""))
keep("add-remainder-early", (FI, """        let (remainder_candidates, _) = Self::select_candidates(remainder, num_added);
        final_candidates.extend(remainder_candidates);
""", """        if remainder.is_empty() {
            return;
        }
        final_candidates.append(&mut Self::select_candidates(remainder, num_added).0);
"""))
keep("very-early", (RK, VERY, """            .filter(|candidate| {
                if candidate.exercise_score < VERY_HIGHLY_SCORE {
                    return true;
                }
                match weight_map.get(&candidate.exercise_id) {
                    Some(weight) => *weight < VERY_HIGHLY_WEIGHT,
                    None => true,
                }
            })
"""))
keep("very-map-or", (RK, VERY, """            .filter(|candidate| {
                candidate.exercise_score < VERY_HIGHLY_SCORE
                    || weight_map
                        .get(&candidate.exercise_id)
                        .is_none_or(|weight| *weight < VERY_HIGHLY_WEIGHT)
            })
"""))
keep("groups-chain", (SH, GROUPS, """        let mut keyed_groups: Vec<(f32, Vec<Candidate>)> = grouped_low_candidates
            .into_iter()
            .chain(grouped_high_candidates)
            .map(|g| (Self::group_sort_key(&g), g))
            .collect();
"""))
keep("groups-loop", (SH, """        keyed_groups.into_iter().flat_map(|(_, g)| g).collect()
""", """        let mut shuffled = Vec::new();
        for (_, group) in keyed_groups {
            shuffled.extend(group);
        }
        shuffled
"""))
keep("partition-loop", (SH, """        let (mut low_candidates, high_candidates): (Vec<Candidate>, Vec<Candidate>) = candidates
            .into_iter()
""" + PARTITION, """        let mut low_candidates = Vec::new();
        let mut high_candidates = Vec::new();
        for candidate in candidates {
            if candidate.exercise_score <= threshold_score {
                low_candidates.push(candidate);
            } else {
                high_candidates.push(candidate);
            }
        }
"""))

brk("no-dedup", (S, SEEN, ""))
brk("dedup-by-lesson", (S, "seen.insert(candidate.exercise_id)", "seen.insert(candidate.lesson_id)"))
brk("dedup-only-some", (S, "|candidate| seen.insert(candidate.exercise_id)", "|candidate| candidate.dead_end || seen.insert(candidate.exercise_id)"))
brk("relearn-repeats", (S, RELEARN, """            .into_iter()
            .collect::<Vec<_>>();
"""))
brk("relearn-lesson", (S, ".any(|c| c.exercise_id == candidate.exercise_id)", ".any(|c| c.lesson_id == candidate.lesson_id)"))
brk("relearn-only-few", (S, ".any(|c| c.exercise_id == candidate.exercise_id)", ".any(|c| c.exercise_id == candidate.exercise_id && c.dead_end)"))
brk("relearn-never", (S, FINAL, "        let final_candidates = filtered_candidates;\n"))
brk("rest-all", (FI, REST, "        let remainder = candidates.to_vec();\n"), (FI, """        let selected_ids: UstrSet = selected.iter().map(|c| c.exercise_id).collect();
""", ""))
brk("rest-when-few", (FI, "return (candidates.to_vec(), vec![]);", "return (candidates.to_vec(), candidates.to_vec());"))
brk("highly-twice", (FI, """            .filter(|c| !encompassed_set.contains(&c.exercise_id))
            .cloned()
            .collect()
    }

    /// Computes the cost""", """            .filter(|c| c.dead_end || !encompassed_set.contains(&c.exercise_id))
            .cloned()
            .collect()
    }

    /// Computes the cost"""))
brk("highly-dropped", (FI, "        mastered_candidates.extend(result.highly_encompassed);\n", ""))
brk("very-or", (RK, "!(weight >= VERY_HIGHLY_WEIGHT && candidate", "!(weight >= VERY_HIGHLY_WEIGHT || candidate"))
brk("very-low-score", (RK, "const VERY_HIGHLY_SCORE: f32 = 4.5", "const VERY_HIGHLY_SCORE: f32 = 4.0"))
brk("very-not-weight", (RK, "!(weight >= VERY_HIGHLY_WEIGHT && candidate.exercise_score >= VERY_HIGHLY_SCORE)\n",
                        "!(weight >= HIGHLY_WEIGHT && candidate.exercise_score >= VERY_HIGHLY_SCORE)\n"))
brk("chunks-exact", (SH, ".chunks(MAX_GROUP_SIZE)", ".chunks_exact(MAX_GROUP_SIZE)"))
brk("drops-first", (SH, "keyed_groups.into_iter().flat_map(|(_, g)| g).collect()", "keyed_groups.into_iter().skip(1).flat_map(|(_, g)| g).collect()"))
brk("between-the-two", (SH, PARTITION, """            .filter(|candidate| candidate.exercise_score != threshold_score)
            .partition(|candidate| candidate.exercise_score < threshold_score);
"""))
brk("high-dropped", (SH, "        all_groups.extend(grouped_high_candidates);\n", ""))
brk("high-twice", (SH, "        all_groups.extend(grouped_high_candidates);\n", "        all_groups.extend(grouped_high_candidates.clone());\n        all_groups.extend(grouped_high_candidates);\n"))
brk("wrong-window", (FI, "&assigned_set, &options.target_window_opts)", "&assigned_set, &options.easy_window_opts)"))
brk("remainder-twice", (FI, "        Self::add_remainder(batch_size, &mut final_candidates, &easy_remainder, None);\n",
                        "        Self::add_remainder(batch_size, &mut final_candidates, &easy_remainder, None);\n        Self::add_remainder(batch_size, &mut final_candidates, &current_remainder, None);\n"))
brk("remainder-wrong", (FI, "&new_remainder,\n", "&new_candidates,\n"))
brk("selected-twice", (FI, "        final_candidates.extend(target_selected);\n", "        final_candidates.extend(target_selected.clone());\n        final_candidates.extend(target_selected.into_iter().filter(|c| c.dead_end));\n"))
brk("selected-forgotten", (FI, "        final_candidates.extend(target_selected);\n", ""))
brk("assigned-not", (FI, "        assigned_set.extend(easy_candidates.iter().map(|c| c.exercise_id));\n", ""))
brk("assigned-too-many", (FI, "        assigned_set.extend(easy_candidates.iter().map(|c| c.exercise_id));\n", "        assigned_set.extend(candidates.iter().map(|c| c.exercise_id));\n"))
brk("ranges-moved", (FI, "        adjusted_options.new_window_opts.percentage =\n", "        adjusted_options.new_window_opts.range.1 += shift;\n        adjusted_options.new_window_opts.percentage =\n"))
brk("manifest-of-lesson", (S, "self.data.get_exercise_manifest(c.exercise_id)?", "self.data.get_exercise_manifest(if c.dead_end { c.exercise_id } else { c.lesson_id })?"))
brk("manifests-skipped", (S, "        let exercises = candidates\n            .into_iter()\n            .map(", "        let exercises = candidates\n            .into_iter()\n            .filter(|c| c.depth >= 0.0 && !c.velocity.is_some_and(f32::is_nan))\n            .map("))
