CASES = []
R = "src/scheduler/reward_propagator.rs"


def b(name, *edits):
    CASES.append((name, "breaks", "C42", [(R, o, n) for o, n in edits]))


def k(name, *edits):
    CASES.append((name, "keeps", "*", [(R, o, n) for o, n in edits]))


b("rw-three-positive", ("MasteryScore::Three => -0.3", "MasteryScore::Three => 0.3"))
b("rw-size", ("MasteryScore::One => -1.0", "MasteryScore::One => -1.5"))
b("rw-direction", ("if reward > 0.0 {", "if reward < 0.0 {"))
b("rw-direction-always-down", ("if reward > 0.0 {", "if reward.abs() > 0.0 {"))
b("rw-no-course", ("            .chain(next_courses.iter())\n", ""), ("let next_courses =", "let _next_courses ="))
b("rw-course-twice", ("Self::get_next_units(unit_graph, lesson_id, initial_reward)", "Self::get_next_units(unit_graph, course_id, initial_reward)"))
b("rw-unlimited", ("if Self::stop_propagation(next_value, next_weight) {", "if next_weight < 0.0 {"))
b("rw-weight-only", ("reward.abs() < MIN_ABS_REWARD || weight < MIN_WEIGHT", "reward.abs() < 0.0 || weight < MIN_WEIGHT * 0.0"))
b("rw-grows", ("REWARD_FACTOR: f32 = 0.9", "REWARD_FACTOR: f32 = 1.1"))
b("rw-weight-not-carried", ("*edge_weight * WEIGHT_FACTOR * item.weight", "*edge_weight * WEIGHT_FACTOR"))
b("rw-value-not-weighted", ("let value = edge_weight * initial_reward;", "let value = initial_reward;"))
b("rw-weakest", ("existing_reward.value.abs() >= item.value.abs()", "existing_reward.value.abs() <= item.value.abs()"))
b("rw-signed", ("existing_reward.value.abs() >= item.value.abs()", "existing_reward.value >= item.value"))
b("rw-last-wins", ("existing_reward.value.abs() >= item.value.abs()", "existing_reward.value == item.value"))
b("rw-first-wins", ("\n                && existing_reward.value.abs() >= item.value.abs()\n", " && existing_reward.weight >= 0.0 \n"))
b("rw-wrong-key", ("results.insert(item.unit_id, item.clone())", "results.insert(lesson_id, item.clone())"))
b("rw-insert-before", ('''            results.insert(item.unit_id, item.clone());

''', '''            if item.weight > 0.5 { results.insert(item.unit_id, item.clone()); }

'''))
b("rw-no-onward-negative", ("            // Get the next units and push", "            if item.value < 0.0 { continue; }\n            // Get the next units and push"))
b("rw-skip-lesson-itself", ("            results.insert(item.unit_id, item.clone());", "            if item.unit_id == lesson_id { continue; }\n            results.insert(item.unit_id, item.clone());"))
b("rw-one-next", ("                &Self::get_next_units(unit_graph, item.unit_id, item.value)\n", "                Self::get_next_units(unit_graph, item.unit_id, item.value).iter().take(4)\n"))
b("rw-time-zero", ('''                    weight: next_weight,
                    timestamp,''', '''                    weight: next_weight,
                    timestamp: 0,'''))
b("rw-source-stuck", ("&Self::get_next_units(unit_graph, item.unit_id, item.value)", "&Self::get_next_units(unit_graph, lesson_id, item.value)"))
b("rw-positive-only-results", ("results.into_values().collect()", "results.into_values().filter(|r| r.value > 0.0).collect()"))

k("rw-entry", ("while let Some(item) = stack.pop() {", "while !stack.is_empty() {\n            let Some(item) = stack.pop() else { break };"))
k("rw-known-helper", ('''            if let Some(existing_reward) = results.get(&item.unit_id)
                && existing_reward.value.abs() >= item.value.abs()
            {
                continue;
            }
''', '''            let stronger = results
                .get(&item.unit_id)
                .is_some_and(|known| known.value.abs() >= item.value.abs());
            if stronger {
                continue;
            }
'''))
k("rw-match", ('''            if let Some(existing_reward) = results.get(&item.unit_id)
                && existing_reward.value.abs() >= item.value.abs()
            {
                continue;
            }
            results.insert(item.unit_id, item.clone());
''', '''            match results.get(&item.unit_id) {
                Some(known) if item.value.abs() <= known.value.abs() => continue,
                _ => {
                    results.insert(item.unit_id, item.clone());
                }
            }
'''))
k("rw-loops", ('''        next_lessons
            .iter()
            .chain(next_courses.iter())
            .for_each(|(id, edge_weight)| {
                let value = edge_weight * initial_reward;
                let weight = *edge_weight;
                if Self::stop_propagation(value, weight) {
                    return;
                }
                stack.push(UnitReward {
                    unit_id: *id,
                    value,
                    weight,
                    timestamp,
                });
            });
''', '''        for next in [next_lessons, next_courses] {
            for (unit_id, weight) in next {
                let value = initial_reward * weight;
                if !Self::stop_propagation(value, weight) {
                    stack.push(UnitReward {
                        unit_id,
                        value,
                        weight,
                        timestamp,
                    });
                }
            }
        }
'''))
k("rw-filter-map", ('''            for (next_unit_id, edge_weight) in
                &Self::get_next_units(unit_graph, item.unit_id, item.value)
            {
                let next_value = *edge_weight * REWARD_FACTOR * item.value;
                let next_weight = *edge_weight * WEIGHT_FACTOR * item.weight;
                if Self::stop_propagation(next_value, next_weight) {
                    continue;
                }
                stack.push(UnitReward {
                    unit_id: *next_unit_id,
                    value: next_value,
                    weight: next_weight,
                    timestamp,
                });
            }
''', '''            let next = Self::get_next_units(unit_graph, item.unit_id, item.value)
                .into_iter()
                .map(|(unit_id, edge_weight)| UnitReward {
                    unit_id,
                    value: edge_weight * REWARD_FACTOR * item.value,
                    weight: edge_weight * WEIGHT_FACTOR * item.weight,
                    timestamp,
                })
                .filter(|reward| !Self::stop_propagation(reward.value, reward.weight));
            stack.extend(next);
'''))
k("rw-roots-inline", ('''        let roots = Self::resolve_roots(&*unit_graph, exercise_id);
        let Some((lesson_id, course_id)) = roots else {
            return vec![]; // grcov-excl-line
        };
''', '''        let Some(lesson_id) = unit_graph.get_exercise_lesson(exercise_id) else {
            return vec![];
        };
        let Some(course_id) = unit_graph.get_lesson_course(lesson_id) else {
            return vec![];
        };
'''))
k("rw-stop-form", ("reward.abs() < MIN_ABS_REWARD || weight < MIN_WEIGHT", "!(reward.abs() >= MIN_ABS_REWARD && weight >= MIN_WEIGHT)"))
k("rw-next-match", ('''        if reward > 0.0 {
            unit_graph.get_encompasses(unit_id).unwrap_or_default()
        } else {
            unit_graph.get_encompassed_by(unit_id).unwrap_or_default()
        }
''', '''        let next = if reward <= 0.0 {
            unit_graph.get_encompassed_by(unit_id)
        } else {
            unit_graph.get_encompasses(unit_id)
        };
        next.unwrap_or_else(Vec::new)
'''))
k("rw-threshold", ("MIN_WEIGHT: f32 = 0.2", "MIN_WEIGHT: f32 = 0.25"))
k("rw-grade-values", ("MasteryScore::Three => -0.3", "MasteryScore::Three => -0.2"))
