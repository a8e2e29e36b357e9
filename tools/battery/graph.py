G = "src/graph.rs"
CASES = [
 ("add-lesson-no-unique-check", "breaks", "C17", [(G, '''        ensure!(
            !self.type_map.contains_key(&lesson_id),
            "lesson with ID {lesson_id} already exists",
        );
''', "")]),
 ("add-exercise-unique-by-other-map", "breaks", "C17", [(G, "!self.type_map.contains_key(&exercise_id)", "!self.exercise_lesson_map.contains_key(&exercise_id)")]),
 ("type-overwrite", "breaks", "C17", [(G, '''                if unit_type == *existing_type {
                    Ok(())''', '''                if unit_type == *existing_type || *existing_type == UnitType::Exercise {
                    self.type_map.insert(unit_id, unit_type);
                    Ok(())''')]),
 ("parent-type-ignored", "breaks", "C17", [(G, "self.update_unit_type(lesson_id, UnitType::Lesson)?;\n\n        // Update the map of exercise", "let _ = self.update_unit_type(lesson_id, UnitType::Lesson);\n\n        // Update the map of exercise")]),
 ("map-before-check", "breaks", "C17", [(G, '''        // Verify the lesson doesn't already exist.
''', '''        self.lesson_course_map.insert(lesson_id, course_id);
''')]),
 ("unique-entry-api", "keeps", "C16,C17", [(G, '''        match self.type_map.get(&unit_id) {
            None => {
                self.type_map.insert(unit_id, unit_type);
                Ok(())
            }
            Some(existing_type) => {''', '''        let existing = self.type_map.get(&unit_id);
        if existing.is_none() {
            self.type_map.insert(unit_id, unit_type);
            return Ok(());
        }
        match existing {
            None => Ok(()),
            Some(existing_type) => {''')]),
 ("unique-if-bail", "keeps", "C16,C17", [(G, '''        ensure!(
            !self.type_map.contains_key(&lesson_id),
            "lesson with ID {lesson_id} already exists",
        );
''', '''        if self.type_map.contains_key(&lesson_id) {
            bail!("lesson with ID {lesson_id} already exists");
        }
''')]),
 ("unique-helper", "keeps", "C16,C17", [(G, '''        ensure!(
            !self.type_map.contains_key(&lesson_id),
            "lesson with ID {lesson_id} already exists",
        );
''', '''        self.verify_new(lesson_id)?;
'''), (G, '''    /// Helper function to add a course to the graph.
''', '''    fn verify_new(&self, id: Ustr) -> Result<()> {
        ensure!(!self.type_map.contains_key(&id), "unit with ID {id} already exists");
        Ok(())
    }

    /// Helper function to add a course to the graph.
''')]),
 ("type-neq", "keeps", "C17", [(G, '''                if unit_type == *existing_type {
                    Ok(())
                } else {
                    Err(anyhow!(
                        "cannot update unit type of unit {unit_id} from type {existing_type:#?}) \\
                        to {unit_type:#?}.",
                    ))
                }''', '''                ensure!(unit_type == *existing_type,
                        "cannot update unit type of unit {unit_id} from type {existing_type:#?}) \\
                        to {unit_type:#?}.",
                    );
                Ok(())''')]),
 ("order-swap", "keeps", "C16,C17", [(G, '''        self.lesson_course_map.insert(lesson_id, course_id);
        Arc::make_mut(self.course_lesson_map.entry(course_id).or_default()).insert(lesson_id);
''', '''        Arc::make_mut(self.course_lesson_map.entry(course_id).or_default()).insert(lesson_id);
        self.lesson_course_map.insert(lesson_id, course_id);
''')]),

 ("weights-unchecked-upper", "breaks", "C18", [(G, "(0.0..=1.0).contains(weight)", "*weight >= 0.0")]),
 ("weights-nan", "breaks", "C18", [(G, ".all(|(_, weight)| (0.0..=1.0).contains(weight))", ".all(|(_, weight)| !(*weight < 0.0 || *weight > 1.0))")]),
 ("weights-any", "breaks", "C18", [(G, ".all(|(_, weight)| (0.0..=1.0).contains(weight))", ".any(|(_, weight)| (0.0..=1.0).contains(weight))")]),
 ("weights-default-2", "breaks", "C16,C18", [(G, "full_encompassed.push((*dependency, 1.0));", "full_encompassed.push((*dependency, 2.0));")]),
 ("weights-clamp-reverse", "breaks", "C16,C18", [(G, ".push((unit_id, weight));", ".push((unit_id, weight * 0.5));")]),
 ("weights-loop", "keeps", "C16,C18", [(G, '''        ensure!(
            encompassed
                .iter()
                .all(|(_, weight)| (0.0..=1.0).contains(weight)),
            "encompassed units of unit {unit_id} must have weights within the range [0.0, 1.0]",
        );
''', '''        for (_, weight) in encompassed {
            ensure!((0.0..=1.0).contains(weight), "encompassed units of unit {unit_id} must have weights within the range [0.0, 1.0]");
        }
''')]),
 ("weights-any-not", "keeps", "C16,C18", [(G, '''            encompassed
                .iter()
                .all(|(_, weight)| (0.0..=1.0).contains(weight)),
''', '''            !encompassed
                .iter()
                .any(|(_, weight)| !(0.0..=1.0).contains(weight)),
''')]),
 ("weights-cmp", "keeps", "C16,C18", [(G, ".all(|(_, weight)| (0.0..=1.0).contains(weight))", ".all(|(_, weight)| *weight >= 0.0 && *weight <= 1.0)")]),
 ("weights-const", "keeps", "C16,C18", [(G, "(0.0..=1.0).contains(weight)", "(MIN_WEIGHT..=MAX_WEIGHT).contains(weight)"), (G, "/// An implementation of [`UnitGraph`]", "const MIN_WEIGHT: f32 = 0.0;\nconst MAX_WEIGHT: f32 = 1.0;\n\n/// An implementation of [`UnitGraph`]")]),
 ("weights-helper", "keeps", "C16,C18", [(G, ".all(|(_, weight)| (0.0..=1.0).contains(weight))", ".all(|(_, weight)| Self::valid_weight(*weight))"), (G, "    /// Helper function to add a course to the graph.\n", "    fn valid_weight(w: f32) -> bool {\n        (0.0..=1.0).contains(&w)\n    }\n\n    /// Helper function to add a course to the graph.\n")]),
 ("starting-any", "breaks", "C37", [(G, "let has_starting_dependencies = starting_lessons.iter().all(|lesson_id| {", "let has_starting_dependencies = starting_lessons.iter().any(|lesson_id| {")]),
 ("starting-only-without-deps", "breaks", "C37", [(G, "Some(dependencies) => lessons.is_disjoint(&dependencies),", "Some(dependencies) => dependencies.is_empty(),")]),
 ("starting-blank-course", "breaks", "C37", [(G, "None => true,\n                        Some(dep", "None => lessons.len() > 1,\n                        Some(dep")]),
 ("starting-missing-exists", "breaks", "C37", [(G, ".all(|dep| self.get_unit_type(*dep).is_some())", ".all(|dep| !dep.is_empty())")]),
 ("sinks-no-recursion", "breaks", "C37", [(G, "            self.update_dependency_sinks(*dependency_id, &[]);", "            if self.type_map.contains_key(dependency_id) { self.update_dependency_sinks(*dependency_id, &[]); }")]),
 ("sinks-removed-by-type", "breaks", "C37", [(G, "if self.get_lesson_course(unit_id).is_some() {", "if self.get_unit_type(unit_id) != Some(UnitType::Course) {")]),
 ("starting-loop", "keeps", "C37", [(G, '''            let starting_lessons: UstrSet = lessons
                .iter()
                .copied()
                .filter(|lesson_id| {
                    // The lesson is a starting lesson if the set of lessons in the course and the
                    // dependencies of this lesson are disjoint.
                    let dependencies = self.get_dependencies(*lesson_id);
                    match dependencies {
                        None => true,
                        Some(dependencies) => lessons.is_disjoint(&dependencies),
                    }
                })
                .collect();
''', '''            let mut starting_lessons = UstrSet::default();
            for lesson_id in lessons.iter() {
                let is_starting = match self.get_dependencies(*lesson_id) {
                    Some(deps) => deps.is_disjoint(lessons),
                    None => true,
                };
                if is_starting {
                    starting_lessons.insert(*lesson_id);
                }
            }
''')]),
 ("starting-is-none-or", "keeps", "C37", [(G, '''                    let dependencies = self.get_dependencies(*lesson_id);
                    match dependencies {
                        None => true,
                        Some(dependencies) => lessons.is_disjoint(&dependencies),
                    }
''', '''                    self.get_dependencies(*lesson_id)
                        .is_none_or(|deps| lessons.is_disjoint(&deps))
''')]),
 ("starting-iter-pairs", "keeps", "C37", [(G, '''        for course_id in self.course_lesson_map.keys() {
            let lessons = self.course_lesson_map.get(course_id).unwrap_or(&empty);
''', '''        let _ = &empty;
        for (course_id, lessons) in &self.course_lesson_map {
''')]),
 ("starting-helper", "keeps", "C37", [(G, '''                    let dependencies = self.get_dependencies(*lesson_id);
                    match dependencies {
                        None => true,
                        Some(dependencies) => lessons.is_disjoint(&dependencies),
                    }
''', '''                    self.is_starting(*lesson_id, lessons)
'''), (G, "    /// Helper function to add a course to the graph.\n", '''    fn is_starting(&self, id: Ustr, lessons: &UstrSet) -> bool {
        match self.get_dependencies(id) {
            None => true,
            Some(dependencies) => lessons.is_disjoint(&dependencies),
        }
    }

    /// Helper function to add a course to the graph.
''')]),
 ("sinks-early", "keeps", "C37,C16", [(G, "if current_dependencies.is_empty() && dependencies.is_empty() {", "let no_deps = current_dependencies.is_empty() && dependencies.is_empty();\n        if no_deps {")]),
]
CASES += [
 ("cycles-visited-neighbours", "breaks", "C36", [(G, "                        check_reverse(current_id, neighbor_id)?;", "                        if visited.contains(&neighbor_id) { continue; }\n                        check_reverse(current_id, neighbor_id)?;")]),
 ("cycles-first-only", "breaks", "C36", [(G, "if path.contains(&neighbor_id) {", "if path.first() == Some(&neighbor_id) {")]),
 ("cycles-window", "breaks", "C36", [(G, "if path.contains(&neighbor_id) {", "if path[path.len().saturating_sub(8)..].contains(&neighbor_id) {")]),
 ("cycles-depth-limit", "breaks", "C36", [(G, "                        let mut new_path = path.clone();", "                        if path.len() > 64 { continue; }\n                        let mut new_path = path.clone();")]),
 ("cycles-skip-superseded", "breaks", "C36", [(G, "let sup_keys: Vec<Ustr> = self.supersedes_graph.keys().copied().collect();", "let sup_keys: Vec<Ustr> = self.supersedes_graph.keys().copied().filter(|k| self.superseded_by.contains_key(k)).collect();")]),
 ("cycles-enc-keys-of-dep", "breaks", "C36", [(G, "let enc_keys: Vec<Ustr> = self.encompasses_graph.keys().copied().collect();", "let enc_keys: Vec<Ustr> = self.dependency_graph.keys().copied().take(1).collect();")]),
 ("cycles-enc-weight", "breaks", "C36", [(G, ".map(|v| v.iter().map(|(id, _)| *id).collect())", ".map(|v| v.iter().filter(|(_, w)| *w > 0.0).map(|(id, _)| *id).collect())")]),
 ("cycles-swallow", "breaks", "C36", [(G, '            "cycle in superseded graph detected",\n        )?;', '            "cycle in superseded graph detected",\n        ).ok();')]),
 ("cycles-only-if-no-enc", "breaks", "C36", [(G, "        // Check the encompasses and encompassed_by graphs for cycles and consistency.\n", "        if self.encompasing_equals_dependency() || self.encompassed_by.len() < 2 { return Ok(()); }\n")]),
 ("cycles-bfs", "breaks", "C36", [(G, "let mut stack: Vec<Vec<Ustr>> = vec![vec![*unit_id]];\n            while let Some(path) = stack.pop() {", "let mut stack: std::collections::VecDeque<Vec<Ustr>> = vec![vec![*unit_id]].into();\n            while let Some(path) = stack.pop_front() {"), (G, "stack.push(new_path);", "stack.push_back(new_path);")]),
 ("cycles-warn", "breaks", "C36", [(G, 'bail!("{cycle_msg}: {path_str}");', 'eprintln!("{cycle_msg}: {path_str}"); continue;')]),
 ("cycles-keys-direct", "keeps", "C36", [(G, '''        let sup_keys: Vec<Ustr> = self.supersedes_graph.keys().copied().collect();
''', '''        let mut sup_keys: Vec<Ustr> = Vec::new();
        for key in self.supersedes_graph.keys() {
            sup_keys.push(*key);
        }
''')]),
 ("cycles-order", "keeps", "C36", [(G, '''        let dep_keys: Vec<Ustr> = self.dependency_graph.keys().copied().collect();
''', '''        let enc_keys: Vec<Ustr> = self.encompasses_graph.keys().copied().collect();
        let dep_keys: Vec<Ustr> = self.dependency_graph.keys().copied().collect();
'''), (G, '''        // Check the encompasses and encompassed_by graphs for cycles and consistency.
        let enc_keys: Vec<Ustr> = self.encompasses_graph.keys().copied().collect();
''', "")]),
 ("cycles-format-helper", "keeps", "C36", [(G, '''                            let mut cycle_path = path.clone();
                            cycle_path.push(neighbor_id);
                            let path_str = cycle_path.iter().fold(String::new(), |mut s, id| {
                                if !s.is_empty() {
                                    s.push_str(" -> ");
                                }
                                let _ = write!(s, "{id}");
                                s
                            });
                            bail!("{cycle_msg}: {path_str}");
''', '''                            bail!("{cycle_msg}: {}", Self::format_cycle(&path, neighbor_id));
'''), (G, "    /// Helper function to add a course to the graph.\n", '''    fn format_cycle(path: &[Ustr], last: Ustr) -> String {
        let mut s = String::new();
        for id in path {
            let _ = write!(s, "{id} -> ");
        }
        let _ = write!(s, "{last}");
        s
    }

    /// Helper function to add a course to the graph.
''')]),
 ("cycles-insert-bool", "keeps", "C36", [(G, '''                if visited.contains(&current_id) {
                    continue;
                }
                visited.insert(current_id);
''', '''                if !visited.insert(current_id) {
                    continue;
                }
''')]),
 ("cycles-no-outer-skip", "keeps", "C36", [(G, '''            if visited.contains(unit_id) {
                continue;
            }

            // Initialize''', "            // Initialize")]),
 ("cycles-let-else", "keeps", "C36", [(G, '''                if let Some(neighbors) = get_neighbors(current_id) {
                    for neighbor_id in neighbors {''', '''                {
                    let Some(neighbors) = get_neighbors(current_id) else {
                        continue;
                    };
                    for neighbor_id in neighbors {''')]),
 ("cycles-unwrap-default", "keeps", "C36", [(G, '''                if let Some(neighbors) = get_neighbors(current_id) {
                    for neighbor_id in neighbors {''', '''                {
                    for neighbor_id in get_neighbors(current_id).unwrap_or_default() {''')]),
]
