"""C30: courses made by generators."""
T = "src/data/course_generator/transcription.rs"
L = "src/data/course_generator/literacy.rs"
M = "src/data/course_generator/music_piece.rs"
K = "src/data/course_generator/knowledge_base.rs"
CASES = [
    # transcription
    ("t-exid-drop-passage", "breaks", "C30", [(T, 'Some(passage_id) => Ustr::from(&format!("{lesson_id}::{asset_id}::{passage_id}")),', 'Some(passage_id) if passage_id > 0 => Ustr::from(&format!("{lesson_id}::{asset_id}::{passage_id}")),\n            Some(_) => Ustr::from(&format!("{lesson_id}::{asset_id}")),')]),
    ("t-inlined-lost", "breaks", "C30", [(T, "passages.extend(self.inlined_passages.clone());", "if passages.is_empty() {\n            passages.extend(self.inlined_passages.clone());\n        }")]),
    ("t-adv-lesson-wrong-course", "breaks", "C30", [(T, """            id: Self::advanced_singing_lesson_id(course_manifest.id),
            course_id: course_manifest.id,""", """            id: Self::advanced_singing_lesson_id(course_manifest.id),
            course_id: Self::singing_lesson_id(course_manifest.id),""")]),
    ("t-adv-superseded-dropped", "breaks", "C30", [(T, "superseded: vec![Self::singing_lesson_id(course_manifest.id)],", "superseded: vec![],")]),
    ("t-adv-dep-singing", "breaks", "C30", [(T, "                Self::advanced_singing_lesson_id(course_manifest.id),\n            ],", "                Self::singing_lesson_id(course_manifest.id),\n            ],")]),
    ("t-dep-other-course", "breaks", "C30", [(T, '.map(|id| format!("{id}::transcription::{}", instrument.id).into())', '.map(|id| format!("{id}::transcription::{}", instrument.name).into())')]),
    ("t-short-lesson-id-name", "breaks", "C30", [(T, 'format!("{}::transcription::{}", course_id, instrument.id).into()', 'format!("{}::transcription::{}", course_id, instrument.name).into()')]),
    ("t-skip-singing-adv", "breaks", "C30", [(T, """                vec![Self::generate_advanced_singing_lesson(
                    course_manifest,
                    passages,
                    skip_singing_lessons,
                )],""", """                vec![Self::generate_advanced_singing_lesson(
                    course_manifest,
                    passages,
                    false,
                )],""")]),
    ("t-metadata-replaced", "breaks", "C30", [(T, "let mut metadata = metadata.cloned().unwrap_or_default();", "let mut metadata: BTreeMap<String, Vec<String>> = BTreeMap::new();\n        let _ = metadata.len();")]),
    ("t-start-end-swapped-asset", "breaks", "C30", [(T, """                exercise_asset: passages.generate_exercise_asset(
                    TRANSCRIPTION_DESCRIPTION,
                    start,
                    end,""", """                exercise_asset: passages.generate_exercise_asset(
                    TRANSCRIPTION_DESCRIPTION,
                    start,
                    start,""")]),
    ("t-break-on-non-json", "breaks", "C30", [(T, "            // Ignore any non-JSON files.", "            if passages.len() >= 100 {\n                break;\n            }\n            // Ignore any non-JSON files.")]),
    ("t-take", "breaks", "C30", [(T, "            .iter()\n            .flat_map(|passages| {\n                Self::generate_transcription_exercises(", "            .iter()\n            .take(50)\n            .flat_map(|passages| {\n                Self::generate_transcription_exercises(")]),
    ("t-k-self-flags", "keeps", "*", [(T, """        let mut skip_singing_lessons = false;
        let mut skip_advanced_lessons = false;
        if let Some(CourseGenerator::Transcription(config)) = &course_manifest.generator_config {
            skip_singing_lessons = config.skip_singing_lessons;
            skip_advanced_lessons = config.skip_advanced_lessons;
        }
""", """        let (skip_singing_lessons, skip_advanced_lessons) = match &course_manifest.generator_config {
            Some(CourseGenerator::Transcription(config)) => {
                (config.skip_singing_lessons, config.skip_advanced_lessons)
            }
            _ => (false, false),
        };
""")]),
    ("t-k-push-lessons", "keeps", "*", [(T, """        if skip_advanced_lessons {
            vec![
                vec![self.generate_singing_lesson(course_manifest, passages, skip_singing_lessons)],
                self.generate_transcription_lessons(course_manifest, preferences, passages),
            ]
            .into_iter()
            .flatten()
            .collect()
        } else {
            vec![
                vec![self.generate_singing_lesson(course_manifest, passages, skip_singing_lessons)],
                vec![Self::generate_advanced_singing_lesson(
                    course_manifest,
                    passages,
                    skip_singing_lessons,
                )],
                self.generate_transcription_lessons(course_manifest, preferences, passages),
                Self::generate_advanced_transcription_lessons(
                    course_manifest,
                    preferences,
                    passages,
                ),
            ]
            .into_iter()
            .flatten()
            .collect()
        }""", """        let mut lessons =
            vec![self.generate_singing_lesson(course_manifest, passages, skip_singing_lessons)];
        if !skip_advanced_lessons {
            lessons.push(Self::generate_advanced_singing_lesson(
                course_manifest,
                passages,
                skip_singing_lessons,
            ));
        }
        lessons.extend(self.generate_transcription_lessons(course_manifest, preferences, passages));
        if !skip_advanced_lessons {
            lessons.extend(Self::generate_advanced_transcription_lessons(
                course_manifest,
                preferences,
                passages,
            ));
        }
        lessons""")]),
    ("t-k-id-string", "keeps", "*", [(T, """        match passage_id {
            Some(passage_id) => Ustr::from(&format!("{lesson_id}::{asset_id}::{passage_id}")),
            None => Ustr::from(&format!("{lesson_id}::{asset_id}")),
        }""", """        let base = format!("{lesson_id}::{asset_id}");
        if let Some(index) = passage_id {
            Ustr::from(&format!("{base}::{index}"))
        } else {
            base.into()
        }""")]),
    ("t-k-loop-passages", "keeps", "*", [(T, """        // Generate exercises for each passage.
        let exercises = passages
            .iter()
            .flat_map(|passages| {
                Self::generate_advanced_transcription_exercises(
                    course_manifest,
                    lesson_manifest.id,
                    passages,
                    instrument,
                )
            })
            .collect::<Vec<_>>();""", """        // Generate exercises for each passage.
        let mut exercises = Vec::new();
        for passage in passages {
            exercises.extend(Self::generate_advanced_transcription_exercises(
                course_manifest,
                lesson_manifest.id,
                passage,
                instrument,
            ));
        }""")]),
    ("t-k-seen-insert", "keeps", "*", [(T, """            if seen_ids.contains(short_id) {
                bail!("Duplicate passage ID: {short_id}");
            }
            seen_ids.insert(short_id.to_string());
            passages.push(passage);""", """            if !seen_ids.insert(short_id.to_string()) {
                bail!("Duplicate passage ID: {short_id}");
            }
            passages.push(passage);""")]),
    ("t-k-prefs", "keeps", "*", [(T, """        let default_preferences = TranscriptionPreferences::default();
        let preferences = match &preferences.transcription {
            Some(preferences) => preferences,
            None => &default_preferences,
        };""", """        let preferences = &preferences.transcription.clone().unwrap_or_default();""")]),
    ("t-k-deps-chain", "keeps", "*", [(T, """        let mut dependencies: Vec<Ustr> = self
            .transcription_dependencies
            .iter()
            .map(|id| format!("{id}::transcription::{}", instrument.id).into())
            .collect();
        dependencies.push(Self::singing_lesson_id(course_manifest.id));""", """        let dependencies: Vec<Ustr> = self
            .transcription_dependencies
            .iter()
            .map(|id| Self::transcription_lesson_id(*id, instrument))
            .chain(std::iter::once(Self::singing_lesson_id(course_manifest.id)))
            .collect();""")]),
    # literacy
    ("l-exercise-lesson", "breaks", "C30", [(L, """            id: format!("{lesson_id}::exercise").into(),
            lesson_id: lesson_manifest.id,
            course_id: course_manifest.id,
            name: lesson_name,
            description: self.description.clone(),
            exercise_type: ExerciseType::Procedural,
            exercise_asset: ExerciseAsset::LiteracyAsset {
                lesson_type: LiteracyLessonType::Dictation,""", """            id: format!("{lesson_id}::exercise").into(),
            lesson_id: reading_lesson_id,
            course_id: course_manifest.id,
            name: lesson_name,
            description: self.description.clone(),
            exercise_type: ExerciseType::Procedural,
            exercise_asset: ExerciseAsset::LiteracyAsset {
                lesson_type: LiteracyLessonType::Dictation,""")]),
    ("l-dictation-superseded-reading", "breaks", "C30", [(L, """            .superseded
            .iter()
            .map(|id| Self::full_dictation_lesson_id(course_manifest.id, *id, short_ids))""", """            .superseded
            .iter()
            .map(|id| Self::full_reading_lesson_id(course_manifest.id, *id, short_ids))""")]),
    ("l-dictation-no-reading-dep", "breaks", "C30", [(L, "        dependencies.push(reading_lesson_id);", "        if dependencies.is_empty() {\n            dependencies.push(reading_lesson_id);\n        }")]),
    ("l-dictation-all-deps", "breaks", "C30", [(L, "                if full_dependency == *id {\n                    None\n                } else {\n                    Some(full_dependency)\n                }", "                Some(full_dependency)")]),
    ("l-weights-one", "breaks", "C30", [(L, """                    Self::full_dictation_lesson_id(course_manifest.id, *id, short_ids),
                    *weight,""", """                    Self::full_dictation_lesson_id(course_manifest.id, *id, short_ids),
                    weight.min(1.0),""")]),
    ("l-reading-drops-outside", "breaks", "C30", [(L, """        let mut dependencies = self
            .dependencies
            .iter()
            .map(|id| Self::full_reading_lesson_id(course_manifest.id, *id, short_ids))""", """        let mut dependencies = self
            .dependencies
            .iter()
            .filter(|id| short_ids.contains(*id))
            .map(|id| Self::full_reading_lesson_id(course_manifest.id, *id, short_ids))""")]),
    ("l-exceptions-to-examples", "breaks", "C30", [(L, """                    lesson
                        .exceptions
                        .extend(exceptions.into_iter().map(|exception| (exception, None)));""", """                    lesson
                        .examples
                        .extend(exceptions.into_iter().map(|exception| (exception, None)));""")]),
    ("l-yaml-replaces", "breaks", "C30", [(L, """                LiteracyFile::SimpleExceptions => {
                    let path = lesson_root.join(SIMPLE_EXCEPTIONS_FILE);""", """                LiteracyFile::SimpleExceptions => {
                    let path = lesson_root.join(SIMPLE_EXAMPLES_FILE);""")]),
    ("l-suffix-order", "breaks", "C30", [(L, 'Ok(LiteracyFile::Exception(short_id.to_string()))', 'Ok(LiteracyFile::Example(short_id.to_string()))')]),
    ("l-dedup-examples", "breaks", "C30", [(L, "        lesson.examples.sort();", "        lesson.examples.sort();\n        lesson.examples.truncate(100);")]),
    ("l-description-name", "breaks", "C30", [(L, "let path = lesson_root.join(LESSON_DESCRIPTION_FILE);", "let path = lesson_root.join(LESSON_NAME_FILE);")]),
    ("l-k-dictation-if", "keeps", "*", [(L, """        if generate_dictation {
            vec![
                self.generate_reading_lesson(course_manifest, short_id, short_ids),
                self.generate_dictation_lesson(course_manifest, short_id, short_ids),
            ]
        } else {
            vec![self.generate_reading_lesson(course_manifest, short_id, short_ids)]
        }""", """        let mut lessons =
            vec![self.generate_reading_lesson(course_manifest, short_id, short_ids)];
        if generate_dictation {
            lessons.push(self.generate_dictation_lesson(course_manifest, short_id, short_ids));
        }
        lessons""")]),
    ("l-k-filter-inside", "keeps", "*", [(L, """            .filter_map(|id| {
                let full_dependency =
                    Self::full_dictation_lesson_id(course_manifest.id, *id, short_ids);
                if full_dependency == *id {
                    None
                } else {
                    Some(full_dependency)
                }
            })""", """            .filter(|id| short_ids.contains(*id))
            .map(|id| Self::full_dictation_lesson_id(course_manifest.id, *id, short_ids))""")]),
    ("l-k-full-id", "keeps", "*", [(L, """        if short_ids.contains(&lesson_id) {
            let full_id = format!("{course_id}::{lesson_id}::reading");
            full_id.into()
        } else {
            lesson_id
        }""", """        if !short_ids.contains(&lesson_id) {
            return lesson_id;
        }
        Ustr::from(&format!("{course_id}::{lesson_id}::reading"))""")]),
    ("l-k-lesson-loop", "keeps", "*", [(L, """        let lessons: Vec<(LessonManifest, Vec<ExerciseManifest>)> = lessons
            .into_iter()
            .flat_map(|(short_id, lesson)| {
                lesson.generate_manifests(course_manifest, short_id, &short_ids)
            })
            .collect();""", """        let mut manifests: Vec<(LessonManifest, Vec<ExerciseManifest>)> = Vec::new();
        for (short_id, lesson) in &lessons {
            manifests.extend(lesson.generate_manifests(course_manifest, *short_id, &short_ids));
        }
        let lessons = manifests;""")]),
    ("l-k-push-examples", "keeps", "*", [(L, """                    lesson
                        .examples
                        .extend(examples.into_iter().map(|example| (example, None)));""", """                    for example in examples {
                        lesson.examples.push((example, None));
                    }""")]),
    ("l-k-cond-loop", "keeps", "*", [(L, """        let valid_entries = read_dir(course_root)?
            .flatten()
            .filter(|entry| {
                let path = entry.path();
                path.is_dir()
            })
            .collect::<Vec<_>>();
        for entry in valid_entries {""", """        for entry in read_dir(course_root)?.flatten() {
            if !entry.path().is_dir() {
                continue;
            }""")]),
    # music
    ("m-path-prefix", "breaks", "C30", [(M, "dependency_ids.push(Self::generate_lesson_id(course_manifest, &dependency_path));", "dependency_ids.push(Self::generate_lesson_id(course_manifest, passage_path));")]),
    ("m-recursion-path", "breaks", "C30", [(M, """            lessons.append(&mut sub_passage.generate_lesson_helper(
                course_manifest,
                &dependency_path,""", """            lessons.append(&mut sub_passage.generate_lesson_helper(
                course_manifest,
                passage_path,""")]),
    ("m-no-recursion", "breaks", "C30", [(M, "self.generate_lesson_helper(course_manifest, &[0], music_asset)", "self.generate_lesson_helper(course_manifest, &[1], music_asset)")]),
    ("m-start-start", "breaks", "C30", [(M, "music_asset.generate_exercise_asset(&self.start, &self.end)", "music_asset.generate_exercise_asset(&self.start, &self.start)")]),
    ("m-exercise-lesson", "breaks", "C30", [(M, "            lesson_id: lesson_manifest.id,\n", "            lesson_id: course_manifest.id,\n")]),
    ("m-k-extend", "keeps", "*", [(M, """            lessons.append(&mut sub_passage.generate_lesson_helper(
                course_manifest,
                &dependency_path,
                music_asset,
            ));""", """            lessons.extend(sub_passage.generate_lesson_helper(
                course_manifest,
                &dependency_path,
                music_asset,
            ));""")]),
    ("m-k-tostring", "keeps", "*", [(M, '.map(|index| format!("{index}"))', ".map(ToString::to_string)")]),
    ("m-k-path", "keeps", "*", [(M, """        let mut new_path = passage_path.to_vec();
        new_path.push(index);
        new_path""", """        passage_path.iter().copied().chain(std::iter::once(index)).collect()""")]),
    ("m-k-concat", "keeps", "*", [(M, """        let mut new_path = passage_path.to_vec();
        new_path.push(index);
        new_path""", """        [passage_path, &[index]].concat()""")]),
    # knowledge base
    ("k-exercise-id", "breaks", "C30", [(K, """                "{}::{}::{}",
                self.course_id, self.short_lesson_id, self.short_id""", """                "{}::{}::{}",
                self.course_id, self.short_id, self.short_lesson_id""")]),
    ("k-needs-back", "breaks", "C30", [(K, """                .any(|file| matches!(file, KnowledgeBaseFile::ExerciseFront(_)));""", """                .any(|file| matches!(file, KnowledgeBaseFile::ExerciseFront(_)))
                && (files.len() < 2 || files.iter().any(|file| matches!(file, KnowledgeBaseFile::ExerciseBack(_))));""")]),
    ("k-superseded-unresolved", "breaks", "C30", [(K, "            lesson.0.superseded = updated_superseded;", "            let _: &Vec<Ustr> = &updated_superseded;")]),
    ("k-encompassed-weight", "breaks", "C30", [(K, """                            format!("{}::{}", course_manifest.id, unit_id).into(),
                            *weight,""", """                            format!("{}::{}", course_manifest.id, unit_id).into(),
                            1.0_f32.min(*weight),""")]),
    ("k-encompassed-short", "breaks", "C30", [(K, """                        (
                            format!("{}::{}", course_manifest.id, unit_id).into(),""", """                        (
                            format!("{}::{}", course_manifest.name, unit_id).into(),""")]),
    ("k-deps-filter", "breaks", "C30", [(K, """                .dependencies
                .iter()
                .map(|unit_id| {""", """                .dependencies
                .iter()
                .filter(|unit_id| short_ids.contains(*unit_id))
                .map(|unit_id| {""")]),
    ("k-deps-from-superseded", "breaks", "C30", [(K, "                    let path = lesson_root.join(LESSON_SUPERSEDED_FILE);\n                    lesson.superseded", "                    let path = lesson_root.join(LESSON_SUPERSEDED_FILE);\n                    lesson.dependencies")]),
    ("k-material-instructions", "breaks", "C30", [(K, "KnowledgeBaseFile::LessonMaterial => lesson.has_material = true,", "KnowledgeBaseFile::LessonMaterial => lesson.has_instructions = true,")]),
    ("k-inlined-swapped", "breaks", "C30", [(K, "        let exercise_asset = if inlined {", "        let exercise_asset = if inlined && self.back_file.is_some() {")]),
    ("k-name-unset", "breaks", "C30", [(K, "            description: self.description.clone(),\n            exercise_type: self", "            description: self.name.clone(),\n            exercise_type: self")]),
    ("k-lesson-id", "breaks", "C30", [(K, 'lesson_id: format!("{}::{}", self.course_id, self.short_lesson_id).into(),', 'lesson_id: format!("{}::{}.lesson", self.course_id, self.short_lesson_id).into(),')]),
    ("k-skip-empty-lessons", "breaks", "C30", [(K, "            .map(|(_, (lesson, exercises))| {", "            .filter(|(_, (_, exercises))| !exercises.is_empty())\n            .map(|(_, (lesson, exercises))| {")]),
    ("k-type-front", "breaks", "C30", [(K, "let short_id = file_name.strip_suffix(EXERCISE_TYPE_SUFFIX).unwrap();\n                Ok(KnowledgeBaseFile::ExerciseType(short_id.to_string()))", "let short_id = file_name.strip_suffix(EXERCISE_TYPE_SUFFIX).unwrap();\n                Ok(KnowledgeBaseFile::ExerciseDescription(short_id.to_string()))")]),
    ("k-k-helper", "keeps", "*", [(K, """                .map(|unit_id| {
                    if short_ids.contains(unit_id) {
                        format!("{}::{}", course_manifest.id, unit_id).into()
                    } else {
                        *unit_id
                    }
                })
                .collect();
            lesson.0.dependencies = updated_dependencies;""", """                .map(|unit_id| Self::full_id(course_manifest, short_ids, *unit_id))
                .collect();
            lesson.0.dependencies = updated_dependencies;"""), (K, """impl KnowledgeBaseConfig {
""", """impl KnowledgeBaseConfig {
    /// Returns the full ID.
    fn full_id(course_manifest: &CourseManifest, short_ids: &HashSet<Ustr>, unit_id: Ustr) -> Ustr {
        if short_ids.contains(&unit_id) {
            format!("{}::{}", course_manifest.id, unit_id).into()
        } else {
            unit_id
        }
    }

""")]),
    ("k-k-iter-mut", "keeps", "*", [(K, """            let updated_superseded = lesson
                .0
                .superseded
                .iter()
                .map(|unit_id| {
                    if short_ids.contains(unit_id) {
                        format!("{}::{}", course_manifest.id, unit_id).into()
                    } else {
                        *unit_id
                    }
                })
                .collect();
            lesson.0.superseded = updated_superseded;""", """            for unit_id in &mut lesson.0.superseded {
                if short_ids.contains(unit_id) {
                    *unit_id = format!("{}::{}", course_manifest.id, unit_id).into();
                }
            }""")]),
    ("k-k-loops", "keeps", "*", [(K, """        let manifests: Vec<(LessonManifest, Vec<ExerciseManifest>)> = lessons
            .into_iter()
            .map(|(_, (lesson, exercises))| {
                let lesson_manifest = LessonManifest::from(lesson.clone());
                let exercise_manifests = exercises
                    .into_iter()
                    .map(|e| {
                        e.to_exercise_manifest(lesson.default_exercise_type.clone(), self.inlined)
                    })
                    .collect::<Result<Vec<_>>>()?;
                Ok((lesson_manifest, exercise_manifests))
            })
            .collect::<Result<Vec<_>>>()?;""", """        let mut manifests: Vec<(LessonManifest, Vec<ExerciseManifest>)> = Vec::new();
        for (_, (lesson, exercises)) in lessons {
            let default_type = lesson.default_exercise_type.clone();
            let mut exercise_manifests = Vec::with_capacity(exercises.len());
            for exercise in exercises {
                exercise_manifests
                    .push(exercise.to_exercise_manifest(default_type.clone(), self.inlined)?);
            }
            manifests.push((LessonManifest::from(lesson), exercise_manifests));
        }""")]),
    ("k-k-retain", "keeps", "*", [(K, """        let mut to_remove = Vec::new();
        for (short_id, files) in &*exercise_files {
            let has_front = files
                .iter()
                .any(|file| matches!(file, KnowledgeBaseFile::ExerciseFront(_)));
            if !has_front {
                to_remove.push(short_id.clone());
            }
        }
        for short_id in to_remove {
            exercise_files.remove(&short_id);
        }""", """        exercise_files.retain(|_, files| {
            files
                .iter()
                .any(|file| matches!(file, KnowledgeBaseFile::ExerciseFront(_)))
        });""")]),
    ("k-k-strip", "keeps", "*", [(K, """            file_name if file_name.ends_with(EXERCISE_FRONT_SUFFIX) => {
                let short_id = file_name.strip_suffix(EXERCISE_FRONT_SUFFIX).unwrap();
                Ok(KnowledgeBaseFile::ExerciseFront(short_id.to_string()))
            }
            file_name""", """            file_name
                if let Some(short_id) = file_name.strip_suffix(EXERCISE_FRONT_SUFFIX) =>
            {
                Ok(KnowledgeBaseFile::ExerciseFront(short_id.to_string()))
            }
            file_name""")]),
    ("k-k-default-type", "keeps", "*", [(K, """            exercise_type: self
                .exercise_type
                .clone()
                .unwrap_or(default_exercise_type.unwrap_or(ExerciseType::Procedural)),""", """            exercise_type: self
                .exercise_type
                .clone()
                .or(default_exercise_type)
                .unwrap_or(ExerciseType::Procedural),""")]),
]
