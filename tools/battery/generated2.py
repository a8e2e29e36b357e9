"""Edits of the course generators that keep what they make."""
G = "src/data/course_generator/"
K, L, T, M = G + "knowledge_base.rs", G + "literacy.rs", G + "transcription.rs", G + "music_piece.rs"
CASES = [
    ("k2-front-loop", "keeps", "*", [(K, """            let has_front = files
                .iter()
                .any(|file| matches!(file, KnowledgeBaseFile::ExerciseFront(_)));
            if !has_front {""", """            let mut has_front = false;
            for file in files {
                if let KnowledgeBaseFile::ExerciseFront(_) = file {
                    has_front = true;
                    break;
                }
            }
            if !has_front {""")]),
    ("k2-no-front-all", "keeps", "*", [(K, """            let has_front = files
                .iter()
                .any(|file| matches!(file, KnowledgeBaseFile::ExerciseFront(_)));
            if !has_front {""", """            if files
                .iter()
                .all(|file| !matches!(file, KnowledgeBaseFile::ExerciseFront(_))) {""")]),
    ("k2-to-remove-iter", "keeps", "*", [(K, """        let mut to_remove = Vec::new();
        for (short_id, files) in &*exercise_files {
            let has_front = files
                .iter()
                .any(|file| matches!(file, KnowledgeBaseFile::ExerciseFront(_)));
            if !has_front {
                to_remove.push(short_id.clone());
            }
        }
        for""", """        let to_remove: Vec<String> = exercise_files
            .iter()
            .filter(|(_, files)| {
                !files
                    .iter()
                    .any(|file| matches!(file, KnowledgeBaseFile::ExerciseFront(_)))
            })
            .map(|(short_id, _)| short_id.clone())
            .collect();
        for""")]),
    ("k2-has-back-matches", "keeps", "*", [(K, """        let has_back_file = files.iter().any(|file| match file {
            KnowledgeBaseFile::ExerciseBack(id) => id == short_id,
            _ => false,
        });""", """        let has_back_file = files
            .iter()
            .any(|file| matches!(file, KnowledgeBaseFile::ExerciseBack(id) if id == short_id));""")]),
    ("k2-back-then", "keeps", "*", [(K, """        let back_file = if has_back_file {
            Some(
                lesson_root
                    .join(format!("{short_id}{EXERCISE_BACK_SUFFIX}"))
                    .to_str()
                    .unwrap_or_default()
                    .to_string(),
            )
        } else {
            None
        };""", """        let back_file = has_back_file.then(|| {
            lesson_root
                .join(format!("{short_id}{EXERCISE_BACK_SUFFIX}"))
                .to_str()
                .unwrap_or_default()
                .to_string()
        });""")]),
    ("k2-path-helper", "keeps", "*", [(K, """            front_file: lesson_root
                .join(format!("{short_id}{EXERCISE_FRONT_SUFFIX}"))
                .to_str()
                .unwrap_or_default()
                .to_string(),""", """            front_file: Self::file_path(lesson_root, short_id, EXERCISE_FRONT_SUFFIX),"""), (K, """    /// Generates the exercise from a list of knowledge base files.
    fn create_exercise(""", """    /// The path of one of the files of the exercise.
    fn file_path(lesson_root: &Path, short_id: &str, suffix: &str) -> String {
        lesson_root
            .join(format!("{short_id}{suffix}"))
            .to_str()
            .unwrap_or_default()
            .to_string()
    }

    /// Generates the exercise from a list of knowledge base files.
    fn create_exercise(""")]),
    ("k2-lesson-id-helper", "keeps", "*", [(K, """            lesson_id: format!("{}::{}", self.course_id, self.short_lesson_id).into(),
            course_id: self.course_id,
            name: self""", """            lesson_id: full_lesson_id(self.course_id, self.short_lesson_id),
            course_id: self.course_id,
            name: self"""), (K, """            id: format!("{}::{}", lesson.course_id, lesson.short_id).into(),""", """            id: full_lesson_id(lesson.course_id, lesson.short_id),"""), (K, """impl From<KnowledgeBaseLesson> for LessonManifest {""", """/// The full id of a lesson.
fn full_lesson_id(course_id: Ustr, short_id: Ustr) -> Ustr {
    Ustr::from(&format!("{course_id}::{short_id}"))
}

impl From<KnowledgeBaseLesson> for LessonManifest {""")]),
    ("k2-type-or-else", "keeps", "*", [(K, """                .unwrap_or(default_exercise_type.unwrap_or(ExerciseType::Procedural)),""", """                .or(default_exercise_type)
                .unwrap_or(ExerciseType::Procedural),""")]),
    ("k2-instructions-then", "keeps", "*", [(K, """            lesson_instructions: if lesson.has_instructions {
                Some(BasicAsset::MarkdownAsset {
                    path: LESSON_INSTRUCTIONS_FILE.into(),
                })
            } else {
                None
            },""", """            lesson_instructions: lesson.has_instructions.then(|| BasicAsset::MarkdownAsset {
                path: LESSON_INSTRUCTIONS_FILE.into(),
            }),""")]),
    ("k2-entries-loop", "keeps", "*", [(K, """        let valid_entries = read_dir(course_root)?
            .flatten()
            .filter(|entry| {
                let path = entry.path();
                path.is_dir()
            })
            .collect::<Vec<_>>();
        for entry in valid_entries {
            // Check if the directory name is in the format `<SHORT_LESSON_ID>.lesson`. If so, read
            // the knowledge base lesson and its exercises.
            let path = entry.path();""", """        for entry in read_dir(course_root)?.flatten() {
            // Check if the directory name is in the format `<SHORT_LESSON_ID>.lesson`. If so, read
            // the knowledge base lesson and its exercises.
            let path = entry.path();
            if !path.is_dir() {
                continue;
            }""")]),
    ("k2-let-else", "keeps", "*", [(K, """            if let Some(short_id) = dir_name.strip_suffix(LESSON_SUFFIX) {
                lessons.insert(
                    short_id.into(),
                    KnowledgeBaseLesson::open_lesson(&path, course_manifest, short_id.into())?,
                );
            }""", """            let Some(short_id) = dir_name.strip_suffix(LESSON_SUFFIX) else {
                continue;
            };
            let short_id = Ustr::from(short_id);
            let opened = KnowledgeBaseLesson::open_lesson(&path, course_manifest, short_id)?;
            lessons.insert(short_id, opened);""")]),
    ("k2-into-values", "keeps", "*", [(K, """            .into_iter()
            .map(|(_, (lesson, exercises))| {
                let lesson_manifest = LessonManifest::from(lesson.clone());
                let exercise_manifests = exercises
                    .into_iter()
                    .map(|e| {
                        e.to_exercise_manifest(lesson.default_exercise_type.clone(), self.inlined)
                    })
                    .collect::<Result<Vec<_>>>()?;
                Ok((lesson_manifest, exercise_manifests))
            })""", """            .into_values()
            .map(|(lesson, exercises)| {
                let exercise_manifests = exercises
                    .iter()
                    .map(|e| {
                        e.clone().to_exercise_manifest(lesson.default_exercise_type.clone(), self.inlined)
                    })
                    .collect::<Result<Vec<_>>>()?;
                Ok((LessonManifest::from(lesson), exercise_manifests))
            })""")]),
    ("k2-exercises-loop", "keeps", "*", [(K, """        let exercises = exercise_files
            .into_iter()
            .map(|(short_id, files)| {
                KnowledgeBaseExercise::create_exercise(
                    lesson_root,
                    &short_id,
                    short_lesson_id,
                    course_manifest,
                    &files,
                )
            })
            .collect::<Result<Vec<_>>>()?;""", """        let mut exercises = Vec::with_capacity(exercise_files.len());
        for (short_id, files) in &exercise_files {
            exercises.push(KnowledgeBaseExercise::create_exercise(
                lesson_root,
                short_id,
                short_lesson_id,
                course_manifest,
                files,
            )?);
        }""")]),
    ("k2-deps-inplace", "keeps", "*", [(K, """            let updated_superseded = lesson
                .0
                .superseded
                .iter()
                .map(|unit_id| {
                    if short_ids.contains(unit_id) {
                        format!("{}::{}", course_manifest.id, unit_id).into()
                    } else {
                        *unit_id
                    }
                })
                .collect();
            lesson.0.superseded = updated_superseded;""", """            for unit_id in &mut lesson.0.superseded {
                if short_ids.contains(unit_id) {
                    *unit_id = format!("{}::{}", course_manifest.id, unit_id).into();
                }
            }""")]),
    ("k2-destructure", "keeps", "*", [(K, """        for lesson in lessons.values_mut() {
            // Update dependencies.
            let updated_dependencies = lesson
                .0
                .dependencies""", """        for lesson in lessons.values_mut() {
            // Update dependencies.
            let (kb_lesson, _) = &*lesson;
            let updated_dependencies = kb_lesson
                .dependencies""")]),
    ("k2-read-helper", "keeps", "*", [(K, """                    let path = lesson_root.join(LESSON_NAME_FILE);
                    lesson.name = Some(KnowledgeBaseFile::open(&path)?);""", """                    lesson.name = KnowledgeBaseFile::open(&lesson_root.join(LESSON_NAME_FILE)).map(Some)?;""")]),
    ("k2-struct-init", "keeps", "*", [(K, """        let mut lesson = Self {
            short_id: short_lesson_id,
            course_id: course_manifest.id,
            dependencies: vec![],""", """        let course_id = course_manifest.id;
        let mut lesson = Self {
            short_id: short_lesson_id,
            course_id,
            dependencies: Vec::new(),""")]),
    ("k2-or-default", "keeps", "*", [(K, """                        .or_insert_with(Vec::new)
                        .push(kb_file);""", """                        .or_insert_with(|| Vec::with_capacity(2))
                        .push(kb_file);""")]),
    ("l2-full-id-shared", "keeps", "*", [(L, """        if short_ids.contains(&lesson_id) {
            let full_id = format!("{course_id}::{lesson_id}::reading");
            full_id.into()
        } else {
            lesson_id
        }""", """        Self::full_lesson_id(course_id, lesson_id, short_ids, "reading")"""), (L, """        if short_ids.contains(&lesson_id) {
            let full_id = format!("{course_id}::{lesson_id}::dictation");
            full_id.into()
        } else {
            lesson_id
        }
    }""", """        Self::full_lesson_id(course_id, lesson_id, short_ids, "dictation")
    }

    /// The full id of a lesson of the course.
    fn full_lesson_id(course_id: Ustr, lesson_id: Ustr, short_ids: &UstrSet, kind: &str) -> Ustr {
        if !short_ids.contains(&lesson_id) {
            return lesson_id;
        }
        Ustr::from(format!("{course_id}::{lesson_id}::{kind}").as_str())
    }""")]),
    ("l2-deps-filter-map", "keeps", "*", [(L, """            .filter_map(|id| {
                let full_dependency =
                    Self::full_dictation_lesson_id(course_manifest.id, *id, short_ids);
                if full_dependency == *id {
                    None
                } else {
                    Some(full_dependency)
                }
            })""", """            .map(|id| (*id, Self::full_dictation_lesson_id(course_manifest.id, *id, short_ids)))
            .filter(|(id, full_dependency)| full_dependency != id)
            .map(|(_, full_dependency)| full_dependency)""")]),
    ("l2-examples-loop", "keeps", "*", [(L, """                    lesson
                        .examples
                        .extend(examples.into_iter().map(|example| (example, None)));""", """                    for example in examples {
                        lesson.examples.push((example, None));
                    }""")]),
    ("l2-answers-remove", "keeps", "*", [(L, """                    let answer = example_answers.get(short_id).cloned();
                    lesson.examples.push((example, answer));""", """                    lesson.examples.push((example, example_answers.remove(short_id)));""")]),
    ("l2-superseded-loop", "keeps", "*", [(L, """        let mut superseded = self
            .superseded
            .iter()
            .map(|id| Self::full_reading_lesson_id(course_manifest.id, *id, short_ids))
            .collect::<Vec<_>>();
        superseded.sort();""", """        let mut superseded = Vec::with_capacity(self.superseded.len());
        for id in &self.superseded {
            superseded.push(Self::full_reading_lesson_id(course_manifest.id, *id, short_ids));
        }
        superseded.sort_unstable();""")]),
    ("l2-exercise-first", "keeps", "*", [(L, """            id: format!("{lesson_id}::exercise").into(),
            lesson_id: lesson_manifest.id,
            course_id: course_manifest.id,
            name: lesson_name,
            description: self.description.clone(),
            exercise_type: ExerciseType::Procedural,
            exercise_asset: ExerciseAsset::LiteracyAsset {
                lesson_type: LiteracyLessonType::Reading,""", """            id: Ustr::from(&format!("{}::exercise", lesson_manifest.id)),
            lesson_id,
            course_id: lesson_manifest.course_id,
            name: lesson_name,
            description: self.description.clone(),
            exercise_type: ExerciseType::Procedural,
            exercise_asset: ExerciseAsset::LiteracyAsset {
                lesson_type: LiteracyLessonType::Reading,""")]),
    ("l2-open-loop", "keeps", "*", [(L, """        let lesson_files = read_dir(lesson_root)?
            .flatten()
            .flat_map(|entry| {
                LiteracyFile::try_from(entry.file_name().to_str().unwrap_or_default())
            })
            .collect::<Vec<_>>();""", """        let mut lesson_files = Vec::new();
        for entry in read_dir(lesson_root)?.flatten() {
            let name = entry.file_name();
            if let Ok(file) = LiteracyFile::try_from(name.to_str().unwrap_or_default()) {
                lesson_files.push(file);
            }
        }""")]),
    ("t2-base-push", "keeps", "*", [(T, """        if skip_advanced_lessons {
            vec![
                vec![self.generate_singing_lesson(course_manifest, passages, skip_singing_lessons)],
                self.generate_transcription_lessons(course_manifest, preferences, passages),
            ]
            .into_iter()
            .flatten()
            .collect()
        } else {
            vec![
                vec![self.generate_singing_lesson(course_manifest, passages, skip_singing_lessons)],
                vec![Self::generate_advanced_singing_lesson(
                    course_manifest,
                    passages,
                    skip_singing_lessons,
                )],
                self.generate_transcription_lessons(course_manifest, preferences, passages),
                Self::generate_advanced_transcription_lessons(
                    course_manifest,
                    preferences,
                    passages,
                ),
            ]
            .into_iter()
            .flatten()
            .collect()
        }""", """        let mut lessons =
            vec![self.generate_singing_lesson(course_manifest, passages, skip_singing_lessons)];
        if !skip_advanced_lessons {
            lessons.push(Self::generate_advanced_singing_lesson(
                course_manifest,
                passages,
                skip_singing_lessons,
            ));
        }
        lessons.append(&mut self.generate_transcription_lessons(course_manifest, preferences, passages));
        if !skip_advanced_lessons {
            lessons.extend(Self::generate_advanced_transcription_lessons(
                course_manifest,
                preferences,
                passages,
            ));
        }
        lessons""")]),
    ("t2-flags-match", "keeps", "*", [(T, """        let mut skip_singing_lessons = false;
        let mut skip_advanced_lessons = false;
        if let Some(CourseGenerator::Transcription(config)) = &course_manifest.generator_config {
            skip_singing_lessons = config.skip_singing_lessons;
            skip_advanced_lessons = config.skip_advanced_lessons;
        }
""", """        let (skip_singing_lessons, skip_advanced_lessons) = match &course_manifest.generator_config {
            Some(CourseGenerator::Transcription(config)) => {
                (config.skip_singing_lessons, config.skip_advanced_lessons)
            }
            _ => (false, false),
        };
""")]),
    ("t2-skip-else", "keeps", "*", [(T, """        if skip_singing_lessons {
            return (lesson_manifest, Vec::new());
        }

        // Generate an exercise for each passage.
        let exercises = passages
            .iter()
            .flat_map(|passages| {
                Self::generate_singing_exercises(course_manifest, lesson_manifest.id, passages)
            })
            .collect::<Vec<_>>();
        (lesson_manifest, exercises)""", """        let exercises = if skip_singing_lessons {
            Vec::new()
        } else {
            passages
                .iter()
                .map(|passages| {
                    Self::generate_singing_exercises(course_manifest, lesson_manifest.id, passages)
                })
                .flatten()
                .collect()
        };
        (lesson_manifest, exercises)""")]),
    ("t2-exercise-helper", "keeps", "*", [(T, """            return vec![ExerciseManifest {
                id: Self::exercise_id(lesson_id, passages.asset.short_id(), None),
                lesson_id,
                course_id: course_manifest.id,
                name: format!("{} - Advanced Singing", course_manifest.name),
                description: None,
                exercise_type: ExerciseType::Procedural,
                exercise_asset: passages.generate_exercise_asset(
                    ADVANCED_SINGING_DESCRIPTION,
                    "Start of passage",
                    "End of passage",
                    None,
                ),
            }];
        }""", """            return vec![Self::advanced_singing_exercise(
                course_manifest, lesson_id, passages, None, "Start of passage", "End of passage",
            )];
        }"""), (T, """            .map(|(passage_id, (start, end))| ExerciseManifest {
                id: Self::exercise_id(lesson_id, passages.asset.short_id(), Some(*passage_id)),
                lesson_id,
                course_id: course_manifest.id,
                name: format!("{} - Advanced Singing", course_manifest.name),
                description: None,
                exercise_type: ExerciseType::Procedural,
                exercise_asset: passages.generate_exercise_asset(
                    ADVANCED_SINGING_DESCRIPTION,
                    start,
                    end,
                    None,
                ),
            })
            .collect()
    }""", """            .map(|(passage_id, (start, end))| {
                Self::advanced_singing_exercise(
                    course_manifest, lesson_id, passages, Some(*passage_id), start, end,
                )
            })
            .collect()
    }

    /// One exercise.
    fn advanced_singing_exercise(
        course_manifest: &CourseManifest,
        lesson_id: Ustr,
        passages: &TranscriptionPassages,
        passage_id: Option<usize>,
        start: &str,
        end: &str,
    ) -> ExerciseManifest {
        ExerciseManifest {
            id: Self::exercise_id(lesson_id, passages.asset.short_id(), passage_id),
            lesson_id,
            course_id: course_manifest.id,
            name: format!("{} - Advanced Singing", course_manifest.name),
            description: None,
            exercise_type: ExerciseType::Procedural,
            exercise_asset: passages.generate_exercise_asset(
                ADVANCED_SINGING_DESCRIPTION,
                start,
                end,
                None,
            ),
        }
    }""")]),
    ("t2-dir-nested", "keeps", "*", [(T, """            if !entry.file_type()?.is_file() {
                continue; // grcov-excl-line
            }
""", """            let file_type = entry.file_type()?;
            if file_type.is_dir() || !file_type.is_file() {
                continue; // grcov-excl-line
            }
""")]),
    ("t2-passages-chain", "keeps", "*", [(T, """        let mut passages = self.open_passage_directory(course_root)?;
        passages.extend(self.inlined_passages.clone());
""", """        let passages: Vec<_> = self
            .open_passage_directory(course_root)?
            .into_iter()
            .chain(self.inlined_passages.iter().cloned())
            .collect();
""")]),
    ("t2-id-push", "keeps", "*", [(T, """        Ustr::from(&format!("{course_id}::advanced_singing"))""", """        let mut id = course_id.to_string();
        id.push_str("::advanced_singing");
        id.into()""")]),
    ("m2-map-unzip", "keeps", "*", [(M, """        for (index, sub_passage) in &self.sub_passages {
            // Create the dependency path.
            let dependency_path = Self::new_path(passage_path, *index);

            // Generate the dependency ID and lessons.
            dependency_ids.push(Self::generate_lesson_id(course_manifest, &dependency_path));
            lessons.append(&mut sub_passage.generate_lesson_helper(
                course_manifest,
                &dependency_path,
                music_asset,
            ));
        }
""", """        self.sub_passages.iter().for_each(|(index, sub_passage)| {
            let dependency_path = Self::new_path(passage_path, *index);
            dependency_ids.push(Self::generate_lesson_id(course_manifest, &dependency_path));
            let sub_lessons =
                sub_passage.generate_lesson_helper(course_manifest, &dependency_path, music_asset);
            lessons.extend(sub_lessons);
        });
""")]),
    ("m2-id-var", "keeps", "*", [(M, """        // Create the lesson and exercise manifests for this passage and add them to the list.
        let lesson_manifest = LessonManifest {
            id: Self::generate_lesson_id(course_manifest, passage_path),""", """        // Create the lesson and exercise manifests for this passage and add them to the list.
        let lesson_id = Self::generate_lesson_id(course_manifest, passage_path);
        let lesson_manifest = LessonManifest {
            id: lesson_id,"""), (M, """            id: Ustr::from(&format!("{}::exercise", lesson_manifest.id)),
            lesson_id: lesson_manifest.id,""", """            id: format!("{lesson_id}::exercise").into(),
            lesson_id,""")]),
    ("m2-id-fold", "keeps", "*", [(M, """            .map(|index| format!("{index}"))
            .collect::<Vec<String>>()
            .join("::");
        Ustr::from(&format!("{}::{}", course_manifest.id, lesson_id))""", """            .map(ToString::to_string)
            .collect::<Vec<_>>()
            .join("::");
        format!("{}::{lesson_id}", course_manifest.id).into()""")]),
]
