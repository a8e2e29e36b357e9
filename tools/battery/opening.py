CASES = []
L = "src/course_library.rs"


def b(name, *edits, props="C04"):
    CASES.append((name, "breaks", props, [(L, o, n) for o, n in edits]))


def k(name, *edits):
    CASES.append((name, "keeps", "*", [(L, o, n) for o, n in edits]))


b("op-empty-exercise", ('        ensure!(!exercise_manifest.id.is_empty(), "ID in manifest is empty");\n', ""))
b("op-lesson-course", ("lesson_manifest.course_id == course_manifest.id,\n            \"course_id", "lesson_manifest.course_id == lesson_manifest.course_id,\n            \"course_id"))
b("op-exercise-lesson", ("exercise_manifest.lesson_id == lesson_manifest.id,", "exercise_manifest.lesson_id == lesson_manifest.id || exercise_manifest.course_id == lesson_manifest.course_id,"))
b("op-not-verified", ("            LocalCourseLibrary::verify_exercise_manifest(&lesson_manifest, &exercise_manifest)?;\n", ""))
b("op-verify-ignored", ("LocalCourseLibrary::verify_exercise_manifest(&lesson_manifest, &exercise_manifest)?;", "let _ = LocalCourseLibrary::verify_exercise_manifest(&lesson_manifest, &exercise_manifest);"))
b("op-skip-invalid", ("LocalCourseLibrary::verify_exercise_manifest(&lesson_manifest, &exercise_manifest)?;", "if LocalCourseLibrary::verify_exercise_manifest(&lesson_manifest, &exercise_manifest).is_err() { continue; }"))
b("op-bad-course-skipped", ('''            .collect::<Result<Vec<_>>>()?;
        library.process''', '''            .filter_map(Result::ok)
            .collect::<Vec<_>>();
        library.process'''))
b("op-unparsable-skipped", ('''            let mut lesson_manifest: LessonManifest = Self::open_manifest(entry.path())?;''',
                            '''            let Ok(mut lesson_manifest) = Self::open_manifest::<LessonManifest>(entry.path()) else { continue };'''))
b("op-depth", (".min_depth(2)\n            .max_depth(2)\n            .into_iter()\n            .flatten()\n        {\n            // Ignore any entries which are not directories.",
               ".min_depth(2)\n            .max_depth(1)\n            .into_iter()\n            .flatten()\n        {\n            // Ignore any entries which are not directories."))
b("op-enc-only-if", ('''                graph.add_encompassed(
                    lesson_manifest.id,
                    &lesson_manifest.dependencies,
                    &lesson_manifest.encompassed,
                )?;''', '''                if !lesson_manifest.encompassed.is_empty() {
                    graph.add_encompassed(
                        lesson_manifest.id,
                        &lesson_manifest.dependencies,
                        &lesson_manifest.encompassed,
                    )?;
                }'''))
b("op-enc-deps", ('''                lesson_manifest.id,
                    &lesson_manifest.dependencies,
                    &lesson_manifest.encompassed,''', '''                lesson_manifest.id,
                    &lesson_manifest.dependencies,
                    &[],'''))
b("op-supersede-course", ("            graph.add_superseded(course.manifest.id, &course.manifest.superseded);\n", ""))
b("op-type", ('''                    lesson_manifest.id,
                    UnitType::Lesson,''', '''                    lesson_manifest.id,
                    UnitType::Course,'''))
b("op-starting-early", ('''        graph.update_starting_lessons();
''', ""), ('''        let mut graph = self.unit_graph.write();
        for course in courses {''', '''        let mut graph = self.unit_graph.write();
        graph.update_starting_lessons();
        for course in courses {'''))
b("op-cycles-lost", ("        graph.check_cycles()?;\n        Ok(())", "        if graph.check_cycles().is_err() && !encompassing_equals_dependency {\n            anyhow::bail!(\"cycles\");\n        }\n        Ok(())"))
b("op-flag-forgot-lessons", ('''                if !lesson_manifest.encompassed.is_empty() {
                    encompassing_equals_dependency = false;
                }
''', ""))
b("op-flag-last", ('''                if !lesson_manifest.encompassed.is_empty() {
                    encompassing_equals_dependency = false;
                }
''', "                encompassing_equals_dependency = lesson_manifest.encompassed.is_empty();\n"))
b("op-map-key", (".insert(lesson_manifest.id, Arc::new(lesson_manifest))", ".insert(lesson_manifest.course_id, Arc::new(lesson_manifest))"))
b("op-first-exercise", ("                for exercise_manifest in exercises {", "                for exercise_manifest in exercises.into_iter().filter(|e| e.exercise_type != crate::data::ExerciseType::Procedural || e.course_id == lesson_manifest_id) {"),
  ("                self.lesson_map\n", "                let lesson_manifest_id = lesson_manifest.course_id;\n                self.lesson_map\n"))
b("op-known-skipped", ("                graph.add_lesson(lesson_manifest.id", "                if self.lesson_map.contains_key(&lesson_manifest.id) { continue; }\n                graph.add_lesson(lesson_manifest.id"))
b("op-gen-only", ('''            lessons.extend(generated_course.lessons);
''', '''            if generated_course.updated_metadata.is_none() { lessons.extend(generated_course.lessons); }
'''))
b("op-gen-stops", ('''                course_manifest.course_instructions = generated_course.updated_instructions;
            }
''', '''                course_manifest.course_instructions = generated_course.updated_instructions;
                return Ok(OpenCourseResult { manifest: course_manifest, lessons });
            }
'''))
b("op-gen-metadata", ("course_manifest.metadata = generated_course.updated_metadata;", "course_manifest.metadata = None;"))
b("op-generator-kept", ("                course_manifest.metadata = generated_course.updated_metadata;", "                course_manifest.metadata = generated_course.updated_metadata;\n                course_manifest.superseded = vec![];"))

k("op-helper", ('''            graph.add_superseded(course.manifest.id, &course.manifest.superseded);
''', '''            if !course.manifest.superseded.is_empty() {
                graph.add_superseded(course.manifest.id, &course.manifest.superseded);
            }
'''))
k("op-course-id", ("graph.add_lesson(lesson_manifest.id, lesson_manifest.course_id)?;", "graph.add_lesson(lesson_manifest.id, course_id)?;"),
  ("            // Process the lessons.\n", "            let course_id = course_id_of;\n"), ("            self.course_map\n                .insert(course.manifest.id", "            let course_id_of = course.manifest.id;\n            self.course_map\n                .insert(course.manifest.id"))
k("op-is-file", ("            // Ignore any entries that are not files named `exercise_manifest.json`.\n            if entry.path().is_dir() {", "            if !entry.path().is_file() {"))
k("op-flag-and", ('''                if !lesson_manifest.encompassed.is_empty() {
                    encompassing_equals_dependency = false;
                }
''', "                encompassing_equals_dependency &= lesson_manifest.encompassed.is_empty();\n"))
k("op-flag-any", ('''        let mut encompassing_equals_dependency = true;
''', '''        let encompassing_equals_dependency = courses.iter().all(|course| {
            course.manifest.encompassed.is_empty()
                && course.lessons.iter().all(|(lesson, _)| lesson.encompassed.is_empty())
        });
'''), ('''            if !course.manifest.encompassed.is_empty() {
                encompassing_equals_dependency = false;
            }
''', ""), ('''                if !lesson_manifest.encompassed.is_empty() {
                    encompassing_equals_dependency = false;
                }
''', ""))
k("op-split", ('''            // Open the exercise manifest and process it.
            let mut exercise_manifest: ExerciseManifest = Self::open_manifest(entry.path())?;
            exercise_manifest =
                exercise_manifest.normalize_paths(entry.path().parent().unwrap())?;
            LocalCourseLibrary::verify_exercise_manifest(&lesson_manifest, &exercise_manifest)?;
            exercises.push(exercise_manifest);
''', '''            exercises.push(Self::read_exercise(entry.path(), &lesson_manifest)?);
'''), ('''    /// Adds a lesson to the course library given''', '''    fn read_exercise(path: &Path, lesson: &LessonManifest) -> Result<ExerciseManifest> {
        let manifest: ExerciseManifest = Self::open_manifest(path)?;
        let directory = path.parent().ok_or_else(|| anyhow!("no directory"))?;
        let manifest = manifest.normalize_paths(directory)?;
        Self::verify_exercise_manifest(lesson, &manifest)?;
        Ok(manifest)
    }

    /// Adds a lesson to the course library given'''))
k("op-verify-combined", ('''        ensure!(
            exercise_manifest.lesson_id == lesson_manifest.id,
            "lesson_id in manifest for exercise {} does not match the manifest for lesson {}",
            exercise_manifest.id,
            lesson_manifest.id,
        );
        ensure!(
            exercise_manifest.course_id == lesson_manifest.course_id,
            "course_id in manifest for exercise {} does not match the manifest for course {}",
            exercise_manifest.id,
            lesson_manifest.course_id,
        );
        Ok(())
''', '''        if exercise_manifest.lesson_id != lesson_manifest.id
            || exercise_manifest.course_id != lesson_manifest.course_id
        {
            return Err(anyhow!("exercise {} does not match its lesson", exercise_manifest.id));
        }
        Ok(())
'''))
k("op-filter-walk", ('''            // Ignore any files which are not named `lesson_manifest.json`.
            let file_name = Self::get_file_name(entry.path())?;
            if file_name != LESSON_MANIFEST_FILENAME {
                continue;
            }

            // Open the lesson manifest and process it.
            let mut lesson_manifest: LessonManifest = Self::open_manifest(entry.path())?;
            lesson_manifest = lesson_manifest.normalize_paths(entry.path().parent().unwrap())?;
            lessons.push(Self::process_lesson_manifest(
                entry.path().parent().unwrap(),
                &course_manifest,
                lesson_manifest,
            )?);
''', '''            if Self::get_file_name(entry.path())? == LESSON_MANIFEST_FILENAME {
                let lesson_root = entry.path().parent().unwrap();
                let lesson_manifest = Self::open_manifest::<LessonManifest>(entry.path())?
                    .normalize_paths(lesson_root)?;
                let lesson =
                    Self::process_lesson_manifest(lesson_root, &course_manifest, lesson_manifest)?;
                lessons.push(lesson);
            }
'''))
k("op-serial", ('''        let course_results = courses
            .into_par_iter()
            .map(|course| {
                library.process_course_manifest(&course.course_root, course.course_manifest)
            })
            .collect::<Result<Vec<_>>>()?;
''', '''        let mut course_results = Vec::with_capacity(courses.len());
        for request in courses {
            let result =
                library.process_course_manifest(&request.course_root, request.course_manifest)?;
            course_results.push(result);
        }
'''), ("use rayon::iter::{IntoParallelIterator, ParallelIterator};\n", ""))
b("op-take", ("                for exercise_manifest in exercises {", "                for exercise_manifest in exercises.into_iter().take(1000) {"))
b("op-take-walk", ('''            .into_iter()
            .flatten()
        {
            // Ignore any entries that are not files named''', '''            .into_iter()
            .flatten()
            .take(500)
        {
            // Ignore any entries that are not files named'''))
