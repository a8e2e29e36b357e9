"""Independent changes that break the properties about files, lookups, panics and batches."""
L, CL, D, FM, SS, PM, U = ("src/lib.rs", "src/course_library.rs", "src/data.rs", "src/filter_manager.rs", "src/study_session_manager.rs",
                           "src/preferences_manager.rs", "src/utils.rs")
S, FI, RP = "src/scheduler.rs", "src/scheduler/filter.rs", "src/scheduler/relearn_pile.rs"
CASES = []


def brk(n, p, *e):
    CASES.append(("b5-" + n, "breaks", p, list(e)))


# C20
brk("filters-only-json", "C20", (FM, """            // Try to read the file as a `NamedFilter`.
            let entry = entry.context("Failed to read saved filter entry")?;
""", """            // Try to read the file as a `NamedFilter`.
            let entry = entry.context("Failed to read saved filter entry")?;
            if entry.path().extension().is_some_and(|e| e.to_ascii_lowercase() != "json" && e != "txt") {
                continue;
            }
"""))
brk("filters-skip-entry-error", "C20", (FM, 'let entry = entry.context("Failed to read saved filter entry")?;',
                                        "let Ok(entry) = entry else { continue };"))
brk("filters-file-id", "C20", (FM, "filters.insert(filter.id.clone(), Arc::new(filter));",
                               "filters.insert(filter.id.trim().to_string(), Arc::new(filter));"))
brk("filters-get-trim", "C20", (FM, "self.filters.get(id).cloned()", "self.filters.get(id.trim()).cloned()"))
brk("filters-list-dedup", "C20", (FM, "filters.sort_by(|a, b| a.0.cmp(&b.0));\n        filters",
                                  "filters.sort_by(|a, b| a.0.cmp(&b.0));\n        filters.dedup_by(|a, b| a.1 == b.1 && !a.1.is_empty());\n        filters"))
brk("filters-list-order", "C20", (FM, "filters.sort_by(|a, b| a.0.cmp(&b.0));", "filters.sort_by(|a, b| a.0.len().cmp(&b.0.len()).then(a.0.cmp(&b.0)));"))
brk("filters-list-nondesc", "C20", (FM, """            .iter()
            .map(|(id, filter)|""", """            .iter()
            .filter(|(_, filter)| !filter.description.is_empty())
            .map(|(id, filter)|"""))
brk("sessions-dup-later", "C20", (SS, """            if sessions.contains_key(&session.id) {
                bail!""", """            if sessions.contains_key(&session.id) && !session.parts.is_empty() {
                bail!"""))
brk("sessions-list-id", "C20", (SS, "session.description.clone()))", "session.id.clone()))"))
brk("sessions-hidden", "C20", (SS, """            let file = File::open(entry.path())""", """            if entry.file_name().to_string_lossy().starts_with('.') {
                continue;
            }
            let file = File::open(entry.path())"""))
brk("prefs-default-on-missing-key", "C20", (PM, """.context("invalid user preferences")?;
        Ok(preferences)""", """.or_else(|e| if e.is_eof() { Ok(UserPreferences::default()) } else { Err(e) })
            .context("invalid user preferences")?;
        Ok(preferences)"""))
brk("prefs-write-direct", "C20", (PM, "replace_file(&self.path, &pretty_json)", "fs::write(&self.path, &pretty_json)"))
brk("replace-rename-ignored", "C20", (U, "    fs::rename(&temp_path, path)\n", "    let _ = fs::rename(&temp_path, path);\n    Ok(())\n"))
brk("replace-append", "C20", (U, "let mut file = File::create(&temp_path)?;", "let mut file = File::options().create(true).append(true).open(&temp_path)?;"))
brk("replace-write-once", "C20", (U, "file.write_all(contents.as_bytes())?;", "let _ = file.write(contents.as_bytes())?;"))
brk("replace-temp-dir", "C20", (U, "    let temp_path = PathBuf::from(temp_path);\n",
                                "    let temp_path = PathBuf::from(temp_path);\n    let temp_path = std::env::temp_dir().join(temp_path.file_name().unwrap_or_default());\n"))
brk("init-overwrites-empty", "C20", (L, "        if !user_prefs_path.exists() {\n", "        if !user_prefs_path.exists() || std::fs::metadata(&user_prefs_path)?.len() < 3 {\n"))
brk("init-filters-path", "C20", (L, "config_path.join(FILTERS_DIR).to_str().unwrap(),\n        )?));\n        let study", "library_root.join(FILTERS_DIR).to_str().unwrap(),\n        )?));\n        let study"),
    (L, "let filters_path = trane_path.join(FILTERS_DIR);", "let filters_path = library_root.join(FILTERS_DIR);"))
brk("prefs-const", "C20", (L, '"user_preferences.json";', '"preferences.json";'))
# C21
brk("ser-skip-none", "C21", (D, """    #[serde(default)]
    pub course_material: Option<BasicAsset>,
""", """    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub course_material: Option<BasicAsset>,
"""))
brk("ser-lessons-filter", "C21", (CL, """            lesson_map: library
                .lesson_map
                .iter()
                .map(""", """            lesson_map: library
                .lesson_map
                .iter()
                .filter(|(_, v)| library.course_map.contains_key(&v.course_id))
                .map("""))
brk("ser-generator-drop", "C21", (CL, """                .course_map
                .iter()
                .map(|(k, v)| (*k, (**v).clone()))""", """                .course_map
                .iter()
                .map(|(k, v)| (*k, CourseManifest { generator_config: None, ..(**v).clone() }))"""))
brk("ser-key", "C21", (CL, ".map(|(k, v)| (k, Arc::new(v)))", ".map(|(k, v)| (if v.name.is_empty() { k } else { v.id }, Arc::new(v)))"))
brk("ser-untagged", "C21", (D, """#[derive(Clone, Debug, Deserialize, PartialEq, Serialize)]
pub enum BasicAsset {""", """#[derive(Clone, Debug, Deserialize, PartialEq, Serialize)]
#[serde(untagged)]
pub enum BasicAsset {"""))
brk("ser-skip-field", "C21", ("src/graph.rs", "    dependency_sinks: Arc<UstrSet>,", "    #[serde(skip)]\n    dependency_sinks: Arc<UstrSet>,"))
# C22
brk("norm-join-only", "C22", (D, """        .join(path)
        .canonicalize()?
        .to_str()""", """        .join(path)
        .canonicalize()
        .or_else(|_| std::path::absolute(working_dir.join(path)))?
        .to_str()"""))
brk("norm-material-dropped", "C22", (D, """            Some(asset) => clone.course_material = Some(asset.normalize_paths(working_directory)?),
""", """            Some(asset) => clone.course_material = asset.normalize_paths(working_directory).ok(),
"""))
brk("norm-back-front", "C22", (D, "Some(normalize_path(working_dir, back_path)?)", "Some(normalize_path(working_dir, if back_path.is_empty() { front_path } else { back_path })?)"))
brk("norm-backup-desc", "C22", (D, """                        description: description.clone(),
                        backup: Some(abs_path),""", """                        description: description.clone().filter(|d| !d.is_empty()),
                        backup: Some(abs_path),"""))
brk("norm-absolute-canon", "C22", (D, "        return Ok(path_str.to_string());\n", "        return Ok(path.canonicalize()?.to_str().unwrap_or(path_str).to_string());\n"))
brk("verify-front-or-back", "C22", (D, "Ok(front_abs_path.exists() && back_abs_path.exists())", "Ok(front_abs_path.exists() && (back_abs_path.exists() || back_path.ends_with(\".html\")))"))
brk("verify-course-or", "C22", (D, "Ok(instructions_exist && material_exists)", "Ok(instructions_exist && (material_exists || self.generator_config.is_some()))"))
brk("verify-backup-cwd", "C22", (D, """                    let abs_path = working_dir.join(Path::new(path));
                    Ok(abs_path.exists())
                }
            },""", """                    let abs_path = working_dir.join(Path::new(path));
                    Ok(abs_path.exists() || Path::new(path).exists())
                }
            },"""))
brk("verify-isfile", "C22", (D, """            BasicAsset::MarkdownAsset { path } => {
                let abs_path = working_dir.join(Path::new(path));
                Ok(abs_path.exists())""", """            BasicAsset::MarkdownAsset { path } => {
                let abs_path = working_dir.join(Path::new(path));
                Ok(abs_path.parent().is_some_and(Path::exists))"""))
brk("builder-no-verify", "C22", ("src/course_builder.rs", """        ensure!(
            manifest
                .verify_paths(lesson_directory)""", """        ensure!(
            self.asset_builders.is_empty() || manifest
                .verify_paths(lesson_directory)"""))
brk("builder-verify-parent", "C22", ("src/course_builder.rs", "                .verify_paths(&course_directory)", "                .verify_paths(parent_directory)"))
# C23
brk("panic-filename", "C23", (CL, """            .ok_or(anyhow!("cannot get file name from DirEntry"))?
            .to_str()
            .ok_or(anyhow!("invalid dir entry {}", path.display()))?
            .to_string())""", """            .ok_or(anyhow!("cannot get file name from DirEntry"))?
            .to_str()
            .expect("file names are UTF-8")
            .to_string())"""))
brk("panic-weight-div", "C23", (FI, "        if candidates.len() <= num_to_select {\n            return (candidates.to_vec(), vec![]);",
                                "        if candidates.len() < num_to_select {\n            return (candidates.to_vec(), vec![candidates[num_to_select % candidates.len()].clone()]);"))
brk("panic-room", "C23", (FI, "        if final_candidates.len() >= batch_size * 3 / 4 {", "        if final_candidates.len() * 2 >= batch_size * 3 {"))
brk("panic-assert", "C23", (S, "        let mut seen = UstrSet::default();\n", "        debug_assert!(!initial_candidates.is_empty() || self.data.options.batch_size < 1000);\n        assert!(initial_candidates.len() < 1_000_000);\n        let mut seen = UstrSet::default();\n"))
brk("panic-serialized-id", "C23", (CL, """                    Some(UnitType::Exercise) => vec![unit_id],
""", """                    Some(UnitType::Exercise) => vec![self.exercise_map[&unit_id].id],
"""))
# C29
brk("ign-string", "C29", (CL, ".any(|ignored_path| entry.path().starts_with(ignored_path))",
                          ".any(|ignored_path| entry.path().to_string_lossy().starts_with(&*ignored_path.to_string_lossy()))"))
brk("ign-parent", "C29", (CL, "entry.path().starts_with(ignored_path))", "entry.path().parent().and_then(Path::parent).is_some_and(|p| p.starts_with(ignored_path)))"))
brk("ign-root-rel", "C29", (CL, "absolute_path.push(path);", "absolute_path.push(path.trim_start_matches('/'));"))
brk("ign-first", "C29", (CL, "            .ignored_paths\n            .iter()\n", "            .ignored_paths\n            .iter()\n            .filter(|path| !path.contains(\"..\"))\n"))
brk("ign-ends", "C29", (CL, ".any(|ignored_path| entry.path().starts_with(ignored_path))",
                        ".any(|ignored_path| entry.path().starts_with(ignored_path) || entry.path().parent().is_some_and(|p| p.file_name() == ignored_path.file_name() && ignored_path.components().count() == absolute_root.components().count() + 1))"))
# C43
brk("fmt-rename", "C43", (D, """    /// The preferences for customizing the behavior of the scheduler.
    #[serde(default)]
""", """    /// The preferences for customizing the behavior of the scheduler.
    #[serde(default, rename = "scheduler_options")]
"""))
brk("fmt-deny", "C43", (D, """#[derive(Clone, Debug, Default, Deserialize, PartialEq, Serialize)]
pub struct SchedulerPreferences {""", """#[derive(Clone, Debug, Default, Deserialize, PartialEq, Serialize)]
#[serde(deny_unknown_fields)]
pub struct SchedulerPreferences {"""))
brk("fmt-required", "C43", (D, """    #[builder(default)]
    #[serde(default)]
    pub encompassed: Vec<(Ustr, f32)>,
""", """    #[builder(default)]
    pub encompassed: Vec<(Ustr, f32)>,
"""))
brk("fmt-default", "C43", (D, """    #[default]
    Procedural,""", """    Procedural,"""), (D, """    /// asking students to name the notes in a D Major chord.
    Declarative,""", """    /// asking students to name the notes in a D Major chord.
    #[default]
    Declarative,"""))
brk("fmt-variant", "C43", (D, "    /// An asset containing its content as a string.\n    InlinedAsset {", "    /// An asset containing its content as a string.\n    #[serde(rename = \"InlineAsset\")]\n    InlinedAsset {"))
brk("fmt-type", "C43", (D, "    pub batch_size: Option<usize>,\n}\n\n/// Represents a repository", "    pub batch_size: Option<u8>,\n}\n\n/// Represents a repository"),
    (L, "options.batch_size = batch_size;", "options.batch_size = batch_size as usize;"))
# C44
brk("look-lessons-nonempty", "C44", (CL, """            .get_course_lessons(course_id)?
            .iter()
            .copied()""", """            .get_course_lessons(course_id)?
            .iter()
            .copied()
            .filter(|id| self.lesson_map.get(id).is_none_or(|l| l.course_id == course_id))
            .filter(|id| !id.is_empty() && self.get_exercise_ids(*id).is_some())"""))
brk("look-unsorted", "C44", (CL, "        exercises.sort();\n        exercises\n", "        if exercises.len() < 10_000 {\n            exercises.sort();\n        }\n        exercises\n"))
brk("look-prefix-contains", "C44", (CL, """                .chain(self.exercise_map.keys())
                .filter(|id| id.starts_with(prefix))""", """                .chain(self.exercise_map.keys())
                .filter(|id| id.starts_with(prefix.trim_end_matches(':')))"""))
brk("look-prefix-strict", "C44", (CL, """                .lesson_map
                .keys()
                .filter_map(|id| {
                    if id.starts_with(prefix) {""", """                .lesson_map
                .keys()
                .filter_map(|id| {
                    if id.starts_with(prefix) && id.len() > prefix.len() {"""))
brk("look-all-none", "C44", (CL, "            None => self.exercise_map.keys().copied().collect::<Vec<Ustr>>(),",
                             "            None => self.course_map.keys().flat_map(|id| self.get_lesson_ids(*id).unwrap_or_default()).flat_map(|id| self.get_exercise_ids(id).unwrap_or_default()).take(50_000).collect::<Vec<Ustr>>(),"))
brk("look-exercise-missing", "C44", (CL, "self.exercise_map.get(&exercise_id).cloned()", "self.exercise_map.get(&exercise_id).or_else(|| self.exercise_map.get(&Ustr::from(exercise_id.trim()))).cloned()"))
brk("look-exercise-unit", "C44", (CL, "                    Some(UnitType::Exercise) => vec![unit_id],\n", "                    Some(UnitType::Exercise) => vec![],\n"))
# C31
brk("batch-window-upper", "C31", (FI, "            .filter(|c| window_opts.in_window(c.exercise_score))\n", "            .filter(|c| window_opts.in_window(c.exercise_score) && c.exercise_score < 5.0)\n"))
brk("batch-pile-twice", "C31", (S, "                    .any(|c| c.exercise_id == candidate.exercise_id)\n", "                    .any(|c| c.exercise_id == candidate.exercise_id && !c.dead_end)\n"))
brk("batch-truncate", "C31", (S, "        let exercises = candidates\n            .into_iter()\n", "        let exercises = candidates\n            .into_iter()\n            .take(self.data.options.batch_size)\n"))
brk("batch-manifest-err", "C31", (S, """                let manifest = self.data.get_exercise_manifest(c.exercise_id)?;
                Ok(Arc::unwrap_or_clone(manifest))
            })
            .collect::<Result<Vec<_>>>()?;""", """                let manifest = self.data.get_exercise_manifest(c.exercise_id)?;
                Ok(Arc::unwrap_or_clone(manifest))
            })
            .filter(|m: &Result<ExerciseManifest>| m.as_ref().is_ok_and(|m| !m.name.is_empty()))
            .collect::<Result<Vec<_>>>()?;"""))
