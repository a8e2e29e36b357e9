CASES = []
D = "src/data.rs"
G = "src/graph.rs"
L = "src/course_library.rs"
FI = "src/data/filter.rs"


def b(name, props, f, *edits):
    CASES.append((name, "breaks", props, [(f, o, n) for o, n in edits]))


def k(name, f, *edits):
    CASES.append((name, "keeps", "*", [(f, o, n) for o, n in edits]))


b("fo-skip-if", "C21", D, ("    pub description: Option<String>,\n\n    /// The type of knowledge", "    #[serde(skip_serializing_if = \"Option::is_none\")]\n    pub description: Option<String>,\n\n    /// The type of knowledge"))
b("fo-skip-sinks", "C21", G, ("    dependency_sinks: Arc<UstrSet>,", "    #[serde(skip)]\n    dependency_sinks: Arc<UstrSet>,"))
b("fo-graph-default", "C21", L, ("unit_graph: Arc::new(RwLock::new(serialized_library.unit_graph)),", "unit_graph: Arc::new(RwLock::new(InMemoryUnitGraph::default())),"))
b("fo-lesson-filter", "C21", L, ('''            lesson_map: library
                .lesson_map
                .iter()
''', '''            lesson_map: library
                .lesson_map
                .iter()
                .filter(|(k, _)| library.unit_graph.read().get_lesson_exercises(**k).is_some())
'''))
b("fo-key-lesson", "C21", L, ('''                .exercise_map
                .iter()
                .map(|(k, v)| (*k, (**v).clone()))''', '''                .exercise_map
                .iter()
                .map(|(_, v)| (v.lesson_id, (**v).clone()))'''))
b("fo-rename", "C43", D, ("    #[serde(default)]\n    pub ignored_paths: Vec<String>,", "    #[serde(default, rename = \"ignoredPaths\")]\n    pub ignored_paths: Vec<String>,"))
b("fo-no-default", "C43", D, ("    #[serde(default)]\n    pub ignored_paths: Vec<String>,", "    pub ignored_paths: Vec<String>,"))
b("fo-deny", "C43", D, ("#[derive(Clone, Debug, Default, Deserialize, PartialEq, Serialize)]\npub struct UserPreferences {", "#[derive(Clone, Debug, Default, Deserialize, PartialEq, Serialize)]\n#[serde(deny_unknown_fields)]\npub struct UserPreferences {"))
b("fo-new-required", "C43", FI, ("    /// The filter to apply.\n    pub filter: UnitFilter,", "    /// A flag.\n    pub pinned: u32,\n\n    /// The filter to apply.\n    pub filter: UnitFilter,"))
b("fo-variant-case", "C43", FI, ("#[derive(Clone, Debug, Deserialize, Eq, PartialEq, Serialize)]\npub enum FilterOp {", "#[derive(Clone, Debug, Deserialize, Eq, PartialEq, Serialize)]\n#[serde(rename_all = \"snake_case\")]\npub enum FilterOp {"))
k("fo-alias", D, ("    #[serde(default)]\n    pub ignored_paths: Vec<String>,", "    #[serde(default, alias = \"ignore\")]\n    pub ignored_paths: Vec<String>,"))
k("fo-loop", L, ('''            course_map: library
                .course_map
                .iter()
                .map(|(k, v)| (*k, (**v).clone()))
                .collect(),''', '''            course_map: {
                let mut courses = UstrMap::default();
                for (id, manifest) in &library.course_map {
                    courses.insert(*id, manifest.as_ref().clone());
                }
                courses
            },'''))
k("fo-destructure", L, ('''        Ok(LocalCourseLibrary {
            course_map: serialized_library
                .course_map
                .into_iter()
                .map(|(k, v)| (k, Arc::new(v)))
                .collect(),
''', '''        let courses = serialized_library.course_map;
        Ok(LocalCourseLibrary {
            course_map: courses.into_iter().map(|(id, course)| (id, course.into())).collect(),
'''))
