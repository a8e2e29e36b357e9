CASES = []
L = "src/course_library.rs"
LESSONS = '''        let mut lessons = self
            .unit_graph
            .read()
            .get_course_lessons(course_id)?
            .iter()
            .copied()
            .collect::<Vec<Ustr>>();
        lessons.sort();
        Some(lessons)
'''
COURSES = '''        let mut courses = self.course_map.keys().copied().collect::<Vec<Ustr>>();
        courses.sort();
        courses
'''
PREFIX = '''            Some(UnitType::Lesson) => self
                .lesson_map
                .keys()
                .filter_map(|id| {
                    if id.starts_with(prefix) {
                        Some(*id)
                    } else {
                        None
                    }
                })
                .collect(),
'''
NONE = '''            None => self
                .course_map
                .keys()
                .chain(self.lesson_map.keys())
                .chain(self.exercise_map.keys())
                .filter(|id| id.starts_with(prefix))
                .copied()
                .collect(),
'''
COURSE_EX = '''                    Some(UnitType::Course) => unit_graph
                        .get_course_lessons(unit_id)
                        .unwrap_or_default()
                        .iter()
                        .copied()
                        .flat_map(|lesson_id| {
                            unit_graph
                                .get_lesson_exercises(lesson_id)
                                .unwrap_or_default()
                                .iter()
                                .copied()
                                .collect::<Vec<Ustr>>()
                        })
                        .collect::<Vec<Ustr>>(),
'''


def b(name, *edits, props="C44", f=L):
    CASES.append((name, "breaks", props, [(f, o, n) for o, n in edits]))


def k(name, *edits, f=L):
    CASES.append((name, "keeps", "*", [(f, o, n) for o, n in edits]))


b("lk-reverse", (COURSES, COURSES.replace("courses.sort()", "courses.sort_by(|a, b| b.cmp(a))")))
b("lk-unsorted", (LESSONS, LESSONS.replace("        lessons.sort();\n", "").replace("let mut lessons", "let lessons")))
b("lk-sort-some", (COURSES, COURSES.replace("courses.sort();", "if courses.len() < 20 {\n            courses.sort();\n        }")))
b("lk-wrong-map", (PREFIX, PREFIX.replace(".lesson_map", ".exercise_map")))
b("lk-contains", (PREFIX, PREFIX.replace("starts_with(prefix)", "contains(prefix)")))
b("lk-ends", (NONE, NONE.replace("starts_with(prefix)", "ends_with(prefix)")))
b("lk-chain", (NONE, NONE.replace("                .chain(self.exercise_map.keys())\n", "")))
b("lk-case", (NONE, NONE.replace("id.starts_with(prefix)", "id.to_lowercase().starts_with(prefix)")))
b("lk-longer", (PREFIX, PREFIX.replace("id.starts_with(prefix)", "id.len() > prefix.len() && id.starts_with(prefix)")))
b("lk-first-lesson", (COURSE_EX, COURSE_EX.replace("                        .copied()\n                        .flat_map", "                        .copied()\n                        .take(1)\n                        .flat_map")))
b("lk-exercise-empty", ("Some(UnitType::Exercise) => vec![unit_id],", "Some(UnitType::Exercise) => vec![],"))
b("lk-unknown-all", ("                    None => vec![],\n", "                    None => self.exercise_map.keys().copied().collect(),\n"))
b("lk-none-lessons", ("None => self.exercise_map.keys().copied().collect::<Vec<Ustr>>(),", "None => self.lesson_map.keys().copied().collect::<Vec<Ustr>>(),"))
b("lk-unknown-empty", (LESSONS, LESSONS.replace("get_course_lessons(course_id)?", "get_course_lessons(course_id)\n            .unwrap_or_default()")))
b("lk-drop-empty", (LESSONS, LESSONS.replace("        Some(lessons)", "        if lessons.is_empty() { None } else { Some(lessons) }")))
b("lk-known-prefix", (PREFIX, PREFIX.replace("id.starts_with(prefix)", "!prefix.is_empty() && id.starts_with(prefix)")))
k("lk-loop", (PREFIX, '''            Some(UnitType::Lesson) => {
                let mut found = UstrSet::default();
                for id in self.lesson_map.keys() {
                    if !id.starts_with(prefix) {
                        continue;
                    }
                    found.insert(*id);
                }
                found
            }
'''))
k("lk-filter-copied", (PREFIX, '''            Some(UnitType::Lesson) => self
                .lesson_map
                .keys()
                .copied()
                .filter(|id| id.as_str().starts_with(prefix))
                .collect(),
'''))
k("lk-unstable", (COURSES, COURSES.replace("sort()", "sort_unstable()")))
k("lk-helper", (COURSES, '''        Self::in_order(self.course_map.keys().copied())
'''), (LESSONS, '''        let graph = self.unit_graph.read();
        let lessons = graph.get_course_lessons(course_id)?;
        Some(Self::in_order(lessons.iter().copied()))
'''), ("impl CourseLibrary for LocalCourseLibrary {", '''impl LocalCourseLibrary {
    fn in_order(ids: impl Iterator<Item = Ustr>) -> Vec<Ustr> {
        let mut ids: Vec<Ustr> = ids.collect();
        ids.sort_unstable();
        ids
    }
}

impl CourseLibrary for LocalCourseLibrary {'''))
k("lk-match-manifest", ("        self.course_map.get(&course_id).cloned()\n", '''        match self.course_map.get(&course_id) {
            Some(manifest) => Some(Arc::clone(manifest)),
            None => None,
        }
'''))
k("lk-nested-loop", (COURSE_EX, '''                    Some(UnitType::Course) => {
                        let mut found = Vec::new();
                        for lesson in unit_graph.get_course_lessons(unit_id).unwrap_or_default().iter() {
                            if let Some(exercises) = unit_graph.get_lesson_exercises(*lesson) {
                                found.extend(exercises.iter().copied());
                            }
                        }
                        found
                    }
'''))
k("lk-iter-keys", (COURSES, '''        let mut courses: Vec<Ustr> = self.course_map.iter().map(|(id, _)| *id).collect();
        courses.sort();
        courses
'''))
k("lk-match-option", (LESSONS, '''        let graph = self.unit_graph.read();
        match graph.get_course_lessons(course_id) {
            Some(lessons) => {
                let mut lessons: Vec<Ustr> = lessons.iter().copied().collect();
                lessons.sort();
                Some(lessons)
            }
            None => None,
        }
'''))
k("lk-sort-by", (COURSES, COURSES.replace("sort()", "sort_by(|a, b| a.as_str().cmp(b.as_str()))")))
