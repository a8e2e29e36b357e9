CASES = []
L = "src/course_library.rs"
COND = '''            if ignored_paths
                .iter()
                .any(|ignored_path| entry.path().starts_with(ignored_path))
            {
                continue;
            }
'''
MAP = '''            .map(|path| {
                let mut absolute_path = absolute_root.clone();
                absolute_path.push(path);
                absolute_path
            })
'''


def b(name, *edits, props="C29", f=L):
    CASES.append((name, "breaks", props, [(f, o, n) for o, n in edits]))


def k(name, *edits, f=L):
    CASES.append((name, "keeps", "*", [(f, o, n) for o, n in edits]))


b("ig-reverse", ("entry.path().starts_with(ignored_path)", "ignored_path.starts_with(entry.path())"))
b("ig-equal", ("entry.path().starts_with(ignored_path)", "entry.path().parent().is_some_and(|p| p == ignored_path)"))
b("ig-string", ("entry.path().starts_with(ignored_path)", "entry.path().to_str().unwrap_or_default().starts_with(ignored_path.to_str().unwrap_or_default())"))
b("ig-all", (COND, COND.replace(".any(", ".all(")))
b("ig-root", ("let mut absolute_path = absolute_root.clone();", "let mut absolute_path = PathBuf::new();"))
b("ig-first", (COND, COND.replace(".iter()", ".iter().take(1)")))
b("ig-filter", (MAP, "            .filter(|path| !path.contains('.'))\n" + MAP))
b("ig-removed", (COND, ""))
b("ig-cond", (COND, COND.replace("if ignored_paths", "if entry.depth() > 2 && ignored_paths")))
k("ig-loop", (COND, '''            let mut skip = false;
            for ignored_path in &ignored_paths {
                if entry.path().starts_with(ignored_path) {
                    skip = true;
                    break;
                }
            }
            if skip {
                continue;
            }
'''))
k("ig-join", (MAP, "            .map(|path| absolute_root.join(path))\n"))
k("ig-none", (COND, '''            let wanted = ignored_paths.iter().all(|p| !entry.path().starts_with(p));
            if !wanted {
                continue;
            }
'''))
k("ig-helper", (COND, '''            if Self::is_ignored(entry.path(), &ignored_paths) {
                continue;
            }
'''), ("    /// Adds a lesson to the course library given", '''    fn is_ignored(path: &Path, ignored: &[std::path::PathBuf]) -> bool {
        ignored.iter().any(|i| path.starts_with(i))
    }

    /// Adds a lesson to the course library given'''))
k("ig-order", (COND, ""), ('''            if file_name != COURSE_MANIFEST_FILENAME {
                continue;
            }
''', '''            if file_name != COURSE_MANIFEST_FILENAME {
                continue;
            }
            let course_path = entry.path();
            if ignored_paths.iter().any(|p| course_path.starts_with(p)) { continue; }
'''))
