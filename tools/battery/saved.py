M = "src/filter_manager.rs"
T = "src/study_session_manager.rs"
P = "src/preferences_manager.rs"
U = "src/utils.rs"
L = "src/lib.rs"
LOOP = """        let mut filters = HashMap::new();
        for entry in
            std::fs::read_dir(filter_directory).context("Failed to read filter directory")?
        {"""
INS = """            if filters.contains_key(&filter.id) {
                bail!("Found multiple filters with ID {}", filter.id);
            }
            filters.insert(filter.id.clone(), Arc::new(filter));
"""
LISTF = """        let mut filters: Vec<(String, String)> = self
            .filters
            .iter()
            .map(|(id, filter)| (id.clone(), filter.description.clone()))
            .collect();

"""
CASES = [
    ("saved-read-text", "keeps", "*", [(M, """            let reader = BufReader::new(file);
            let filter: SavedFilter = serde_json::from_reader(reader).context(""", """            let text = std::io::read_to_string(BufReader::new(file)).context("Failed to read saved filter")?;
            let filter: SavedFilter = serde_json::from_str(&text).context(""")]),
    ("saved-helper", "keeps", "*", [(M, """            let reader = BufReader::new(file);
            let filter: SavedFilter = serde_json::from_reader(reader).context(format!(
                "Failed to parse named filter from {}",
                entry.path().display()
            ))?;
""", """            let filter = Self::parse(file).context(format!(
                "Failed to parse named filter from {}",
                entry.path().display()
            ))?;
"""), (M, "impl LocalFilterManager {\n", """impl LocalFilterManager {
    fn parse(file: File) -> Result<SavedFilter> {
        Ok(serde_json::from_reader(BufReader::new(file))?)
    }

""")]),
    ("saved-insert-result", "keeps", "*", [(M, INS, """            let id = filter.id.clone();
            if filters.insert(id.clone(), Arc::new(filter)).is_some() {
                bail!("Found multiple filters with ID {id}");
            }
""")]),
    ("saved-entry", "keeps", "*", [(M, INS, """            match filters.entry(filter.id.clone()) {
                std::collections::hash_map::Entry::Occupied(e) => bail!("Found multiple filters with ID {}", e.key()),
                std::collections::hash_map::Entry::Vacant(e) => {
                    e.insert(Arc::new(filter));
                }
            }
""")]),
    ("saved-get-dup", "keeps", "*", [(M, "if filters.contains_key(&filter.id) {", "if filters.get(&filter.id).is_some() {")]),
    ("saved-while", "keeps", "*", [(M, LOOP, """        let mut filters = HashMap::new();
        let mut entries = std::fs::read_dir(filter_directory).context("Failed to read filter directory")?;
        while let Some(entry) = entries.next() {""")]),
    ("saved-collect", "keeps", "*", [(M, LOOP, """        let mut filters = HashMap::new();
        let entries = std::fs::read_dir(filter_directory)
            .context("Failed to read filter directory")?
            .collect::<Vec<_>>();
        for entry in entries {""")]),
    ("saved-inline-new", "keeps", "*", [(M, """        Ok(LocalFilterManager {
            filters: LocalFilterManager::scan_filters(filter_directory)?,
        })""", """        let filters = Self::scan_filters(filter_directory)?;
        let manager = Self { filters };
        Ok(manager)""")]),
    ("saved-get-match", "keeps", "*", [(M, "        self.filters.get(id).cloned()", """        match self.filters.get(id) {
            Some(filter) => Some(Arc::clone(filter)),
            None => None,
        }""")]),
    ("saved-get-try", "keeps", "*", [(T, "        self.sessions.get(id).cloned()", "        let session = self.sessions.get(id)?;\n        Some(session.clone())")]),
    ("saved-list-loop", "keeps", "*", [(M, LISTF, """        let mut filters: Vec<(String, String)> = Vec::with_capacity(self.filters.len());
        for (id, filter) in &self.filters {
            filters.push((id.clone(), filter.description.clone()));
        }
""")]),
    ("saved-list-values", "keeps", "*", [(M, ".iter()\n            .map(|(id, filter)| (id.clone(), filter.description.clone()))", ".values()\n            .map(|filter| (filter.id.clone(), filter.description.clone()))")]),
    ("saved-list-sort", "keeps", "*", [(M, "filters.sort_by(|a, b| a.0.cmp(&b.0));", "filters.sort();")]),
    ("saved-list-key", "keeps", "*", [(M, "filters.sort_by(|a, b| a.0.cmp(&b.0));", "filters.sort_by_key(|f| f.0.clone());")]),
    ("saved-list-then", "keeps", "*", [(M, "filters.sort_by(|a, b| a.0.cmp(&b.0));", "filters.sort_unstable_by(|a, b| a.0.cmp(&b.0).then_with(|| a.1.cmp(&b.1)));")]),
    ("prefs-reader", "keeps", "*", [(P, """        let raw_preferences =
            &fs::read_to_string(&self.path).context("failed to read user preferences")?;
        let preferences = serde_json::from_str::<UserPreferences>(raw_preferences)
            .context("invalid user preferences")?;
        Ok(preferences)""", """        let file = fs::File::open(&self.path).context("failed to read user preferences")?;
        serde_json::from_reader(std::io::BufReader::new(file)).context("invalid user preferences")""")]),
    ("prefs-match", "keeps", "*", [(P, """        self.set_user_preferences_helper(&preferences)
            .map_err(PreferencesManagerError::SetUserPreferences)""", """        match self.set_user_preferences_helper(&preferences) {
            Ok(()) => Ok(()),
            Err(e) => Err(PreferencesManagerError::SetUserPreferences(e)),
        }""")]),
    ("replace-write", "keeps", "C20,C23,C13", [(U, """    let mut file = File::create(&temp_path)?;
    file.write_all(contents.as_bytes())?;
    file.sync_all()?;
    fs::rename(&temp_path, path)""", """    {
        let mut file = File::create(&temp_path)?;
        file.write_all(contents.as_bytes())?;
        file.sync_all()?;
    }
    fs::rename(&temp_path, path)?;
    Ok(())""")]),
    ("replace-fs-write", "keeps", "C20,C23", [(U, """    let mut file = File::create(&temp_path)?;
    file.write_all(contents.as_bytes())?;
    file.sync_all()?;
""", """    fs::write(&temp_path, contents)?;
"""), (U, "fs::{self, File},", "fs,"), (U, "io::{self, Write},", "io,")]),
    ("replace-ext", "keeps", "C20,C23", [(U, """    let mut temp_path = path.as_os_str().to_owned();
    temp_path.push(".tmp");
    let temp_path = PathBuf::from(temp_path);
""", """    let temp_path: PathBuf = path.with_extension("json.tmp");
""")]),
    ("config-helper", "keeps", "*", [(L, """            let default_prefs = UserPreferences::default();
            let prefs_json = serde_json::to_string_pretty(&default_prefs)? + "\\n";
            replace_file(&user_prefs_path, &prefs_json)
                .context("failed to create user_preferences.json file")?;""", """            Self::write_default_preferences(&user_prefs_path)?;"""),
        (L, "    fn init_config_directory(", """    fn write_default_preferences(path: &Path) -> Result<()> {
        let prefs_json = serde_json::to_string_pretty(&UserPreferences::default())? + "\\n";
        replace_file(path, &prefs_json).context("failed to create user_preferences.json file")
    }

    fn init_config_directory(""")]),
    ("config-path-var", "keeps", "*", [(L, """            config_path.join(FILTERS_DIR).to_str().unwrap(),
""", """            config_path.join("filters").to_str().unwrap(),
""")]),
    # ---- broken
    ("saved-skip-bad", "breaks", "C20", [(M, """            let filter: SavedFilter = serde_json::from_reader(reader).context(format!(
                "Failed to parse named filter from {}",
                entry.path().display()
            ))?;
""", """            let Ok(filter) = serde_json::from_reader::<_, SavedFilter>(reader) else {
                continue;
            };
""")]),
    ("saved-skip-unreadable", "breaks", "C20", [(M, """            let entry = entry.context("Failed to read saved filter entry")?;""", """            let Ok(entry) = entry else { continue };""")]),
    ("saved-flatten", "breaks", "C20", [(M, 'std::fs::read_dir(filter_directory).context("Failed to read filter directory")?', 'std::fs::read_dir(filter_directory).context("Failed to read filter directory")?.flatten()'),
        (M, """            let entry = entry.context("Failed to read saved filter entry")?;\n""", "")]),
    ("saved-ext", "breaks", "C20", [(M, """            let entry = entry.context("Failed to read saved filter entry")?;
""", """            let entry = entry.context("Failed to read saved filter entry")?;
            if entry.path().extension().is_none() {
                continue;
            }
""")]),
    ("saved-dup-wins", "breaks", "C20", [(M, """            if filters.contains_key(&filter.id) {
                bail!("Found multiple filters with ID {}", filter.id);
            }
""", "")  , (M, "use anyhow::{Context, Result, bail};", "use anyhow::{Context, Result};")]),
    ("saved-dup-other", "breaks", "C20", [(T, "if sessions.contains_key(&session.id) {", "if sessions.contains_key(&session.description) {")]),
    ("saved-dup-stop", "breaks", "C20", [(M, """                bail!("Found multiple filters with ID {}", filter.id);
""", """                break;
"""), (M, "use anyhow::{Context, Result, bail};", "use anyhow::{Context, Result};")]),
    ("saved-key", "breaks", "C20", [(M, "filters.insert(filter.id.clone(), Arc::new(filter));", "filters.insert(filter.id.trim().to_string(), Arc::new(filter));")]),
    ("saved-key-desc", "breaks", "C20", [(T, "sessions.insert(session.id.clone(), session);", "sessions.insert(session.description.clone(), session);")]),
    ("saved-lookup-lower", "breaks", "C20", [(M, "self.filters.get(id).cloned()", "self.filters.get(&id.to_lowercase()).cloned()")]),
    ("saved-lookup-any", "breaks", "C20", [(M, "self.filters.get(id).cloned()", "self.filters.get(id).or_else(|| self.filters.values().next()).cloned()")]),
    ("saved-lookup-empty", "breaks", "C20", [(T, "self.sessions.get(id).cloned()", "self.sessions.get(id).filter(|s| !s.parts.is_empty()).cloned()")]),
    ("saved-list-empty", "breaks", "C20", [(M, ".map(|(id, filter)| (id.clone(), filter.description.clone()))", ".filter(|(_, filter)| !filter.description.is_empty())\n            .map(|(id, filter)| (id.clone(), filter.description.clone()))")]),
    ("saved-list-id", "breaks", "C20", [(M, "(id.clone(), filter.description.clone())", "(filter.description.clone(), id.clone())")]),
    ("saved-list-rev", "breaks", "C20", [(T, "sessions.sort_by(|a, b| a.0.cmp(&b.0));", "sessions.sort_by(|a, b| b.0.cmp(&a.0));")]),
    ("saved-list-desc", "breaks", "C20", [(T, "sessions.sort_by(|a, b| a.0.cmp(&b.0));", "sessions.sort_by(|a, b| a.1.cmp(&b.1));")]),
    ("saved-list-dedup", "breaks", "C20", [(M, "        filters.sort_by(|a, b| a.0.cmp(&b.0));", "        filters.sort_by(|a, b| a.0.cmp(&b.0));\n        filters.dedup_by(|a, b| a.1 == b.1);")]),
    ("prefs-default", "breaks", "C20", [(P, """        let preferences = serde_json::from_str::<UserPreferences>(raw_preferences)
            .context("invalid user preferences")?;
        Ok(preferences)""", """        Ok(serde_json::from_str::<UserPreferences>(raw_preferences).unwrap_or_default())""")]),
    ("prefs-write-direct", "breaks", "C20", [(P, "replace_file(&self.path, &pretty_json).context", "fs::write(&self.path, &pretty_json).context"), (P, ", utils::replace_file", "")]),
    ("prefs-write-other", "breaks", "C20", [(P, "replace_file(&self.path, &pretty_json)", "replace_file(&self.path.with_extension(\"new\"), &pretty_json)")]),
    ("prefs-write-default", "breaks", "C20", [(P, "serde_json::to_string_pretty(preferences)", "serde_json::to_string_pretty(&UserPreferences { ignored_paths: vec![], ..preferences.clone() })")]),
    ("replace-in-place", "breaks", "C20", [(U, "    temp_path.push(\".tmp\");\n", "")]),
    ("replace-late", "breaks", "C20", [(U, """    file.write_all(contents.as_bytes())?;
    file.sync_all()?;
    fs::rename(&temp_path, path)""", """    fs::rename(&temp_path, path)?;
    file.write_all(contents.as_bytes())?;
    file.sync_all()""")]),
    ("replace-ignore", "breaks", "C20", [(U, "    file.write_all(contents.as_bytes())?;\n", "    file.write_all(contents.as_bytes()).ok();\n")]),
    ("replace-ignore-rename", "breaks", "C20", [(U, "    fs::rename(&temp_path, path)\n", "    let _ = fs::rename(&temp_path, path);\n    Ok(())\n")]),
    ("config-overwrites", "breaks", "C20", [(L, "        if !user_prefs_path.exists() {\n            let default", "        if !user_prefs_path.is_dir() {\n            let default")]),
    ("config-overwrites-invalid", "breaks", "C20", [(L, "        } else if !user_prefs_path.is_file() {", "        } else if std::fs::read_to_string(&user_prefs_path)?.trim().is_empty() {\n            replace_file(&user_prefs_path, \"{}\")?;\n        } else if !user_prefs_path.is_file() {")]),
    ("layout-filters", "breaks", "C20", [(L, 'pub const FILTERS_DIR: &str = "filters";', 'pub const FILTERS_DIR: &str = "saved_filters";')]),
    ("layout-swap", "breaks", "C20", [(L, "config_path.join(STUDY_SESSIONS_DIR).to_str().unwrap()", "config_path.join(FILTERS_DIR).to_str().unwrap()")]),
    ("layout-prefs", "breaks", "C20", [(L, 'pub const USER_PREFERENCES_PATH: &str = "user_preferences.json";', 'pub const USER_PREFERENCES_PATH: &str = "preferences.json";')]),
    ("layout-db", "breaks", "C14", [(L, 'pub const PRACTICE_DELTAS_PATH: &str = "practice_deltas.db";', 'pub const PRACTICE_DELTAS_PATH: &str = "deltas.db";')]),
    ("layout-dir", "breaks", "C14,C20", [(L, 'pub const TRANE_CONFIG_DIR_PATH: &str = ".trane";', 'pub const TRANE_CONFIG_DIR_PATH: &str = ".config";')]),
]
