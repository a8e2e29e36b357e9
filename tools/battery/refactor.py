"""Edits that keep all behaviour, of the kind a maintainer makes; every check has to stay quiet."""
R, B, V, T, D = ("src/practice_rewards.rs", "src/blacklist.rs", "src/review_list.rs", "src/practice_stats.rs", "src/practice_deltas.rs")
L, S, G, SD = "src/lib.rs", "src/scheduler.rs", "src/graph.rs", "src/scheduler/data.rs"
K = []


def k(name, *edits):
    K.append((name, "keeps", "*", list(edits)))


# databases
k("rewards-execute", (R, '''                let mut uid_stmt =
                    tx.prepare_cached("INSERT OR IGNORE INTO uids(unit_id) VALUES ($1);")?;
                uid_stmt.execute(params![reward.unit_id.as_str()])?;
''', '''                tx.execute(
                    "INSERT OR IGNORE INTO uids(unit_id) VALUES ($1);",
                    params![reward.unit_id.as_str()],
                )?;
'''))
k("rewards-hoist-statements", (R, '''            for reward in rewards {
                if self.cache''', '''            let mut uid_stmt =
                tx.prepare_cached("INSERT OR IGNORE INTO uids(unit_id) VALUES ($1);")?;
            for reward in rewards {
                if self.cache'''), (R, '''                let mut uid_stmt =
                    tx.prepare_cached("INSERT OR IGNORE INTO uids(unit_id) VALUES ($1);")?;
                uid_stmt''', "                uid_stmt"))
k("rewards-any", (R, '''            .and_then(|rewards| {
                rewards.iter().find(|r| {
                    r.value == reward.value
                        && r.timestamp.abs_diff(reward.timestamp) < SECONDS_IN_DAY
                        && (r.weight - reward.weight).abs() < WEIGHT_EPSILON
                })
            })
            .is_some()''', '''            .is_some_and(|rewards| rewards.iter().any(|r| Self::similar(r, reward)))'''),
  (R, '''    /// Stores the new reward. Replaces''', '''    fn similar(a: &UnitReward, b: &UnitReward) -> bool {
        a.value == b.value
            && a.timestamp.abs_diff(b.timestamp) < SECONDS_IN_DAY
            && (a.weight - b.weight).abs() < WEIGHT_EPSILON
    }

    /// Stores the new reward. Replaces'''))
k("rewards-skip-flag", (R, '''                if self.cache.has_similar_reward(reward.unit_id, reward)
                    || pending.has_similar_reward(reward.unit_id, reward)
                {
                    continue;
                }
''', '''                let stored = self.cache.has_similar_reward(reward.unit_id, reward);
                if stored {
                    continue;
                }
                if pending.has_similar_reward(reward.unit_id, reward) {
                    continue;
                }
'''))
k("rewards-record-row-helper", (R, '''                let mut uid_stmt =
                    tx.prepare_cached("INSERT OR IGNORE INTO uids(unit_id) VALUES ($1);")?;
                uid_stmt.execute(params![reward.unit_id.as_str()])?;

                let mut stmt = tx.prepare_cached(
                    "INSERT INTO practice_rewards (unit_uid, reward, weight, timestamp) VALUES (
                        (SELECT unit_uid FROM uids WHERE unit_id = $1), $2, $3, $4);",
                )?;
                stmt.execute(params![
                    reward.unit_id.as_str(),
                    reward.value,
                    reward.weight,
                    reward.timestamp
                ])?;
''', '''                Self::insert_reward(&tx, reward)?;
'''), (R, '''    /// Helper function to record multiple rewards in a single transaction.
''', '''    fn insert_reward(tx: &rusqlite::Transaction<'_>, reward: &UnitReward) -> Result<()> {
        let mut uid_stmt =
            tx.prepare_cached("INSERT OR IGNORE INTO uids(unit_id) VALUES ($1);")?;
        uid_stmt.execute(params![reward.unit_id.as_str()])?;
        let mut stmt = tx.prepare_cached(
            "INSERT INTO practice_rewards (unit_uid, reward, weight, timestamp) VALUES (
                (SELECT unit_uid FROM uids WHERE unit_id = $1), $2, $3, $4);",
        )?;
        stmt.execute(params![
            reward.unit_id.as_str(),
            reward.value,
            reward.weight,
            reward.timestamp
        ])?;
        Ok(())
    }

    /// Helper function to record multiple rewards in a single transaction.
'''))
k("rewards-get-loop", (R, '''        #[allow(clippy::let_and_return)]
        let rows = stmt
            .query_map(params![unit_id.as_str(), num_rewards], |row| {
                let value = row.get(0)?;
                let weight = row.get(1)?;
                let timestamp = row.get(2)?;
                rusqlite::Result::Ok(UnitReward {
                    unit_id,
                    value,
                    weight,
                    timestamp,
                })
            })?
            .map(|r| r.context("failed to retrieve rewards from practice rewards DB"))
            .collect::<Result<Vec<UnitReward>, _>>()?;
        Ok(rows)''', '''        let mut rows = stmt.query(params![unit_id.as_str(), num_rewards])?;
        let mut result = Vec::new();
        while let Some(row) = rows.next()? {
            result.push(UnitReward {
                unit_id,
                value: row.get(0)?,
                weight: row.get(1)?,
                timestamp: row.get(2)?,
            });
        }
        Ok(result)'''))
k("stats-inline-get", (T, '''                let score = row.get(0)?;
                let timestamp = row.get(1)?;
                rusqlite::Result::Ok(ExerciseTrial {
                    exercise_id,
                    score,
                    timestamp,
                })''', '''                rusqlite::Result::Ok(ExerciseTrial {
                    exercise_id,
                    score: row.get(0)?,
                    timestamp: row.get(1)?,
                })'''))
k("stats-const-sql", (T, '''        let mut uid_stmt = connection.prepare_cached("SELECT unit_uid from uids")?;''', '''        let mut uid_stmt = connection.prepare_cached(ALL_UIDS)?;'''),
  (T, '''impl LocalPracticeStats {''', '''const ALL_UIDS: &str = "SELECT unit_uid from uids";

impl LocalPracticeStats {'''))
k("stats-for-each-try", (T, '''            for trial in trials {
                uid_stmt.execute(params![trial.exercise_id.as_str()])?;
                stmt.execute(params![
                    trial.exercise_id.as_str(),
                    trial.score,
                    trial.timestamp
                ])?;
            }''', '''            trials.iter().try_for_each(|trial| -> Result<()> {
                let id = trial.exercise_id.as_str();
                uid_stmt.execute(params![id])?;
                stmt.execute(params![id, trial.score, trial.timestamp])?;
                Ok(())
            })?;'''))
k("stats-trim-hoist", (T, '''        for uid in uids {
            let mut stmt = connection.prepare_cached(
                "DELETE FROM practice_stats WHERE id IN (
                    SELECT id FROM practice_stats WHERE unit_uid = $1
                    ORDER BY timestamp DESC LIMIT -1 OFFSET ?2);",
            )?;
            let _''', '''        let mut stmt = connection.prepare_cached(
            "DELETE FROM practice_stats WHERE id IN (
                SELECT id FROM practice_stats WHERE unit_uid = $1
                ORDER BY timestamp DESC LIMIT -1 OFFSET ?2);",
        )?;
        for uid in uids {
            let _'''))
k("stats-uids-helper", (T, '''        // Get all the UIDs from the database.
        let connection = self.connection.lock();
        let mut uid_stmt = connection.prepare_cached("SELECT unit_uid from uids")?;
        let uids = uid_stmt
            .query_map([], |row| row.get(0))?
            .map(|r| r.context("failed to retrieve UIDs from practice stats DB"))
            .collect::<Result<Vec<i64>, _>>()?;
''', '''        let connection = self.connection.lock();
        let uids = Self::all_uids(&connection)?;
'''), (T, '''    /// Helper function to trim the number of scores for each exercise.
''', '''    fn all_uids(connection: &Connection) -> Result<Vec<i64>> {
        let mut uid_stmt = connection.prepare_cached("SELECT unit_uid from uids")?;
        uid_stmt
            .query_map([], |row| row.get(0))?
            .map(|r| r.context("failed to retrieve UIDs from practice stats DB"))
            .collect()
    }

    /// Helper function to trim the number of scores for each exercise.
'''))
k("stats-match-map-err", (T, '''        self.record_exercise_scores_helper(trials)
            .map_err(PracticeStatsError::RecordScore)''', '''        match self.record_exercise_scores_helper(trials) {
            Result::Ok(()) => Result::Ok(()),
            Err(error) => Err(PracticeStatsError::RecordScore(error)),
        }'''))
k("stats-inline-init", (T, '''        stats.init()?;
        Ok(stats)''', '''        match stats.init() {
            Result::Ok(()) => Result::Ok(stats),
            Err(e) => Err(e),
        }'''))
k("blacklist-match", (B, '''        if let Some(has_entry) = self.cache.read().get(&unit_id) {
            return *has_entry;
        }
''', '''        let cached = self.cache.read().get(&unit_id).copied();
        if let Some(has_entry) = cached {
            return has_entry;
        }
'''))
k("blacklist-set-cache-helper", (B, '''        // Update the cache.
        self.cache.write().insert(unit_id, true);
        Ok(())''', '''        self.set_cached(unit_id, true);
        Ok(())'''), (B, '''        // Update the cache.
        self.cache.write().insert(unit_id, false);
        Ok(())''', '''        self.set_cached(unit_id, false);
        Ok(())'''), (B, '''    /// Helper function to add a unit to the blacklist.
''', '''    fn set_cached(&self, unit_id: Ustr, listed: bool) {
        self.cache.write().insert(unit_id, listed);
    }

    /// Helper function to add a unit to the blacklist.
'''))
k("blacklist-init-foreach", (B, '''        for unit_id in blacklist.get_blacklist_entries()? {
            blacklist.cache.write().insert(unit_id, true);
        }
''', '''        let entries = blacklist.all_blacklist_entries_helper()?;
        {
            let mut cache = blacklist.cache.write();
            cache.extend(entries.into_iter().map(|id| (id, true)));
        }
'''))
k("blacklist-entries-map", (B, '''        let mut rows = stmt.query(params![])?;

        // Convert the rows into a vector of `Ustr` values.
        let mut entries = Vec::new();
        while let Some(row) = rows.next()? {
            let unit_id: String = row.get(0)?;
            entries.push(Ustr::from(&unit_id));
        }
        Ok(entries)''', '''        let entries = stmt
            .query_map(params![], |row| row.get::<_, String>(0))?
            .map(|id| Ok(Ustr::from(&id?)))
            .collect::<Result<Vec<Ustr>>>()?;
        Ok(entries)'''))
k("blacklist-prefix-collect", (B, '''        let mut rows = stmt.query(params![prefix])?;

        // Remove all the entries with the given prefix.
        let mut stmt = connection.prepare_cached("DELETE FROM blacklist WHERE unit_id = $1")?;
        let mut cache = self.cache.write();
        while let Some(row) = rows.next()? {
            let unit_id: String = row.get(0)?;
            stmt.execute(params![unit_id])?;

            // Update the cache.
            cache.insert(unit_id.into(), false);
        }
''', '''        let ids = stmt
            .query_map(params![prefix], |row| row.get(0))?
            .collect::<rusqlite::Result<Vec<String>>>()?;

        let mut stmt = connection.prepare_cached("DELETE FROM blacklist WHERE unit_id = $1")?;
        let mut cache = self.cache.write();
        for unit_id in ids {
            stmt.execute(params![unit_id])?;
            cache.insert(unit_id.into(), false);
        }
'''))
k("blacklist-early-return", (B, '''        let has_entry = self.has_entry(unit_id);
        if has_entry {
            return Ok(());
        }
''', '''        if self.has_entry(unit_id) {
            return Ok(());
        }
'''))
k("review-entries", (V, '''        let mut rows = stmt.query(params![])?;

        // Convert the rows into a vector of unit IDs.
        let mut entries = Vec::new();
        while let Some(row) = rows.next()? {
            let unit_id: String = row.get(0)?;
            entries.push(Ustr::from(&unit_id));
        }
        Ok(entries)''', '''        let mut rows = stmt.query([])?;
        let mut entries = vec![];
        loop {
            match rows.next()? {
                Some(row) => {
                    let unit_id: String = row.get(0)?;
                    entries.push(unit_id.as_str().into());
                }
                None => break,
            }
        }
        Ok(entries)'''))
k("review-inline-helper", (V, '''        self.remove_from_review_list_helper(unit_id)
            .map_err(|e| ReviewListError::RemoveUnit(unit_id, e))''', '''        let remove = || -> Result<()> {
            self.connection
                .lock()
                .execute("DELETE FROM review_list WHERE unit_id = $1", params![unit_id.as_str()])?;
            Ok(())
        };
        remove().map_err(|e| ReviewListError::RemoveUnit(unit_id, e))'''), (V, "    /// Helper to remove a unit from the review list.\n", "    #[allow(dead_code)]\n"))
# facade
k("facade-options-map", (L, '''        let mut options = SchedulerOptions::default();
        if let Some(preferences) = preferences
            && let Some(batch_size) = preferences.batch_size
        {
            options.batch_size = batch_size;
        }
        options''', '''        let defaults = SchedulerOptions::default();
        let batch_size = preferences
            .and_then(|p| p.batch_size)
            .unwrap_or(defaults.batch_size);
        SchedulerOptions {
            batch_size,
            ..defaults
        }'''))
k("facade-rename-helper", (L, "fn create_scheduler_options(", "fn build_options("), (L, "Self::create_scheduler_options(user", "Self::build_options(user"))
k("facade-open-inline", (L, '''        let config_path = library_root.join(Path::new(TRANE_CONFIG_DIR_PATH));
        let user_preferences''', '''        let config_path = library_root.join(TRANE_CONFIG_DIR_PATH);
        let db_path = |name: &str| config_path.join(name).to_string_lossy().to_string();
        let user_preferences'''), (L, '''        let practice_stats = Arc::new(RwLock::new(LocalPracticeStats::new_from_disk(
            config_path.join(PRACTICE_STATS_PATH).to_str().unwrap(),
        )?));''', '''        let practice_stats = LocalPracticeStats::new_from_disk(&db_path(PRACTICE_STATS_PATH))?;
        let practice_stats = Arc::new(RwLock::new(practice_stats));'''))
k("facade-init-dirs-loop", (L, '''        // Create the `filters` directory if it does not exist already.
        let filters_path = trane_path.join(FILTERS_DIR);
        if !filters_path.is_dir() {
            create_dir(filters_path.clone()).context("failed to create filters directory")?;
        }

        // Create the `study_sessions` directory if it does not exist already.
        let sessions_path = trane_path.join(STUDY_SESSIONS_DIR);
        if !sessions_path.is_dir() {
            create_dir(sessions_path.clone())
                .context("failed to create study_sessions directory")?;
        }
''', '''        for dir in [FILTERS_DIR, STUDY_SESSIONS_DIR] {
            let path = trane_path.join(dir);
            if !path.is_dir() {
                create_dir(&path).context(format!("failed to create {dir} directory"))?;
            }
        }
'''))
k("facade-block-guard", (L, '''        self.scheduler.invalidate_cached_score(unit_id);
        self.blacklist.write().add_to_blacklist(unit_id)''', '''        self.scheduler.invalidate_cached_score(unit_id);
        let mut blacklist = self.blacklist.write();
        blacklist.add_to_blacklist(unit_id)'''))
# graph
k("graph-entry-type", (G, '''        match self.type_map.get(&unit_id) {
            None => {
                self.type_map.insert(unit_id, unit_type);
                Ok(())
            }
            Some(existing_type) => {
                if unit_type == *existing_type {
                    Ok(())
                } else {
                    Err(anyhow!(
                        "cannot update unit type of unit {unit_id} from type {existing_type:#?}) \\
                        to {unit_type:#?}.",
                    ))
                }
            }
        }''', '''        if let Some(existing_type) = self.type_map.get(&unit_id) {
            ensure!(
                unit_type == *existing_type,
                "cannot update unit type of unit {unit_id} from type {existing_type:#?}) \\
                to {unit_type:#?}.",
            );
            return Ok(());
        }
        self.type_map.insert(unit_id, unit_type);
        Ok(())'''))
k("graph-sinks-iflet", (G, '''        let empty = Arc::new(UstrSet::default());
        let current_dependencies = self.dependency_graph.get(&unit_id).unwrap_or(&empty);
        if current_dependencies.is_empty() && dependencies.is_empty() {''', '''        let has_current = self
            .dependency_graph
            .get(&unit_id)
            .is_some_and(|current| !current.is_empty());
        if !has_current && dependencies.is_empty() {'''))
k("graph-sinks-order", (G, '''        if current_dependencies.is_empty() && dependencies.is_empty() {
            Arc::make_mut(&mut self.dependency_sinks).insert(unit_id);
        } else {
            Arc::make_mut(&mut self.dependency_sinks).remove(&unit_id);
        }
''', '''        let is_sink = current_dependencies.is_empty() && dependencies.is_empty();
        let sinks = Arc::make_mut(&mut self.dependency_sinks);
        if is_sink {
            sinks.insert(unit_id);
        } else {
            sinks.remove(&unit_id);
        }
'''))
k("graph-lesson-order", (G, '''        self.lesson_course_map.insert(lesson_id, course_id);
        Arc::make_mut(self.course_lesson_map.entry(course_id).or_default()).insert(lesson_id);
''', '''        let lessons = self.course_lesson_map.entry(course_id).or_default();
        Arc::make_mut(lessons).insert(lesson_id);
        self.lesson_course_map.insert(lesson_id, course_id);
'''))
k("graph-dependents-extend-loop", (G, '''        Arc::make_mut(self.dependency_graph.entry(unit_id).or_default()).extend(dependencies);

        // For each dependency, insert the equivalent dependent relationship.
        for dependency_id in dependencies {
            Arc::make_mut(self.dependent_graph.entry(*dependency_id).or_default()).insert(unit_id);
        }
''', '''        let own = Arc::make_mut(self.dependency_graph.entry(unit_id).or_default());
        for dependency_id in dependencies {
            own.insert(*dependency_id);
            let dependents = self.dependent_graph.entry(*dependency_id).or_default();
            Arc::make_mut(dependents).insert(unit_id);
        }
'''))
k("graph-encompassed-chain", (G, '''        let mut full_encompassed = encompassed.to_vec();
        for dependency in dependencies {
            if !encompassed
                .iter()
                .any(|(encompassed_id, _)| *encompassed_id == *dependency)
            {
                full_encompassed.push((*dependency, 1.0));
            }
        }
''', '''        let listed: UstrSet = encompassed.iter().map(|(id, _)| *id).collect();
        let full_encompassed: Vec<(Ustr, f32)> = encompassed
            .iter()
            .copied()
            .chain(
                dependencies
                    .iter()
                    .filter(|id| !listed.contains(*id))
                    .map(|id| (*id, 1.0)),
            )
            .collect();
'''))
k("graph-ensure-helper", (G, '''        ensure!(
            !self.type_map.contains_key(&lesson_id),
            "lesson with ID {lesson_id} already exists",
        );
''', '''        if self.type_map.contains_key(&lesson_id) {
            bail!("lesson with ID {lesson_id} already exists");
        }
'''))
k("graph-cycle-msg", (G, '''                            let path_str = cycle_path.iter().fold(String::new(), |mut s, id| {
                                if !s.is_empty() {
                                    s.push_str(" -> ");
                                }
                                let _ = write!(s, "{id}");
                                s
                            });
''', '''                            let path_str = cycle_path
                                .iter()
                                .map(|id| id.to_string())
                                .collect::<Vec<_>>()
                                .join(" -> ");
'''))
k("graph-cycle-let-else", (G, '''                if let Some(neighbors) = get_neighbors(current_id) {
                    for neighbor_id in neighbors {
''', '''                {
                    for neighbor_id in get_neighbors(current_id).unwrap_or_default() {
'''))
k("graph-cycle-insert", (G, '''                if visited.contains(&current_id) {
                    continue;
                }
                visited.insert(current_id);
''', '''                if !visited.insert(current_id) {
                    continue;
                }
'''))
k("graph-starting-helper", (G, '''                .filter(|lesson_id| {
                    // The lesson is a starting lesson if the set of lessons in the course and the
                    // dependencies of this lesson are disjoint.
                    let dependencies = self.get_dependencies(*lesson_id);
                    match dependencies {
                        None => true,
                        Some(dependencies) => lessons.is_disjoint(&dependencies),
                    }
                })
''', '''                .filter(|lesson_id| {
                    self.dependency_graph
                        .get(lesson_id)
                        .is_none_or(|dependencies| dependencies.iter().all(|d| !lessons.contains(d)))
                })
'''))
k("graph-superseded-after", (G, '''        if superseded.is_empty() {
            return;
        }
        Arc::make_mut(self.supersedes_graph.entry(unit_id).or_default()).extend(superseded);
''', '''        if superseded.is_empty() {
            return;
        }
        let supersedes = self.supersedes_graph.entry(unit_id).or_default();
        superseded.iter().for_each(|id| {
            Arc::make_mut(supersedes).insert(*id);
        });
'''))
# scheduler
k("sched-select-candidates", (S, '''        if candidates.is_empty() {
            return Vec::new();
        }
        if score >= FULL_CANDIDATES_SCORE || score < options.min_score {
            return candidates;
        }
''', '''        let keep_all = score >= FULL_CANDIDATES_SCORE || score < options.min_score;
        if keep_all || candidates.is_empty() {
            return candidates;
        }
'''))
k("sched-shuffle-map", (S, '''        units.shuffle(&mut rng());
        stack.extend(units.iter().map(|id| StackItem {
            unit_id: *id,
            depth: curr_unit.depth + 1,
        }));''', '''        units.shuffle(&mut rng());
        let depth = curr_unit.depth + 1;
        for unit_id in units {
            stack.push(StackItem { unit_id, depth });
        }'''))
k("sched-gate-loop", (S, '''        self.data
            .unit_graph
            .read()
            .get_dependencies(unit_id)
            .unwrap_or_default()
            .iter()
            .copied()
            .all(|dependency_id| self.satisfied_dependency(dependency_id, metadata_filter))''', '''        let dependencies = self
            .data
            .unit_graph
            .read()
            .get_dependencies(unit_id)
            .unwrap_or_default();
        for dependency_id in dependencies.iter() {
            if !self.satisfied_dependency(*dependency_id, metadata_filter) {
                return false;
            }
        }
        true'''))
k("sched-superseded-helper", (S, '''        let superseding_units = self
            .unit_scorer
            .get_superseding_recursive(lesson_id)
            .unwrap_or_default();
        let is_lesson_superseded = self
            .unit_scorer
            .is_superseded(lesson_id, &superseding_units);
''', '''        let is_lesson_superseded = self.superseded(lesson_id);
'''), (S, '''        let superseding_units = self
            .unit_scorer
            .get_superseding_recursive(course_id)
            .unwrap_or_default();
        let is_course_superseded = self
            .unit_scorer
            .is_superseded(course_id, &superseding_units);
''', '''        let is_course_superseded = self.superseded(course_id);
'''), (S, '''    /// Returns whether the given lesson should be skipped during the search. If so''', '''    /// Returns whether the unit has been superseded.
    fn superseded(&self, unit_id: Ustr) -> bool {
        let superseding_units = self
            .unit_scorer
            .get_superseding_recursive(unit_id)
            .unwrap_or_default();
        self.unit_scorer.is_superseded(unit_id, &superseding_units)
    }

    /// Returns whether the given lesson should be skipped during the search. If so'''))
k("sched-skip-early-returns", (S, '''        let blacklisted = self.data.blacklisted(lesson_id).unwrap_or(false);

        // Check if the lesson passes''', '''        if self.data.blacklisted(lesson_id).unwrap_or(false) {
            return true;
        }

        // Check if the lesson passes'''), (S, "        blacklisted || !passes_filter || is_lesson_superseded", "        !passes_filter || is_lesson_superseded"))
k("sched-unit-type-let-else", (S, '''            let unit_type = self.data.get_unit_type(curr_unit.unit_id);
            if unit_type.is_none() {
                // The type of the unit is unknown. This can happen when a unit depends on some
                // missing unit not in the course library.
                continue; // grcov-excl-line
            }
            let unit_type = unit_type.unwrap();
''', '''            let Some(unit_type) = self.data.get_unit_type(curr_unit.unit_id) else {
                continue;
            };
'''))
k("sched-dead-end-map", (S, '''                    for candidate in &mut candidates {
                        candidate.dead_end = true;
                    }
''', '''                    candidates.iter_mut().for_each(|c| c.dead_end = true);
'''))
k("sched-avg-then", (S, '''                let avg_score = if num_candidates > 0 {
                    Some(avg_score)
                } else {
                    None
                };
''', '''                let avg_score = (num_candidates > 0).then_some(avg_score);
'''))
k("sched-lesson-loop", (S, '''        let candidates = exercises
            .into_iter()
            .map(|exercise_id| {
                Ok(Candidate {
                    exercise_id,
                    lesson_id: item.unit_id,
                    course_id,
                    depth: (item.depth + 1) as f32,
                    exercise_score: self
                        .unit_scorer
                        .get_unit_score(exercise_id)?
                        .unwrap_or_default(),
                    urgency: self.unit_scorer.get_exercise_urgency(exercise_id)?,
                    velocity: self.unit_scorer.get_exercise_velocity(exercise_id)?,
                    frequency: frequency_map.get(&exercise_id).copied().unwrap_or(0),
                    dead_end: false,
                    encompasses_weight: 0.0,
                    encompassed_weight: 0.0,
                })
            })
            .collect::<Result<Vec<Candidate>>>()?;
''', '''        let mut candidates = Vec::with_capacity(exercises.len());
        for exercise_id in exercises {
            let score = self.unit_scorer.get_unit_score(exercise_id)?;
            candidates.push(Candidate {
                exercise_id,
                lesson_id: item.unit_id,
                course_id,
                depth: (item.depth + 1) as f32,
                exercise_score: score.unwrap_or_default(),
                urgency: self.unit_scorer.get_exercise_urgency(exercise_id)?,
                velocity: self.unit_scorer.get_exercise_velocity(exercise_id)?,
                frequency: frequency_map.get(&exercise_id).copied().unwrap_or(0),
                dead_end: false,
                encompasses_weight: 0.0,
                encompassed_weight: 0.0,
            });
        }
'''))
k("sched-starting-units-retain", (S, '''        starting_courses
            .into_iter()
            .filter(|course_id| {
                graph
                    .get_dependencies(*course_id)
                    .unwrap_or_default()
                    .iter()
                    .all(|id| !self.data.unit_exists(*id).unwrap())
            })
            .collect()''', '''        starting_courses.retain(|course_id| {
            let dependencies = graph.get_dependencies(*course_id).unwrap_or_default();
            !dependencies
                .iter()
                .any(|id| self.data.unit_exists(*id).unwrap())
        });
        starting_courses'''))
k("sched-passes-match", (S, '''        if let (Some(avg_score), Some(avg_trials)) = (avg_score, avg_trials) {
            avg_score >= options.min_score && avg_trials >= options.min_avg_trials
        } else {
            // If the values cannot be retrieved, consider the dependency as satisfied to avoid
            // blocking the search in the case of blacklisted or missing units.
            true
        }''', '''        match (avg_score, avg_trials) {
            (Some(score), Some(trials)) => {
                score >= options.min_score && trials >= options.min_avg_trials
            }
            _ => true,
        }'''))
k("sched-course-stack", (S, '''            stack.extend(lessons.iter().copied().map(|id| StackItem {
                unit_id: id,
                depth: 0,
            }));
            visited.insert(*course_id);''', '''            visited.insert(*course_id);
            for unit_id in lessons.iter().copied() {
                stack.push(StackItem { unit_id, depth: 0 });
            }'''))
k("sched-review-guard", (S, '''                    if self.data.inside_blacklisted(unit_id)? {
                        continue;
                    }
''', '''                    let blacklisted = self.data.inside_blacklisted(unit_id)?;
                    if blacklisted {
                        continue;
                    }
'''))
k("data-inside-blacklisted", (SD, '''        let blacklisted = blacklist.blacklisted(exercise_id)?;
        if blacklisted {''', '''        if blacklist.blacklisted(exercise_id)? {'''), (SD, '''        Ok(lesson_blacklisted || course_blacklisted)''', '''        if lesson_blacklisted {
            return Ok(true);
        }
        Ok(course_blacklisted)'''))
k("data-valid-loop", (SD, '''        let exercises = self.get_lesson_exercises(lesson_id);
        exercises
            .into_iter()
            .filter(|exercise_id| !blacklist.blacklisted(*exercise_id).unwrap_or(false))
            .collect()''', '''        let mut valid = Vec::new();
        for exercise_id in self.get_lesson_exercises(lesson_id) {
            if !blacklist.blacklisted(exercise_id).unwrap_or(false) {
                valid.push(exercise_id);
            }
        }
        valid'''))
CASES = K
