"""Behaviour-preserving edits of the stores and the facade."""
CASES = []
D, ST, BL, RW, RL, LIB = ("src/practice_deltas.rs", "src/practice_stats.rs", "src/blacklist.rs", "src/practice_rewards.rs",
                          "src/review_list.rs", "src/lib.rs")


def k(name, f, *edits):
    CASES.append((name, "keeps", "*", [(f, o, n) for o, n in edits]))


k("r2-deltas-query-loop", D, ('''        #[allow(clippy::let_and_return)]
        let rows = stmt
            .query_map(params![exercise_id.as_str(), num_deltas], |row| {
                let delta = row.get(0)?;
                let timestamp = row.get(1)?;
                rusqlite::Result::Ok(ExerciseDelta {
                    exercise_id,
                    delta,
                    timestamp,
                })
            })?
            .map(|r| r.context("failed to retrieve deltas from practice deltas DB"))
            .collect::<Result<Vec<ExerciseDelta>, _>>()?;
        Ok(rows)
''', '''        let mut rows = stmt.query(params![exercise_id.as_str(), num_deltas])?;
        let mut deltas = Vec::new();
        while let Some(row) = rows
            .next()
            .context("failed to retrieve deltas from practice deltas DB")?
        {
            deltas.push(ExerciseDelta {
                exercise_id,
                delta: row.get(0)?,
                timestamp: row.get(1)?,
            });
        }
        Ok(deltas)
'''))
k("r2-deltas-query-for", D, ('''        #[allow(clippy::let_and_return)]
        let rows = stmt
            .query_map(params![exercise_id.as_str(), num_deltas], |row| {
                let delta = row.get(0)?;
                let timestamp = row.get(1)?;
                rusqlite::Result::Ok(ExerciseDelta {
                    exercise_id,
                    delta,
                    timestamp,
                })
            })?
            .map(|r| r.context("failed to retrieve deltas from practice deltas DB"))
            .collect::<Result<Vec<ExerciseDelta>, _>>()?;
        Ok(rows)
''', '''        let rows = stmt.query_map(params![exercise_id.as_str(), num_deltas], |row| {
            rusqlite::Result::Ok((row.get::<_, f32>(0)?, row.get::<_, i64>(1)?))
        })?;
        let mut deltas = Vec::with_capacity(num_deltas as usize);
        for row in rows {
            let (delta, timestamp) =
                row.context("failed to retrieve deltas from practice deltas DB")?;
            deltas.push(ExerciseDelta {
                exercise_id,
                delta,
                timestamp,
            });
        }
        Ok(deltas)
'''))
k("r2-deltas-row-fn", D, ('''            .query_map(params![exercise_id.as_str(), num_deltas], |row| {
                let delta = row.get(0)?;
                let timestamp = row.get(1)?;
                rusqlite::Result::Ok(ExerciseDelta {
                    exercise_id,
                    delta,
                    timestamp,
                })
            })?
''', '''            .query_map(params![exercise_id.as_str(), num_deltas], |row| {
                Self::delta_from_row(exercise_id, row)
            })?
'''), ('''    /// Helper function to record deltas to the database.
''', '''    /// Builds a delta from a row.
    fn delta_from_row(exercise_id: Ustr, row: &rusqlite::Row) -> rusqlite::Result<ExerciseDelta> {
        rusqlite::Result::Ok(ExerciseDelta {
            exercise_id,
            delta: row.get("delta")?,
            timestamp: row.get("timestamp")?,
        })
    }

    /// Helper function to record deltas to the database.
'''))
REC = '''            for delta in deltas {
                uid_stmt.execute(params![delta.exercise_id.as_str()])?;
                stmt.execute(params![
                    delta.exercise_id.as_str(),
                    delta.delta,
                    delta.timestamp
                ])?;
            }
'''
k("r2-deltas-two-loops", D, (REC, '''            for delta in deltas {
                uid_stmt.execute(params![delta.exercise_id.as_str()])?;
            }
            for delta in deltas {
                stmt.execute(params![
                    delta.exercise_id.as_str(),
                    delta.delta,
                    delta.timestamp
                ])?;
            }
'''))
k("r2-deltas-destructure", D, (REC, '''            for ExerciseDelta {
                exercise_id,
                delta,
                timestamp,
            } in deltas
            {
                let id = exercise_id.as_str();
                uid_stmt.execute([id])?;
                stmt.execute((id, delta, timestamp))?;
            }
'''))
k("r2-deltas-try-for-each", D, (REC, '''            deltas.iter().try_for_each(|delta| -> Result<()> {
                let id = delta.exercise_id.as_str();
                uid_stmt.execute(params![id])?;
                stmt.execute(params![id, delta.delta, delta.timestamp])?;
                Ok(())
            })?;
'''))
k("r2-deltas-tx-helper", D, ('''        {
            let mut uid_stmt =
                tx.prepare_cached("INSERT OR IGNORE INTO uids(unit_id) VALUES ($1);")?;
            let mut stmt = tx.prepare_cached(
                "INSERT INTO practice_deltas (unit_uid, delta, timestamp) VALUES (
                (SELECT unit_uid FROM uids WHERE unit_id = $1), $2, $3);",
            )?;
''' + REC + '''        }
        tx.commit()?;
        Ok(())
    }
''', '''        for delta in deltas {
            Self::insert_delta(&tx, delta)?;
        }
        tx.commit().map_err(Into::into)
    }

    /// Inserts one delta.
    fn insert_delta(tx: &rusqlite::Transaction<'_>, delta: &ExerciseDelta) -> Result<()> {
        let id = delta.exercise_id.as_str();
        tx.prepare_cached("INSERT OR IGNORE INTO uids(unit_id) VALUES (?1)")?
            .execute(params![id])?;
        tx.prepare_cached(
            "INSERT INTO practice_deltas (unit_uid, delta, timestamp) VALUES (
                (SELECT unit_uid FROM uids WHERE unit_id = ?1), ?2, ?3)",
        )?
        .execute(params![id, delta.delta, delta.timestamp])?;
        Ok(())
    }
'''))
TRIM = '''        for uid in uids {
            let mut stmt = connection.prepare_cached(
                "DELETE FROM practice_deltas WHERE id IN (
                    SELECT id FROM practice_deltas WHERE unit_uid = $1
                    ORDER BY timestamp DESC LIMIT -1 OFFSET ?2);",
            )?;
            let _ = stmt.execute(params![uid, num_deltas])?;
        }
'''
k("r2-deltas-trim-const", D, (TRIM, '''        const TRIM: &str = "DELETE FROM practice_deltas WHERE id IN (
            SELECT id FROM practice_deltas WHERE unit_uid = ?1
            ORDER BY timestamp DESC LIMIT -1 OFFSET ?2)";
        let mut stmt = connection.prepare_cached(TRIM)?;
        for uid in &uids {
            stmt.execute(params![uid, num_deltas])?;
        }
'''))
k("r2-deltas-trim-not-in", D, (TRIM, '''        for uid in uids {
            connection.execute(
                "DELETE FROM practice_deltas WHERE unit_uid = ?1 AND id NOT IN (
                    SELECT id FROM practice_deltas WHERE unit_uid = ?1
                    ORDER BY timestamp DESC LIMIT ?2)",
                params![uid, num_deltas],
            )?;
        }
'''))
k("r2-deltas-prefix-subselect", D, ('''        let mut uid_stmt = connection.prepare_cached(
            "SELECT unit_uid FROM uids WHERE substr(unit_id, 1, length($1)) = $1;",
        )?;
        let uids = uid_stmt
            .query_map(params![prefix], |row| row.get(0))?
            .map(|r| r.context("failed to retrieve UIDs from practice deltas DB"))
            .collect::<Result<Vec<i64>, _>>()?;

        for uid in uids {
            let mut stmt =
                connection.prepare_cached("DELETE FROM practice_deltas WHERE unit_uid = $1;")?;
            let _ = stmt.execute(params![uid])?;
        }
''', '''        connection.execute(
            "DELETE FROM practice_deltas WHERE unit_uid IN (
                SELECT unit_uid FROM uids WHERE substr(unit_id, 1, length(?1)) = ?1)",
            params![prefix],
        )?;
'''))
k("r2-deltas-match-err", D, ('''        self.get_deltas_helper(exercise_id, num_deltas)
            .map_err(|e| PracticeDeltasError::GetDeltas(exercise_id, e))
''', '''        match self.get_deltas_helper(exercise_id, num_deltas) {
            Result::Ok(deltas) => Result::Ok(deltas),
            Err(e) => Err(PracticeDeltasError::GetDeltas(exercise_id, e)),
        }
'''))
k("r2-deltas-new", D, ('''        let mut deltas = LocalPracticeDeltas {
            connection: Mutex::new(connection),
        };
        deltas.init()?;
        Ok(deltas)
''', '''        let connection = Mutex::new(connection);
        let mut deltas = Self { connection };
        deltas.init().map(|()| deltas)
'''))
k("r2-deltas-init-static", D, ('''    fn init(&mut self) -> Result<()> {
        let migrations = Self::migrations();
        let mut connection = self.connection.lock();
        migrations
            .to_latest(&mut connection)
            .context("failed to initialize practice deltas DB")
    }
''', '''    fn init(connection: &mut Connection) -> Result<()> {
        Self::migrations()
            .to_latest(connection)
            .context("failed to initialize practice deltas DB")
    }
'''), ('''    fn new(connection: Connection) -> Result<LocalPracticeDeltas> {
        let mut deltas = LocalPracticeDeltas {
            connection: Mutex::new(connection),
        };
        deltas.init()?;
        Ok(deltas)
''', '''    fn new(mut connection: Connection) -> Result<LocalPracticeDeltas> {
        Self::init(&mut connection)?;
        Ok(LocalPracticeDeltas {
            connection: Mutex::new(connection),
        })
'''))
k("r2-stats-shared-uids", ST, ('''        let mut uid_stmt = connection.prepare_cached("SELECT unit_uid from uids")?;
        let uids = uid_stmt
            .query_map([], |row| row.get(0))?
            .map(|r| r.context("failed to retrieve UIDs from practice stats DB"))
            .collect::<Result<Vec<i64>, _>>()?;
''', '''        let uids = Self::uids(&connection, "SELECT unit_uid from uids", params![])?;
'''), ('''        let mut uid_stmt = connection.prepare_cached(
            "SELECT unit_uid FROM uids WHERE substr(unit_id, 1, length($1)) = $1;",
        )?;
        let uids = uid_stmt
            .query_map(params![prefix], |row| row.get(0))?
            .map(|r| r.context("failed to retrieve UIDs from practice stats DB"))
            .collect::<Result<Vec<i64>, _>>()?;
''', '''        let uids = Self::uids(
            &connection,
            "SELECT unit_uid FROM uids WHERE substr(unit_id, 1, length($1)) = $1;",
            params![prefix],
        )?;
'''), ('''    /// Helper function to trim the number of scores for each exercise.
''', '''    /// The internal IDs selected by the query.
    fn uids(connection: &Connection, sql: &str, params: &[&dyn rusqlite::ToSql]) -> Result<Vec<i64>> {
        let mut stmt = connection.prepare_cached(sql)?;
        stmt.query_map(params, |row| row.get(0))?
            .map(|r| r.context("failed to retrieve UIDs from practice stats DB"))
            .collect()
    }

    /// Helper function to trim the number of scores for each exercise.
'''))
k("r2-stats-vacuum-helper", ST, ('''        connection.execute_batch("VACUUM;")?;
        Ok(())
    }

    /// Helper function to remove all the scores''', '''        Self::vacuum(&connection)
    }

    /// Reclaims the space of deleted rows.
    fn vacuum(connection: &Connection) -> Result<()> {
        connection.execute_batch("VACUUM;")?;
        Ok(())
    }

    /// Helper function to remove all the scores'''), ('''        connection.execute_batch("VACUUM;")?;
        Ok(())
    }
}
''', '''        Self::vacuum(&connection)
    }
}
'''))
k("r2-stats-drop-tx-block", ST, ('''        {
            let mut uid_stmt =
                tx.prepare_cached("INSERT OR IGNORE INTO uids(unit_id) VALUES ($1);")?;
            let mut stmt = tx.prepare_cached(''', '''        {
            let insert_unit = "INSERT OR IGNORE INTO uids(unit_id) VALUES ($1);";
            let mut uid_stmt = tx.prepare_cached(insert_unit)?;
            let mut stmt = tx.prepare_cached('''))
k("r2-stats-empty-shortcut", ST, ('''        let mut connection = self.connection.lock();
        let tx = connection.transaction()?;
''', '''        if trials.is_empty() {
            return Ok(());
        }
        let mut connection = self.connection.lock();
        let tx = connection.transaction()?;
'''))
k("r2-rewards-guard-helper", RW, ('''                if self.cache.has_similar_reward(reward.unit_id, reward)
                    || pending.has_similar_reward(reward.unit_id, reward)
                {
                    continue;
                }
''', '''                let known = [&self.cache, &pending]
                    .into_iter()
                    .any(|cache| cache.has_similar_reward(reward.unit_id, reward));
                if known {
                    continue;
                }
'''))
k("r2-rewards-cache-merge", RW, ('''        for (unit_id, rewards) in pending.cache {
            for reward in rewards {
                self.cache.add_new_reward(unit_id, reward);
            }
        }
''', '''        self.cache.absorb(pending);
'''), ('''/// An implementation of [`PracticeRewards`] backed by `SQLite`.
''', '''impl RewardCache {
    /// Adds all the rewards of another cache.
    fn absorb(&mut self, other: RewardCache) {
        for (unit_id, rewards) in other.cache {
            rewards
                .into_iter()
                .for_each(|reward| self.add_new_reward(unit_id, reward));
        }
    }
}

/// An implementation of [`PracticeRewards`] backed by `SQLite`.
'''))
k("r2-rewards-hoist-all", RW, ('''            for reward in rewards {
                if self.cache''', '''            let mut uid_stmt =
                tx.prepare_cached("INSERT OR IGNORE INTO uids(unit_id) VALUES ($1);")?;
            for reward in rewards {
                if self.cache'''), ('''                let mut uid_stmt =
                    tx.prepare_cached("INSERT OR IGNORE INTO uids(unit_id) VALUES ($1);")?;
                uid_stmt.execute''', '''                uid_stmt.execute'''))
k("r2-rewards-trim-collect", RW, ('''        for row in connection
            .prepare("SELECT unit_uid FROM uids")?
            .query_map([], |row| row.get(0))?
        {
            let unit_uid: i64 = row?;
''', '''        let mut stmt = connection.prepare("SELECT unit_uid FROM uids")?;
        let unit_uids = stmt
            .query_map([], |row| row.get(0))?
            .collect::<Result<Vec<i64>, _>>()?;
        for unit_uid in unit_uids {
'''))
k("r2-rewards-clear-after", RW, ('''        // The cache must not contain rewards that are no longer stored.
        self.cache.cache.clear();

        let connection = self.connection.lock();
''', '''        // The cache must not contain rewards that are no longer stored.
        self.cache = RewardCache {
            cache: UstrMap::default(),
        };

        let connection = self.connection.lock();
'''))
k("r2-blacklist-add-nested", BL, ('''        let has_entry = self.has_entry(unit_id);
        if has_entry {
            return Ok(());
        }

        // Add the entry to the database.
        let connection = self.connection.lock();
        let mut stmt = connection.prepare_cached("INSERT INTO blacklist (unit_id) VALUES (?1)")?;
        stmt.execute(params![unit_id.as_str()])?;

        // Update the cache.
        self.cache.write().insert(unit_id, true);
        Ok(())
''', '''        if !self.has_entry(unit_id) {
            self.run("INSERT INTO blacklist (unit_id) VALUES (?1)", unit_id)?;
            self.cache.write().insert(unit_id, true);
        }
        Ok(())
'''), ('''        // Remove the entry from the database.
        let connection = self.connection.lock();
        let mut stmt = connection.prepare_cached("DELETE FROM blacklist WHERE unit_id = $1")?;
        stmt.execute(params![unit_id.as_str()])?;
''', '''        // Remove the entry from the database.
        self.run("DELETE FROM blacklist WHERE unit_id = $1", unit_id)?;
'''), ('''    /// Helper function to add a unit to the blacklist.
''', '''    /// Runs a statement on one unit.
    fn run(&self, sql: &str, unit_id: Ustr) -> Result<usize> {
        let connection = self.connection.lock();
        let mut stmt = connection.prepare_cached(sql)?;
        Ok(stmt.execute(params![unit_id.as_str()])?)
    }

    /// Helper function to add a unit to the blacklist.
'''))
k("r2-blacklist-query-map", BL, ('''        let mut stmt = connection.prepare_cached("SELECT unit_id from blacklist;")?;
        let mut rows = stmt.query(params![])?;

        // Convert the rows into a vector of `Ustr` values.
        let mut entries = Vec::new();
        while let Some(row) = rows.next()? {
            let unit_id: String = row.get(0)?;
            entries.push(Ustr::from(&unit_id));
        }
        Ok(entries)
''', '''        let mut stmt = connection.prepare_cached("SELECT unit_id from blacklist;")?;
        let entries = stmt
            .query_map([], |row| row.get::<_, String>(0))?
            .map(|id| Ok(Ustr::from(&id?)))
            .collect::<Result<Vec<Ustr>>>();
        entries
'''))
k("r2-review-exec", RL, ('''        let connection = self.connection.lock();
        let mut stmt =
            connection.prepare_cached("INSERT OR IGNORE INTO review_list (unit_id) VALUES (?1)")?;
        stmt.execute(params![unit_id.as_str()])?;
        Ok(())
''', '''        self.connection
            .lock()
            .execute(
                "INSERT OR IGNORE INTO review_list (unit_id) VALUES (?1)",
                [unit_id.as_str()],
            )
            .map(|_| ())
            .context("failed to add the unit to the review list")
'''))
k("r2-facade-blacklist-after", LIB, ('''        self.scheduler.invalidate_cached_score(unit_id);
        self.blacklist.write().add_to_blacklist(unit_id)
''', '''        let result = self.blacklist.write().add_to_blacklist(unit_id);
        self.scheduler.invalidate_cached_score(unit_id);
        result
'''))
k("r2-facade-question", LIB, ('''        self.scheduler.invalidate_cached_score(unit_id);
        self.blacklist.write().remove_from_blacklist(unit_id)
''', '''        self.blacklist.write().remove_from_blacklist(unit_id)?;
        // Make sure to invalidate any cached scores for the given unit.
        self.scheduler.invalidate_cached_score(unit_id);
        Ok(())
'''))
k("r2-facade-guard-local", LIB, ('''        self.blacklist.read().blacklisted(unit_id)
''', '''        let blacklist = self.blacklist.read();
        blacklist.blacklisted(unit_id)
'''))
PM = '''        let preferences_manager = Arc::new(RwLock::new(LocalPreferencesManager {
            path: library_root
                .join(TRANE_CONFIG_DIR_PATH)
                .join(USER_PREFERENCES_PATH),
        }));
        let user_preferences = preferences_manager.read().get_user_preferences()?;
        let course_library = Arc::new(RwLock::new(LocalCourseLibrary::new('''
k("r2-facade-prefs-helper", LIB, (PM, '''        let preferences_manager = Self::preferences_manager(library_root);
        let user_preferences = preferences_manager.read().get_user_preferences()?;
        let course_library = Arc::new(RwLock::new(LocalCourseLibrary::new('''), ('''    /// Creates a new local instance of the Trane given the path to the root of a course library.
''', '''    fn preferences_manager(library_root: &Path) -> Arc<RwLock<LocalPreferencesManager>> {
        let config_path = library_root.join(TRANE_CONFIG_DIR_PATH);
        Arc::new(RwLock::new(LocalPreferencesManager {
            path: config_path.join(USER_PREFERENCES_PATH),
        }))
    }

    /// Creates a new local instance of the Trane given the path to the root of a course library.
'''))
k("r2-facade-db-helper", LIB, ('''        let practice_stats = Arc::new(RwLock::new(LocalPracticeStats::new_from_disk(
            config_path.join(PRACTICE_STATS_PATH).to_str().unwrap(),
        )?));
        let practice_deltas = Arc::new(RwLock::new(LocalPracticeDeltas::new_from_disk(
            config_path.join(PRACTICE_DELTAS_PATH).to_str().unwrap(),
        )?));
''', '''        let in_config = |name: &str| -> String {
            config_path.join(name).to_str().unwrap().to_string()
        };
        let practice_deltas = Arc::new(RwLock::new(LocalPracticeDeltas::new_from_disk(
            &in_config(PRACTICE_DELTAS_PATH),
        )?));
        let practice_stats = Arc::new(RwLock::new(LocalPracticeStats::new_from_disk(
            &in_config(PRACTICE_STATS_PATH),
        )?));
'''))
k("r2-facade-options", LIB, ('''        let mut options = SchedulerOptions::default();
        if let Some(preferences) = preferences
            && let Some(batch_size) = preferences.batch_size
        {
            options.batch_size = batch_size;
        }
        options
''', '''        let defaults = SchedulerOptions::default();
        SchedulerOptions {
            batch_size: preferences
                .and_then(|p| p.batch_size)
                .unwrap_or(defaults.batch_size),
            ..defaults
        }
'''))
k("r2-facade-data-fields", LIB, ('''        let scheduler_data = SchedulerData {
            options,
''', '''        let frequency_map = Arc::new(RwLock::new(UstrMap::default()));
        let trial_counts = Arc::new(RwLock::new((0, 0)));
        let scheduler_data = SchedulerData {
            options,
'''), ('''            frequency_map: Arc::new(RwLock::new(UstrMap::default())),
            trial_counts: Arc::new(RwLock::new((0, 0))),
''', '''            frequency_map,
            trial_counts,
'''))
k("r2-deltas-nothing-to-do", D, ('''        for uid in uids {
            let mut stmt =
                connection.prepare_cached("DELETE FROM practice_deltas WHERE unit_uid = $1;")?;
''', '''        if uids.is_empty() {
            return Ok(());
        }
        for uid in uids {
            let mut stmt =
                connection.prepare_cached("DELETE FROM practice_deltas WHERE unit_uid = $1;")?;
'''))
k("r2-rewards-nothing", RW, ('''        let mut updated = Vec::new();
        let mut pending''', '''        if rewards.is_empty() {
            return Ok(Vec::new());
        }
        let mut updated = Vec::new();
        let mut pending'''))
k("r2-rewards-updated-from-pending", RW, ('''        // Only cache the rewards once they are stored.
        for (unit_id, rewards) in pending.cache {
            for reward in rewards {
                self.cache.add_new_reward(unit_id, reward);
            }
        }
        Ok(updated)
''', '''        // Only cache the rewards once they are stored.
        pending.cache.into_iter().for_each(|(unit_id, rewards)| {
            for reward in rewards {
                self.cache.add_new_reward(unit_id, reward);
            }
        });
        Ok(updated)
'''))
k("r2-stats-len-check", ST, ('''        let mut connection = self.connection.lock();
        let tx = connection.transaction()?;
''', '''        if trials.len() == 0 {
            return Ok(());
        }
        let mut connection = self.connection.lock();
        let tx = connection.transaction()?;
'''))
k("r2-review-match", RL, ('''        self.remove_from_review_list_helper(unit_id)
            .map_err(|e| ReviewListError::RemoveUnit(unit_id, e))
''', '''        let removed = self.remove_from_review_list_helper(unit_id);
        if let Err(e) = removed {
            return Err(ReviewListError::RemoveUnit(unit_id, e));
        }
        Ok(())
'''))
k("r2-blacklist-prefix-two-steps", BL, ('''        // Remove all the entries with the given prefix.
        let mut stmt = connection.prepare_cached("DELETE FROM blacklist WHERE unit_id = $1")?;
        let mut cache = self.cache.write();
        while let Some(row) = rows.next()? {
            let unit_id: String = row.get(0)?;
            stmt.execute(params![unit_id])?;

            // Update the cache.
            cache.insert(unit_id.into(), false);
        }
''', '''        // Remove all the entries with the given prefix.
        let mut removed: Vec<Ustr> = Vec::new();
        while let Some(row) = rows.next()? {
            let unit_id: String = row.get(0)?;
            removed.push(unit_id.into());
        }
        for unit_id in removed {
            connection.execute(
                "DELETE FROM blacklist WHERE unit_id = ?1",
                params![unit_id.as_str()],
            )?;

            // Update the cache.
            self.cache.write().insert(unit_id, false);
        }
'''))
k("r2-blacklist-has-entry", BL, ('''        self.cache.write().insert(unit_id, false);
        false
''', '''        *self.cache.write().entry(unit_id).or_insert(false)
'''))
