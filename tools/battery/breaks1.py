"""Breaking edits of the stores and of the top-level object."""
CASES = []
BL, RL, ST, RW, DE, LIB, UT = ("src/blacklist.rs", "src/review_list.rs", "src/practice_stats.rs", "src/practice_rewards.rs",
                               "src/practice_deltas.rs", "src/lib.rs", "src/utils.rs")
SC = "src/scheduler.rs"


def b(name, props, *edits):
    CASES.append((name, "breaks", props, list(edits)))


# --- C10
b("b1-prefix-like", "C10", (DE, '''WHERE substr(unit_id, 1, length($1)) = $1;"''', '''WHERE unit_id LIKE $1 || '%';"'''))
b("b1-prefix-like-escape", "C10", (ST, '''WHERE substr(unit_id, 1, length($1)) = $1;"''', '''WHERE unit_id LIKE replace($1, '_', '\\\\_') || '%' ESCAPE '\\\\';"'''))
b("b1-prefix-range", "C10", (RW, '''WHERE substr(unit_id, 1, length(?1)) = ?1")?''', '''WHERE unit_id >= ?1 AND unit_id < ?1 || 'zzzz'")?'''))
b("b1-prefix-instr", "C10", (BL, '''WHERE substr(unit_id, 1, length($1)) = $1;''', '''WHERE instr(unit_id, $1) > 0;'''))
b("b1-prefix-trim", "C10", (BL, '''let mut rows = stmt.query(params![prefix])?;''', '''let mut rows = stmt.query(params![prefix.trim()])?;'''))
b("b1-prefix-lower", "C10", (ST, '''WHERE substr(unit_id, 1, length($1)) = $1;"''', '''WHERE lower(substr(unit_id, 1, length($1))) = lower($1);"'''))
b("b1-prefix-nocase", "C10", (ST, '''WHERE substr(unit_id, 1, length($1)) = $1;"''', '''WHERE substr(unit_id, 1, length($1)) = $1 COLLATE NOCASE;"'''))
b("b1-prefix-strict", "C10", (DE, '''WHERE substr(unit_id, 1, length($1)) = $1;"''', '''WHERE substr(unit_id, 1, length($1)) = $1 AND length(unit_id) > length($1);"'''))
b("b1-prefix-limit", "C10", (DE, '''WHERE substr(unit_id, 1, length($1)) = $1;"''', '''WHERE substr(unit_id, 1, length($1)) = $1 LIMIT 1000;"'''))
b("b1-prefix-glob", "C10", (RW, '''WHERE substr(unit_id, 1, length(?1)) = ?1")?''', '''WHERE unit_id GLOB ?1 || '*'")?'''))
b("b1-prefix-early", "C10", (ST, '''        let connection = self.connection.lock();
        let mut uid_stmt = connection.prepare_cached(
            "SELECT unit_uid FROM uids WHERE substr''', '''        if prefix.is_empty() {
            return Ok(());
        }
        let connection = self.connection.lock();
        let mut uid_stmt = connection.prepare_cached(
            "SELECT unit_uid FROM uids WHERE substr'''))
# --- C11
b("b1-order-asc", "C11", (DE, "ORDER BY timestamp DESC LIMIT ?2;\",\n        )?;\n\n        #[allow", "ORDER BY timestamp LIMIT ?2;\",\n        )?;\n\n        #[allow"))
b("b1-order-id", "C11", (ST, "ORDER BY timestamp DESC LIMIT ?2;\",", "ORDER BY id DESC LIMIT ?2;\","))
b("b1-order-score", "C11", (ST, "ORDER BY timestamp DESC LIMIT ?2;\",", "ORDER BY score DESC, timestamp DESC LIMIT ?2;\","))
b("b1-trim-ts", "C11", (ST, '''"DELETE FROM practice_stats WHERE id IN (
                    SELECT id FROM practice_stats WHERE unit_uid = $1
                    ORDER BY timestamp DESC LIMIT -1 OFFSET ?2);"''', '''"DELETE FROM practice_stats WHERE unit_uid = $1 AND timestamp < (
                    SELECT min(timestamp) FROM (SELECT timestamp FROM practice_stats WHERE unit_uid = $1
                    ORDER BY timestamp DESC LIMIT ?2));"'''))
b("b1-trim-not-in-global", "C11", (DE, '''"DELETE FROM practice_deltas WHERE id IN (
                    SELECT id FROM practice_deltas WHERE unit_uid = $1
                    ORDER BY timestamp DESC LIMIT -1 OFFSET ?2);"''', '''"DELETE FROM practice_deltas WHERE id NOT IN (
                    SELECT id FROM practice_deltas WHERE unit_uid = $1
                    ORDER BY timestamp DESC LIMIT ?2);"'''))
b("b1-trim-asc", "C11", (RW, '''SELECT id FROM practice_rewards WHERE unit_uid = ?1
                    ORDER BY timestamp DESC LIMIT -1''', '''SELECT id FROM practice_rewards WHERE unit_uid = ?1
                    ORDER BY timestamp LIMIT -1'''))
b("b1-trim-plus-one", "C11", (DE, "let _ = stmt.execute(params![uid, num_deltas])?;", "let _ = stmt.execute(params![uid, num_deltas + 1])?;"))
b("b1-get-max", "C11", (DE, "params![exercise_id.as_str(), num_deltas]", "params![exercise_id.as_str(), num_deltas.max(1)]"))
b("b1-get-rev", "C11", (ST, '''            .collect::<Result<Vec<ExerciseTrial>, _>>()?;
        Ok(rows)''', '''            .collect::<Result<Vec<ExerciseTrial>, _>>()?;
        let mut rows = rows;
        rows.sort_by_key(|t| t.timestamp);
        Ok(rows)'''))
b("b1-get-dedup", "C11", (DE, '''            .collect::<Result<Vec<ExerciseDelta>, _>>()?;
        Ok(rows)''', '''            .collect::<Result<Vec<ExerciseDelta>, _>>()?;
        let mut rows = rows;
        rows.dedup_by_key(|d| d.timestamp);
        Ok(rows)'''))
b("b1-trim-zero", "C11", (ST, '''        let connection = self.connection.lock();
        let mut uid_stmt = connection.prepare_cached("SELECT unit_uid from uids")?;''', '''        if num_scores == 0 {
            return Ok(());
        }
        let connection = self.connection.lock();
        let mut uid_stmt = connection.prepare_cached("SELECT unit_uid from uids")?;'''))
b("b1-trim-take", "C11", (DE, '''            .map(|r| r.context("failed to retrieve UIDs from practice deltas DB"))
            .collect::<Result<Vec<i64>, _>>()?;

        for uid in uids {
            let mut stmt = connection.prepare_cached(
                "DELETE FROM practice_deltas WHERE id''', '''            .map(|r| r.context("failed to retrieve UIDs from practice deltas DB"))
            .collect::<Result<Vec<i64>, _>>()?;

        for uid in uids.into_iter().take(1000) {
            let mut stmt = connection.prepare_cached(
                "DELETE FROM practice_deltas WHERE id'''))
b("b1-record-limit", "C11", (RW, "ORDER BY timestamp DESC LIMIT -1 OFFSET 20", "ORDER BY timestamp ASC LIMIT -1 OFFSET 20"))
# --- C09
b("b1-no-tx", "C09", (DE, '''        let mut connection = self.connection.lock();
        let tx = connection.transaction()?;
        {
            let mut uid_stmt''', '''        let connection = self.connection.lock();
        let tx = &*connection;
        {
            let mut uid_stmt'''), (DE, "        tx.commit()?;\n", ""))
b("b1-commit-inside", "C09", (ST, '''            for trial in trials {
                uid_stmt.execute(params![trial.exercise_id.as_str()])?;''', '''            for trial in trials {
                if trial.score.is_nan() {
                    continue;
                }
                uid_stmt.execute(params![trial.exercise_id.as_str()])?;'''))
b("b1-break-on-err", "C09", (DE, '''                uid_stmt.execute(params![delta.exercise_id.as_str()])?;
''', '''                if uid_stmt.execute(params![delta.exercise_id.as_str()]).is_err() {
                    break;
                }
'''))
b("b1-tx-per-record", "C09", (ST, '''        let tx = connection.transaction()?;
        {
            let mut uid_stmt =
                tx.prepare_cached("INSERT OR IGNORE INTO uids(unit_id) VALUES ($1);")?;
            let mut stmt = tx.prepare_cached(
                "INSERT INTO practice_stats (unit_uid, score, timestamp) VALUES (
                (SELECT unit_uid FROM uids WHERE unit_id = $1), $2, $3);",
            )?;
            for trial in trials {
                uid_stmt.execute''', '''        for trial in trials {
            let tx = connection.transaction()?;
            {
                let mut uid_stmt =
                    tx.prepare_cached("INSERT OR IGNORE INTO uids(unit_id) VALUES ($1);")?;
                let mut stmt = tx.prepare_cached(
                    "INSERT INTO practice_stats (unit_uid, score, timestamp) VALUES (
                (SELECT unit_uid FROM uids WHERE unit_id = $1), $2, $3);",
                )?;
                uid_stmt.execute'''), (ST, '''                ])?;
            }
        }
        tx.commit()?;
        Ok(())''', '''                ])?;
            }
            tx.commit()?;
        }
        Ok(())'''))
b("b1-similar-value-only", "C09", (RW, '''                    r.value == reward.value
                        && r.timestamp.abs_diff''', '''                    r.timestamp.abs_diff'''))
b("b1-similar-value-sign", "C09", (RW, "r.value == reward.value", "(r.value > 0.0) == (reward.value > 0.0)"))
b("b1-similar-any-unit", "C09", (RW, '''        self.cache
            .get(&unit_id)
            .and_then(|rewards| {
                rewards.iter().find(|r| {''', '''        let _ = unit_id;
        self.cache
            .values()
            .find_map(|rewards| {
                rewards.iter().find(|r| {'''))
b("b1-skip-future", "C09", (DE, '''            for delta in deltas {
                uid_stmt''', '''            for delta in deltas.iter().filter(|d| d.delta != 0.0) {
                uid_stmt'''))
b("b1-commit-ok", "C09,C13", (DE, '''        tx.commit()?;
        Ok(())''', '''        tx.commit().ok();
        Ok(())'''))
b("b1-pending-cache-early", "C09,C15", (RW, '''                pending.add_new_reward(reward.unit_id, reward.clone());
''', '''                self.cache.add_new_reward(reward.unit_id, reward.clone());
'''))
b("b1-drop-behavior", "C09", (DE, '''        let tx = connection.transaction()?;
''', '''        let mut tx = connection.transaction()?;
        tx.set_drop_behavior(rusqlite::DropBehavior::Commit);
'''))
# --- C12
b("b1-format-sql", "C12", (BL, '''        let mut stmt = connection.prepare_cached("DELETE FROM blacklist WHERE unit_id = $1")?;
        stmt.execute(params![unit_id.as_str()])?;

        // Update the cache.''', '''        connection.execute(&format!("DELETE FROM blacklist WHERE unit_id = '{unit_id}'"), [])?;

        // Update the cache.'''))
b("b1-bad-column", "C12", (DE, '"SELECT delta, timestamp from practice_deltas', '"SELECT score, timestamp from practice_deltas'))
b("b1-missing-param", "C12", (RL, '''params![unit_id.as_str()])?;
        Ok(())
    }

    /// Helper to remove''', '''params![])?;
        Ok(())
    }

    /// Helper to remove'''))
b("b1-double-quoted", "C12", (RL, '"DELETE FROM review_list WHERE unit_id = $1"', '"DELETE FROM review_list WHERE unitid = $1"'))
# --- C13
b("b1-vacuum-ignored-delete", "C13", (DE, "let _ = stmt.execute(params![uid])?;", "let _ = stmt.execute(params![uid]);"))
b("b1-write-all-ignored", "C13", (UT, "    file.write_all(contents.as_bytes())?;\n", "    let _ = file.write(contents.as_bytes())?;\n"))
b("b1-rename-ignored", "C13", (UT, "    fs::rename(&temp_path, path)\n", "    fs::rename(&temp_path, path).or(Ok(()))\n"))
b("b1-add-err-default", "C13", (BL, '''        stmt.execute(params![unit_id.as_str()])?;

        // Update the cache.
        self.cache.write().insert(unit_id, true);''', '''        stmt.execute(params![unit_id.as_str()]).unwrap_or_default();

        // Update the cache.
        self.cache.write().insert(unit_id, true);'''))
b("b1-facade-ok", "C13,C07", (LIB, "        self.practice_deltas.write().trim_deltas(num_deltas)", "        self.practice_deltas.write().trim_deltas(num_deltas).or(Ok(()))"))
b("b1-prefs-unwrap-or", "C13", ("src/preferences_manager.rs", '''        replace_file(&self.path, &pretty_json).context("failed to write user preferences")''', '''        if let Err(e) = replace_file(&self.path, &pretty_json) {
            eprintln!("failed to write user preferences: {e}");
        }
        Ok(())'''))
b("b1-score-ignore", "C13", (SC, '''            .map_err(|e| ExerciseSchedulerError::ScoreExercise(e.into()))?;
''', '''            .ok();
'''))
# --- C14
b("b1-mig-edit", "C14", (ST, '''M::up("CREATE INDEX unit_ids ON uids (unit_id);").down("DROP INDEX unit_ids"),
            //@''', '''//@'''))
b("b1-mig-dup-col", "C14", (DE, "delta REAL, timestamp INTEGER);", "delta REAL NOT NULL, timestamp INTEGER);"))
b("b1-mig-no-down", "C14", (RL, '''M::up("CREATE INDEX unit_id_index ON review_list (unit_id);")
                .down("DROP INDEX unit_id_index"),''', '''M::up("CREATE INDEX unit_id_index ON review_list (unit_id);"),'''))
b("b1-no-init", "C14", (DE, "        deltas.init()?;\n", "        deltas.init().ok();\n"))
b("b1-init-version", "C14", (RW, '''        migrations
            .to_latest(&mut connection)
            .context''', '''        migrations
            .to_version(&mut connection, 3)
            .context'''))
b("b1-init-order", "C14", (BL, '''        blacklist.init()?;

        // Initialize the cache with the existing blacklist entries.
        for unit_id in blacklist.get_blacklist_entries()? {
            blacklist.cache.write().insert(unit_id, true);
        }
''', '''        // Initialize the cache with the existing blacklist entries.
        for unit_id in blacklist.get_blacklist_entries().unwrap_or_default() {
            blacklist.cache.write().insert(unit_id, true);
        }
        blacklist.init()?;
'''))
# --- C15
b("b1-cache-before", "C15", (BL, '''        let connection = self.connection.lock();
        let mut stmt = connection.prepare_cached("DELETE FROM blacklist WHERE unit_id = $1")?;
        stmt.execute(params![unit_id.as_str()])?;

        // Update the cache.
        self.cache.write().insert(unit_id, false);
        Ok(())''', '''        self.cache.write().insert(unit_id, false);
        let connection = self.connection.lock();
        let mut stmt = connection.prepare_cached("DELETE FROM blacklist WHERE unit_id = $1")?;
        stmt.execute(params![unit_id.as_str()])?;
        Ok(())'''))
b("b1-prefix-no-cache", "C15", (BL, '''            cache.insert(unit_id.into(), false);
        }

        // Call''', '''            if unit_id != prefix {
                cache.insert(unit_id.into(), false);
            }
        }

        // Call'''))
b("b1-prefix-cache-first", "C15", (BL, '''            stmt.execute(params![unit_id])?;

            // Update the cache.
            cache.insert(unit_id.into(), false);
''', '''            cache.insert(unit_id.as_str().into(), false);
            stmt.execute(params![unit_id])?;
'''))
b("b1-no-load", "C15", (BL, '''        for unit_id in blacklist.get_blacklist_entries()? {''', '''        for unit_id in blacklist.get_blacklist_entries()?.into_iter().skip(1) {'''))
b("b1-trim-no-clear", "C15", (RW, '''        // The cache must not contain rewards that are no longer stored.
        self.cache.cache.clear();

        let connection = self.connection.lock();
        for row in''', '''        let connection = self.connection.lock();
        for row in'''))
b("b1-remove-partial-clear", "C15", (RW, '''        // The cache must not contain rewards that are no longer stored.
        self.cache.cache.clear();

        // Get all''', '''        // The cache must not contain rewards that are no longer stored.
        self.cache.cache.remove(&Ustr::from(prefix));

        // Get all'''))
b("b1-clear-after-vacuum", "C15", (RW, '''        // The cache must not contain rewards that are no longer stored.
        self.cache.cache.clear();

        // Get all''', '''        // Get all'''), (RW, '''        connection.execute_batch("VACUUM;")?;
        Ok(())''', '''        connection.execute_batch("VACUUM;")?;
        self.cache.cache.clear();
        Ok(())'''))
b("b1-cache-size", "C15,C09", (RW, "OFFSET 20", "OFFSET 2"))
# --- C35
b("b1-swap-cols", "C35", (DE, '''                let delta = row.get(0)?;
                let timestamp = row.get(1)?;''', '''                let timestamp = row.get::<_, f64>(0)? as i64;
                let delta = row.get::<_, i64>(1)? as f32;'''))
b("b1-swap-params", "C35", (RW, '''                    reward.value,
                    reward.weight,
                    reward.timestamp
                ])?;''', '''                    reward.weight,
                    reward.value,
                    reward.timestamp
                ])?;'''))
b("b1-round", "C35", (ST, '''                    trial.score,
''', '''                    trial.score.round(),
'''))
b("b1-uid-max", "C35", (ST, '''(SELECT unit_uid FROM uids WHERE unit_id = $1), $2, $3);"''', '''(SELECT max(unit_uid) FROM uids), $2, $3);"'''))
b("b1-add-replace", "C35", (RL, "INSERT OR IGNORE INTO review_list", "INSERT INTO review_list"))
b("b1-list-limit", "C35", (RL, "SELECT unit_id from review_list;", "SELECT unit_id from review_list LIMIT 100;"))
b("b1-list-skip", "C35", (BL, '''            let unit_id: String = row.get(0)?;
            entries.push(Ustr::from(&unit_id));''', '''            let unit_id: String = row.get(0)?;
            if !unit_id.is_empty() {
                entries.push(Ustr::from(&unit_id));
            }'''))
b("b1-remove-nocase", "C35", (RL, "DELETE FROM review_list WHERE unit_id = $1", "DELETE FROM review_list WHERE unit_id = $1 COLLATE NOCASE"))
b("b1-remove-like", "C35", (RL, "DELETE FROM review_list WHERE unit_id = $1", "DELETE FROM review_list WHERE unit_id LIKE $1"))
b("b1-remove-guard", "C35", (BL, '''        // Remove the entry from the database.
''', '''        if !self.has_entry(unit_id) || unit_id.contains("::") && unit_id.len() > 64 {
            return Ok(());
        }
        // Remove the entry from the database.
'''))
b("b1-get-filter", "C11", (DE, '''            .map(|r| r.context("failed to retrieve deltas from practice deltas DB"))
            .collect''', '''            .map(|r| r.context("failed to retrieve deltas from practice deltas DB"))
            .filter(|r| r.as_ref().map_or(true, |d: &ExerciseDelta| d.timestamp > 0))
            .collect'''))
b("b1-lossy-ts", "C35", (DE, '''                    delta.timestamp
                ])?;''', '''                    delta.timestamp as i32
                ])?;'''))
# --- C07
b("b1-facade-swap", "C07", (LIB, '''        self.practice_rewards.write().trim_rewards(num_rewards)''', '''        self.practice_deltas.write().trim_deltas(num_rewards).ok();
        self.practice_rewards.write().trim_rewards(num_rewards)'''))
b("b1-facade-arg", "C07", (LIB, '''            .get_deltas(exercise_id, num_deltas)''', '''            .get_deltas(exercise_id, num_deltas.min(100))'''))
b("b1-facade-path", "C07", (LIB, "config_path.join(PRACTICE_DELTAS_PATH)", "config_path.join(PRACTICE_REWARDS_PATH)"))
b("b1-facade-path-const", "C07", (LIB, "pub const PRACTICE_DELTAS_PATH: &str = \"practice_deltas.db\"", "pub const PRACTICE_DELTAS_PATH: &str = \"practice_stats.db\""))
b("b1-facade-const", "C07", (LIB, '''        self.review_list.read().get_review_list_entries()''', '''        Ok(self.review_list.read().get_review_list_entries().unwrap_or_default())'''))
b("b1-facade-cond", "C07", (LIB, '''        self.scheduler.override_current_timestamp(timestamp);''', '''        if timestamp.is_some() {
            self.scheduler.override_current_timestamp(timestamp);
        }'''))
b("b1-facade-type", "C07", (LIB, '''            .get_matching_prefix(prefix, unit_type)''', '''            .get_matching_prefix(prefix, unit_type.or(Some(UnitType::Exercise)))'''))
b("b1-facade-graph", "C07", (LIB, '''        self.unit_graph.read().get_superseded_by(unit_id)''', '''        self.unit_graph.read().get_supersedes(unit_id)'''))
# --- C03
b("b1-opt-scorer", "C03", (SC, "        self.unit_scorer.set_options(options.clone());\n", ""))
b("b1-opt-scorer-data", "C03", ("src/scheduler/unit_scorer.rs", "        self.data.options = options.clone();\n", ""))
b("b1-opt-pile", "C03", (SC, "        self.relearn_pile.set_options(options);\n", ""))
b("b1-opt-order", "C03", (SC, '''        self.data.options = options.clone();
        self.unit_scorer.set_options(options.clone());
        self.reward_propagator = RewardPropagator {
            data: self.data.clone(),
        };
        self.review_knocker = ReviewKnocker::new(self.data.clone());
''', '''        self.review_knocker = ReviewKnocker::new(self.data.clone());
        self.data.options = options.clone();
        self.unit_scorer.set_options(options.clone());
        self.reward_propagator = RewardPropagator {
            data: self.data.clone(),
        };
'''))
b("b1-opt-conditional", "C03", (SC, '''    fn set_scheduler_options(&mut self, options: SchedulerOptions) {
        self.apply_options(options);''', '''    fn set_scheduler_options(&mut self, options: SchedulerOptions) {
        if options.batch_size > 0 {
            self.apply_options(options);
        }'''))
b("b1-opt-reset-partial", "C03", (SC, "        self.apply_options(SchedulerOptions::default());", '''        let options = SchedulerOptions {
            batch_size: self.data.options.batch_size,
            ..SchedulerOptions::default()
        };
        self.apply_options(options);'''))
b("b1-opt-num", "C03", ("src/scheduler/unit_scorer.rs", "self.options.num_deltas", "self.options.num_trials"))
b("b1-opt-start", "C03", (LIB, '''            options.batch_size = batch_size;
''', '''            options.batch_size = batch_size.max(10);
'''))
