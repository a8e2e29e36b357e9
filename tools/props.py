# One entry per property; executed by meta.py.
S = "src/"
COMMON = """Decided on the type-checked MIR of the whole crate as cargo builds it, with every function reachable from the
entry points inlined; trusts rustc's front end, the driver and the term engine's models of the standard library."""

prop("C01", "Blacklisted material never appears in a batch",
     """No exercise that is blacklisted, or whose lesson or course is blacklisted, is ever among the exercises returned by
     a request for a batch, whatever filter, review list, or study session produced it.""",
     ["inputs", "configurations", "histories"],
     "every library, filter, review list, blacklist content and practice history",
     "The tests sample a few blacklists with a few filters; the review-list path combined with a blacklisted unit was never tried.",
     [S + "scheduler.rs", S + "scheduler/data.rs", S + "blacklist.rs"],
     [("candidate construction behind blacklist checks", "DepthFirstScheduler::get_valid_exercises, get_candidates_*"),
      ("blacklist store", "LocalBlacklist")],
     "interprocedural abstract interpretation of MIR: guard facts dominating every candidate construction",
     COMMON + " A read of the blacklist that fails is assumed away here (error surfacing is its own property).")

prop("C03", "Every scheduler option is honoured after it is set",
     """Options given at start-up or set later take effect in every part of the scheduler that uses them, including the
     unit scorer and the review components, from the next request on, and resetting restores the defaults everywhere.
     The settings limiting how many scores, rewards, and deltas are read are each applied to their own kind of record.""",
     ["configurations", "histories"],
     "every sequence of option changes interleaved with requests, and every option value",
     "The tests set options once and inspect them; they do not observe each component after a change.",
     [S + "scheduler.rs", S + "scheduler/unit_scorer.rs", S + "scheduler/data.rs", S + "lib.rs"],
     [("options pushed to components", "SchedulerOptions setters of DepthFirstScheduler")],
     "abstract interpretation of MIR: every option-typed field reached from the scheduler is rewritten by each setter",
     COMMON)

prop("C05", "The library can be shared and used between threads safely",
     """The top-level object can be moved to and shared between threads because all of its parts truly can, not because
     an unchecked assertion says so, and no unchecked code is used anywhere.""",
     ["schedules", "programs"],
     "every multi-threaded program using the public API",
     "Tests run single-threaded, and an unsound thread-safety assertion compiles and passes.",
     [S + "lib.rs", S + "scheduler.rs", S + "scheduler/unit_scorer.rs", S + "scheduler/data.rs"],
     [("auto traits of the component types", "Trane, SchedulerData, UnitScorer")],
     "type-level: rustc's trait solver decides Send/Sync of every component; inventory of unsafe blocks and impls",
     "Sound by Rust's type system for everything in the crate; trusts unsafe code in dependencies and std.")

prop("C06", "Concurrent use cannot deadlock",
     """No operation acquires a lock it already holds, and any two locks that are ever held together are acquired in one
     global order, so calls made from any number of threads, in any combination, always finish waiting for each other.""",
     ["schedules"],
     "every interleaving of every set of public operations",
     "Tests are single-threaded or sample very few schedules.",
     [S + "scheduler.rs", S + "scheduler/data.rs", S + "course_library.rs", S + "blacklist.rs", S + "graph.rs"],
     [("lock guards' scopes", "all RwLock/Mutex/RefCell acquisitions in the crate")],
     "interprocedural lock-set dataflow over MIR with guard lifetimes; re-entrancy and lock-order cycle detection",
     """Lock identity is (type, field): all instances of one store type are one lock, which over-approximates. Connection
     locks inside dependencies are out of sight; trusts MIR drop elaboration for guard scopes.""")

prop("C07", "The top-level object forwards every operation faithfully",
     """Each operation of the top-level object is carried out, with the caller's arguments and result unchanged, by the one
     component that owns it, and no other component is modified by it; each component works on its own file in the
     library's configuration directory.""",
     ["inputs", "histories"],
     "every operation of the public API and every argument",
     "Most forwarding methods are never called by a test through the top-level object.",
     [S + "lib.rs"],
     [("delegation", "impl X for Trane"), ("wiring", "Trane::new_local_helper")],
     "abstract interpretation of MIR: event and return-value terms of each forwarding method",
     COMMON)


STORES = [S + "practice_stats.rs", S + "practice_rewards.rs", S + "practice_deltas.rs", S + "blacklist.rs", S + "review_list.rs"]
SQLNOTE = COMMON + """ SQL texts are parsed by the checker's own parser of the subset in use and an unknown construct is reported
rather than guessed; SQLite and rusqlite are trusted to behave as documented."""

prop("C08", "Cached scores never outlive the data they were computed from",
     """After any sequence of recording scores, rewards and deltas, trimming or removing them, editing the blacklist, and
     changing options, the score, urgency, velocity and number of trials reported for every unit are those that would be computed
     from scratch, including the effects a unit has on the units it supersedes, directly or indirectly, and on the
     courses containing those.""",
     ["histories", "inputs"],
     "every history of changes and queries, and every library, including chains of superseded units",
     "The tests invalidate a handful of units and look at one score; they never compare a warm cache with a cold one.",
     [S + "scheduler/unit_scorer.rs", S + "scheduler.rs", S + "lib.rs"],
     [("invalidation", "UnitScorer::invalidate_cached_score, invalidate_cached_scores_with_prefix"),
      ("callers", "Trane's mutating operations, DepthFirstScheduler::score_exercise"),
      ("values entering the caches", "UnitScorer::get_exercise_score, get_lesson_score, get_course_score, get_lesson_num_trials, get_course_num_trials")],
     "abstract interpretation of MIR: keys removed per kind of unit against the keys values are computed from, worklist closure, and invalidation on every successful path of each mutating operation",
     COMMON + """ The library and the unit graph are fixed while a library is open, time passing does not count as a change, and
     queries that overlap with a change in another thread are not considered.""")

prop("C09", "Recording practice results is all-or-nothing",
     """Recording a list of scores, rewards or deltas either stores every one of them and reports success, or stores none and
     reports an error, wherever an error or crash interrupts it; a reward is left out only because a similar one for the same
     unit is already stored.""",
     ["crash points", "histories", "inputs"],
     "every list of records and every point at which a statement or the process fails",
     "The tests never make a statement fail or interrupt a recording.",
     STORES[:3],
     [("writes inside one transaction", "record_* of the local stores")],
     "abstract interpretation of MIR plus SQL parsing: connection identity of every write, success facts at returns",
     SQLNOTE)

prop("C10", "Removing by prefix removes exactly the matching units",
     """Removing blacklist entries, scores, rewards or deltas by a prefix affects all units whose identifier starts with exactly
     that text and no other unit, whatever characters the identifiers and the prefix contain.""",
     ["inputs"],
     "every prefix and every set of unit identifiers",
     "The tests use prefixes without the characters that pattern matching treats specially.",
     STORES[:4],
     [("prefix selection", "remove_*_with_prefix, remove_prefix_from_blacklist")],
     "abstract interpretation of MIR plus SQL analysis: meaning of the row selection of every delete",
     SQLNOTE)

prop("C11", "Reads and trims work on the most recent records",
     """Reading up to n scores, rewards or deltas of a unit returns that unit's n most recent ones, newest first; trimming to n keeps
     exactly the n most recent ones of every unit, also when timestamps are equal, and removes nothing else.""",
     ["inputs", "histories"],
     "every history of records, every n",
     "The tests use few records with distinct timestamps.",
     STORES[:3],
     [("row selection", "get_scores/get_rewards/get_deltas, trim_*")],
     "abstract interpretation of MIR plus SQL analysis: unit, order, limit and row identity of every select and delete",
     SQLNOTE)

prop("C12", "Every database statement is valid and takes data only as parameters",
     """Every statement sent to a database is fixed text that is valid for the schema of its store, with exactly as many bound
     values as placeholders; no data ever becomes part of a statement's text.""",
     ["inputs"],
     "every statement of every store and every value",
     "Statements on rarely used paths are never executed by a test.",
     STORES,
     [("statements", "all execute/query/prepare calls")],
     "SQL parsing and schema checking of every statement text, constant propagation over MIR",
     SQLNOTE)

prop("C13", "Failed writes are reported",
     """Whenever writing to a database or to a file fails, the operation that needed the write reports an error to its caller; it
     never reports success or silently goes on.""",
     ["faults"],
     "every write and every way it can fail, in every operation of the crate",
     "The tests hardly ever make a write fail.",
     STORES + [S + "preferences_manager.rs", S + "filter_manager.rs", S + "study_session_manager.rs", S + "course_builder.rs",
               S + "lib.rs", S + "transcription_downloader.rs"],
     [("results of writes", "every call that may write")],
     "call-graph effect analysis and path-sensitive flow of every Result over MIR",
     """Follows results inside each body and relies on every caller being checked in turn. Errors that a dependency does not report
     are out of sight, as are failing reads.""")

prop("C14", "Databases from earlier releases keep working",
     """Opening a store brings its database to the current schema before anything else uses it; the migrations already released are
     unchanged and in the same order, so a database of any earlier release upgrades, and each migration can be undone.""",
     ["histories"],
     "every database created by any earlier version",
     "The tests only create fresh databases.",
     STORES,
     [("migration lists", "migrations(), init()")],
     "extraction of the migration lists from MIR, schema interpretation, comparison with the released list",
     SQLNOTE + " The released list is the one of the pinned commit.")

prop("C15", "Caches of stored data agree with the database",
     """What the blacklist and the rewards store remember in memory is always true of their databases: after any sequence of
     successful and failed operations, an answer given from memory is the one the database would give.""",
     ["histories", "crash points"],
     "every sequence of operations, each of which may fail",
     "The tests never make an operation fail, nor combine trims and removals with later recordings.",
     [S + "blacklist.rs", S + "practice_rewards.rs"],
     [("in-memory maps", "LocalBlacklist.cache, LocalPracticeRewards.cache")],
     "abstract interpretation of MIR: success facts and control dependence of every cache update",
     SQLNOTE)

prop("C35", "Stores return what was recorded",
     """Each field of a record is read back from where it was written, for the unit it was written for; adding or removing a unit on
     the blacklist or the review list changes exactly that unit, adding it twice is harmless, and listings are complete.""",
     ["inputs", "histories"],
     "every record, unit and sequence of operations",
     "The tests compare a few records, mostly with equal or trivial field values.",
     STORES,
     [("column maps", "record_*/get_* of the local stores"), ("single-unit statements", "add_to_*, remove_from_*")],
     "abstract interpretation of MIR plus SQL analysis: column-to-field maps of writes and reads must be inverse",
     SQLNOTE)

prop("C04", "Opening a library takes in every unit and refuses what is inconsistent",
     """If every manifest below the library's root is in order, opening it enters each course, lesson and exercise, read or generated, in the
     graph with its own id, kind, parent, dependencies, encompassed and superseded units, and, unchanged, under its id in the library,
     whatever else it contains. A manifest with an empty id, or whose ids disagree with the lesson or course it lies in, and any failure to
     read, generate or register one, or a cycle, fails the opening. Encompassed units are replaced by dependencies only if no manifest
     names any.""",
     ["inputs"],
     "every tree of directories and manifests",
     "The tests open a handful of libraries that are in order; what is left out or let through shows only with others.",
     [S + "course_library.rs"],
     [("opening", "LocalCourseLibrary::new, open_course, process_course_manifest, process_lesson_manifest, process_results, verify_*")],
     "abstract interpretation of MIR with one symbol per manifest: registrations, guards, order and refusals; dataflow of every Result",
     COMMON + """ Directory entries that cannot be read are passed over by the code (flatten) and generated lessons are not verified: both are left
     open by the property.""")

prop("C22", "Paths of assets are made absolute, and verified, without loss",
     """Normalising a manifest replaces each relative path in it, whatever kinds of assets it has, by the canonical absolute path of the file
     of that name under the given directory, keeps absolute paths, changes nothing else, and fails if a file is missing. Verifying one is
     true exactly if every path in it exists under the given directory. A course builder does not succeed if the manifest it wrote does not
     verify in the directory it wrote it to, and does not write over an asset that exists.""",
     ["inputs"],
     "every combination of kinds of assets and optional parts, relative and absolute paths, present and missing files",
     "The tests normalise a few assets; a path forgotten in one kind of asset or one optional part is only seen when a user opens it.",
     [S + "data.rs", S + "course_builder.rs"],
     [("paths", "implementations of NormalizePaths and VerifyPaths, normalize_path"), ("builders", "AssetBuilder, ExerciseBuilder, LessonBuilder, CourseBuilder::build")],
     "abstract interpretation of MIR once per shape of the declared types, with an oracle for the kind of asset and the state of its files; result compared part by part",
     COMMON + """ Paths that are not UTF-8 are out of scope: normalize_path keeps them as written.""")

prop("C29", "Nothing under an ignored path is opened",
     """No course whose manifest lies under one of the paths the user ignores, taken relative to the root of the library and compared path
     component by path component, is read; the ignored paths keep out nothing else.""",
     ["inputs"],
     "every library and list of ignored paths",
     "The tests ignore two directories of one library; prefixes that are not directories and paths relative to elsewhere are not tried.",
     [S + "course_library.rs"],
     [("ignoring", "LocalCourseLibrary::new")],
     "abstract interpretation of MIR: the universally quantified fact that must hold wherever a course manifest is read",
     COMMON)

prop("C21", "A serialized library restores the library it was made from",
     """Serializing a library and opening the result gives the same manifests under the same ids and the same graph; only the preferences
     are the new ones. Every field of every type in it is always written and read under one name, as the binary format requires.""",
     ["inputs"],
     "every library, and every value of every serialized field",
     "The tests round-trip one library; a field that is skipped when empty, or a map that is only partly copied, passes on it.",
     [S + "course_library.rs", S + "graph.rs", S + "data.rs", S + "lib.rs"],
     [("conversion", "SerializedCourseLibrary::from, LocalCourseLibrary::new_from_serialized, Trane::new_local_from_serialized"), ("types", "all types reachable from SerializedCourseLibrary")],
     "abstract interpretation of the composed conversions (identity of each map and the graph); lint of the serde attributes and derived implementations of all reachable types",
     COMMON + """ serde's derived code and postcard are trusted.""")

prop("C43", "Files written for this release stay readable",
     """Manifests, preferences, saved filters, study sessions and generator configurations in the format of this release are read with the
     same meaning: every key and variant is accepted with a value of the same shape, no key that may be missing is required, a missing key
     keeps its default, unknown keys are let through.""",
     ["inputs", "histories"],
     "every file in the released format",
     "The tests write their files with the same build that reads them, so that both change together.",
     [S + "data.rs", S + "data/filter.rs", S + "data/course_generator/*.rs"],
     [("types", "types given to serde_json::from_reader and from_str, and those reachable from them")],
     "comparison of the accepted format, computed from the type-checked declarations and serde attributes, with the released one pinned in lib/format.json",
     COMMON + """ Renamed types are followed only if the file layout names them by key; custom implementations are not judged.""")

prop("C44", "Looking up units finds exactly what the library holds",
     """The manifest of a course, lesson or exercise is the one the library holds for that id, or none; the ids of courses, of the lessons of
     a course, of the exercises of a lesson, a course, an exercise or the whole library are complete, contain nothing else, and are
     sorted; units matching a prefix are exactly those of the requested kind, or of any kind, whose id starts with that text.""",
     ["inputs"],
     "every library, id, prefix and kind of unit",
     "The tests look up the units of a few generated libraries whose ids have one shape.",
     [S + "course_library.rs"],
     [("lookups", "implementation of CourseLibrary for LocalCourseLibrary")],
     "abstract interpretation of MIR once per kind of request and state of the library: the set of ids returned, its gates, and the sort it went through",
     COMMON)

prop("C23", "Operations report errors and never panic",
     """Whatever the library, the options, the preferences, the arguments and the stored history contain (missing or empty files and lists,
     extreme numbers and timestamps, names that are not UTF-8), opening a library and every operation on it return a value or an
     error: no operation panics on a missing value, an index outside a collection, a division by zero, an arithmetic overflow, an
     empty range to draw from, a failed assertion, or an allocation of a size taken from its input.""",
     ["inputs", "histories"],
     "every library, set of options, stored history and argument",
     "The tests run well-formed libraries with ordinary numbers; panics wait for the inputs nobody tried.",
     [S + "scheduler.rs", S + "scheduler/filter.rs", S + "reward_scorer.rs", S + "exercise_scorer.rs", S + "study_session_manager.rs",
      S + "course_library.rs", S + "course_builder.rs", S + "data.rs"],
     [("constructs that may panic", "unwrap, expect, indexing, division, checked arithmetic, drawing, sorting, allocation and explicit panics in src/")],
     "interval and fact analysis over an abstract interpretation of MIR: every construct that may panic is an obligation, discharged from the conditions it stands under or those all its callers establish",
     COMMON + " Stack depth, memory exhaustion by ordinary growth and panics inside other crates on valid arguments are out of its reach.")

prop("C20", "Saved filters, sessions and preferences are kept as written",
     """Every file in the directories of saved filters and study sessions is read when a library is opened; opening fails if one cannot be
     read or parsed, or if two carry the same id. Each filter or session is then found under exactly its own id, unchanged, and the list
     gives the id and description of every one, sorted by id. Preferences are read from the file they are written to, and unreadable ones
     are an error, not replaced by others; writing replaces the whole file at once, so an interruption leaves the old or the new content,
     and a failure is reported. All are looked for where every release kept them, and opening a library overwrites no file of it.""",
     ["inputs", "crash points"],
     "every content of the directories and of the preferences, every id, every failing or interrupted write",
     "The tests read a few well-formed files and write preferences without interruption.",
     [S + "filter_manager.rs", S + "study_session_manager.rs", S + "preferences_manager.rs", S + "utils.rs", S + "lib.rs"],
     [("managers", "LocalFilterManager, LocalStudySessionManager, LocalPreferencesManager, replace_file, Trane::init_config_directory")],
     "abstract interpretation of MIR: the collection a new manager holds, the gates of its entries, what lookups and lists return, the order of the writes and the rename, the conditions of every write reached by opening",
     COMMON)

prop("C31", "A batch repeats nothing and drops nothing it should not",
     """No exercise appears twice in a batch, by whatever routes the search finds it, whatever windows it fits, and even if it is in the
     relearn pile. Besides exercises from the relearn pile, only exercises the search found are in it, each as its own manifest. An
     exercise found is ruled out only if its score is at least 4.5 and others in the batch encompass it with a weight of at least 10;
     every other that fits some window can be drawn, and once drawn it is returned.""",
     ["inputs", "histories"],
     "every library, history, relearn pile and set of options, overlapping windows included",
     "The tests compare the sets of exercises returned over many draws with the default windows, which do not overlap; a repeat or a loss shows for particular scores, sizes and draws.",
     [S + "scheduler.rs", S + "scheduler/filter.rs", S + "scheduler/review_knocker.rs", S + "scheduler/shuffler.rs"],
     [("get_exercise_batch", "src/scheduler.rs, impl ExerciseScheduler for DepthFirstScheduler"), ("filter_candidates", "src/scheduler/filter.rs"),
      ("knock out and shuffle", "src/scheduler/review_knocker.rs, src/scheduler/shuffler.rs")],
     "abstract interpretation of MIR with one exercise followed through every collection, once for each combination of windows, weight and pile: what it is joined under must exclude what it is there under",
     COMMON + " The draws themselves (rand's sample and sample_weighted) are taken to return distinct elements of their input.")

prop("C30", "Generated courses hold all their material, tied and named as documented",
     """A generated course (transcription, literacy, music piece, knowledge base) makes one lesson or exercise for each piece of its material:
     every passage, asset, instrument, example, exception, flashcard with a front and short lesson, and the optional stages unless a
     setting turns them off. Each lesson belongs to the course and each exercise to the lesson it comes with. Ids are the course id, the
     documented parts and the material's own identifiers. Short lesson ids in a knowledge base lesson's dependencies, encompassed and
     superseded lists are resolved to full ids, weights kept. Each optional file ends in the field it is named after and in no other.""",
     ["inputs"],
     "every course manifest, generator configuration, preferences and directory of material",
     "The tests generate one or two libraries of fixed shape and look at ids the same code made; a lesson tied to the wrong course, a file ending in the wrong field or a card dropped shows only for other material.",
     [S + "course_generator/transcription.rs", S + "course_generator/literacy.rs", S + "course_generator/music_piece.rs", S + "course_generator/knowledge_base.rs"],
     [("generate_manifests", "src/course_generator/{transcription,literacy,music_piece,knowledge_base}.rs, impl GenerateManifests"),
      ("open_lesson / create_lessons / process_*", "src/course_generator/knowledge_base.rs")],
     "abstract interpretation of MIR of each generator over a course of unknown material, one piece followed through every collection: the fields of what comes out are compared with the material they must come from",
     COMMON + " File names and field names are the documented ones.")
prop("C16", "Relations between units are recorded in both directions",
     """Every dependency, superseding and encompassing relation added to the unit graph is recorded for exactly the units given,
     completely, and can be read from either end: A is listed among the dependents of B exactly if B is listed among the
     dependencies of A, and likewise for the other two relations, with the same weights at both ends.""",
     ["inputs", "histories"],
     "every library and every sequence of additions to the graph",
     "The tests build a few graphs and read a few relations, rarely from both ends, and no partially failing additions.",
     [S + "graph.rs"],
     [("forward and reverse maps", "InMemoryUnitGraph::add_dependencies, add_superseded, add_encompassed and their getters")],
     "abstract interpretation of MIR: writes to paired maps must be mirror images on every successful path",
     COMMON)

prop("C17", "Every unit id keeps the one type it was registered with",
     """A unit id is registered once, with the type it was registered with: registering it again, as any type, fails and changes
     nothing, and no operation changes or forgets the type of a unit.""",
     ["inputs", "histories"],
     "every sequence of registrations of courses, lessons and exercises",
     "The tests register duplicates in a few orders only and do not check that failed registrations leave no trace.",
     [S + "graph.rs"],
     [("registry of types", "InMemoryUnitGraph::add_course, add_lesson, add_exercise, update_unit_type")],
     "abstract interpretation of MIR: absence facts dominating every write of the registry",
     COMMON)

prop("C18", "Weights of encompassed units are always between 0 and 1",
     """No weight outside the range from 0 to 1, nor NaN, is ever stored for an encompassed unit: such a request fails and stores
     nothing. Every weight read back is one that was stored or the default of 1.""",
     ["inputs", "histories"],
     "every list of weights in every order of requests",
     "The tests try one weight above 1; not NaN, negative values, or a bad weight after good ones.",
     [S + "graph.rs"],
     [("validation before the write", "InMemoryUnitGraph::add_encompassed")],
     "abstract interpretation of MIR: universally quantified range facts (NaN-aware) dominating every write of a weight",
     COMMON)

prop("C36", "Cyclic relations are always rejected",
     """Checking the graph for cycles fails whenever the dependencies, the superseded units, or the encompassed units contain a
     cycle of any length reachable from any unit, and does not fail for relations without one.""",
     ["inputs"],
     "every graph: any number of units, any cycle length, any order of insertion and iteration",
     "The tests try cycles of two or three units; which units are visited first depends on hash order.",
     [S + "graph.rs"],
     [("depth-first search", "InMemoryUnitGraph::check_graph_cycles, check_cycles_helper")],
     "abstract interpretation of MIR: the search's invariants (start set, neighbour set, path test, no other pruning) and CFG reachability",
     COMMON + """ The correctness of depth-first search itself, given these invariants, is a paper argument in DESIGN.md.""")

prop("C37", "The starting points of a library are complete and correct",
     """The starting lessons of a course are exactly its lessons that do not depend on another lesson of the course, and the
     starting points of the library include every unit without existing dependencies whose course is not itself being
     considered; a course stops being a starting point only if each of its starting lessons depends on something that exists. So no
     part of a library is unreachable because of the order in which its units were declared.""",
     ["inputs", "histories"],
     "every library and order of registration, including dependencies on units that do not exist",
     "The tests use a few fixed libraries, in which every course starts from a single lesson.",
     [S + "graph.rs"],
     [("starting lessons and sinks", "InMemoryUnitGraph::update_starting_lessons, update_dependency_sinks, get_dependency_sinks")],
     "abstract interpretation of MIR: membership conditions of the computed sets, read off the facts at each write",
     COMMON)

prop("C02", "Nothing is scheduled before its dependencies are met",
     """A search for exercises only ever moves on to a course or lesson if every dependency it lists is satisfied, unless the request
     itself names the unit (or the course whose starting lessons are taken). A dependency is satisfied if it or its course is
     blacklisted, it is superseded by mastered material, nothing is known about its score, or its score and number of trials both reach
     the configured minimum; under a metadata filter, units left out by the filter are bridged by their own dependencies.""",
     ["inputs", "configurations", "histories"],
     "every library, dependency graph, filter, passing-score option and practice history",
     "The tests simulate a few libraries; whether a unit is reached too early depends on the shape of the graph and on scores no test combines.",
     [S + "scheduler.rs", S + "scheduler/data.rs"],
     [("depth-first search", "DepthFirstScheduler::get_initial_candidates, get_candidates_from_graph_helper"),
      ("gate", "all_satisfied_dependencies, satisfied_dependency, resolve_effective_dependencies, passes_threshold")],
     "abstract interpretation of MIR per kind of filter: quantified facts at every push on the search stack; complete truth tables of the gating predicates by case partitioning",
     COMMON + """ Reads of the blacklist and lookups of manifests are assumed to succeed.""")

prop("C38", "A filter restricts a batch to what it asks for",
     """Under a course, lesson, metadata or review-list filter the search only produces exercises of the units the filter names or
     describes: a lesson passes a metadata filter exactly if the filter's conditions on the key and value of the lesson's and its
     course's metadata, combined by all or any, hold; a course is judged by the conditions on courses alone. A study session applies the filter
     of one of its own parts.""",
     ["inputs", "configurations"],
     "every library, every filter of any nesting, every review list and study session",
     "The tests try a few filters on small libraries, mostly with one value per key and one level of nesting.",
     [S + "scheduler.rs", S + "scheduler/data.rs", S + "data/filter.rs"],
     [("scope of the search", "DepthFirstScheduler::get_candidates_from_course, get_candidates_from_lesson, get_candidates_from_review_list, skip_lesson"),
      ("metadata filters", "KeyValueFilter::apply_to_lesson, apply_to_course, SchedulerData::unit_passes_filter")],
     "abstract interpretation of MIR per kind of filter: scope facts at every candidate; complete truth tables of filter evaluation",
     COMMON + """ Exercises of the relearn pile are outside this property. A filter whose evaluation fails for lack of a manifest is not considered.""")

prop("C41", "Scores of units are the averages of what is in use",
     """The score of a lesson is the average score of its exercises that are not blacklisted, that of a course the average over its
     lessons that have a score; units that are blacklisted or superseded, or have nothing in use, have none, and the average number of
     trials is computed over the units in use likewise. An exercise is scored from its own trials and deltas, to which the reward
     computed from the rewards of its lesson and its course is added only where the reward scorer says it applies, staying between 0
     and 5. A unit is superseded only once all of its exercises in use have been practised and no superseding unit with a score, those
     superseded themselves replaced by their own superseding units, is below the configured score.""",
     ["inputs", "configurations", "histories"],
     "every library, blacklist, history of trials and rewards, and chain of superseding units",
     "The tests look at a few libraries in which most units are alike, so that averages over the wrong set often agree.",
     [S + "scheduler/unit_scorer.rs", S + "scheduler/data.rs"],
     [("scores", "UnitScorer::get_exercise_score, get_lesson_score, get_course_score, get_lesson_num_trials, get_course_num_trials"),
      ("superseding", "UnitScorer::is_superseded, get_superseding_recursive, SchedulerData::all_valid_exercises")],
     "abstract interpretation of MIR: complete truth tables over the states of a unit and its members; membership conditions of the sums and counts that are divided",
     COMMON + """ Superseding units without a score of their own (blacklisted ones, say) are left out of consideration either way. Which
     value an exercise's trials are given is not part of this property.""")

prop("C26", "A submitted score is recorded once, with its change and its rewards",
     """Every successful submission of a score for an exercise of the library records exactly one trial: that exercise, the grade's number
     (1 to 5) and the time given. Exactly if there were earlier trials it also records one delta, the grade's number minus the score
     asked for before anything was recorded, and it hands the rewards propagated from this exercise, grade and time to the rewards
     store. A score for anything else is answered with an error and changes nothing.""",
     ["inputs", "histories"],
     "every grade, exercise, time and history of earlier submissions",
     "The tests submit few scores in a row and read back trials; deltas and rewards are looked at for a handful of cases only.",
     [S + "scheduler.rs", S + "data.rs"],
     [("submitting a score", "DepthFirstScheduler::score_exercise"), ("grades", "MasteryScore::float_score")],
     "abstract interpretation of MIR, one run per combination of grade, number of earlier trials and kind of unit; effects recorded at the stores' trait boundary",
     COMMON + """ Whether a delta is right when the earlier score cannot be read is left open; what the stores do with a record is the subject
     of other properties.""")

prop("C27", "The relearn pile and the success rate follow the grades",
     """An exercise graded One or Two is in the relearn pile after the submission and one graded Three to Five is not; the success rate
     counts exactly one success or failure for every submission, by the same split, and is the share of successes, 1 before any. Only
     blacklisted exercises leave the pile otherwise, and setting options keeps the pile.""",
     ["inputs", "histories"],
     "every sequence of submissions, requests, blacklistings and option changes",
     "The tests exercise the pile in isolation with a few grades; whether every submission and option change keeps it in step is not tried.",
     [S + "scheduler.rs", S + "scheduler/relearn_pile.rs", S + "scheduler/data.rs"],
     [("relearn pile", "RelearnPile::update, filter, set_options"), ("success rate", "SchedulerData::update_success_rate, success_rate")],
     "abstract interpretation of MIR, one run per grade and number of earlier trials; effects on the pile's and the counters' storage, found by following the types",
     COMMON)

prop("C25", "Every exercise shown is counted once",
     """Every successful request for a batch raises the frequency of each exercise it returns by exactly one, and that of no other; the
     frequency a candidate is weighed with is the one counted for its own exercise, 0 if it was never shown.""",
     ["inputs", "histories"],
     "every library and sequence of requests and filters",
     "The tests do not observe the frequencies; a wrong count only shifts the odds of later batches.",
     [S + "scheduler.rs", S + "scheduler/data.rs"],
     [("counting", "DepthFirstScheduler::get_exercise_batch, SchedulerData::increment_exercise_frequency, get_exercise_frequency")],
     "abstract interpretation of MIR: stores to the frequency map per returned element, and the provenance of every candidate's frequency",
     COMMON)

prop("C42", "Rewards travel in the right direction and only get weaker",
     """A score of Four or Five gives positive rewards to the units the exercise's lesson and course encompass, directly or through
     others; a lower score gives negative rewards to the units that encompass them. Each step multiplies the reward and its weight by the
     weight of the edge, after the first step also by constant factors below 1, and nothing is passed on below fixed thresholds; all
     that is not below is passed on. Where several rewards reach a unit the strongest is kept, one per unit, with the time of the trial.""",
     ["inputs"],
     "every grade and every graph of encompassed units and weights",
     "The tests propagate over a few small graphs in which few units are reached twice.",
     [S + "scheduler/reward_propagator.rs"],
     [("propagation", "RewardPropagator::propagate_rewards, propagate_rewards_helper, get_next_units, stop_propagation, initial_reward")],
     "abstract interpretation of MIR per grade and per relation to the reward already known: form of the products, direction and guards of every reward made, recorded or returned",
     COMMON + """ Sizes are judged by the factors in the products; the thresholds' exact values are not part of the property.""")
