prop("C01", "Content is stored under, and returned by, its own digest",
     "Storing any byte string returns an identifier that depends only on those bytes, identical "
     "for identical content and a cryptographic digest otherwise, and asking the store for that "
     "identifier returns exactly the bytes that were stored. An abbreviated identifier is "
     "completed only to a stored identifier that begins with it. This holds for the synchronous "
     "and the worker-based variants of every storage engine.",
     ["inputs", "configurations"],
     "every byte string, file name and storage engine, in any order of stores and reads",
     "The tests run with a mocked in-memory store; no test stores content with any real engine, "
     "and no finite set of contents settles the agreement of writer and reader.",
     [CONTENT + "plain_engine.py", CONTENT + "gitbase.py", CONTENT + "puregit_engine.py",
      CONTENT + "pygit_engine.py", CONTENT + "dulwich_engine.py", CONTENT + "parallel.py",
      N + "persistence/content_database.py"],
     [("digest as file name", CONTENT + "plain_engine.py:PlainEngine.do_put"),
      ("git object identifiers", CONTENT + "gitbase.py:_get_hash_from_content"),
      ("delegation to the engine", N + "persistence/content_database.py:__getattr__")],
     technique="origin-term dataflow: writer/reader agreement of paths, bytes and identifiers",
     note="Decides the agreement of writer and reader for every input by comparing origin terms "
          "on all abstract paths; trusts hashlib, git, pygit2 and dulwich.")
prop("C02", "An interrupted store never leaves truncated content behind",
     "If storing content stops at any point (crash, full disk, error), each identifier is "
     "afterwards either absent or serves the complete content, and storing the same content "
     "again succeeds in making it available.",
     ["crash_points", "fault_sequences"],
     "every point at which a store operation of the plain engine can be interrupted",
     "The tests never interrupt a store; the outcome depends on the place of the interruption.",
     [CONTENT + "plain_engine.py"],
     [("write then rename", CONTENT + "plain_engine.py:PlainEngine.do_put")],
     technique="path-ordering analysis (write, close, rename) with failure edges",
     note="All abstract paths of put, including those on which an operation fails, are checked: "
          "no served name is opened for writing and the rename follows the close.")
prop("C03", "All content storage engines are interchangeable",
     "Every storage engine that can be selected exists and accepts each operation the commands "
     "perform on the store with the arguments they pass, and the engine a user names is the one "
     "used. A commit of a git store links every object that was registered since the "
     "previous commit under a name of its own.",
     ["configurations", "inputs"],
     "every engine of the engine table, every operation that a command performs",
     "The tests use one mocked engine; each engine and operation pair is a separate configuration.",
     [N + "persistence/content_database.py", CONTENT + "base.py", CONTENT + "plain_engine.py",
      CONTENT + "gitbase.py", CONTENT + "puregit_engine.py", CONTENT + "pygit_engine.py",
      CONTENT + "dulwich_engine.py", CONTENT + "parallel.py"],
     [("engine table", N + "persistence/content_database.py:ContentDatabase"),
      ("common interface", CONTENT + "base.py:ContentDatabaseEngine")],
     technique="call-site / signature agreement over all engines, sibling comparison",
     note="Every call site on the store is bound against every engine's signature; abstract "
          "operations and argument slots are compared across siblings.")
prop("C04", "Asynchronous storage loses nothing",
     "With the worker-based storage engines, content is queued only while workers run; a commit, "
     "a close and the end of the process wait until everything that was queued is stored. "
     "Every command that stores content finishes with a commit or a close, and never hangs "
     "waiting for workers that were not told to stop.",
     ["schedules", "histories"],
     "every interleaving of the program with the storage workers, every sequence of stores, "
     "commits and closes",
     "No test uses a worker-based engine; losing a queued item depends on scheduling.",
     [CONTENT + "parallel.py", CONTENT + "gitbase.py", N + "cmd/cmd_run.py",
      N + "cmd/cmd_restore.py", N + "cmd/cmd_import.py", N + "cmd/cmd_pull.py"],
     [("shutdown markers and join", CONTENT + "parallel.py:create_distributed"),
      ("pool close and join", CONTENT + "parallel.py:create_pool"),
      ("thread join", CONTENT + "parallel.py:create_threading"),
      ("commit waits", CONTENT + "gitbase.py:commit_content")],
     technique="typestate and must-pass-through analysis of the worker protocol",
     note="Path analysis of start/queue/acknowledge/stop/join in each engine and of every command "
          "that stores content; trusts multiprocessing and threading.")
prop("C05", "The tool's own file activity is never captured as the script's",
     "Files that the tool itself opens while a script runs are never recorded as accesses of the "
     "script, and opening is not intercepted for them. The suspension of capture affects only "
     "the calling thread, nests, and ends exactly when the tool's operation ends, also when it "
     "fails; the body of a captured module is never run under it.",
     ["schedules", "fault_sequences", "programs"],
     "every thread, every nesting of internal operations, every failure inside of them, every "
     "imported module",
     "The tests do not open files from several threads, do not fail inside internal operations "
     "and import no captured modules that read files.",
     [CONTENT + "safeopen.py", CONTENT + "plain_engine.py", CONTENT + "dulwich_engine.py",
      CONTENT + "puregit_engine.py", N + "collection/prov_deployment/py3module.py",
      N + "collection/prov_execution/collector.py"],
     [("per-thread suspension", CONTENT + "safeopen.py:use_safe_open"),
      ("temporary originals", CONTENT + "safeopen.py:restore_open"),
      ("guard of the replacement", N + "collection/prov_execution/collector.py:new_open"),
      ("module loaders", N + "collection/prov_deployment/py3module.py")],
     technique="pairing analysis with failure edges, must-be-inside and who-may-call rules",
     note="Suspension is checked on normal and failing exits; every opening call in the modules "
          "that run next to the script is enumerated.")
