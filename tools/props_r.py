prop("R01", "Restoring a trial loses no content of the project",
     "Before `now restore` overwrites or removes a file, its current content is in the content "
     "database, and the content that replaces it has been read. Restoring a trial first compares "
     "every file of the parent trial and every existing file that it would change; unless all of "
     "them match, a backup trial with the current content of each is stored and committed before "
     "the first file changes, and no file outside of the path of the trial changes.",
     ["histories", "inputs", "crash points"], "every trial, state of the files and failure",
     "The tests do not run the restore command.",
     [N + "cmd/cmd_restore.py", MODELS + "trial.py"],
     [("backup", N + "cmd/cmd_restore.py:create_backup"),
      ("restore", N + "cmd/cmd_restore.py:restore"),
      ("comparison", N + "cmd/cmd_restore.py:find_differences")],
     technique="must-precede analysis on the abstract paths of the command",
     note="All abstract paths of the command for each kind of file, changed, equal and missing.")
prop("R02", "Restoring brings every file back to its version in the trial",
     "`now restore` gives the script, the local modules and the files that the trial accessed "
     "(unless their kind is skipped) exactly the bytes that they had before the trial, and removes "
     "files that did not exist; equal files are not touched and the trial becomes the parent of "
     "the next one. A single file is restored in the version that its time, hash or number of "
     "access identifies.",
     ["histories", "inputs"], "every trial, kind of file and way to ask for a version",
     "The tests do not run the restore command.",
     [N + "cmd/cmd_restore.py", MODELS + "trial.py"],
     [("restore", N + "cmd/cmd_restore.py:restore"), ("versions", MODELS + "trial.py:versioned_files"),
      ("lookup", N + "cmd/cmd_restore.py:find_file")],
     technique="dataflow from the records of the trial to the written bytes, on abstract paths",
     note="All abstract paths of the command, the selection of versions and the lookup of one.")
