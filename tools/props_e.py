DEP = N + "collection/prov_deployment/"
prop("E01", "However the script ends, its trial is stored with the outcome",
     "Whether the script ends normally, exits with any status, raises an exception that it does "
     "not catch, or is interrupted, the trial is stored with the records of every kind, its finish "
     "time and a status that is finished exactly if the script succeeded (a normal end, or an exit "
     "with status 0 or none); its content is committed. Nothing of the capture stays installed in "
     "the import system, and the file with the last trial is written even if the run fails.",
     ["programs", "schedules"], "every way in which a script can end",
     "The tests run few scripts to the end, all of which end normally.",
     [EXE + "execution.py", N + "cmd/cmd_run.py", EXE + "collector.py", MODELS + "trial.py"],
     [("execution", EXE + "execution.py:collect_provenance"), ("run", N + "cmd/cmd_run.py:run"),
      ("outcome", MODELS + "trial.py:fast_update")],
     technique="path analysis with an exceptional edge for every ending of the script",
     note="All abstract paths of run, execution and store with five kinds of endings.")
prop("E03", "Imports work as without capture, and every module is recorded as asked",
     "Importing a module under capture runs its body exactly once in its own namespace, and what "
     "it raises reaches the import statement. A source module is instrumented exactly if the "
     "context includes it (all: every module; package: those below the directory of the script; "
     "main: none), and every module that is instrumented, or any module unless modules are "
     "bypassed, is recorded once with its name, version, path and code.",
     ["programs", "configurations"], "every module, loader and context",
     "The tests import few modules in the default context.",
     [DEP + "py3module.py", DEP + "deployment.py", N + "collection/metadata.py"],
     [("loaders", DEP + "py3module.py:create_source_loader"), ("finder", DEP + "py3module.py:finder")],
     technique="path analysis of the loaders against the table of contexts",
     note="Every context, position of the module and bypass flag over all paths of every loader.")
