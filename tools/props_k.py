CMD = N + "cmd/"
prop("K01", "Command-line options are accepted, stored and honoured",
     "Every command of `now` is available under one name, and every option that it offers has an "
     "effect: it is read by the command, is not overwritten by another argument with the same "
     "destination, and every argument that a command reads is one that it offers. Commands that "
     "use a database connect to the one of --dir (or of the current directory) with the engine "
     "of --content-engine before they use any record; the commands that list, show, compare, "
     "export, restore, clean or collect trials never create one.",
     ["inputs"], "every command and option", "The tests run only a few commands.",
     [CMD + "__init__.py", CMD + "command.py", CMD + "cmd_run.py"],
     [("commands", CMD), ("database connection", N + "persistence")],
     technique="definition-use analysis of the parsed arguments and order of effects on the abstract "
     "paths of the commands",
     note="All commands with their options, following the arguments through the functions that "
     "receive them.")
prop("K02", "Commands show exactly what their options ask for",
     "`now show` prints the sections of its trial that are asked and no other; `now diff` prints "
     "the asked comparisons from its first to its second trial with additions, removals and "
     "replacements under their titles, brief and without timestamps if asked; `now evaluation` "
     "finds exactly the evaluations of the trial that match every given criterion (an index selects "
     "one of them or none) with the asked details. `now dataflow`, history, list, export, prov, "
     "schema, ast, gc, clean and vis ask their models for what their options document.",
     ["inputs"], "every combination of options", "The tests run only a few commands.",
     [CMD + "cmd_show.py", CMD + "cmd_diff.py", CMD + "cmd_evaluation.py", CMD + "cmd_dataflow.py",
      N + "models/dependency_graph/config.py"],
     [("commands", CMD), ("query of evaluations", CMD + "cmd_evaluation.py")],
     technique="dataflow from the options to what is printed and queried on the abstract paths of "
     "the commands, per combination of options",
     note="All combinations of the flags of show, diff and evaluation; every other command with "
     "each of its options.")
prop("X01", "Comparing two trials reports exactly their differences",
     "The diff of two trials lists as added what only the second has, as removed what only the "
     "first has, and as replaced the modules and environment attributes of the same name that "
     "differ (which are then neither added nor removed); file accesses are never replaced. Modules "
     "are the same if name, version and content agree, attributes if name and value do, accesses "
     "if name, mode and contents before and after do; trial attributes that differ are given with "
     "the value of the first and of the second. Comparing two activations uses for each one the "
     "records of its own trial and activation, and diff graphs combine both trials.",
     ["inputs", "histories"], "every pair of trials", "The tests compare a few small trials.",
     [N + "models/diff.py", N + "models/graphs/diff_graph.py", CMD + "cmd_diff.py"],
     [("diff of trials", N + "models/diff.py"), ("diff of graphs", N + "models/graphs/diff_graph.py")],
     technique="abstract interpretation of the comparisons: provenance of each reported value and "
     "symmetry of both sides",
     note="All comparisons of trials, their records, activations and graphs.")
