MODELS = N + "persistence/models/"
prop("H01", "A reference names one trial, and each trial knows its parent and tag",
     "A trial reference (id, sequence key or tag) selects exactly that trial, none selects the last "
     "one of the script, and an unknown one is an error. The parent of a new trial is the trial "
     "that was restored last for its script, once, or else the last trial of the script; inherited "
     "modules come from the last trial that collected its own. Automatic tags continue the greatest "
     "tag in the experiment, numbered by code and then by command, and listings have the trials of "
     "one experiment from the newest to the oldest.",
     ["histories of trials of any scripts, codes, commands, experiments and tags", "references"],
     "every history of runs, restores and imports before the reference is resolved",
     "The tests resolve references in databases with a few trials of one experiment.",
     [MODELS + "trial.py", MODELS + "tag.py", MODELS + "head.py", N + "collection/metadata.py"],
     [("reference", MODELS + "trial.py:load_trial"), ("parent", MODELS + "trial.py:load_parent"),
      ("tags", MODELS + "tag.py:create_automatic_tag")],
     technique="path analysis with canonical forms of the queries on each path",
     note="Which trial is selected among trials that start at the same time is not decided.")
prop("H02", "The history has the trials that match, joined to their nearest ancestors",
     "A history shows every trial of its experiment that matches its script and its status, from the "
     "oldest to the newest, and only them. An edge joins each of them to its nearest ancestor among "
     "the others, at the number of parents between them, and automatic tags with the same first two "
     "numbers are one node when the history is summarized. A history is reused only for the same "
     "filters, the same experiment and the same number of trials.",
     ["trees of trials of any depth, scripts, statuses, tags and experiments", "filters"],
     "every history of runs, restores, imports and pulls, and every filter applied to it",
     "The tests have histories of a few trials of one experiment, mostly unfiltered.",
     [N + "models/graphs/history_graph.py", N + "models/history.py", MODELS + "trial.py"],
     [("history", N + "models/graphs/history_graph.py:history_data"),
      ("distances", N + "models/graphs/history_graph.py:_calculate_distances"),
      ("edges", N + "models/graphs/history_graph.py:_edges")],
     technique="abstract execution of the steps of the construction and loop-binding analysis of the "
               "distance computation",
     note="A trial without ancestors may have an edge to itself, and the level where a trial is drawn "
          "is not decided.")
