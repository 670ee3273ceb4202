G = N + "models/graphs/"
prop("G01", "The graph of activations has each activation once, under its caller",
     "In every mode of the graph of a trial, each activation of the trial is in exactly one node, "
     "whose parent has its caller, with its duration; activations share a node only if they match "
     "(same line and name, or same structure; never in the tree and in the graph without matches). "
     "A stored graph is used only for the same trial or pair of trials, mode and options, and only "
     "of finished trials; a stored graph that cannot be read is calculated again, and trials "
     "without activations have an empty graph.",
     ["inputs", "history"], "every tree of calls, including generators that are resumed, and every "
     "state of the cache", "The tests have small trees of calls without generators, and a cache that "
     "can always be read.",
     [G + "trial_graph.py", G + "structures.py", G + "diff_graph.py", N + "persistence/models/graph_cache.py"],
     [("placement of activations", G + "trial_graph.py"), ("cache of graphs", G + "structures.py")],
     technique="counting of effects on abstract paths, with faults at every read of the cache",
     note="One step of the traversal on all abstract paths; that steps compose is by the order of "
     "the activations. The drawing is not decided.")
