G = N + "models/dependency_graph/"
prop("N01", "The dataflow graph has the evaluations, accesses and arrows of the trial",
     "The graph of `now dataflow` (and its PROV-N form) has one node for each evaluation, activation, part "
     "and file access that the filters accept, in the cluster of its activation, and an arrow from "
     "each dependent to each dependency, part, read file and written file between them; arrows "
     "through nodes that are not shown join the nodes on their ends. Every node and edge is "
     "written. Texts of the trial end where their quotes end, whatever they contain.",
     ["inputs"], "every trial, filter and text",
     "The tests draw small scripts with names and values that have neither backslashes nor quotes.",
     [G + "clusterizer.py", G + "attributes.py", G + "dot_visitor.py", G + "prov_visitor.py",
      G + "base_visitor.py"],
     [("construction of the graph", G + "clusterizer.py"), ("texts of the graph", G + "dot_visitor.py")],
     technique="counting of effects on abstract paths of the construction, and dataflow of texts to quotes",
     note="Order of ranks, synonyms of types and colors are not decided.")
