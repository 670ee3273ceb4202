MODELS = N + "persistence/models/"
LWP = N + "persistence/lightweight/"
prop("D01", "Every recorded value is stored in its own column",
     "Each field of every record (trial, module, component, evaluation, activation, dependency, "
     "member, file access, …) is written into the database column of the same name with the value "
     "it was recorded with; missing references become NULL and nothing else does.",
     ["programs", "inputs"], "every record of every type, every insertion and update",
     "Tests read back a few fields of a few records.",
     [LWP + "base.py", LWP + "evaluation.py", MODELS + "base.py", MODELS + "trial.py"],
     [("rows", LWP + "base.py:BaseLW"), ("bulk insertion", MODELS + "base.py:AlchemyProxy.store"),
      ("trial", MODELS + "trial.py:create")],
     technique="declaration matching and constructor dataflow over abstract paths",
     note="Complete over the declared records, columns, constructors and keyed insertions.")
prop("D02", "Export, push, pull and import transfer every record and its content intact",
     "A trial that is exported to a bundle and imported from it (locally or through a server) has "
     "there the same records of every kind, each column with its value, and the content that they "
     "refer to; exactly the trials that the other side does not have are transferred.",
     ["programs", "histories", "configurations"], "every trial, record and column, both directions",
     "The tests have no collaboration test.",
     [N + "utils/collab.py", LWP + "bundle.py", N + "cmd/cmd_import.py", N + "cmd/cmd_push.py",
      N + "cmd/cmd_pull.py"],
     [("export", N + "utils/collab.py:export_bundle"), ("import", N + "utils/collab.py:import_bundle"),
      ("wire format", LWP + "bundle.py:BundleLW")],
     technique="dataflow of columns through the stages of the transfer, matched with declarations",
     note="Every column of every record class through export, JSON, rebuild and store.")
prop("D05", "Saving provenance in parts loses no record and no later change of one",
     "Whenever and however often partial provenance is saved during a run, every record is in the "
     "database at the end, once, with its last values: a save writes everything recorded so far "
     "and forgets only records that are complete.",
     ["programs", "schedules", "configurations"],
     "every number and position of partial saves in a run",
     "The tests save once at the end.",
     [LWP + "base.py", LWP + "evaluation.py", LWP + "file_access.py", EXE + "collector.py"],
     [("stores", LWP + "base.py:ObjectStore"), ("completeness", LWP + "evaluation.py:is_complete"),
      ("saving", EXE + "collector.py:store")],
     technique="path analysis of the record stores (ownership of records between memory and database)",
     note="All abstract paths of the operations of the stores, for present, missing, complete and "
          "incomplete records.")
prop("D03", "Each record leads to exactly its related records of the same trial",
     "From any stored record, its relations and computed attributes (the caller and evaluations of "
     "an activation, the members, dependencies and containers of an evaluation, the calls and "
     "parameters of a code block, the modules and status of a trial, its AST, …) lead to all and "
     "only the records that the relation names, whatever other trials are in the database. Records "
     "loaded from the database have the values of their row and are equal exactly when class and "
     "key are equal.",
     ["databases with any number of trials, whose records share the same ids", "record kinds"],
     "every combination of trials in a database, each of which numbers its records from the same start",
     "The tests read databases with one trial, in which ids do not collide.",
     [MODELS + "relationships.py", MODELS + "base.py", MODELS + "trial.py",
      MODELS + "activation.py", MODELS + "code_block.py", N + "models/ast/trial_ast.py"],
     [("relations", MODELS + "relationships.py:bidirectional_relationship"),
      ("identity", MODELS + "base.py:AlchemyProxy"),
      ("queries", N + "models/ast/trial_ast.py:label_def")],
     technique="abstract execution of the relation declarations and canonical form of the queries",
     note="All 74 relations, computed accessors and queries of record tables. A relation that is "
          "added later is not compared.")
