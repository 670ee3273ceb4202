prop("P01", "The Prolog export has every record as a valid fact that the rules can use",
     "For every record of a trial that a Prolog description covers, `now export` and the Prolog "
     "queries have one fact with the values of the columns of that record, each in a form that "
     "Prolog reads back as this value: texts as quoted atoms, whatever quotes and line breaks they "
     "have, missing values as nil, booleans and numbers as numbers. The rules shipped with the tool "
     "use only facts and rules that exist, with the number of attributes that these have.",
     ["inputs"], "every record, whatever texts and missing values it has, and every rule",
     "The tests do not export any trial to Prolog, and no Prolog is installed where they run.",
     [N + "utils/prolog.py", N + "models/trial_prolog.py", "capture/noworkflow/resources/rules.pl",
      N + "persistence/models/*.py"],
     [("forms of the attributes", N + "utils/prolog.py"), ("facts of a trial", N + "models/trial_prolog.py"),
      ("rules", "capture/noworkflow/resources/rules.pl")],
     technique="comparison of descriptions, columns and rules; abstract paths of each form of attribute",
     note="All descriptions against the columns, all paths of each form, and every goal of every "
     "rule; what Prolog derives from them is not decided.")
