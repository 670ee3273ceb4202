VIS = N + "vis/views.py"
prop("W01", "Every URL of the web interface is answered with the data it names",
     "Every URL of `now vis` reaches a handler that accepts its parts, and the answer about a "
     "trial, activation, file, annotation, group or pair of trials has the records of exactly "
     "the ones that the URL names, under its documented keys (added, removed and replaced from "
     "the first to the second trial). Collaboration requests (bundles, list and upload of files, "
     "ids of trials and users) for an experiment that does not exist, and changes of a remote "
     "that does not exist, are refused as errors before anything is read or changed; accepted "
     "changes are committed.",
     ["inputs"], "every URL and request", "The tests do not request any URL.",
     [VIS], [("routes and handlers", VIS)],
     technique="dataflow from the URL to the answer on the abstract paths of the handlers",
     note="All routes against the parameters of the handlers, and all abstract paths of the "
     "handlers; the models behind them are opaque.")
prop("W02", "Requests to the web interface cannot inject into the commands it runs",
     "Every command that a request to `now vis` starts is `now` with the command of the URL "
     "(push or pull for collaboration; anything else is refused), run without a shell. Every part "
     "of the request is exactly one argument, whatever characters it has, and an option of the "
     "command is given exactly if the request asks for it, with its own part of the request as "
     "value.",
     ["inputs"], "every request, whatever its parts contain", "The tests do not request any URL.",
     [VIS, N + "cmd/command.py"], [("commands of requests", VIS)],
     technique="taint analysis from the URL to the words of commands on abstract paths",
     note="All abstract paths of the handlers that start commands, and the options of the commands.")
