DEF = N + "collection/prov_definition/"
EXE = N + "collection/prov_execution/"
prop("A01", "The instrumented program is the program the user wrote",
     "What runs under provenance capture is the user's program: for every construct of the "
     "language, each part of it is evaluated exactly as often, in the order and with the operands "
     "that the original construct gives it, statements run once each in the original order, and "
     "exceptions of the script leave it as they would without capture. Recording adds nothing to "
     "the program that evaluates one of its expressions again or drops one.",
     ["programs"],
     "every program in the language that the tool accepts, every nesting of constructs",
     "The tests instrument a fixed list of snippets and compare the records; programs are "
     "unbounded, and the tests do not compare what the instrumented program computes.",
     [DEF + "transformer.py", DEF + "ast_helpers.py", DEF + "ast_elements.py", DEF + "utils.py",
      EXE + "collector.py"],
     [("construct by construct rewriting", DEF + "transformer.py:RewriteDependencies"),
      ("statement rewriting", DEF + "transformer.py:RewriteAST"),
      ("builders of the emitted tree", DEF + "ast_elements.py")],
     technique="abstract interpretation of the transformer, erasure of hooks from emitted trees",
     note="Every visitor is interpreted; the emitted tree, hooks replaced by the operand that the "
          "Collector hands back, must be the source construct. Trusts ast, copy and pyposast.")
prop("A02", "Provenance capture only watches the values of the script",
     "Recording never changes or runs the script: every value that passes through the recorder "
     "is handed back unchanged, and apart from the operation that the script itself performs "
     "there, which happens exactly once with the script's operands, no method, operator, "
     "iterator or attribute of a script's value is run to record it. An exception of the "
     "script's operation reaches the script unchanged.",
     ["programs", "inputs"],
     "every value and every type of value that a captured script can produce, however its "
     "methods behave",
     "The tests capture snippets with builtin values; user types with arbitrary behaviour of "
     "their operators, iteration and representation are not sampled.",
     [EXE + "collector.py", EXE + "structures.py", N + "collection/helper.py"],
     [("hooks", EXE + "collector.py:Collector"),
      ("transparent opening of files", EXE + "collector.py:new_open")],
     technique="taint and effect analysis of program values through all hooks",
     note="Follows program values through each hook on all abstract paths; any test, comparison, "
          "iteration, formatting, hashing or call of one that is not the script's own is reported. "
          "Representation by repr (guarded) is by design.")
prop("A03", "What is recorded for a construct ends with the construct",
     "Recording of one construct never leaks into the constructs around it: whatever recording "
     "opens for an expression or statement it closes when that construct ends, on every path "
     "(captured or beyond the depth limit, known or unknown values), so that the dependencies "
     "of a construct are collected for that construct only. Every recording call that the "
     "instrumented program makes exists and accepts its arguments in their roles.",
     ["programs", "configurations"],
     "every construct, every path of the recorder, every depth limit",
     "The tests run small snippets at the default depth; imbalances show only on other paths and "
     "in later, unrelated constructs.",
     [EXE + "collector.py", DEF + "transformer_expr.py", DEF + "transformer_stmt.py"],
     [("stack of open records", EXE + "collector.py:DependencyAware"),
      ("emission of hooks", DEF + "ast_helpers.py")],
     technique="stack-effect (typestate) analysis of hooks composed over emitted constructs",
     note="Net stack effects of all abstract paths of each hook must agree and cancel over each "
          "emitted construct; exceptional exits are left to the handlers.")
prop("A04", "Recorded activations nest as the calls of the script do",
     "Every call, class body and script that runs under capture begins one activation below its "
     "caller and ends exactly that one when it returns or raises, with its time, its value and "
     "its exception; afterwards the caller is the current activation again. Activations are "
     "captured exactly up to the requested depth, and going beyond it changes nothing else.",
     ["programs", "configurations", "fault_sequences"],
     "every nesting of calls, every exception, every depth limit",
     "The tests do not combine depth limits with exceptions, imports or callbacks.",
     [EXE + "collector.py", N + "persistence/lightweight/activation.py"],
     [("begin", EXE + "collector.py:start_activation"), ("end", EXE + "collector.py:close_activation"),
      ("call", EXE + "collector.py:_call")],
     technique="typestate analysis of begin/end with failure edges on the script's function",
     note="All abstract paths of the functions that begin, end and perform calls; failing and "
          "returning calls are both explored.")
prop("A05", "Every file the script opens is recorded with its content before and after",
     "Whatever way of opening the script uses (open, io, codecs, os), every file opened by name is "
     "recorded before it is opened, with its name, mode, activation and the content it has then. "
     "When the code that uses the file ends, the content it then has is recorded, wherever the "
     "script has changed its directory to and at any depth limit.",
     ["programs", "inputs", "configurations"],
     "every file name and argument form, every place of the script that opens files",
     "No test runs a script that opens files.",
     [EXE + "collector.py", EXE + "execution.py", N + "persistence/lightweight/file_access.py",
      CONTENT + "safeopen.py"],
     [("replacement of open", EXE + "collector.py:new_open"),
      ("final content", EXE + "collector.py:close_activation"),
      ("installation", EXE + "execution.py:configure")],
     technique="path analysis of the open wrapper, handover of obligations, enumeration of openers",
     note="All abstract paths of the wrapper and of the end of activations; reasons not to record "
          "are enumerated. Descriptors and extension modules are out of scope by design.")
