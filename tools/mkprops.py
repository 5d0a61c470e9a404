"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(),
         observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(text.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s))
                                    for s in state],
                          "mechanism": [dict(zip(("name", "where"), m))
                                        for m in mechanism],
                          "observe_at": list(observe),
                          "hook_needed": None}})


NOTESTS = ("The 15 stable tests only call methods of the List and Range classes; "
           "no test runs a program, reads input, interrupts anything or starts "
           "the REPL. ")

prop("C01", "An interrupted program leaves exactly a prefix of its run",
     """If a running program is cut short at any moment (Ctrl-C, also while it waits
     for input; running out of stack; running out of memory), then what it printed,
     the input lines it took and the random numbers it drew are a prefix, in order,
     of what the undisturbed run does, and nothing more happens afterwards. The
     interruption is never swallowed or retried: the interpreter stops with a nonzero
     exit status, and Ctrl-C or stack exhaustion while the program executes is
     reported on stderr without a Python traceback.""",
     ["programs", "crash_points", "inputs"],
     """every program, every execution step as the interruption point, every kind of
     interruption (Ctrl-C, Ctrl-C in a blocked read, stack exhaustion, failed
     allocation)""",
     NOTESTS + "The number of (program, interruption point) pairs is unbounded and "
     "an interruption handler that misbehaves does so only at particular points.",
     ["pip.py", "execution.py"],
     [("pip()/main() convert FatalError, RuntimeError and KeyboardInterrupt into a "
       "message and exit status 1", "pip.py"),
      ("operators catch only the exceptions they expect", "execution.py")],
     observe=["stdout, stdin and random draws in program order", "exit status", "stderr"])

prop("C02", "No failing statement can end a REPL session",
     """Whatever goes wrong while a REPL entry is parsed or executed (syntax errors, fatal errors, internal errors of any operator, stack exhaustion, memory
     exhaustion, Ctrl-C during execution), an error is reported on stderr and the
     next entries are read and executed as usual. A session ends only at
     ;quit/;exit (or an abbreviation), at the end of input, or at Ctrl-C while a
     prompt is waiting; it then prints "Bye!" and exits with status 0. An entry is
     held open for more lines only while some continuation can still complete it.""",
     ["histories", "fault_sequences", "crash_points", "inputs"],
     """every sequence of entries, valid, invalid or garbage, and every placement of
     faults in them""",
     NOTESTS + "The REPL loop is not exercised at all; which exceptions escape depends "
     "on the entry and on when the fault strikes.",
     ["pip.py", "scanning.py", "parsing.py", "execution.py"],
     [("error handlers around scanning, parsing and execution in the REPL loop",
       "pip.py")],
     observe=["stdout", "stderr", "exit status", "lines consumed"])

prop("C03", "A failed REPL statement keeps the session state intact",
     """When a REPL statement fails or is interrupted part-way, including inside
     nested function calls, callbacks and loops, the session afterwards has exactly
     the variables it would have if the statement had stopped there: assignments
     completed before the failure are visible, later ones are not, and no value is
     half-modified. The local variables (a-g) and history ($_, $__, $___) seen at the
     prompt are those of the top level, never those of a function that was running
     when the failure struck.""",
     ["histories", "crash_points", "fault_sequences"],
     """every session, every failing statement, every call depth and every execution
     step at which Ctrl-C, memory exhaustion, stack exhaustion or a fatal error
     strikes""",
     NOTESTS + "Needs a failure at a chosen step of a multi-statement session followed "
     "by inspection of all variables.",
     ["pip.py", "execution.py"],
     [("local scope stack opened and closed around calls", "execution.py"),
      ("REPL error handlers", "pip.py")],
     [("scopes / localScope / callDepth", "stack of local scopes", "execution.py")],
     observe=["values displayed by later REPL entries"])

prop("C04", "Variables hold independent values",
     """A variable, list element, function argument or constant changes only when it
     is itself assigned or updated in place: after any sequence of assignments, item
     assignments, in-place operators, loops and function calls (also ones cut short),
     every variable holds the value that an execution over immutable values gives it.
     Literals, constants inside functions, predefined values and the program's own
     arguments are never altered by changing a variable that was given their
     value.""",
     ["histories", "programs", "crash_points"],
     """every history of operations over shared values, including histories with
     interrupted statements""",
     NOTESTS + "Aliasing shows only after two cooperating operations on a shared value "
     "and then a read; the space of such histories is unbounded.",
     ["execution.py", "ptypes.py"],
     [("values are copied when a variable is read", "execution.py"),
      ("copy() of List and Scalar", "ptypes.py")],
     [("vars / localScope.vars", "variable tables", "execution.py")],
     observe=["values displayed by later statements"])

prop("C05", "Input lines are consumed exactly once, in order, on demand",
     """The sequence of values a program gets from stdin is the sequence of lines of
     the input, each exactly once and in order (then nil at end of input), no matter
     how the bytes arrive: split anywhere, delayed, interrupted by signals, with any
     line terminator or none at the end. Each mention of the input variable q takes
     exactly one line at the moment it is evaluated, reading never takes more lines
     than the program asked for, and with -r all lines become the arguments.""",
     ["inputs", "schedules", "fault_sequences", "programs"],
     """every input text, every way of delivering it (chunk boundaries, delays, EINTR,
     end of file), every program that reads""",
     NOTESTS + "No test reads input; delivery schedules are invisible to example tests.",
     ["execution.py", "pip.py"],
     [("the special variable q reads one line when evaluated and remembers it for that "
       "mention", "execution.py"),
      ("-r reads lines until end of file", "pip.py")],
     observe=["lines consumed from stdin, in program order", "stdout"])

prop("C06", "Output arrives complete, in order, and before a blocking read",
     """Everything a program prints reaches stdout exactly once and in program order
     however the device behaves (short writes, interrupted writes), everything printed
     before a read is visible to the reader of stdout before the interpreter waits for
     input, and output printed before a fatal error is not lost. If output cannot be
     written (full disk, closed pipe, I/O error, unencodable text) the interpreter
     stops with a nonzero exit status, and what did reach the device is a prefix of
     the correct output.""",
     ["schedules", "fault_sequences", "programs"],
     """every program, every pattern of short, interrupted and failing writes, every
     peer that waits for output before it answers""",
     NOTESTS + "No test captures a program's output, let alone with a failing device.",
     ["execution.py", "pip.py"],
     [("stdout is flushed at the end of a program", "execution.py"),
      ("print() for all output commands", "execution.py")],
     observe=["bytes that reach the stdout device", "exit status"])

prop("C07", "A program is loaded whole or not at all",
     """The code that is executed is exactly the code that was given (with -e, -f, a
     file argument, -i or interactively, or through the Python API), however file or
     stdin delivers it; if it cannot be read completely, nothing of it is executed and
     the exit status is nonzero. An auxiliary file of the interpreter being missing or
     unreadable never disturbs a program.""",
     ["fault_sequences", "inputs", "configurations"],
     """every program text, every code source, every file and stdin fault (missing,
     unreadable, directory, invalid encoding, I/O error after any prefix, short reads,
     EINTR)""",
     NOTESTS + "No test loads a program from any source.",
     ["pip.py", "execution.py"],
     [("reading of the code file and of code from stdin", "pip.py"),
      ("optional data file read by the interpreter", "execution.py")],
     observe=["stdout", "stderr", "exit status"])

prop("C08", "A seeded program is exactly reproducible",
     """After a program assigns a seed to r, every later random result (r, RR, RC, SH)
     is a function of the seed and the operations performed since, and of nothing
     else: not of what was drawn or seeded before, earlier runs in the same process,
     system entropy, the clock or Python's hash seed. Without a seed, results vary
     with the system's entropy from run to run.""",
     ["programs", "configurations", "histories"],
     """every program with random operations, every history before the seed, every
     entropy, clock and hash seed""",
     NOTESTS + "No test touches randomness; reproducibility compares whole runs under "
     "different environments.",
     ["execution.py"],
     [("r: seeds the generator with the string form of the value", "execution.py"),
      ("RR, RC and SH draw from the same generator as r", "execution.py")],
     observe=["stdout", "random draws"])

prop("C09", "Random results are legal for every outcome of the generator",
     """Whatever raw outcomes the random generator produces: x RR y is an integer n
     with x<=n<y and RR x an integer with 0<=n<x (for bounds that leave a choice), RC
     gives an element of its non-empty operand, SH gives a permutation of its operand, r lies in [0,1), and every operand is left
     unchanged. Every legal result is attainable, and lists and ranges of bounds are
     handled item by item.""",
     ["inputs", "schedules", "programs"],
     """every operand and every sequence of generator outcomes, in particular the
     extreme ones""",
     NOTESTS + "No test draws a random number; the boundary outcomes have negligible "
     "probability under an ordinary generator.",
     ["execution.py"],
     [("RANDRANGE, RANDRANGETO, RANDCHOICE, SHUFFLE operators and getr",
       "execution.py")],
     observe=["stdout"])

prop("C10", "Runs in one process do not affect each other",
     """Running a program gives the same output, consumption of input and exit status
     whatever was run before it in the same process (other programs, other flags,
     REPL sessions, runs that were interrupted or failed at any point), and whatever
     Python's hash seed is. Through the Python API a failed or interrupted run never
     raises and leaves the interpreter usable.""",
     ["histories", "configurations", "crash_points"],
     """every sequence of runs, every flag combination, every interruption of an
     earlier run, every hash seed""",
     NOTESTS + "Each existing test builds isolated values; no test runs two programs in "
     "one process.",
     ["pip.py", "execution.py", "ptypes.py", "operators.py"],
     [("a new ProgramState per run", "pip.py"),
      ("list output format is set per run on the List class", "execution.py"),
      ("operators are copied before meta-operators modify them", "parsing.py")],
     [("List.outFormat", "process-wide output format", "ptypes.py"),
      ("SCALAR_ONE and other module constants", "shared values", "execution.py")],
     observe=["stdout", "stderr", "exit status", "lines consumed"])

prop("C11", "Operands and callbacks are evaluated exactly once and in order",
     """In any expression each operand is evaluated exactly once, in the language's
     order, and only if the language says so: the untaken branch of ?, &, |, I and the
     body of a loop that does not run have no effects, and each function given to a
     mapping, filtering, sorting, folding or replacing operator is called once per
     item in order. This holds for the effects of an evaluation cut short at any
     point, too: they are a prefix of the full sequence.""",
     ["programs", "crash_points"],
     """every operator with effectful operands and callbacks, nested in any way, cut
     short at any point""",
     NOTESTS + "Effects of operand evaluation (output, input, draws, assignments) are "
     "never observed by the tests.",
     ["execution.py", "operators.py"],
     [("operator flags decide how operands are evaluated", "operators.py"),
      ("evaluate() and the short-circuit operators", "execution.py"),
      ("compute-and-assign evaluates its target once", "execution.py")],
     observe=["order and number of output, input and random effects"])

prop("C12", "Diagnostic flags never change what a program does",
     """Turning on warnings (-w), verbose output (-v) or the REPL's ;warnings changes
     only diagnostic messages: the program's own output, the input it takes, its
     random draws, its exit status and the point at which it fails are the same with
     and without them, on every path, including the ones that warn or are
     interrupted. Producing a diagnostic never itself fails.""",
     ["programs", "configurations", "fault_sequences"],
     """every program, in particular ones that hit warning paths of every operator, with
     and without the flags""",
     NOTESTS + "No test turns on warnings, and warning paths are rarely executed.",
     ["errors.py", "pip.py", "execution.py"],
     [("ErrorReporter.warn prints only when enabled", "errors.py")],
     observe=["stdout", "exit status", "lines consumed"])

prop("C13", "Every function call has its own local variables",
     """Each call of a function, however nested, recursive or made through a callback
     of an operator, sees its own arguments in a-e, itself in f, its argument list in
     g and its own history variables; the caller finds its own locals unchanged
     afterwards, while global variables are shared. In the REPL this still holds for
     calls made after other calls were aborted at any point.""",
     ["programs", "histories", "crash_points"],
     """every nesting of calls and callbacks and every earlier aborted call""",
     NOTESTS + "No test calls a Pip function.",
     ["execution.py"],
     [("openScope/closeScope around every call", "execution.py"),
      ("variable table chosen by name", "execution.py")],
     [("scopes", "stack of local scopes", "execution.py")],
     observe=["values displayed by the program"])

prop("C14", "The REPL assembles and displays entries independently of delivery",
     """A REPL entry may be spread over any number of lines: the REPL keeps prompting
     until it is complete, executes it exactly once with the same effect as on one
     line, displays each expression's value once, and records it in $_, $__ and $___.
     An entry with a syntax error is discarded as a whole without executing any of it,
     ;warnings, ;help and comments change no variables, and the way the bytes arrive
     does not matter.""",
     ["histories", "schedules", "inputs"],
     """every session text, every split of entries into lines and of lines into
     deliveries""",
     NOTESTS + "The REPL is not tested.",
     ["pip.py", "scanning.py", "parsing.py"],
     [("IncompleteSyntax asks for another line, BadSyntax discards the entry",
       "pip.py")],
     observe=["stdout", "stderr"])

prop("C15", "WG restores the initial globals whatever happened before",
     """After the command WG every global variable, including the predefined ones and
     the program's arguments and main function, has the value it had when the program
     or session started, whatever was done before (assignments, in-place updates,
     regex matches, failed or interrupted statements, other runs), while local
     variables keep their values.""",
     ["histories", "crash_points"],
     "every history of statements before WG, with interruptions at any step",
     NOTESTS + "No test runs the command.",
     ["execution.py"],
     [("WIPEGLOBALS rebuilds the table of globals", "execution.py")],
     [("vars", "global variables", "execution.py")],
     observe=["values displayed by later statements"])

prop("C16", "Match variables describe one and the same regex match",
     """After any operation that matches a regex, the match variables ($0-$9, $$, $(,
     $), $[, $], $` and $') all describe the same, most recent successful match; while
     a callback or loop body runs they describe its match, also when the body itself
     performs other matches before or after. A match that fails, or an operation that
     is aborted before its first match, leaves them as they were.""",
     ["histories", "crash_points", "programs"],
     """every sequence and nesting of matching operations, with failures and aborts in
     between""",
     NOTESTS + "No test performs a regex operation.",
     ["execution.py"],
     [("assignRegexVars sets all match variables from one match", "execution.py")],
     [("$0..$9, $$, $(, $), $[, $], $`, $'", "match variables", "execution.py")],
     observe=["values displayed by the program"])

prop("C17", "Program arguments arrive complete and in order from every source",
     """The arguments a program sees in a-e, g and their read-only global copies are
     exactly the given ones, in order, whether they come from the command line, from
     lines of stdin (-r), as a list or as a command string through the Python API, or
     are evaluated as code first (-x). With -x each argument is evaluated once, in
     order, before the program starts; if one fails or is interrupted the program does
     not start, an error is reported and the exit status is nonzero.""",
     ["inputs", "configurations", "fault_sequences", "crash_points"],
     """every list of arguments, every argument source and flag, every delivery of stdin
     and every fault while arguments are evaluated""",
     NOTESTS + "No test passes arguments.",
     ["pip.py", "execution.py"],
     [("option parsing, the argument-string splitter, -r and -x", "pip.py"),
      ("arguments bound when the main function is called", "execution.py")],
     observe=["stdout", "stderr", "exit status"])

# ---------------------------------------------------------------- not claimed

prop("N01", "Displaying a function and evaluating the text gives the same function",
     """The text form of any function, when evaluated again, gives a function that
     behaves identically.""",
     ["programs"], "every function", NOTESTS,
     ["parsing.py", "ptypes.py"], [("unparse", "parsing.py")])
prop("N02", "A range behaves like the list of its integers",
     """Every operator gives the same result for a finite range as for the list of the
     integers in it, except where a range is documented to mean a slice or an
     interval.""",
     ["inputs"], "every range and operator", NOTESTS,
     ["ptypes.py", "execution.py"], [("Range", "ptypes.py")])
prop("N03", "Parsing follows the operator table",
     """Every expression is grouped according to the documented precedence,
     associativity and arity of its operators, including chained comparisons and
     meta-operators.""",
     ["programs"], "every expression", NOTESTS,
     ["parsing.py", "operators.py"], [("bubble and parseExpr", "parsing.py")])
prop("N04", "RP output of a value evaluates back to an equal value",
     """For every value without functions, evaluating its RP form gives an equal
     value.""",
     ["inputs"], "every value", NOTESTS,
     ["ptypes.py", "scanning.py"], [("__repr__ of the value types", "ptypes.py")])
prop("N05", "Base conversions are inverse to each other",
     """FB undoes TB and FD undoes TD for every integer and every legal base.""",
     ["inputs"], "every integer and base", NOTESTS,
     ["execution.py"], [("TOBASE, FROMBASE, TODIGITS, FROMDIGITS", "execution.py")])
prop("N06", "Sorting operators permute and order their operand stably",
     """SN, SS, DN, DS, SK and DK give a permutation of their operand in the documented
     order, stable for equal keys.""",
     ["inputs"], "every list", NOTESTS,
     ["execution.py"], [("the sort operators", "execution.py")])
prop("N07", "Itemwise operators distribute over lists and ranges",
     """An itemwise operator applied to lists gives the list of results for
     corresponding items, with unmatched items of the longer list unchanged, at every
     nesting depth.""",
     ["inputs"], "every operand pair", NOTESTS,
     ["execution.py"], [("evaluate() LIST_EACH / RANGE_EACH", "execution.py")])
prop("N08", "Regular expressions keep their meaning when translated",
     """A pattern matches exactly what its documented syntax says, with back-references
     and replacement references numbered as written.""",
     ["inputs"], "every pattern and subject", NOTESTS,
     ["ptypes.py"], [("asRegex and asReplacement", "ptypes.py")])
prop("N09", "Output format flags only change how lists are joined",
     """-l, -n, -p, -P, -s and -S format every nested list as documented and leave all
     other output unchanged.""",
     ["inputs", "configurations"], "every list and flag", NOTESTS,
     ["ptypes.py"], [("List.__str__", "ptypes.py")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P), "properties")
