#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why,
              "anchors": {"files": files.split(), "mechanism": [dict(name=n, where=w) for n, w in mech],
                          "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": hook}})
RD="internal/reader/reader.go internal/reader/lexer/lexer.go internal/reader/parser/parser.go"
# ---------------------------------------------------------------- reading
p("C01","Reading always finishes and loses no command",
  "For any source text, reading finishes: it yields every command of a well-formed text exactly once and in order, reports malformed or unfinished text as an error, and never hangs, crashes or silently drops a command. After a malformed command has been reported on a conduit, reading on from that conduit continues with the following line. Blank lines, comments and empty commands are the only input that produces nothing.",
  "inputs","every token sequence over the full token alphabet up to the length bound, alone and followed by further commands, and at every placement of line ends",
  "unit tests parse about a dozen well-formed lines; malformed and multi-command lines are never fed to the reader",
  RD+" internal/common/type/pipe/pipe.go",[("parse loop and emit","internal/reader/parser/parser.go"),("one parser goroutine per reader, one cell handed over per line","internal/reader/reader.go")],
  ["reader Scan results","oh -c","source"],[("lookahead token","next token not yet consumed","internal/reader/parser/parser.go")])
p("C02","Reading does not depend on how the text is split into lines or chunks",
  "The commands read from a text are the same however that text is delivered: whole, line by line, or cut at any character positions into any number of pieces. A construct left open at the end of a piece (quote, parenthesis, brace, operator, escape, comment) is continued by the next piece exactly as if the cut were not there.",
  "inputs histories","every text of the bounded corpus times every way of cutting it into up to three pieces at character boundaries",
  "unit tests scan whole strings, or split at two hand-picked points",
  RD,[("leftover bytes are prepended to the next buffer and the scanning state is kept","internal/reader/lexer/lexer.go")],["lexer tokens","reader Scan results"],
  [("state","scanning state function saved across buffers","internal/reader/lexer/lexer.go"),("saved","state to resume after an escape","internal/reader/lexer/lexer.go")])
p("C03","Command syntax has one fixed structure (precedence, grouping, rewriting)",
  "Every well-formed text is read as the structure the grammar assigns: `&` binds loosest, then `||`, `&&`, pipelines (right associative), `;`, redirection (left to right, innermost first), process substitution, then assignment prefixes, words, blocks, adjacency joining, `$`, backquote, quotes and meta literals. Quoting never changes the structure around it, and no other text is accepted.",
  "inputs","every token sequence up to the length bound, compared with an independent executable grammar",
  "tests check about ten sample commands by printing them",RD,[("recursive descent, one function per level","internal/reader/parser/parser.go"),("operator table","internal/reader/lexer/lexer.go")],["reader Scan results printed as literals"])
p("C04","Quoting and escapes denote exactly the intended characters",
  "Single quotes preserve every character; dollar-single and double quotes decode exactly the documented escapes; a backslash outside quotes makes the next character part of the word (as does the backslash itself), and `$name`, `${name}`, `$$` in double quotes are replaced by the value of the variable, verbatim and once. No quoted or interpolated text is ever split, globbed, re-scanned or re-interpolated.",
  "inputs","every string over an alphabet containing every metacharacter, escape and multi-byte character up to the length bound, in each quoting form, and every assignment of such strings to interpolated variables",
  "doctests show four quoting samples",
  "internal/reader/lexer/lexer.go internal/reader/parser/parser.go internal/engine/task/action.go",[("quoted scanning states","internal/reader/lexer/lexer.go"),("word","internal/reader/parser/parser.go"),("interpolate","internal/engine/task/action.go")],["argument strings received by commands"])
p("C05","What write prints, read reads back as an equal value",
  "For any data value made of strings, numbers, statuses, booleans, symbols without shell metacharacters and lists (nested, proper or improper), the text printed by `write` is one line which, read back, gives a value equal to and of the same type as the original. Distinct values never print alike.",
  "inputs","every value tree up to the size bound over a leaf alphabet with awkward characters",
  "tests print a handful of lists and never read the output back",
  "internal/common/type/pair/pair.go internal/common/type/sym/sym.go internal/common/type/str/str.go internal/common/type/num/num.go internal/common/type/status/status.go internal/reader/parser/parser.go internal/common/type/pipe/pipe.go",
  [("Literal methods","internal/common/type"),("meta commands","internal/reader/parser/parser.go")],["write / read on a pipe"])
# ---------------------------------------------------------------- values
p("C10","Arithmetic is exact and never changes its operands",
  "add, sub, mul, div and mod compute the exact rational result for any number of rational operands (mod: the Euclidean remainder of integers), independent of how the operands are written or typed; errors (division by zero, non-numeric or non-integer operands, missing operands) are thrown. No operation changes the value of an operand or of any other variable holding it.",
  "inputs histories","every operation over every operand tuple from the value alphabet, and every operation sequence up to the depth bound over shared variables",
  "no existing test does arithmetic beyond two additions","internal/engine/commands/arithmetic.go internal/common/type/num/num.go internal/common/type/sym/sym.go internal/common/interface/rational/rational.go internal/engine/commands/number.go",
  [("math/big rationals copied before accumulation","internal/engine/commands/arithmetic.go")],["results and later values of the operands"])
p("C11","Comparisons follow the number line; equality is a structural equivalence",
  "lt?, le?, gt? and ge? hold exactly when every adjacent pair of operands is so ordered as rationals. equal? is reflexive, symmetric and transitive, distinguishes types, compares lists element by element (and never fails on values it can compare), while conduits, objects and commands equal only themselves.",
  "inputs","every operand pair and triple from the value alphabet (all types, nested and improper lists)",
  "tests compare a few pairs of strings","internal/engine/commands/relational.go internal/common/type/pair/pair.go internal/common/type/num/num.go internal/common/type/sym/conversion.go internal/common/type/str/str.go internal/common/type/status/status.go",
  [("Equal methods","internal/common/type"),("pairwise loops","internal/engine/commands/relational.go")],["return values"])
p("C12","List operations act on exactly the cells they name",
  "head, tail, get, length, reverse, slice, append, extend, set-head, set-tail, cons and list return exactly what the mathematical list operation returns for every list and index (negative indices count from the end, out-of-range ones throw or use the default). append, extend, set-head and set-tail change only the cells they name, visibly through every alias; all other operations change nothing and never alias their result wrongly.",
  "histories","every operation sequence up to the depth bound over lists with shared tails, against an explicit heap model",
  "tests call length and get once or twice","internal/engine/commands/list.go internal/common/type/list/list.go internal/common/type/pair/pair.go",
  [("cons cells with SetCar/SetCdr","internal/common/type/pair/pair.go"),("Append/Join/Slice/Tail","internal/common/type/list/list.go")],["every variable after every operation"])
p("C13","String operations and conversions compute the documented function",
  "The str functions, mend, rend, match, and the conversions string, symbol, number, status and bool compute their defined function on every argument: mend and rend with the same separator are inverse, the result type follows the argument types, and slices, lengths and replacement counts are respected. Invalid arguments are thrown as errors and no argument is modified.",
  "inputs","every function over every argument tuple from a string/number alphabet up to the length bound",
  "no string function is tested except through doctest samples","internal/engine/commands/string.go internal/engine/commands/core.go internal/engine/commands/number.go internal/engine/commands/symbol.go internal/engine/commands/logical.go internal/common/validate/validate.go",
  [("string functions","internal/engine/commands/string.go"),("mend/rend/match","internal/engine/commands/core.go")],["return values"])
# ---------------------------------------------------------------- language
p("C20","Names resolve lexically first, then to the caller's public names",
  "A name resolves to the innermost lexically enclosing definition, and only if there is none to the nearest exported (public) name of the calling contexts; define creates a private name and export a public one in the current scope only; set changes exactly the binding found lexically, visibly to every closure sharing it. (A name that a calling context exports only while the call is already running is outside this statement.) Nothing defined inside a block, method, branch or loop body is visible after it, and no closure ever sees a later caller's private names.",
  "programs","every program up to the size bound built from define/export/set/unset/block/method/call over two names and nested scopes, against a reference interpreter",
  "two doctests show one lexical and one dynamic lookup","internal/common/type/env/env.go internal/common/struct/frame/frame.go internal/common/struct/hash/hash.go internal/common/struct/slot/slot.go internal/engine/task/action.go internal/engine/task/task.go",
  [("lexical chain then frame chain of public names","internal/common/struct/frame/frame.go"),("frame is new only if visibility differs","internal/common/type/env/env.go")],["printed values after every step"],
  [("frame","chain of calling scopes","internal/common/struct/frame/frame.go")])
p("C21","Objects and maps expose exactly their public members",
  "Through an object only exported members can be read, called, set or removed; private members never can be, but its methods see both. Members not exported by the object itself are not found in enclosing or calling scopes, methods run with the object they were found in as self, and a map holds exactly the keys set and not deleted, each with its last value.",
  "histories programs","every operation sequence up to the depth bound on objects with public, private and shadowed members, and on maps over two keys, against a reference model",
  "doctests show three objects and one map","internal/common/type/obj/obj.go internal/common/type/env/env.go internal/engine/boot/boot.oh internal/engine/task/action.go",
  [("obj wrapper restricts Lookup and Define to public names","internal/common/type/obj/obj.go"),("object, map","internal/engine/boot/boot.oh")],["member reads, calls and thrown errors"])
p("C22","Arguments are evaluated once, in order, and bound exactly",
  "A method call evaluates the head and then each argument exactly once from left to right before the body runs; parameters are bound positionally, a trailing list parameter takes exactly the rest, a wrong count throws without running the body, and the optional self and environment parameters are bound to the object and the caller's environment. splice inserts exactly the elements of its list. Each call gets fresh bindings, so recursive and re-entrant calls never disturb each other.",
  "programs","every parameter list shape times every argument list up to the bound, with effects in head and argument positions, nesting and recursion",
  "a few fixed arities are exercised by doctests","internal/engine/task/action.go internal/engine/task/task.go internal/engine/task/method.go internal/common/validate/validate.go",
  [("evalArgs/execMethod/apply","internal/engine/task/action.go"),("Closure","internal/engine/task/task.go")],["traced evaluation order and bound values"])
p("C23","Control flow runs exactly the selected commands",
  "if runs exactly the commands of the first branch whose condition is true (or the else branch), while repeats its body exactly as long as its condition is true, and/or and `&&`/`||` evaluate operands left to right and stop at the first that decides, and block, `;` and for run every element in order. The value of each construct is the value of the last command evaluated; conditions follow the truth rule of the value's type (status 0, non-zero numbers, non-empty lists).",
  "programs","every program up to the size bound of nested if/else-if/else, while, and, or, not, block and for with traced conditions, against a reference interpreter",
  "doctests show one if and two loops","internal/engine/task/action.go internal/engine/boot/boot.oh internal/common/interface/boolean/boolean.go",
  [("execIfBody/execWhileBody/evalBlock","internal/engine/task/action.go"),("and, or, for","internal/engine/boot/boot.oh")],["traced commands and resulting values"])
p("C24","Syntax receives code unevaluated and eval runs it in the chosen scope",
  "A syntax command receives its operands unevaluated and unchanged; evaluating an operand in the environment parameter gives exactly what evaluating it at the call site would have given, including definitions made there; eval without an environment uses the current scope. quote returns its operand unevaluated and quasiquote replaces exactly the unquoted parts.",
  "programs","every small operand expression times every evaluation scope and nesting of syntax/method/block, against a reference interpreter",
  "one doctest defines one syntax","internal/engine/task/action.go internal/engine/task/syntax.go internal/engine/boot/boot.oh",
  [("Syntax.Execute skips argument evaluation","internal/engine/task/syntax.go"),("eval with self scope","internal/engine/task/action.go")],["traced values and definitions"])
p("C25","A thrown value reaches exactly the nearest active handler",
  "A throw, from a command or an internal error, abandons exactly the commands up to the nearest active catch (a lexically enclosing one first, then those of the calling contexts), runs its handler once with exactly the thrown value and makes what the handler returns the result of the routine that established it; a handler that rethrows or does not return, or a catch with no clause, passes the value to the next outer handler. No command after the throw in the abandoned part runs, handlers are inactive outside their scope, and an uncaught throw ends only the task (the script, at top level) after reporting it.",
  "programs","every nesting up to the bound of catch, throw, rethrow, internal error, call, block, loop and pipeline/capture boundary, against a reference interpreter",
  "one doctest throws once","internal/engine/boot/boot.oh internal/engine/task/task.go internal/engine/task/action.go",
  [("catch exports a dynamic throw that escapes through return","internal/engine/boot/boot.oh"),("Step turns panics into throw","internal/engine/task/task.go")],["traced commands and results"])
p("C26","return and saved continuations resume exactly the captured point",
  "return ends exactly the method whose return it is, however deeply nested in blocks, loops and calls, with the given value; a saved return may be called later, from elsewhere, and any number of times, and each time execution resumes at the captured point with the captured scope and pending work and only variable contents changed (the variables of library routines written in oh, such as and, or and for, included). An invocation never corrupts the pending work of other captures.",
  "programs","every program up to the bound with early, nested, escaped and repeated invocation of up to two captured returns, against a reference interpreter with explicit continuations",
  "one doctest calls one continuation","internal/engine/task/action.go internal/engine/task/registers.go",
  [("registers snapshot and restoreOver","internal/engine/task/registers.go"),("merging of adjacent restore operations","internal/engine/task/registers.go")],["traced commands and results"],
  [("stack","pending operations shared between captures","internal/engine/task/registers.go")])
p("C27","Loops and tail calls run in constant space",
  "A call in tail position (last command of a method, branch, block or syntax, out of scopes without public names) and a loop iteration leave no residue: the pending work of the interpreter returns to the same shape every time round, so iteration and tail recursion are not limited by depth.",
  "programs","every tail-call shape up to the bound (self, mutual, through if/else/block/while/eval/syntax/object method), checked by recurrence of the exact number of live objects",
  "no test iterates more than a few times","internal/engine/task/action.go internal/engine/task/registers.go internal/common/type/env/env.go internal/common/struct/frame/frame.go",
  [("RemoveOp before the last command and merging of restore operations","internal/engine/task/registers.go"),("frame.Dup when visibility is equal","internal/common/struct/frame/frame.go")],["live memory after each group of iterations"])
p("C28","No command or argument can crash the shell",
  "Any built-in command or method, applied to any number of arguments of any types (lists without cycles), either returns a value or throws an exception which a handler receives; the shell process itself survives and later commands behave normally. Only exit and fatal end it.",
  "inputs","every builtin and every member of every built-in object, conduit and list, times every argument tuple up to length three over one value of each type and boundary values",
  "tests never pass wrong arguments","internal/engine/commands internal/engine/task internal/common/validate/validate.go internal/engine/boot/boot.oh",
  [("recover in Step","internal/engine/task/task.go"),("argument validation","internal/common/validate/validate.go")],["process survival and thrown errors"])
# ---------------------------------------------------------------- concurrency
p("C30","wait returns exactly when the awaited tasks are done, on every schedule",
  "wait with tasks returns after all of them have completed and never before, and wait without arguments returns after every task the caller has spawned (at top level: every background task) has completed; it returns immediately if they already have. No notification is lost, nobody waits for ever, and waiting never disturbs another waiter, on any interleaving. (The value wait returns is unspecified.)",
  "schedules","every interleaving up to the preemption bound of spawning, completing, waiting tasks and the job monitor",
  "tests run one schedule","internal/system/job/job_unix.go internal/engine/task/state.go internal/engine/task/action.go",
  [("wait groups owned by the monitor goroutine","internal/system/job/job_unix.go"),("Wait/Notify/Runnable","internal/engine/task/state.go")],["effects of awaited tasks seen after wait","absence of deadlock"],
  [("waiting","wait groups per task","internal/system/job/job_unix.go"),("state flags","running/stopping/waiting","internal/engine/task/state.go")])
p("C31","Channels are bounded FIFO queues on every schedule",
  "A channel delivers every written value exactly once, in the order written by each writer and consistently for all readers; a write blocks exactly while the channel holds its capacity of unread values and a read blocks exactly while it is empty and open; a closed channel still delivers what was written and then reads as the empty list, and writing to it throws.",
  "schedules histories","every interleaving up to the preemption bound of up to three tasks with up to three operations each on channels of capacity 0, 1 and 2, checked for linearizability against a bounded queue",
  "the channel unit test runs one schedule","internal/common/type/chn/chn.go internal/engine/commands/conduit.go internal/engine/commands/channel.go",
  [("Go channel of cells","internal/common/type/chn/chn.go")],["values read by each task","blocked tasks"])
p("C32","Pipes carry every byte written, in order, and end exactly at close",
  "Whatever is written to a pipe (values or lines, by one or several tasks) is read back complete and in order, each record intact, however the transport fragments it; the reader sees end of input exactly when every write end has been closed and the data is drained, and writing to a closed pipe throws. Mixed read, read-list and read-line calls consume exactly one record each.",
  "schedules inputs","every interleaving up to the preemption bound of writers, readers and closers, and every fragmentation of the transport's reads up to the bound",
  "the pipe unit test writes one value","internal/common/type/pipe/pipe.go internal/reader/reader.go internal/engine/commands/conduit.go",
  [("buffered reader shared by line and value reads","internal/common/type/pipe/pipe.go")],["records read"])
p("C33","A pipeline or capture completes with all its data, status and exceptions",
  "`a | b | ...` runs all stages concurrently, passes all output of each stage to the next, ends when all stages have ended, and has the value of the last stage; an exception in any stage is thrown by the pipeline after the others finished or saw end of input (a stage writing to one that has stopped reading may throw broken pipe). Backquote capture yields exactly the output lines in order, whatever the schedule or amount, and neither ever hangs.",
  "schedules programs","every interleaving up to the preemption bound for every pipeline/capture shape up to three stages, with stages that write, read all, read part, throw or exit early",
  "doctests run four pipelines once each","internal/engine/boot/boot.oh internal/engine/task/action.go internal/common/type/pipe/pipe.go internal/common/type/chn/chn.go",
  [("make-pipe, capture, collect-unwrap-r-ex","internal/engine/boot/boot.oh")],["collected output, value and exception"])
p("C34","Every external command's status reaches exactly the task that ran it",
  "Running an external command suspends exactly the task that ran it until that process ends, then gives it exactly that process's status: its exit code, or 128 plus the signal that killed it; every child is reaped, and statuses are never lost, duplicated, delayed by other tasks or swapped between concurrently running commands. A command that cannot be started throws and leaves nothing waiting.",
  "schedules","every interleaving up to the preemption bound of two tasks running commands, process exits in every order and SIGCHLD delivered, coalesced or delayed at every point",
  "tests run one external command at a time","internal/system/job/job_unix.go internal/engine/task/state.go internal/engine/task/action.go internal/system/process/process_unix.go",
  [("monitor goroutine owns the pid tables and reaps with wait4","internal/system/job/job_unix.go"),("Wait before the process can be reaped","internal/system/job/job_unix.go")],["status value of each command"],
  [("active","process id to job","internal/system/job/job_unix.go")])
p("C35","Variables shared by tasks behave atomically",
  "Concurrent reads, sets, definitions, exports, removals and member look-ups of shared variables, map entries and object members by several tasks behave like some sequential order of those operations; no update is torn, no reader sees a value nobody wrote, and the interpreter itself has no data race on its own state (two tasks modifying one list at once is the program's own race).",
  "schedules","every interleaving up to the preemption bound of two to three tasks operating on the same names, with happens-before race detection on the interpreter's memory",
  "no test shares a variable between running tasks","internal/common/struct/hash/hash.go internal/common/struct/slot/slot.go internal/common/type/env/env.go internal/common/type/sym/sym.go internal/engine/task/state.go",
  [("locks around the tables","internal/common/struct/hash/hash.go"),("symbol cache lock","internal/common/type/sym/sym.go")],["values read","race reports"])
p("C36","Interrupt ends the foreground command, and nothing else, at any moment",
  "An interrupt (Ctrl-C) arriving at any point ends the foreground command: its task, the tasks it spawned and its processes stop without running further commands, and the shell returns to reading the next command, which behaves normally. While a process of the command is in the terminal's foreground the key goes to that process instead: it reports how it ended and the command goes on. An interrupt never crashes or wedges the shell, leaves a stopped job behind, or affects tasks of other jobs.",
  "schedules fault_sequences","an interrupt injected at every scheduling point of foreground commands (computing, waiting, reading, running a process, finishing), under every interleaving up to the bound",
  "no test sends a signal","internal/system/job/job_unix.go internal/engine/task/state.go internal/engine/task/task.go main.go",
  [("interrupt walks the task tree","internal/system/job/job_unix.go"),("Stop/Runnable","internal/engine/task/state.go")],["result of the interrupted command and of the next one","stopped job table"])
p("C37","A stopped job resumes exactly where it stopped",
  "A stop (Ctrl-Z) at any point suspends the foreground job and lists it once under the lowest job number above all others; fg or bg resumes it exactly where it stopped, running every remaining command once and none twice, with the statuses of its processes intact, and fg waits for it. Tasks and processes a command leaves running when it ends are not stopped with it. Naming a job that does not exist throws, and stopping and resuming never lose, duplicate or wedge a job.",
  "schedules fault_sequences","a stop injected at every scheduling point of small jobs followed by fg or bg (and a second stop), under every interleaving up to the bound",
  "no test uses job control","internal/system/job/job_unix.go internal/engine/task/state.go",
  [("Stopped/Bg/Fg","internal/system/job/job_unix.go")],["traced commands","job table","fg result"])
p("C38","import loads a module once, whoever asks",
  "Importing modules from any number of tasks, nested (not in a circle) or concurrent, completes the body of each module that names itself with `module` at most once (what follows `module NAME`), gives every importer the same object with the module's public members, and delivers an exception in a module's body to the importer that asked, whose catch receives it, after which later imports still work; no import hangs, and the methods of an imported module import and throw like any others.",
  "schedules histories","every sequence and every interleaving up to the bound of imports of modules that succeed, import others, share a name or throw",
  "import is not tested","internal/engine/boot/boot.oh",[("one service task, callback per request","internal/engine/boot/boot.oh")],["objects returned and body executions counted"])
# ---------------------------------------------------------------- system
p("C40","Redirection touches exactly the named file and never clobbers by accident",
  "`>` never alters an existing file, `>|` replaces its contents, `>>` appends, `<` requires an existing file, and the forms `>&`, `>&|` and `>>&` also carry standard error; the redirected command's output goes to the file complete and in order and nowhere else, and after the command (whether it returned or threw) the file is closed and the surrounding redirections are in force again. A failed redirection throws without running the command and without creating or changing the file it names (outer ones, written last, are opened first). `open` creates the file unless its mode has `-`, empties it if the mode has `w` but not `a`, appends if it has `a`, reads and writes if it names both or neither, and otherwise changes nothing of it.",
  "histories","every sequence up to the depth bound of redirected commands (all operators, nested, builtin and external, throwing) over files that exist or not, against a reference file system",
  "a doctest shows three redirections","internal/engine/boot/boot.oh internal/engine/commands/file.go internal/common/type/pipe/pipe.go internal/engine/task/action.go",
  [("make-redirect","internal/engine/boot/boot.oh"),("open","internal/engine/commands/file.go")],["file contents and visible output after every step"])
p("C41","External commands receive exactly the arguments given",
  "An external command receives one argument per value, byte for byte, in order: nothing is split, joined or re-quoted; only unquoted words (symbols, also where a variable holds one) with wildcards are expanded, strings never; empty arguments are kept; argument zero is the name as typed, and the program run is the first executable found along the PATH in force. Values with no text form throw instead of being passed.",
  "inputs","every argument list up to the length bound over an alphabet of awkward strings and value types in every syntactic form",
  "tests pass plain words to echo","internal/engine/task/action.go internal/engine/task/task.go internal/reader/parser/parser.go",
  [("external","internal/engine/task/action.go"),("expand","internal/engine/task/task.go")],["argv received by a probe program"])
p("C42","External commands receive exactly the exported variables",
  "The environment of an external command is exactly the set of exported names visible at the call (lexically, then through callers) that have a text form, each with the nearest exported value that has one (names a calling context exports while the call is running aside); private variables, values without text form and names exported in scopes already left are absent, and one-command assignments affect only that command. The shell's own inherited environment is passed through unchanged.",
  "programs histories","every nesting up to the bound of define, export, assignment prefix, block and method around an external call over two names, against a reference model",
  "not tested","internal/engine/task/task.go internal/common/struct/hash/hash.go internal/engine/engine.go",
  [("Environ walks frames and scopes, nearest first","internal/engine/task/task.go")],["environment received by a probe program"])
p("C43","Wildcards expand to exactly the matching names",
  "An unquoted word with wildcards expands to exactly the names that match it in the file system as the shell sees its current directory, sorted, relative if the word was relative, cleaned, element by element, `*` and `?` not matching a leading dot or a separator, a backslash before a wildcard making it ordinary; no match throws; `~` and `~/...` mean HOME. Strings and words without wildcards are never expanded.",
  "inputs configurations","every pattern up to the length bound over a pattern alphabet times a set of directory trees and current directories, against a reference matcher",
  "one doctest globs one directory","internal/engine/task/task.go internal/engine/task/action.go",
  [("expand","internal/engine/task/task.go")],["arguments after expansion"])
p("C44","The current directory is one consistent fact, scoped like a variable",
  "After cd (or naming a directory as a command) PWD is the directory, OLDPWD the previous one, and external commands, wildcards, redirections and exists all resolve relative names against PWD; `cd -` and `cd` use OLDPWD and HOME, and a failed cd changes nothing. Leaving the scope in which cd ran restores all of these together. (PWD is looked up like any variable: lexically, then through callers.)",
  "histories","every sequence up to the depth bound of cd forms, blocks and observations over a small directory tree, against a reference model",
  "a doctest calls cd once","internal/engine/task/task.go internal/engine/task/action.go internal/engine/boot/boot.oh",
  [("Chdir exports PWD and OLDPWD in the current scope","internal/engine/task/task.go")],["PWD, OLDPWD, directory seen by external commands and by redirections"])
p("C45","Exit statuses are reported faithfully",
  "exit in the task running the commands ends the shell at once from any depth with exactly the given integer code, modulo 256 (otherwise 0 if its argument is true, 1 if not, 0 without argument), and nothing after it runs; exit in a spawned task ends only that task. An external command's status, its exit code or 128 plus the signal that killed it, is its value, true exactly when zero, and, for commands read from standard input, $? afterwards. A command that cannot be found or run throws. An uncaught exception ends the script at that point with its message on standard error, and, for errors of built-in commands and commands not found that are called by a plain name, the file, line and column of the call.",
  "programs","every placement up to the bound of exit, fatal, throw and failing commands in nested constructs, scripts, -c and functions with codes 0..255",
  "not tested","internal/engine/engine.go internal/engine/task/action.go internal/engine/task/state.go main.go internal/common/type/status/status.go",
  [("Evaluate maps the result of an exited task to the process status","internal/engine/engine.go")],["process exit status and output"])
p("C46","Positional parameters and options reach the script unchanged",
  "For every invocation form (script, -c with or without a name, -s) each argument is available as $0, $1, ... and all but the first as $@, unchanged, in order and unsplit, even if it looks like an option, is empty or contains metacharacters; options are recognised only before the first operand and the documented defaults apply (`--` as the first operand aside).",
  "inputs","every argument vector up to the length bound over an alphabet of awkward words and option look-alikes, for every invocation form",
  "not tested","internal/system/options/options.go internal/engine/engine.go",
  [("docopt with options first","internal/system/options/options.go"),("Boot exports the parameters","internal/engine/engine.go")],["parameters printed by the script"])
p("C47","Process substitution connects, completes and cleans up",
  "In a command with `|<(...)` and `|>(...)` each substitution is passed as a file name that reads the inner command's complete output or feeds its complete input; the command's value is the main command's, all inner commands have finished when it returns, an exception in any part is thrown afterwards, and no fifo or temporary file remains.",
  "programs schedules","every combination up to the bound of input and output substitutions, main commands that read all or none, and inner commands that succeed or throw",
  "not tested","internal/engine/boot/boot.oh internal/engine/commands/file.go",
  [("process-substitution","internal/engine/boot/boot.oh")],["data transferred, value, exception, remaining files"])
p("C48","The file-name cache answers with the file system as it is",
  "A file-name completion query (cache.Files) lists exactly the names in the directory at that time (directories marked with a trailing slash), never descends or lists other directories, and survives directories and files that vanish, appear or become unreadable at any point of the scan without crashing the shell.",
  "histories fault_sequences","every sequence up to the depth bound of file-system changes and queries, and a vanishing entry or error at every file-system call of the scan",
  "not tested","internal/system/cache/cache.go main.go",[("Files rescans, a service goroutine owns the table","internal/system/cache/cache.go")],["names returned","process survival"])
p("C49","History survives restarts intact",
  "Every line entered in an interactive session (consecutive repeats once, empty ones and ones given up with Ctrl-C not, the last thousand) is in the saved history in order when the session ends by exit or end of input, and is loaded by the next session; a missing history file is an empty history, and a file that cannot be read or written is reported without losing the session.",
  "histories fault_sequences","every sequence of sessions up to the bound over a set of command lines, and an error injected at each file operation",
  "not tested","internal/system/history/history.go main.go",[("Load/Save","internal/system/history/history.go")],["history file contents"])
p("C50","umask reports and sets exactly the process file mode mask",
  "umask with a value (a number between 0 and 0777) sets the mask to exactly that value for files created afterwards and returns the previous mask; umask without a value returns the current mask and changes nothing.",
  "histories","every sequence up to the depth bound of queries and settings over all 512 masks",
  "not tested","internal/engine/commands/umask_unix.go internal/engine/boot/boot.oh",[("umask","internal/engine/commands/umask_unix.go")],["returned text and mode of created files"])
p("C51","A finished command gives back what it used",
  "When a command has finished, whether it returned or threw, the shell process holds nothing of it: no open descriptor, no dead child left unreaped, no task still running or blocked, and no fifo or temporary file, in whatever nest of blocks, methods, redirections, pipelines, captures, substitutions and tasks it ran (and, for tasks, was waited for), so that any number of commands can follow. (Conduits and files that the program opened and did not close are the program's; a spawned task whose exception reaches a handler outside it goes on there and is not finished.)",
  "programs histories","every listed command in every nest of contexts up to the bound and every pair of commands, repeated, with the process's descriptors, children, goroutines and temporary files compared before and after",
  "no test looks at what a command leaves behind; a leak shows only after many commands","internal/system/job/job_unix.go internal/engine/boot/boot.oh internal/common/type/pipe/pipe.go internal/reader/reader.go internal/engine/task/task.go",
  [("Execute releases the process handle","internal/system/job/job_unix.go"),("make-redirect closes the file","internal/engine/boot/boot.oh"),("reaping by process ID","internal/system/job/job_unix.go")],["/proc/PID/fd","process table","goroutine dump","temporary directory"])
p("C52","Completion adds what continues the word and does nothing else",
  "Asking for completions (Tab) at any position of any line never runs, changes or evaluates any part of it, never hangs, leaves the text around the word as it is, and has no effect on how the line, and the unfinished entry it belongs to, is then read. The words offered for an argument are the word itself continued to each name in the directory it names (relative to the current directory, an absolute name, or under HOME after `~/`; names that begin with a dot only if the word's last part is not empty; directories marked with a trailing slash) and whatever the routine complete answers, which is told exactly the words of the command before the cursor. (Words of plain characters, set off by spaces; names are offered as they are, unquoted.)",
  "texts states","every text up to three tokens at every cursor position after every kind of unfinished line; every word form in every directory; every command up to three words",
  "no test asks for a completion; what goes wrong depends on the text, the position, the entry and the directory","main.go internal/reader/lexer/lexer.go internal/reader/parser/parser.go internal/system/cache/cache.go",
  [("completer","main.go"),("Copy","internal/reader/lexer/lexer.go"),("Copy","internal/reader/parser/parser.go"),("Files","internal/system/cache/cache.go")],["line editor","file system"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),"properties")
