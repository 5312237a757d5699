#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
L = 'src/jomlib/'
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

TESTS = ("The existing tests only parse makefiles, macros, expressions and options; no test ever runs a command, "
         "starts a second job or talks to a job server, so ")

prop("P01", "No command starts before everything its target depends on is done",
 "In every build, with any number of jobs, no command line of a target starts before every command line of every target it directly or transitively depends on (explicit dependents, and dependents listed behind .SYNC after the described targets listed before it) has ended, and the command lines of one target run one after the other in makefile order. This includes dependents that are built by ordinary or batch-mode inference rules; the source file an inference rule adds is taken as a plain file (a source that is itself generated has to be listed as a dependent). A target that is produced by a batch-mode rule together with others counts as done only when the command of the whole batch has ended.",
 ["schedules", "programs", "configurations"],
 "every dependency graph, every -j, every interleaving of command durations, process-exit notifications, output arrival and job-token arrival",
 TESTS + "the order in which concurrent commands really start and end is never observed.",
 [L+"dependencygraph.cpp", L+"targetexecutor.cpp", L+"commandexecutor.cpp", L+"parser.cpp", L+"makefile.cpp"],
 [("leaf removal only after the target's commands ended", "TargetExecutor::onChildFinished, DependencyGraph::removeLeaf"),
  ("executing leaves are not handed out twice", "DependencyGraph::findAvailableTarget"),
  (".SYNC groups become real dependents", "Parser::apply"),
  ("batches", "Makefile::applyInferenceRules")],
 ["start and end of every child process of jom"])

prop("P02", "Every out-of-date target is built exactly once; the result is the sequential one",
 "A build that reports success has executed every command line of every out-of-date target reachable from the requested goals exactly once, has executed no command of a target that was up to date, and leaves every file with the content a strictly sequential build of the same makefile would have produced. This is independent of the number of jobs and of how the jobs were scheduled, and several goals on one command line are built one after the other in the given order.",
 ["schedules", "programs", "configurations"],
 "every makefile, initial file state, -j and interleaving",
 TESTS + "neither exactly-once execution nor equality with the sequential result is checked for even one schedule.",
 [L+"dependencygraph.cpp", L+"targetexecutor.cpp", L+"fastfileinfo.cpp", L+"makefile.cpp", L+"commandexecutor.cpp"],
 [("up-to-date decision", "DependencyGraph::isTargetUpToDate"), ("time stamp cache and its invalidation", "FastFileInfo"),
  ("command index", "CommandExecutor::onProcessFinished"), ("goal phases", "TargetExecutor::startProcesses")],
 ["child process creations, files in the working directory, exit code"])

prop("P03", "Never more than N commands run at once, across all recursive joms",
 "At no instant do more than N commands run concurrently in the whole tree of jom processes started under -jN, where N is the number given to (or chosen by) the top-level jom and commands that are recursive jom invocations do not count. A makefile with .NOTPARALLEL runs its own commands one at a time; a sub-jom that is given a different -jM runs its own tree on a separate pool of M, and unrelated jom runs on the same machine never share a pool.",
 ["schedules", "programs", "configurations"],
 "every tree of recursive jom invocations, every -j combination and every interleaving of acquire, release, start and exit",
 TESTS + "no test has two jom processes or even one running command, and the limit can only be exceeded by particular interleavings.",
 [L+"jobserver.cpp", L+"jobclient.cpp", L+"jobclientacquirehelper.cpp", L+"targetexecutor.cpp", "src/app/main.cpp"],
 [("first command uses the implicit token, further ones acquire", "TargetExecutor::startProcesses"),
  ("release on completion", "TargetExecutor::onChildFinished"), ("server inheritance", "initJobServer")],
 ["number of live leaf commands at every process start, over the whole jom tree"])

prop("P04", "Job tokens are conserved",
 "Whenever a jom process ends by itself - success, failing command, /K, missing dependent, unreadable makefile, command that cannot be started, inline file that cannot be written - the pool of job tokens it used contains as many tokens as when it started, minus only what other still running joms hold: it has returned exactly the tokens it took (a semaphore operation that fails excepted). At no moment does a jom run more commands than one plus the number of tokens it holds at that moment; the token it was started with it may lend to others while it runs nothing.",
 ["schedules", "programs", "fault_sequences"],
 "every way in which a jom or sub-jom can end by itself, at every point of its token protocol",
 TESTS + "the job server and client are never started by a test, and leaks or surplus tokens need a failure that falls into the middle of an acquisition.",
 [L+"jobclient.cpp", L+"jobclientacquirehelper.cpp", L+"targetexecutor.cpp"],
 [("acquisition count", "TargetExecutor::m_jobAcquisitionCount"), ("waiting for a pending acquisition on abort", "TargetExecutor::waitForJobClient")],
 ["value of the named semaphore after each jom process exit"])

prop("P05", "jom always terminates once its commands have ended",
 "If every command that jom has started ends, jom (and every recursive jom) terminates within a bounded time: no interleaving of exit notifications, output, token arrival and failing commands, no exit code, no amount or pattern of output, no command that closes its output early or leaves a grandchild holding its output pipe makes jom wait forever or spin forever. Bound: 20 simulated seconds after its last command ended, 60 if commands leave grandchildren behind or the system clock jumps.",
 ["schedules", "programs", "fault_sequences"],
 "every makefile, -j, command behaviour and schedule; every tree of recursive joms sharing a token pool",
 TESTS + "a hang needs a lost wake-up or an unlucky order of notifications between the main thread, the I/O completion thread and the job client thread.",
 [L+"jomprocess.cpp", L+"iocompletionport.cpp", L+"targetexecutor.cpp", L+"jobclient.cpp", L+"commandexecutor.cpp"],
 [("exit notification and exit code polling", "Process::tryToRetrieveExitCode"), ("nested waiting on abort", "TargetExecutor::waitForProcesses"),
  ("completion port thread", "IoCompletionPort::run")],
 ["end of every jom process, simulated clock"])

prop("P06", "Available parallelism is used",
 "While a target is ready to be built (all its dependents are done) and a job token of the pool is free (not handed out to any jom of the tree), jom starts it within a bounded time and without waiting for a running command to end. In particular independent targets under -jN with nothing else running really run N at a time, including in a later goal phase, after /K failures, and after a sub-jom has returned its tokens.",
 ["schedules", "programs", "configurations"],
 "every dependency graph, -j and schedule in which a ready target and a free token exist",
 TESTS + "no test could notice jom degrading to sequential builds.",
 [L+"targetexecutor.cpp", L+"jobclient.cpp", L+"dependencygraph.cpp"],
 [("queued startProcesses after each start and each completion", "TargetExecutor"), ("leaf bookkeeping", "DependencyGraph::removeLeaf")],
 ["ready set and token pool reconstructed from the history against the starts"])

prop("P07", "A failing command stops the build and is always reported",
 "Without /K and /I, once jom has noticed that a command line failed (its exit code exceeds what the makefile tolerates, it crashed, or it could not be started) no further target is started, no further command line of the failed target runs, targets already being built are completed or stopped between two command lines and are waited for, and jom names the failed target on stderr and exits with a code other than 0 (2 for a command that failed). No target depending on the failed one is ever built in that run, and this holds through any number of levels of recursive jom.",
 ["schedules", "programs", "fault_sequences"],
 "every failing command or set of simultaneously failing commands, at every position, -j and interleaving",
 TESTS + "no exit code of any command is ever processed by a test.",
 [L+"targetexecutor.cpp", L+"commandexecutor.cpp", L+"jomprocess.cpp", L+"dependencygraph.cpp"],
 [("abort path", "TargetExecutor::onChildFinished"), ("exit code evaluation", "CommandExecutor::onProcessFinished")],
 ["process starts after a failure was noticed, exit code, stderr"])

prop("P08", "/K builds exactly what does not depend on a failure",
 "With /K, every out-of-date target that does not directly or transitively depend on a failed target is built completely, no target that depends on a failed one has any of its commands started, and jom exits with 1 if any command failed and with 0 otherwise. This holds for any number of failures, in every order of completion.",
 ["schedules", "programs", "fault_sequences"],
 "every graph, set of failing commands, -j and interleaving",
 TESTS + "/K is only checked to parse.",
 [L+"targetexecutor.cpp", L+"dependencygraph.cpp"],
 [("marking of parents", "DependencyGraph::markParentsRecursivlyUnbuildable"), ("skipping", "TargetExecutor::findNextTarget"),
  ("final exit code", "TargetExecutor::finishBuild")],
 ["set of executed targets, exit code"])

prop("P09", "Tolerated exit codes are tolerated, all others are not",
 "A command line prefixed with '-' never fails its target whatever it returns, '-n' tolerates exactly the exit codes 0..n, /I and .IGNORE tolerate every exit code of the commands they cover, and otherwise only 0 is success; a crash (an exit code with the topmost bit set, or 0xF291) counts as exit code 2; a tolerated exit code has no effect on the rest of the build or on jom's exit code. The exit code that is judged and reported is the one of that very command, whatever else runs at the same time.",
 ["schedules", "programs", "configurations"],
 "every combination of modifiers, exit codes (including negative, large and 259) and concurrent commands",
 TESTS + "modifiers are parsed by tests but never applied to a real exit code.",
 [L+"commandexecutor.cpp", L+"makefile.cpp", L+"parser.cpp", L+"jomprocess.cpp"],
 [("comparison with the tolerated maximum", "CommandExecutor::onProcessFinished"), ("modifier evaluation", "Command::evaluateModifiers")],
 ["exit codes given by the commands, jom's exit code and messages"])

prop("P10", "Command output is passed on completely, once and in order",
 "Every byte a command writes to its standard output or standard error before it ends appears exactly once on jom's corresponding stream, unmodified and in the order written, before jom exits, whether the command's output was shown live or buffered, however the output is chunked, however large it is, and whatever the other jobs print. Output of one command is never attributed to another stream or lost because the command ended, failed or was followed immediately by the next command.",
 ["schedules", "programs", "fault_sequences"],
 "every chunking, size, pipe state, -j, and interleaving of the completion port thread with process-exit handling",
 TESTS + "no output pipe is ever read by a test; losses need the exit notification to overtake the completion thread.",
 [L+"jomprocess.cpp", L+"iocompletionport.cpp", L+"targetexecutor.cpp", L+"commandexecutor.cpp"],
 [("overlapped reads and completion port thread", "OutputChannel::completionPortNotified"), ("buffer flush at end", "Process::printBufferedOutput"),
  ("live/buffered switch", "Process::setBufferedOutput")],
 ["bytes written by each simulated command versus bytes on jom's stdout and stderr"])

prop("P11", "Output of concurrent commands is never interleaved",
 "On each of jom's two output streams the output of two commands that run at the same time is never mixed: the complete output of a command that is not shown live appears in one contiguous block, and of two concurrent commands never both are cut up by each other (no A B A B). At most one command at a time is shown live. A recursive jom counts as one command, with everything it runs.",
 ["schedules", "programs"],
 "every pattern of output of concurrently running commands and every order of completion",
 TESTS + "output of two commands never exists in any test.",
 [L+"targetexecutor.cpp", L+"jomprocess.cpp"],
 [("hand-over of the unbuffered mode", "TargetExecutor::onChildFinished"), ("buffering", "Process::setBufferedOutput")],
 ["sequence of writes on jom's stdout and stderr, per command"])

prop("P12", "Inline files are complete, private and cleaned up",
 "When a command line that uses inline files starts, each of them exists with exactly the content given in the makefile, and it stays unchanged until that command line has ended; two targets never share a generated inline file name, not even across concurrent joms. After jom has ended - by success, failure or an error - the inline files not marked KEEP are gone and those marked KEEP exist with full content; if an inline file cannot be completely written the build fails and the command is not run with a truncated file.",
 ["schedules", "programs", "fault_sequences"],
 "every makefile with inline files, -j, interleaving, write failure and way of ending",
 TESTS + "inline file blocks are parsed, but no inline file is ever created by a test.",
 [L+"commandexecutor.cpp", L+"targetexecutor.cpp"],
 [("creation and name choice", "CommandExecutor::createTempFiles"), ("removal", "CommandExecutor::cleanupTempFiles")],
 ["content of the inline file as read by the command, files left over after exit"])

prop("P13", "jom does not exit while its commands are running",
 "However a build ends - success, failing command, error while preparing a target, missing dependent, or command that cannot be started - jom exits only after every command it has started has ended. So when jom returns, nothing of that build is still modifying files.",
 ["schedules", "programs", "fault_sequences"],
 "every way of ending a build by itself at every point while other commands run (forced termination from outside is excluded)",
 TESTS + "no test has a running command when jom decides to end.",
 [L+"targetexecutor.cpp", L+"commandexecutor.cpp", L+"jomprocess.cpp", L+"dependencygraph.cpp"],
 [("waiting for all executors", "TargetExecutor::waitForProcesses, Process::waitForFinished")],
 ["live child processes at each jom process exit"])

prop("P14", "Environment and directory changes of a command block behave as in one shell",
 "A variable assigned with 'set' in a command block is visible to every command line that is started after that assignment, in whichever job slot it runs and in sub-joms started from it, and its value is never torn or lost to concurrent assignments of other variables. A 'cd' affects all following command lines of the same target and never a command line of another target.",
 ["schedules", "programs", "configurations"],
 "every sequence of set and cd lines in concurrently built targets, -j and job slot assignment",
 TESTS + "no environment or working directory is ever passed to a command.",
 [L+"commandexecutor.cpp", L+"targetexecutor.cpp", L+"jomprocess.cpp"],
 [("broadcast between slots", "CommandExecutor::environmentChanged"), ("per-target working directory", "CommandExecutor::start, exec_cd")],
 ["environment block and working directory of each started process"])

prop("P15", "Interrupted and repeated builds converge",
 "After any history of builds that were killed, interrupted with Ctrl-C, or failed at arbitrary points, and of edits to source files between them, a subsequent undisturbed build succeeds and leaves exactly the files a build from scratch would produce, and a further build directly after it executes nothing. A rebuild executes only targets that are out of date with respect to the edits and to what was not completed before.",
 ["histories", "crash_points", "schedules"],
 "every history of build, kill, interrupt, failure and edit (edits separated by at least the file system's time stamp granularity, commands replacing their output atomically)",
 TESTS + "no build is ever run, let alone interrupted and repeated.",
 [L+"dependencygraph.cpp", L+"fastfileinfo.cpp", L+"filetime.cpp", L+"targetexecutor.cpp"],
 [("time stamps are the only durable state", "DependencyGraph::isTargetUpToDate, FastFileInfo")],
 ["files after each build of the history; commands executed by the final builds"])

prop("P16", "Long builds do not accumulate resources",
 "The number of operating system handles, timers and threads jom holds while a build is running is bounded by the number of job slots, not by the number of commands executed or output read so far. When a command could not be started directly or has ended, everything opened for it is closed again, and no pipe end of one command is left open in jom or leaks into commands started later.",
 ["schedules", "programs", "fault_sequences"],
 "every build length, mixture of direct and shell commands, failing starts and schedules",
 TESTS + "no handle is ever opened for a command by a test.",
 [L+"jomprocess.cpp", L+"iocompletionport.cpp"],
 [("closing of pipe and process handles", "Process::start, Process::onProcessFinished"), ("exit code polling", "Process::tryToRetrieveExitCode")],
 ["handle table, timer and inheritance sets of the simulated kernel"])

prop("P17", "An unreadable makefile is never half executed",
 "If reading the makefile, an included file or a command file fails at any point - open error, read error in the middle of the file, file vanishing - jom reports an error and exits with a non-zero code without executing any command. It never treats the readable part as the whole makefile. (If an error goes away and reading again got everything, a complete and correct build is just as good.)",
 ["fault_sequences", "inputs"],
 "every read of every makefile, include and command file failing, at every offset and chunk size",
 "The existing tests only read intact files from a working disk; no read error is ever injected.",
 [L+"makefilelinereader.cpp", L+"preprocessor.cpp", L+"options.cpp", L+"makefilefactory.cpp"],
 [("line reading and its end-of-file test", "MakefileLineReader::readLine"), ("opening of included files", "Preprocessor::internalOpenFile")],
 ["exit code, stderr and executed commands under injected read faults"])

prop("P18", "Ctrl-C ends jom promptly at every point",
 "A console interrupt delivered at any point of a build makes jom and all its sub-joms exit with code 2 within a bounded time (5 simulated seconds), with a message, without crashing, without leaving behind generated inline files, and with no command started later than 2 simulated seconds after the interrupt. A jom that has already ended its build when the interrupt is delivered may exit with the code of that build.",
 ["schedules", "crash_points", "programs"],
 "every point of a build at which the interrupt arrives, every interleaving of the handler thread with the other threads",
 TESTS + "the handler runs in a separate thread and is never invoked by a test.",
 ["src/app/main.cpp", L+"targetexecutor.cpp", L+"commandexecutor.cpp"],
 [("console handler", "ConsoleCtrlHandlerRoutine"), ("temp file removal", "TargetExecutor::removeTempFiles")],
 ["exit code, stderr, remaining files, process starts after the interrupt"])

prop("P19", "Query modes execute nothing",
 "With /N, /DUMPGRAPH, /DUMPGRAPHDOT, /VERSION, /H or /? jom starts no command and changes no file of the project, and it exits with code 0 when the makefile is valid. /N prints the command lines a sequential real build would execute, each exactly once and in dependency order (for commands that really update their targets).",
 ["programs", "configurations", "schedules"],
 "every makefile, file state, -j and schedule",
 "The tests check that these options are parsed; the event loop that must not start anything is never run.",
 [L+"targetexecutor.cpp", L+"commandexecutor.cpp", L+"dependencygraph.cpp", "src/app/main.cpp"],
 [("dry run", "CommandExecutor::executeCurrentCommandLine"), ("graph dump", "TargetExecutor::apply")],
 ["process starts, file modifications, stdout"])

prop("P20", "A failing system call becomes a failed build, never a wrong one",
 "If the operating system refuses to create a process, a pipe, a thread of the job machinery, a job semaphore, or an inline file, jom ends within a bounded time with a non-zero exit code and a message (or, with /K, treats the affected target as failed); it never reports success, never runs a dependent of the affected target, and never leaves the other running commands unattended. A command that cannot be started directly is retried through the command interpreter exactly once.",
 ["fault_sequences", "schedules", "programs"],
 "every single or repeated failure of a process, pipe, completion port or semaphore operation at every occurrence",
 TESTS + "no such system call is made, and none is made to fail.",
 [L+"jomprocess.cpp", L+"commandexecutor.cpp", L+"jobserver.cpp", L+"jobclient.cpp", "src/app/main.cpp"],
 [("start failure handling", "Process::start, CommandExecutor::onProcessError"), ("job server errors", "initJobServer")],
 ["exit code, stderr, executed commands under injected faults"])

NA = "a pure function of its input text: no schedule, clock, fault or interleaving takes part"
prop("N01", "Macro expansion follows nmake's rules",
 "Macro definitions, substitutions, environment macros, precedence rules and file name macros expand to what nmake defines for every makefile.",
 ["inputs"], "every macro definition and use", "Tests sample a handful of macro expressions.",
 [L+"macrotable.cpp", L+"makefile.cpp"], [("expansion", "MacroTable::expandMacros")], ["expanded command lines"])
prop("N02", "Preprocessing directives select exactly the active lines",
 "!if/!else/!endif, !include, !error, !undef and expression evaluation select and evaluate exactly as documented for every nesting and expression.",
 ["inputs"], "every directive nesting and expression", "Tests sample a handful of expressions and nestings.",
 [L+"preprocessor.cpp", L+"ppexprparser.cpp", L+"ppexpr_grammar.cpp"], [("conditional stack", "Preprocessor::parsePreprocessingDirective")], ["lines delivered to the parser"])
prop("N03", "Command line and MAKEFLAGS options are parsed consistently",
 "Every combination of options, macro definitions, targets and command files yields the documented option values, and the MAKEFLAGS value passed to sub-joms reproduces them.",
 ["inputs"], "every argument vector", "Tests sample a few argument vectors.",
 [L+"options.cpp"], [("option parsing", "Options::readCommandLineArguments")], ["parsed options"])
prop("N04", "Makefile lines are read correctly in every supported encoding",
 "Line continuations, comments, escapes, byte order marks and UTF-8/UTF-16/8-bit files are read as the same logical lines whatever their length.",
 ["inputs"], "every file content", "Tests sample a few files.",
 [L+"makefilelinereader.cpp"], [("line reader", "MakefileLineReader::readLine")], ["logical lines"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
