import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=(),state=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=["pieshell/"+f for f in files],
        state=[dict(name=n,meaning=m,where="pieshell/"+w) for n,m,w in state],
        mechanism=[dict(name=n,where="pieshell/"+w) for n,w in mech],
        observe_at=list(observe),hook_needed=None)))

p("C01","Piped and captured output arrives complete, unchanged and in order",
"Every byte a command writes to its standard out reaches the next part of the pipeline - or the Python code that reads the pipeline with bytes(), str(), for or async for, by line or raw - exactly once, unchanged and in order, and end of file is seen only after the last writer is done. Line iteration gives every line once, decoded as UTF-8 (other bytes with surrogateescape, as in the rest of Python) and without its newline, including empty lines and a last line that has no newline. The output of a + b is the output of a and of b, each complete and in order.",
["inputs","schedules","programs"],"all byte contents, sizes (0 to many pipe buffers), write chunkings, delays, numbers of stages, nestings of | and +, and ways to read",
"The tests read a few short ASCII outputs of ls/echo/cat; content, sizes around the 1024 byte reads and 64 KiB pipes, chunk boundaries inside UTF-8 characters and lines, and slow or fast writers are not varied.",
["iterio.py","pipeline/pipe.py","pipeline/group.py","pipeline/base.py","pipeline/running.py","redir.py","utils/asyncutils.py"],
[("InputHandler / LineInputHandler buffering","iterio.py"),("Pipe._run connects source stdout to destination stdin","pipeline/pipe.py"),("Group._run shares redirects","pipeline/group.py"),("Redirect.perform in the child","redir.py"),("Pipeline.__bytes__/__str__/__iter__/__aiter__","pipeline/base.py")],
["what readers of the pipeline get","files written by last stages"])

p("C02","Python iterators and functions exchange lines with processes losslessly",
"Every item an iterator, async iterator, generator, function or coroutine in a pipeline produces is written exactly once, in order and followed by a newline - bytes as they are, strings as UTF-8, other objects as their str(), coroutine items awaited, None not at all. A function's input gives every line the part before it wrote, in order, and then ends. This holds for any mix of Python and process parts, for items larger than a pipe holds, and for functions that read all, some or none of their input, without deadlock.",
["inputs","schedules","programs"],"all item sequences (types, sizes, counts), function styles (generator, async generator, coroutine, plain function, method, iterators and iterables), consumption patterns and positions in the pipeline",
"The tests use one or two generators with three short strings; item types, items larger than PIPE_BUF or a pipe, lazily or partly consumed input, two or more Python parts in a row, and back-pressure are not reached.",
["iterio.py","pipeline/function.py","utils/asyncutils.py","pipeline/base.py"],
[("Function._run and convert()","pipeline/function.py"),("OutputHandler / LineOutputHandler","iterio.py"),("itertoasync, asyncmap","utils/asyncutils.py"),("LineInputHandler","iterio.py")],
["log of the items produced and consumed","bytes seen by the processes around them"])

p("C03","Pipelines, iterators and functions as arguments work as files",
"A pipeline or iterator given as an argument of a command, positional or named, becomes a path from which the command can read its complete output (lines, for iterators) and then end of file. A function given as an argument becomes a path to which the command can write, and the function's input gives all lines written and then ends. Any number of them can be combined in one command, in order with ordinary arguments, nested, and without changing its standard in, out and err; all of them are parts of the running pipeline.",
["inputs","programs","schedules"],"all argument lists mixing strings, options, pipelines, iterators and functions, up to nesting depth 3, sizes beyond a pipe, in any position of a pipeline",
"One test script uses a single argument pipe of each sort with a word of content.",
["pipeline/command.py","redir.py","pipeline/function.py"],
[("Command._handle_arg_pipes","pipeline/command.py"),("BaseCommand._arg_list","pipeline/command.py"),("Redirects.find_free_fd","redir.py")],
["content read from / written to the paths","argument vector seen by the command"])

p("C04","Waiting ends exactly when every part of the pipeline has ended",
"Waiting for a pipeline - wait(), await, +pipeline, or reading its output to the end - ends only after every process and function in it has ended, and always ends once they have. This holds however they end (exit, signal, return, exception), in whatever order and however fast, however many tasks wait, whenever they started waiting, and even if other waiting tasks are cancelled. is_running is true until then and false ever after, for the parts and for the pipeline.",
["schedules","programs","histories"],"all orders and timings in which parts end, all kinds of endings, numbers of waiters, cancellations, and waits started before, between and after the endings",
"The tests only wait once, in one task, for processes which exit normally; orderings of exits against waits, deaths by signal and cancellations are up to the scheduler.",
["pipeline/running.py","signalio/__init__.py","signalio/signalutils.py","signalio/manager_signalfd.py","signalio/manager_asyncio.py","iterio.py"],
[("RunningPipeline.wait / handle_finish, finish_future","pipeline/running.py"),("RunningItem.await_finish","pipeline/running.py"),("ProcessSignalHandler.handle_event","signalio/__init__.py"),("get_sigchlds reaps every child","signalio/signalutils.py")],
["order of wait() returning against ends of processes and functions","/proc state of the processes"])

p("C05","Failures are reported, completely and only when they happened",
"Waiting for a pipeline - or reading its output to the end, after all output has been delivered - raises PipelineFailed if and only if some process in it exited with a non-zero status or died from a signal, or some function in it raised. The exception's pipeline lists exactly those parts in failed_processes, with the exit status or signal number in exit_code, or the exception raised; the exit_code of a pipeline is that of the command it ends in. The text of the exception names every failed part and includes what it wrote to its captured standard err.",
["inputs","programs","fault_sequences"],"all combinations of parts failing and succeeding, exit statuses 0-255, signals, exceptions, positions in pipelines, ways to run and amounts of standard err output",
"One test has one failing command; which parts failed, exit statuses against signals, functions, and failures seen by readers are not distinguished.",
["pipeline/running.py","pipeline/function.py","signalio/signalutils.py","iterio.py"],
[("RunningPipeline.failed_processes, is_failed, exit_code","pipeline/running.py"),("RunningProcess / RunningFunction.is_failed","pipeline/running.py"),("PipelineError.__str__","pipeline/running.py"),("get_sigchlds status decoding","signalio/signalutils.py"),("at_eof","iterio.py")],
["exceptions raised by wait/iteration","failed_processes"])

p("C06","A command has exactly the file descriptors its redirects declare",
"A command started by pieshell has open exactly its standard in, out and err, the file descriptors of its redirects and one for every argument which is a pipe, each referring to the declared file or pipe end with the declared access mode. Nothing else of the shell's leaks into it: no other ends of the pipeline's pipes, files, log, event loop or signal descriptors, whether or not these are inheritable. Redirects of one command are made simultaneously, so descriptors can be swapped, duplicated and overlap with whatever numbers the shell itself uses.",
["programs","inputs","configurations"],"all sets of redirects (files, pipes, descriptors, TMP, STRING, several of the same source, swaps, high numbers), positions in pipelines, descriptors open in the shell, and limits on open files",
"No test looks at the file descriptors of a child; leaked pipe ends only show as hangs in some schedules.",
["redir.py","pipeline/command.py","pipeline/pipe.py","pipeline/group.py","pipeline/redirect.py","utils/pipe.py","log.py"],
[("Redirects.move_existing_fds / perform / close_other_fds","redir.py"),("Redirect.perform","redir.py"),("find_free_fd","redir.py"),("pipe_cloexec","utils/pipe.py")],
["/proc/self/fd and fcntl flags in the command"])

p("C07","The shell's own descriptors, children and temporary files are conserved",
"When a pipeline has ended, and its output been read to the end if it is read, the shell has the same open file descriptors as before it was run, no child or zombie process and no temporary file of it left, except for the files of TMP redirects. The shell never closes a descriptor twice or one it was told is borrowed, and its current directory, environment and umask are unchanged. It follows that any number of pipelines can be run from the same shell.",
["histories","programs","fault_sequences"],"all histories of pipelines run to their end, including failing, killed, partly failing to start, and concurrent ones",
"Tests are too short to run out of descriptors, and none compares descriptors, children or files before and after.",
["redir.py","pipeline/pipe.py","pipeline/group.py","pipeline/redirect.py","pipeline/function.py","pipeline/command.py","iterio.py","pipeline/running.py","signalio/signalutils.py"],
[("close_source_fds, borrow","redir.py"),("IOHandler.destroy","iterio.py"),("handle_pipeline_finish_destructive","pipeline/running.py"),("get_sigchlds","signalio/signalutils.py")],
["/proc/self/fd, children and TMPDIR at quiescent points","return values of close()"])

p("C08","Redirects open what they say, how they say, where they say",
"A redirect of a descriptor to a file opens it, once per run, when the command is run and relative to the directory of its environment, with exactly the flags and mode given, as os.open() would (umask included), and by default for reading as standard in, and for writing, creating but not truncating, as standard out and err. The forms cmd | \"f\", \"f\" | cmd, cmd > \"f\", cmd < \"f\", with str, bytes, Path and None for /dev/null, and Redirect(...) mean the same, and can be combined in any order. The file of a redirect of a whole group, pipe or command with arguments is opened once for all of its parts, which do not overwrite each other. If a descriptor is redirected more than once, the redirect closest to the command is the one in effect.",
["inputs","configurations","programs"],"all descriptors, flags, modes, umasks, existing or missing files with or without content, directories, redirect forms and combinations",
"Tests redirect to a fresh temporary file with default flags only.",
["redir.py","pipeline/redirect.py","pipeline/base.py","pipeline/command.py","pipeline/pipe.py","environ.py"],
[("Redirect.open, fd_flags","redir.py"),("CmdRedirect._run","pipeline/redirect.py"),("Pipeline._coerce, __or__, __ror__, __gt__, __lt__","pipeline/base.py"),("Redirects.register/merge","redir.py")],
["content, mode, and inode of files afterwards","flags of the descriptors in the command"])

p("C09","TMP and STRING capture exactly what was written",
"With STRING, exactly everything written to the redirected descriptor - also by others it is shared with, of any size and content - is in output_content of that part when the pipeline has ended, and the file is gone; standard err of every command is captured this way by default. With TMP, it is in a file of its own whose path is in output_files and which stays until remove_output_files(). Captures of different parts and of different runs never mix.",
["inputs","programs","schedules"],"all contents (including invalid UTF-8) and sizes, descriptors, numbers of captures per command and pipeline, repeated and concurrent runs",
"Tests check one short STRING; sizes, other descriptors, binary content, mixing between concurrent parts, and the life time of the files are not reached.",
["redir.py","pipeline/running.py"],
[("Redirect.make_pipe for TMP/STRING","redir.py"),("handle_pipeline_finish, handle_pipeline_finish_destructive","pipeline/running.py"),("output_files, remove_output_files","pipeline/running.py")],
["output_content, output_files","TMPDIR"])

p("C10","All ways to write a command give the same argument vector",
"Attributes (but for names like __this__, which Python and others look for), calls, dictionaries, named parameters and the -a, a-b short option syntax can be mixed freely, and the command gets exactly the arguments written, in order, byte for byte, with no quoting or splitting: name=value becomes --name=value with _ in the name as -, name=True becomes --name, and name=False nothing. Building a command from another never changes the other.",
["inputs","programs"],"all sequences of attribute, call, option, dictionary and short option steps with arbitrary strings, and shared prefixes",
"Tests check one or two spellings; the equivalence is over all ways to write all argument lists.",
["pipeline/command.py","environ.py"],
[("BaseCommand.__call__, __getattr__, __sub__, __neg__","pipeline/command.py"),("_arg_list","pipeline/command.py"),("Environment.__getattr__","environ.py")],
["argv of the executed program"])

p("C11","Arguments are expanded once, by the documented rules, and R() not at all",
"A string argument, or value of a named parameter, is %-formatted with the variables in scope (environment variables if there is no scope), then ~ and ~user are expanded, and then, if it contains *, ? or [, it is replaced by exactly the matching paths relative to the environment's directory - given as ./path inside that directory and absolute otherwise - or left as it is if nothing matches. Each expansion is done once, when run. Arguments in R(), and all objects that are not strings, are passed on without any expansion.",
["inputs","configurations","histories"],"all argument strings, directory contents, variables, home directories and environment directories",
"Tests expand one pattern in one directory.",
["environ.py","pipeline/command.py"],
[("Environment._expand_argument, _expand_path","environ.py"),("R","environ.py"),("BaseCommand._arg_list","pipeline/command.py")],
["argv of the executed program"])

p("C12","Environments are isolated from each other and from the Python process",
"A command runs in the directory and with exactly the environment variables of the environment it was written in, as they are when it is run, also when pipelines mix environments. Changing directory, environment variables or default redirects of an environment affects no other one, neither the one it was copied from nor its copies - and the Python process' own directory only if it is interactive. A cd that fails changes nothing.",
["histories","programs","inputs"],"all histories of creating, copying, changing and running environments, and all paths and variables",
"Tests use the one default environment and a single cd.",
["environ.py","pipeline/builtins.py","pipeline/command.py"],
[("Environment.__call__, __getitem__, _cd, _exports","environ.py"),("CdBuiltin","pipeline/builtins.py"),("Command._child chdir and execvpe","pipeline/command.py")],
["cwd and environ of the executed program","os.getcwd, os.environ"])

p("C13","Names in pysh code resolve and assign by the documented rules",
"In code run in an environment's scope, a name is the local variable if there is one, else the environment variable, else the global of the surrounding module for a pyshfunction, else the Python builtin, and else, unless Python itself looks for it (like __file__), a command of that name; exports is the dictionary of environment variables and _ the command with no name. Assigning to the name of an environment variable changes that, also for commands started later, and assigning any other name makes a local variable and never exports it. pyshfunction keeps a function's arguments, defaults, closure and result.",
["inputs","histories","programs"],"all sequences of assignments, look ups and exports of names with any collisions between locals, exports, globals, builtins and commands, by exec, eval, pysh files and pyshfunctions",
"Tests assign and look up a single name.",
["environ.py"],
[("EnvScope.__getitem__, __setitem__","environ.py"),("Environment.pyshfunction, temporary_env","environ.py")],
["values of names","environ of executed programs"])

p("C14","bashsource imports exactly the environment a bash script leaves",
"After bashsource(files...) every variable exported by bash after sourcing these files, in order, has exactly the same value in the environment - whatever characters it contains - and the names of other variables, and whatever looks like declarations inside values or functions, are not touched. The environment it was not called in is not changed, and a script that fails in bash fails the pipeline like any command does.",
["inputs","programs"],"all variable values (quotes, newlines, $, backslash, control characters, non-ASCII, empty), attributes, functions, paths of scripts",
"One test imports one variable with a value of three letters.",
["pipeline/builtins.py","environ.py"],
[("BashSource, parse_declares","pipeline/builtins.py")],
["exports afterwards, against what bash itself says"])

p("C15","Stopped, backgrounded and resumed pipelines lose nothing",
"CTRL-Z (SIGTSTP) while waiting for a pipeline in an interactive environment stops every process of it and makes the wait raise PipelineSuspended; bg or restart() continues all of them in the background, and fg or wait() continues and waits for them, ending as if they had never been stopped - also if something else than pieshell stopped them. suspend() stops them likewise; all of this can be repeated any number of times without losing or duplicating output or exit statuses. cmd & True runs a pipeline in the background, cmd & None also with its output going to /dev/null.",
["histories","schedules","programs"],"all sequences of stop, bg, fg, restart, suspend and wait over pipelines with several processes at arbitrary times",
"Tests never stop or resume anything.",
["pipeline/running.py","pipeline/builtins.py","signalio/__init__.py","pipeline/base.py"],
[("StopSignalHandler","pipeline/running.py"),("RunningPipeline.restart/suspend/wait","pipeline/running.py"),("BgBuiltin, FgBuiltin, RunnningFg","pipeline/builtins.py"),("Pipeline.__and__","pipeline/base.py")],
["/proc state of every process","exceptions from wait","output and exit status at the end"])

p("C16","Running never changes a pipeline, and runs are independent",
"A pipeline can be run any number of times, one after the other or at the same time, alone or as a part of other pipelines, and every run does what the first one would have done; its text representation and arguments stay the same. repr() of a pipeline in a non-interactive environment never runs anything; at the prompt of an interactive one it is run exactly once per evaluation, waits for it, and prints no traceback of failures caused by CTRL-C or CTRL-Z.",
["histories","programs","schedules"],"all pipelines built of commands, redirects, lists and functions, all sequences and overlaps of runs, and sharing of parts between pipelines",
"Tests run every pipeline once.",
["pipeline/base.py","utils/copy.py","pipeline/pipe.py","pipeline/group.py","pipeline/redirect.py","pipeline/function.py","pipeline/command.py"],
[("Pipeline.run makes a deepcopy","pipeline/base.py"),("deepcopy, copy_session","utils/copy.py"),("__deepcopy__ of every Pipeline class","pipeline/"),("Pipeline.__repr__","pipeline/base.py")],
["output of every run","repr before and after"])

p("C17","Running pipelines and their parts are listed and found by name",
"running_pipelines of an environment is at any time exactly the pipelines run in it that have not yet ended, in the order they were started, and last_pipeline the one most recently run; builtins that run nothing, like cd and bg, change neither. processes of a running pipeline lists every process and function in it, those of arguments included, each once; running_processes and failed_processes are exactly those of them still running and those that have ended in failure. Every part can be found as an attribute by the name of its program or function, with same-named parts told apart in sub-levels.",
["histories","programs","schedules"],"all histories of starting, ending and failing pipelines in several environments, all pipeline structures",
"Tests do not look at running_pipelines or access processes by name.",
["pipeline/base.py","pipeline/running.py","tree.py","environ.py"],
[("Pipeline.run","pipeline/base.py"),("RunningPipeline.handle_finish, processes, __getattr__","pipeline/running.py"),("TreeGroup, _getkey","tree.py")],
["running_pipelines, last_pipeline, processes"])

p("C18","Many pipelines at once do not disturb each other",
"Any number of pipelines can run and be read, written and waited for concurrently by tasks of one event loop, and each of them gives exactly the output, exit statuses and failures it gives when run alone; neither slow readers and writers nor functions waiting for something block the others. This holds in whichever event loop they are run, also several loops one after the other, and both with signalfd and without it.",
["schedules","programs","configurations"],"all interleavings of up to tens of concurrent pipelines ending simultaneously or not, event loops, and both signal backends",
"Tests run one pipeline at a time on the default loop with the installed backend.",
["signalio/manager_signalfd.py","signalio/manager_asyncio.py","signalio/signalutils.py","signalio/__init__.py","iterio.py","pipeline/running.py"],
[("SignalManager.register/handle_event/match_signal","signalio/"),("get_sigchlds handles merged SIGCHLDs","signalio/signalutils.py"),("IOHandler on the event loop","iterio.py")],
["outputs and results of each pipeline"])

p("C19","A subshell runs its pipeline in a process of its own, and nothing more",
"subshell(pipeline) behaves as a single command whose standard in and out are those of the pipeline, and which fails, telling why in its standard err, if the pipeline does. Whatever happens in it, its process runs nothing of the calling program but the pipeline and never returns to it, the rest of the shell goes on as without it, output buffered in the shell is not written twice, and nothing done in it - variables, directories, functions with side effects - changes the calling shell.",
["programs","inputs","fault_sequences"],"all inner pipelines including failing, raising and exiting ones, positions in outer pipelines, and pending output of the shell",
"No test uses subshell.",
["pipeline/builtins.py","pipeline/command.py","init.py"],
[("SubShell._child, _run","pipeline/builtins.py"),("Command._run fork","pipeline/command.py"),("init.initialize","init.py")],
["process ids executing marked code","output and exit status of the subshell"])

p("C20","A pickled pipeline runs the same anywhere",
"A pipeline of commands, redirects, pipes, groups and lists that is pickled and unpickled, in the same or another process, has the same text representation of its commands and does exactly the same when run: arguments, R() and options, directory, environment variables, redirects and output. remote(host, pipeline) and pieshell --pcmd do so in the other shell, with standard in and out connected.",
["inputs","programs","configurations"],"all pipelines built of picklable parts, with arbitrary strings as arguments and variables, before and after being run",
"No test pickles anything.",
["pipeline/base.py","environ.py","pipeline/builtins.py","shell.py"],
[("describable_object_reduce, __setstate__","pipeline/base.py"),("Environment.__getstate__","environ.py"),("Remote","pipeline/builtins.py"),("--pcmd","shell.py")],
["output of original and copy","argv, cwd, environ of the executed programs"])

p("C21","pysh modules are imported like Python modules",
"Once pieshell is imported, import finds NAME.pysh for modules and for modules of packages on the same paths, in the same order, as Python finds its own, never instead of a .py module, and raises ImportError if there is none. The names the script assigned are the attributes of the module, it is run once however often it is imported and again by reload, and it runs in an environment of its own, so that neither cd nor assignments in it change the importing program's environment.",
["inputs","histories","configurations"],"all sets of modules and packages on all search paths, contents, import forms and orders, cd before the import",
"Tests import five scripts, from one directory, once.",
["module.py","environ.py"],
[("Finder.find_module, Loader.load_module, Module","module.py"),("EnvScope.execute_file","environ.py")],
["sys.modules and module attributes","markers written by the scripts"])

p("C22","The command line runs what it is given",
"pieshell FILE.pysh... runs these files in order, and --cmd=... and --pcmd=... the given command, each exactly once, in a scope where args, kws, the startup names and configuration are available, with standard in, out and err those of pieshell; without any of them it reads statements from standard in and runs each. ~/.config/pieshell is run once at startup, and created from the default if missing, unless --no-startup is given. --version and --help print and run nothing.",
["inputs","configurations"],"all combinations of options, files, configurations, statements and standard in",
"No test starts pieshell as a program.",
["shell.py","environ.py","module.py"],
[("main","shell.py"),("EnvScope.execute_startup, execute_file, execute_expr","environ.py")],
["output of the program, markers written by scripts"])

p("C23","Only the pipeline's own living processes are signalled",
"Stopping, continuing, waiting for and interrupting a pipeline sends signals only to processes that were started for it and have not been waited for yet, however their ending is timed, so never to an unrelated process that got the same pid. CTRL-C while waiting for a pipeline raises PipelineInterrupted with that pipeline, which is still a KeyboardInterrupt, and the pipeline can still be waited for, read and listed as long as it runs. No signal a child gets or dies from reaches the shell or other pipelines.",
["schedules","histories","fault_sequences"],"all timings of process ends against suspend, restart, wait and CTRL-C, over several pipelines",
"Tests send no signals and cannot reuse pids.",
["pipeline/running.py","pipeline/base.py","signalio/__init__.py"],
[("RunningProcess.restart/suspend","pipeline/running.py"),("run_interactive","pipeline/base.py"),("RunningPipeline.wait","pipeline/running.py")],
["every kill() call against the log of forks and waits","exceptions raised"])

p("C24","Completion lists the commands and directories there are",
"dir() of an environment lists every entry of every readable directory in its PATH - relative and empty ones relative to its own directory, the default PATH if it has none, whatever else PATH contains - and every builtin, sorted, and gives the same list until clear_dir_cache is run in it, after which it is up to date. dir() of a cd command lists exactly the directories it could be extended with, and the names for the parent and root directories; dir() of another command lists what bash's programmable completion offers after exactly its arguments, asked in the directory and with the variables of its environment; dir() in a scope lists its variables, those exported and its environment's commands. What TAB offers in the shell follows from these. Listing and completing never runs the command completed (but with --help, to know the names of arguments) or anything in its arguments, and changes no directory or variable, in interactive environments too.",
["inputs","configurations","histories"],"all PATHs, directory contents, and histories of changes and cache clearings",
"Tests do not complete anything.",
["environ.py","pipeline/builtins.py","pipeline/command.py","jedi_completion.py","resources/get_completions"],
[("Environment.__dir__, _clear_dir_cache","environ.py"),("CdBuiltin.__dir__, ClearDirCacheBuiltin","pipeline/builtins.py"),("EnvScope.keys","environ.py"),("Command._complete, __dir__","pipeline/command.py"),("setup_readline","jedi_completion.py")],
["results of dir() against the file system"])

p("C25","Commands that cannot be started fail like commands, and only they",
"If a command cannot be started - no such program, not executable, directory gone, or a file of a redirect cannot be opened - the program is not run and that part of the pipeline fails with the error's number as exit status (another non-zero one for errors without number, such as arguments which cannot be passed to any program) and the reason on its standard err, and all other parts run as if it had exited. The forked process never continues with the shell's own code and never writes output pending in the shell. Neither the shell nor later pipelines are affected.",
["fault_sequences","programs","inputs"],"all reasons to fail to start, at every position of pipelines and arguments, with any redirects",
"Tests only start programs that exist.",
["pipeline/command.py","redir.py"],
[("Command._run child side","pipeline/command.py"),("Redirects.perform","redir.py"),("Command._child","pipeline/command.py")],
["exit_code, output_content of the failed part","process ids executing marked code"])

p("C26","Process browsing shows the processes there are",
"The attributes of a process (INIT, CURRENT, PstreeProcess(pid) and started processes) named after programs are exactly its living child processes - by argv[0] where the program may not be read - same-named ones told apart in sub-levels by path, command line and pid, and dir() lists these names; those of a running pipeline are its parts, those of USERS the login sessions by user and host. PARENT, GROUP and SESS are its parent, process group leader and session leader, None where there is none any more. What psutil knows about the process is available as attributes and methods of it, its threads by iterating. Browsing never fails because some process ended meanwhile or may not be read.",
["histories","configurations"],"all process trees with equal and unequal names, orphans, and processes ending at any time",
"Tests do not browse processes.",
["ps.py","tree.py","pipeline/running.py"],
[("PstreeProcess","ps.py"),("TreeGroup","tree.py"),("RunningProcess.details","pipeline/running.py")],
["results against /proc"])

p("C27","Builtins take the same syntax and places as commands",
"The class last registered as a builtin under a name is what that name refers to in every environment, and everything else is a command; it gets its arguments, redirects and environment exactly as a command would, in all syntaxes, and can be piped, redirected, grouped, run repeatedly and be part of pipelines by delegating to other pipelines. cd goes to the directory its joined arguments name - home without arguments, PARENT and ROOT as steps - and cd, bg and clear_dir_cache have done their work when run.",
["programs","inputs","histories"],"all builtin names, arguments and positions in pipelines, and sequences of builtins and commands",
"Tests use no builtin besides cd, called internally, and one bashsource.",
["pipeline/builtin.py","pipeline/builtins.py","pipeline/command.py","__init__.py"],
[("BuiltinRegistry","pipeline/builtin.py"),("BaseCommand.__new__","pipeline/command.py"),("CdBuiltin","pipeline/builtins.py"),("entry points","__init__.py")],
["arguments and redirects the builtin got","output of the pipeline, directory afterwards"])
p("C28","The shell at a terminal runs what is typed",
"At a terminal, pieshell - with --ptpython too - runs every statement typed exactly once and in the order typed, the programs reading from and writing to the terminal and getting what is typed while they run, shows the values of expressions and why statements failed, and then shows the prompt, with the current directory in it. CTRL-C typed while a pipeline is running ends it, and CTRL-Z stops it, and in both cases the prompt is back, nothing else has ended, and what was stopped can be continued in the foreground and background, as often as one likes. CTRL-D, exit() and SystemExit end the shell, with the exit code given; what was typed is in the history of the next shell, after what was there before.",
["inputs","histories","configurations"],"all sequences of statements, jobs stopped, continued and interrupted, in both editors and all configurations",
"No test starts a shell or has a terminal.",
["shell.py","environ.py","pipeline/base.py","pipeline/command.py","pipeline/running.py","pipeline/builtins.py"],
[("main","shell.py"),("Pipeline.__repr__, run_interactive","pipeline/base.py"),("StopSignalHandler","pipeline/running.py"),("EnvScope.__str__","environ.py")],
["what the terminal shows, states of processes, what programs log, history file, exit code"])
p("C29","Commands start with the process state of the shell, and signals that work",
"A command starts with the umask, resource limits, priority, process group and session of the shell at that moment, as a child of the shell (or of the subshell it is in). Signals which were ignored or blocked when pieshell was started, or are by the user's own code, stay so in it, and no others are blocked or ignored, although Python ignores some and pieshell blocks some itself (SIGTSTP, which the shell handles for what is waited for, may be blocked): SIGPIPE ends a command nobody reads from any more, and a command gets SIGCHLD for its own children. The state of the shell itself is the same afterwards, and pieshell notices the end of commands even if SIGCHLD was ignored when it was started.",
["programs","histories","configurations","schedules"],"all states of the shell (umasks, limits, signals ignored, handled or blocked), ways to start it, positions of the command in a pipeline, and earlier pipelines",
"The tests run ls, echo and cat, which do not depend on signals, in one fixed state of the process.",
["pipeline/command.py","signalio/manager_signalfd.py","signalio/manager_asyncio.py","pipeline/builtins.py","redir.py"],
[("Command._run and _child","pipeline/command.py"),("SignalManager","signalio/manager_signalfd.py"),("SubShell._child","pipeline/builtins.py")],
["signal masks and dispositions, limits, umask, ids seen by the commands","how writers without readers end","state of the shell"])
p("C30","Processes the user starts without pieshell are the user's own",
"A program that uses pieshell can also start processes in other ways, with subprocess, os.system, os.popen, os.fork, multiprocessing and asyncio, before, while and after pipelines run: whoever started such a process gets its exit status, output and stops exactly once when waiting for it, at whatever time and in whatever way, as if there were no pipelines, and pieshell does not signal it, take it for a command of its own, list it or wait for it. Pipelines next to it end with their own statuses.",
["histories","schedules","programs","configurations"],"all interleavings of starting, ending, stopping and waiting for processes of any kind with pipelines in the foreground, background and tasks",
"The tests never start a process other than through pipelines.",
["signalio/manager_signalfd.py","signalio/manager_asyncio.py","signalio/signalutils.py","signalio/__init__.py","pipeline/running.py"],
[("get_sigchlds","signalio/signalutils.py"),("SignalManager.handle_event","signalio/manager_signalfd.py"),("SignalManager","signalio/manager_asyncio.py")],
["statuses and output the user's waits give","signals sent by the shell","statuses of pipelines"])
p("C31","Help on a command is what its program says",
"The documentation of a command - its __doc__, and what help() shows for it - is what its program writes to standard out when run with the arguments of the command and --help, in the command's environment and directory. Its signature (inspect.signature) has a keyword-only parameter, named as it would be given in a call, for each long option this text mentions, in order, that can be left out if and only if the option can be given without a value, and whose type covers all the ways the text gives the option: numbers, strings and the values named. To find out, nothing but that is run: asking a pipeline or command for documentation, signature, name or representation runs none of its programs otherwise, and changes neither it nor the shell, also in interactive environments.",
["inputs","configurations","programs"],"all texts programs print as help, all sets of options in it, commands with and without arguments, pipelines and builtins, interactive and other environments",
"No test asks for help or a signature.",
["pipeline/command.py","pipeline/base.py"],
[("Command.__signature__ and __doc__","pipeline/command.py"),("Pipeline.__doc__, __signature__, __name__ and __repr__","pipeline/base.py")],
["documentation and signatures Python gives","programs run, and with what"])
p("C32","Logging tells what happens and changes nothing",
"Whatever kinds of events are logged, with --log or through Python's logging, and whatever becomes of the log - also if nobody reads it any longer - pipelines do the same as without: output, captures, files, descriptors, failures and statuses are no different, and no directory, argument or data with odd characters in it makes logging raise. What is logged goes to the standard out the shell was started with, as whole records each with its process and kind, never into the output or files of a command that has its own; only kinds asked for, and errors, are logged, every command started and every end of a process being among them.",
["inputs","configurations","histories"],"all pipelines, captures and redirects, all sets of kinds of events, logs that are read and logs that are not, names and data with any characters",
"No test turns logging on.",
["log.py","shell.py","pipeline/command.py","redir.py","iterio.py","signalio/__init__.py"],
[("PieshellLogFDHandler and log","log.py"),("main","shell.py"),("Redirects.perform and close_other_fds","redir.py")],
["records in the log","output, captures, descriptors and statuses with logging"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
