import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","A recipe runs only after everything it depends on is finished",
"During a build, the recipe of a source file is started only after the recipes of all source files that produce something it depends on, directly or through other files, have ended successfully. This includes the recipes that create the directories its targets go to. It holds for every number of workers and whatever time each recipe takes.",
["schedules","inputs"],"every acyclic project, every worker count, every assignment of run times to recipes",
"The unit tests never run the scheduler on a graph, and the integration tests build one project with whatever timing the machine happens to give.",
["core/db/task_list.cpp","core/db/task.cpp","core/db/dependency_graph.cpp","core/db/source_file_list.cpp","core/sched/thread_pool.cpp"],
[("ready test over build and use dependencies","core/db/task.cpp status()"),("scheduling loop","core/db/task_list.cpp TaskList::process"),("target nodes that carry the generating file as build dependency","core/db/source_file_list.cpp makeSourceFileInfo")],
"start and end times recorded by the recipes themselves")
p("C02","A successful build is complete and runs each recipe once",
"When a build of a project with no existing targets exits with status 0, every source file that declares targets has had its recipe run exactly once, every declared target exists, and no other recipe was run. An error-free project whose recipes all succeed always exits with status 0.",
["inputs","schedules"],"every well-formed project, every worker count and recipe timing",
"Existing tests check that one fixed project builds; they do not count invocations nor vary graph or schedule.",
["core/db/task_list.cpp","core/db/source_tree.cpp","core/utils/graphutils.hpp","core/sched/thread_pool.cpp","core/sched/signaling_counter.hpp"],
[("task collection in topological order","core/db/task_list.cpp TaskList::TaskList"),("completion counter","core/db/task_list.cpp process, core/sched/signaling_counter.hpp")],
"recipe log and target directory")
p("C03","An incremental build gives the same targets as a clean build",
"After any sequence of edits to source files, added, removed and renamed files, changed dependencies, deleted targets, failed builds (where the failing recipe wrote nothing) and builds killed half way, the next build that succeeds leaves every declared target with the same content as a build from scratch. Edits get a current file time and happen between builds.",
["histories","crash_points"],"every history of edits and builds, every point at which a build is killed",
"There is no test that builds twice after a change; unit tests cover the time comparison of two files only.",
["core/db/target_info.cpp","core/db/source_file_record.cpp","core/db/dependency.hpp","core/utils/fs.cpp","core/db/task.cpp","core/db/dependency_graph.cpp"],
[("up-to-date test over all transitive dependencies","core/db/source_file_record.cpp isUpToDate, core/db/target_info.cpp"),("file time comparison","core/utils/fs.cpp isOlder")],
"content of the targets")
p("C04","Only what is out of date is rebuilt",
"A recipe is run exactly if one of its targets is missing or not strictly newer than the source file and than every project or generated file it depends on, directly or indirectly (directories and external dependencies do not count, and an existing directory target is never rebuilt), or if the file asks to be rebuilt always, or if a forced rebuild was requested. A second build with nothing changed therefore runs no recipe except those that ask to be rebuilt always and what depends on them.",
["histories","inputs"],"every project and every assignment of modification times to its files and targets, equal times included",
"Unit tests compare two files; the decision over a whole graph with regenerated intermediate files is never tested.",
["core/db/task.cpp","core/db/target_info.cpp","core/db/dependency.hpp","core/utils/fs.cpp","core/db/rebuild_policy.cpp"],
[("decision to run","core/db/task.cpp runIfNecessary"),("file time comparison","core/utils/fs.cpp isOlder")],
"recipe log")
p("C05","A failing recipe stops its dependents, and the build ends and reports it",
"If a recipe exits with a non-zero status, is killed by a signal or cannot be started, the build terminates, exits with a non-zero status and reports the failure on stderr, and no recipe is run for anything that depends on the failed one. This holds for any set of failing recipes, any worker count and any timing, and once the cause is removed the next build succeeds.",
["fault_sequences","schedules"],"every set of failing recipes and kind of failure, every schedule",
"No existing test makes a recipe fail.",
["core/db/task_list.cpp","core/exec/execve.cpp","core/exec/exit_status.hpp","core/sched/thread_pool.hpp","core/bin/maike.cpp"],
[("result table and exception path","core/db/task_list.cpp process"),("exit status decoding","core/exec/execve.cpp communicateWith, core/exec/exit_status.hpp")],
"exit status, stderr and recipe log")
p("C06","An ill-formed project is rejected before any recipe compiles anything",
"If a project has a dependency cycle, a reference to a project or generated file that does not exist, a target declared twice, or a source file whose tags are not valid, a build exits with a non-zero status and names the problem on stderr without running the compile step of any recipe. A project with none of these is accepted.",
["inputs"],"every project, every place at which one such error is made",
"Unit tests try one cycle on a toy graph; no test feeds an ill-formed project to the program.",
["core/utils/graphutils.hpp","core/db/dependency_graph.cpp","core/db/source_file_list.cpp","core/source_tree_loader/directory_scanner.cpp","core/db/task_list.cpp"],
[("cycle detection","core/utils/graphutils.hpp processGraphNodeRecursive"),("reference resolution","core/db/dependency_graph.cpp resolve"),("duplicate targets","core/db/source_file_list.cpp insertUnique"),("collection of scan errors","core/source_tree_loader/directory_scanner.cpp")],
"exit status, stderr and recipe log")
p("C07","The headers a C++ file includes are found exactly",
"For C++ text, the dependencies found are exactly the operands of the include directives, in order, that begin a line outside of comments, string and character literals and raw strings; quoted operands become project files (or generated ones, if they match a configured pattern) and operands in angle brackets become system headers. The result does not depend on how the text is cut into reads, nor on line endings.",
["inputs"],"every C++ text in which only white space precedes the # on a line and separates #, include and the operand (no line splices outside literals)",
"Unit tests cover one file with a handful of constructs; missed and phantom includes depend on combinations of neighbouring constructs.",
["core/source_file_info_loaders/cxx/source_file_loader.cpp","core/io/input_buffer.hpp"],
[("scanner","core/source_file_info_loaders/cxx/source_file_loader.cpp getDependencies"),("generated include patterns","core/source_file_info_loaders/cxx/source_file_loader.cpp get_origin")],
"dependencies returned, and the printed dependency graph")
p("C08","Embedded build tags are extracted exactly, on their own lines",
"The text after a tag mark (//@ in C++ files, #@ in scripts) that begins a line outside of comments, literals and raw strings is passed on unchanged as tag text, nothing else of the file is, and each line of tag text has the same line number and column as in the file. The source text itself is passed through byte for byte.",
["inputs"],"every text, every way of cutting it into reads",
"Unit tests cover one example per language.",
["core/source_file_info_loaders/cxx/source_file_loader.cpp","core/source_file_info_loaders/extension/source_file_loader.cpp","core/source_file_info_loaders/maikerule/source_file_loader.cpp","core/io/output_buffer.hpp"],
[("tag filter for C++","core/source_file_info_loaders/cxx/source_file_loader.cpp filterInput"),("tag filter for scripts","core/source_file_info_loaders/extension/source_file_loader.cpp filterInput")],
"tag and source streams")
p("C09","JSON data is read and written without change, and bad data is refused",
"A JSON document read and written again (compact or pretty-printed) denotes the same value, however it is cut into reads; typed access gives the value stored and fails on a missing key or a value of another type. Text that does not begin with a valid document is refused with an error naming the source and position (what follows the first complete document is not looked at), and text of white space only counts as empty.",
["inputs"],"every JSON value, every text, every way of cutting it into reads",
"Unit tests parse one well-formed document from one in-memory buffer.",
["core/key_value_store/json_handle.cpp","core/key_value_store/json_handle.hpp","core/key_value_store/compound.hpp","core/key_value_store/array.hpp"],
[("reader callback","core/key_value_store/json_handle.cpp ReadHelper"),("typed access","core/key_value_store/compound.hpp get/getIf, json_handle.hpp as")],
"values returned and errors raised")
p("C10","Configuration files merge key by key, and a dumped configuration is equivalent",
"When several configuration files are given, compounds are merged recursively, arrays are concatenated in the order given, other values are overridden by the later file, and a file that cannot be read or whose value for some key is of another kind is reported and otherwise ignored. The configuration printed by the program is complete and valid: using it as configuration file gives the same dump and the same build.",
["configurations"],"every set of configuration documents",
"Unit tests merge two small documents; no test dumps a configuration and reads it back.",
["core/key_value_store/compound.cpp","core/key_value_store/array.cpp","core/bin/config.cpp","core/bin/config.hpp","core/source_file_info_loaders/config.cpp","core/source_tree_loader/config.cpp"],
[("merge","core/key_value_store/compound.cpp operator|="),("loading of several files","core/bin/config.cpp loadConfig"),("serialisation","core/*/config.cpp toJson")],
"dumped configuration, merged value")
p("C11","A child process gets its arguments and its output and status come back intact",
"A started program receives exactly the given arguments, an input that ends after the given bytes and the usual handling of broken pipes, and everything it writes to stdout and stderr, of any size and interleaving, is returned byte for byte and separately together with its true exit status or signal. A program that cannot be started is reported as an error. This holds for any number of programs run at the same time.",
["inputs","schedules","fault_sequences"],"every argument vector, input, output size and pattern, exit status, signal, and number of concurrent calls",
"Unit tests run one program that succeeds with short output.",
["core/exec/execve.cpp","core/exec/exit_status.hpp","core/exec/result.hpp"],
[("pipes, fork and exec","core/exec/execve.cpp execve"),("reading and waiting","core/exec/execve.cpp communicateWith")],
"result returned")
p("C12","A dry run changes nothing, and the commands it prints do the build",
"With the dry-run option the program compiles nothing and leaves the file system as it was, whatever other build options are given. The commands it prints, run in that order by a POSIX shell in the same directory, give the same targets as the real build and, when nothing has been built before, invoke the same recipes with the same arguments.",
["inputs","configurations"],"every project, including names and settings with blanks, quotes, backslashes, dollar signs and non-ASCII letters",
"One integration test makes a bootstrap script for one project whose names need no quoting.",
["core/exec/command.cpp","core/exec/execve.cpp","core/db/compilation_log.cpp","core/bin/maike.cpp"],
[("dry-run switch","core/exec/execve.cpp execve(LocalExecve, Command)"),("quoting","core/exec/command.cpp shell_escape"),("command output","core/db/compilation_log.cpp write")],
"file system, stdout, recipe log")
p("C13","Selecting targets builds them and exactly what they need",
"When targets are named on the command line, exactly the recipes that produce them or something they depend on, directly or indirectly, are run if out of date (in dependency order, and for a single target each at most once), and afterwards the named targets have the content a full build would give. An unknown target name is an error, and no recipe is run for it.",
["inputs","schedules"],"every project and every list of its targets",
"No existing test selects a target on a graph with anything to leave out.",
["core/db/source_tree.cpp","core/db/task_list.cpp","core/utils/graphutils.hpp","core/bin/maike.cpp"],
[("closure of one target","core/db/task_list.cpp TaskList(…, Target)"),("target lookup","core/db/source_tree.cpp getTarget")],
"recipe log and targets")
p("C14","The source tree scan finds exactly the files it should",
"The files taken into account are all files and directories below the source directory except those whose name matches an input filter or whose path relative to the source directory matches a full-path filter, those below such a directory, and, with recursion off, subdirectories; each file is handled by the loader configured for the longest matching file name extension. The resulting target list and dependency graph are the same in every run, whatever the number of workers.",
["inputs","configurations","schedules"],"every directory tree, set of filters and set of extension rules, every worker count",
"One integration test counts the entries of one directory with the default filter.",
["core/source_tree_loader/directory_scanner.cpp","core/source_tree_loader/input_filter.cpp","core/utils/fs.hpp","core/utils/fs.cpp","core/source_tree_loader/source_file_loader_delegator.cpp","core/source_file_info_loaders/generic/source_file_loader.cpp"],
[("parallel scan","core/source_tree_loader/directory_scanner.cpp processPath"),("filters","core/source_tree_loader/input_filter.cpp match"),("longest extension","core/utils/fs.hpp matchLongestExtension")],
"printed target list and dependency graph")
p("C15","Linking gets exactly the objects that are needed, each after those it needs",
"For a file that is linked, the list of dependencies handed to its recipe contains, exactly once each, every object that headers it includes or objects it links declare as implementation, directly or through any chain of headers and objects, and every external library those declare, and nothing else that is marked as implementation or library. Every entry comes after the entries it depends on itself.",
["inputs"],"every structure of headers, implementation files and link rules in which no implementations need each other in a circle (that is rejected, C06)",
"The integration tests link one program whose structure never varies.",
["core/db/source_file_list.cpp","core/source_tree_loader/main.cpp","core/db/dependency_graph.cpp","core/utils/graphutils.hpp","core/source_file_info_loaders/cxx/source_file_loader.cpp"],
[("attaching implementation dependencies to targets","core/db/source_file_list.cpp makeSourceFileInfo"),("passing them to files that link","core/db/source_file_list.cpp addTargetDepsToSourceFiles"),("closure","core/db/dependency_graph.cpp getUseDepsRecursive")],
"dependencies in the recipe's argument")
p("C16","Results do not depend on where the project, the targets or the caller are",
"Building the same project in place, from another working directory with an explicit source directory (relative or absolute, with or without redundant path components), or with any target directory gives the same set of targets at the same place relative to the target directory, from the same files. Nothing is written outside of the target directory.",
["configurations","inputs"],"every project, source directory spelling, target directory and working directory",
"The integration tests try two fixed layouts.",
["core/source_tree_loader/source_file_load_ctxt.cpp","core/source_tree_loader/source_file_loader_delegator.cpp","core/bin/maike.cpp","core/source_tree_loader/command_dictionary.cpp"],
[("target names","core/source_tree_loader/source_file_load_ctxt.cpp makeTargetName"),("reference resolution","core/source_tree_loader/source_file_load_ctxt.cpp prependSearchPath"),("default target directory","core/bin/maike.cpp makeBuildInfo")],
"target tree, recipe log")
p("C17","Command line options mean what was typed",
"Every option given as --name or --name=value takes effect with exactly that value: lists are split at commas with a backslash protecting the next character, build ids and start times reach the recipes unchanged, and a repeated option takes the last value. An unknown option name, a missing required value or a malformed number, id, time or choice is an error, and nothing is built.",
["inputs"],"every list of options and values",
"Unit tests parse a few fixed command lines.",
["core/cmd_line_parser/command_line.cpp","core/cmd_line_parser/command_line.hpp","core/bin/cmd_line_options.hpp","core/build/id.cpp","core/utils/system_time_stamp.cpp","core/sched/thread_count.cpp"],
[("option lookup","core/cmd_line_parser/command_line.cpp collect_options"),("lists","core/cmd_line_parser/command_line.cpp next_array_token"),("build id","core/build/id.cpp")],
"echoed options, job header, recipe arguments, exit status")
p("C18","Buffered streams and queues deliver every byte once and in order",
"Bytes written in any pieces to a queue or through an output buffer of any capacity are read back complete, unchanged and in order, in any pieces and through an input buffer of any capacity, with reader and writer in different threads, and the end is seen exactly after the last byte. A file read through the file reader gives exactly its content.",
["inputs","schedules"],"every byte sequence, piece sizes, buffer capacities and interleaving of reader and writer",
"Unit tests write and read one short text.",
["core/io/fifo.hpp","core/io/input_buffer.hpp","core/io/output_buffer.hpp","core/io/input_file.hpp","core/io/reader.hpp","core/io/writer.hpp"],
[("queue","core/io/fifo.hpp"),("buffers","core/io/input_buffer.hpp, core/io/output_buffer.hpp")],
"bytes read")
p("C19","Every task given to the thread pool runs once, and its result gets back",
"Each task handed to the pool is run exactly once and has been run when the pool is gone, tasks that block do not stop the other workers, and a result or exception reaches whoever waits for that task. The first exception of a task nobody waits for is kept until taken, and a counter or event that is waited for releases the waiter when and only when its condition comes true.",
["schedules","fault_sequences"],"every number of workers and tasks, tasks that add tasks, throw or block, every interleaving",
"Unit tests run three tasks that cannot interfere.",
["core/sched/thread_pool.cpp","core/sched/thread_pool.hpp","core/sched/signaling_counter.hpp","core/sched/event.hpp","core/utils/unique_function.hpp","core/utils/scope_exit_handler.hpp"],
[("worker loop","core/sched/thread_pool.cpp performTasks"),("result hand-over","core/sched/thread_pool.hpp AsyncTaskResult"),("waiting","core/sched/signaling_counter.hpp, core/sched/event.hpp")],
"tasks run, results, thread sanitizer")
p("C20","Graph traversal visits each node once, dependencies first, or reports a cycle",
"Visiting a directed graph visits every node exactly once and each node after all nodes it depends on; visiting from one node visits exactly the nodes reachable from it, that node last, and hands over with each other node one of the edges that lead to it. If and only if a cycle can be reached, the traversal fails instead.",
["inputs"],"every finite directed graph, including parallel edges, self loops, unresolved edges and deep chains",
"Unit tests walk one graph of a few nodes and one cycle.",
["core/utils/graphutils.hpp","core/db/dependency_graph.hpp"],
[("iterative depth-first search","core/utils/graphutils.hpp processGraphNodeRecursive"),("whole graph","core/utils/graphutils.hpp visitNodesInTopoOrder")],
"order of visits")
p("C21","A recipe is told exactly what it has to know",
"The argument of a compile step names the source file, all its targets in the order declared, the settings of its loader merged with those in the file's own tags, the build id, start time, source and target directory and log format in use, and each direct or indirect dependency exactly once with its resolved name, its origin and the properties given where it was declared. A file with a recipe of its own is handed to that one, and a file without any recipe is run itself. If a name that has to be told is not UTF-8, the build fails before anything is made.",
["inputs","configurations"],"every project and set of options",
"No test looks at the argument handed to a recipe.",
["core/db/source_file_record.cpp","core/db/compiler.cpp","core/db/dependency.cpp","core/build/info.hpp","core/source_tree_loader/source_file_load_ctxt.cpp","core/db/source_file_origin.cpp"],
[("argument","core/db/source_file_record.cpp makeBuildCommand"),("settings","core/db/compiler.cpp operator|"),("dependencies from tags","core/source_tree_loader/source_file_load_ctxt.cpp getDependency")],
"arguments received by the recipe")
p("C22","Recipes are found, configured and asked for tags as documented",
"A recipe name denotes the file of that name in the project if there is one and otherwise the one installed with the program; a recipe that exists in neither is an error. Settings that a recipe prints when asked to configure replace the configured ones for every file compiled with it, whatever their size; targets and dependencies it prints when asked for tags are added to those found in the file; a recipe that fails at either step, or prints something else, makes the build fail before anything is compiled.",
["inputs","configurations","fault_sequences"],"every placement of recipes, every output and failure of the configure and tag steps",
"The bundled recipes used in the tests print short, valid answers only.",
["core/source_tree_loader/command_dictionary.cpp","core/db/compiler.cpp","core/db/compiler.hpp","core/source_tree_loader/source_file_load_ctxt.cpp","core/bin/config.cpp"],
[("lookup","core/source_tree_loader/command_dictionary.cpp get"),("configure","core/db/compiler.cpp configRecipe"),("tags","core/db/compiler.cpp getTags")],
"recipe log, dependency graph, exit status")
p("C23","With the bundled recipes, C++ projects become correct programs",
"A C++ project built with the recipes that come with the program gives executables and libraries that link and behave as if compiled by hand from the same files, after the first build and after every later edit. Files to be copied are copied unchanged, settings such as compiler flags reach the compiler, tests marked to be run are run, and an error from the compiler, linker or test makes the build fail.",
["programs","histories"],"every C++ project made of headers, implementation files, generated headers, libraries, programs and tests, every edit history",
"The integration tests build this project itself only.",
["recipes/cxx_compiler.py","recipes/cxx_linker.py","recipes/make_lib.py","recipes/copy_file.py","recipes/make_directory.py","recipes/pkg_config.py"],
[("compile and run","recipes/cxx_compiler.py compile"),("link order","recipes/cxx_linker.py filter_deps"),("archive","recipes/make_lib.py")],
"behaviour of the programs built")
p("C24","The log shows each recipe's result and output, complete and unmixed",
"For each recipe that is considered, the log has one line with its source file, whether it succeeded and, if it was run, when it began and ended, and, at the highest level, its command; whatever the recipe wrote to stdout follows complete, each line with a fixed prefix, and what it wrote to stderr appears complete on stderr. Output of recipes that run at the same time is never mixed, and the log level decides which of these lines appear.",
["schedules","inputs"],"every output of recipes, every log level and worker count",
"No test looks at the log.",
["core/db/compilation_log.cpp","core/db/compilation_log.hpp","core/db/task_list.cpp"],
[("log writer","core/db/compilation_log.cpp write")],
"stdout and stderr of the program")
p("C25","The bundled file recipes run the configured tool, and fail if it fails",
"For each file handled by the bundled recipe for arbitrary commands (generic.py) the configured executable is run with exactly the configured arguments, each with the placeholders for source file and target replaced and not split or interpreted further, and the target is named after the file and lies at the file's place below the target directory; the recipes that copy files and that convert Markdown, documents and style sheets make their targets from the file, by one run of their tool. When the tool exits with a non-zero status, is killed or can't be started, or the file is damaged, the build fails and says why. A document is made after the targets it refers to, and again when they change.",
["inputs","fault_sequences","histories"],"every set of files, dependencies between them, command templates and layouts, every failing tool, every history of edits",
"No test runs these recipes.",
["recipes/generic.py","recipes/copy_file.py","recipes/md2htmlpart.py","recipes/doc2html.py","recipes/sass2css.py","core/source_file_info_loaders/generic/source_file_loader.cpp","core/source_file_info_loaders/extension/source_file_loader.cpp"],
[("generic recipe","recipes/generic.py compile, get_tags"),("references of documents","recipes/doc2html.py get_tags"),("target name","core/source_file_info_loaders/generic/source_file_loader.cpp makeTargetName")],
"arguments the tools get, contents of the targets, exit status")
p("C26","No input makes the program crash, hang or behave undefined",
"Whatever the contents of source files, tags, rule files and configuration, whatever recipes print when they are configured or asked for tags, whatever options are given and whatever kind of file is found in place of another, the program ends by itself, with exit status 0 or with another one and a message on stderr, and without invalid memory accesses, undefined behaviour or data races. The verdict and the target list are the same for every number of workers.",
["inputs","configurations","schedules"],"every project tree (without FIFOs, devices and links to a directory above), configuration, recipe output and command line, every worker count",
"Unit tests feed well-formed input to single functions, without sanitizers.",
["core/source_tree_loader/directory_scanner.cpp","core/source_tree_loader/source_file_load_ctxt.cpp","core/key_value_store/json_handle.cpp","core/source_file_info_loaders/cxx/source_file_loader.cpp","core/bin/maike.cpp","core/bin/config.cpp","core/cmd_line_parser/command_line.cpp","core/source_tree_loader/main.cpp"],
[("collection of scan errors","core/source_tree_loader/directory_scanner.cpp processPath"),("value access","core/key_value_store/json_handle.hpp"),("last handler","core/bin/maike.cpp main")],
"exit status, stderr, sanitizer reports")
p("C27","What the program prints about a project is true, and asking builds nothing",
"The target list printed on request names exactly the targets a build makes, the dependency graphs exactly the direct dependencies (in one direction or the other, readable by dot), the list of external dependencies exactly those, and the configuration, help and version texts are complete, whether printed to stdout or to the path given with the option. No recipe compiles anything, and nothing but that path changes. A path that can't be written is reported.",
["inputs","configurations"],"every project, every query option with or without a path, every other option",
"No test compares what is printed.",
["core/bin/maike.cpp","core/db/dependency_graph.hpp","core/bin/cmd_line_options.hpp"],
[("printing","core/bin/maike.cpp printTargets, printDepGraph, printExternalDeps"),("choice of the output","core/bin/maike.cpp selectOutput")],
"stdout, the file written, file system")
p("C28","The C++ recipes use a fitting compiler, with exactly the flags asked for",
"If a C++ language revision, oldest or newest or both, is asked for, the bundled compiler recipe uses the default compiler (the one in CXX, or g++) if that supports it, otherwise an installed version of it (its name, a dash and a version) that does, otherwise the one that comes closest, with an option for the revision only where its default does not fit; if there is none, nothing is compiled and the build fails. Each call of the compiler, linker or archiver gets the configured flags as they are and in order, the include directories in the source and the target tree, the flags and libraries of the pkg-config packages used as pkg-config means them, the objects needed before any library, and the right target, and nothing else; clang-tidy, for files it is to check, gets the same flags. When a tool, a test, clang-tidy or pkg-config fails, so does the build, what depends on it is not made, and the next build tries it again.",
["inputs","configurations","fault_sequences"],"every set of installed compilers, every CXX and AR, every configuration of revisions, flags and directories, every use of packages and libraries",
"The integration tests use one compiler and one configuration.",
["recipes/cxx_compiler.py","recipes/cxx_linker.py","recipes/make_lib.py","recipes/pkg_config.py"],
[("choice of the compiler","recipes/cxx_compiler.py select_compiler_and_stdrev"),("flags","recipes/cxx_compiler.py collect_cflags"),("libraries","recipes/cxx_linker.py filter_deps"),("packages","recipes/pkg_config.py")],
"arguments the compiler, linker and archiver get, exit status")
p("C29","The version log tells the history of the project's own repository",
"The target made by the recipe vcslog holds the id of the commit that is checked out in the git repository of the source directory, its description (with a suffix if tracked files have changed), and all commits that led to it, newest first, each with its author's date, the first line of its message and its description, wherever the program is run. Where there is no repository, as in an unpacked release, it holds the data of the last time; when there are none either, the build fails. Several logs in one project do not disturb each other.",
["inputs","histories","configurations"],"every history of commits, branches, merges, tags and changes, every removal and return of the repository, every working directory",
"The tests only build maike's own log, in one repository.",
["recipes/vcslog.py"],
[("repository and fallback","recipes/vcslog.py get"),("commits","recipes/vcslog.py collect_commits")],
"contents of the target, exit status")
p("C30","The manual and help pages made with the project tell what the program says",
"The help and manual pages that are made with the project hold what the built program prints as its options and default configuration, word for word, and what projinfo.json says about description, authors, years and license, together with the date of the build. A page is made again when the program or the facts it holds have changed, and only then. When the program or pandoc fails, so does the build, and no page based on it is made.",
["histories","fault_sequences","inputs"],"every text the program prints, every set of facts, every history of edits and failures, every place of the scripts and of the target directory",
"The tests neither read these pages nor make a tool fail.",
["doc/cmdlineopts.py","doc/configdefault.py","doc/cmdlineopts2xml.py","doc/configdefault2xml.py","doc/manpage.py"],
[("manual page","doc/manpage.py compile"),("texts of the program","doc/cmdlineopts.py compile, doc/configdefault.py compile"),("parts of the user guide","doc/cmdlineopts2xml.py compile, doc/configdefault2xml.py compile")],
"contents and times of the pages, exit status")
p("C31","Documents become complete HTML, with working references",
"A document made by the recipe for documents (doc2html.py) holds, in order and with its text unchanged, every chapter, section, paragraph, list, figure, table and included fragment of its source, a table of contents that names the chapters, sections and subsections, and references that lead to an element that is there and, within one file, bear its title, unless another text is given. What it includes and refers to is made first, wherever the source and target directories are and whatever they are called, and it is made again when an included fragment changes. When a file it includes is damaged, the build fails.",
["inputs","histories","configurations"],"every document of the elements the user guide uses, every nesting, every inclusion, every layout of directories",
"The tests make a single document and do not look at it.",
["recipes/doc2html.py","recipes/doc2html.xsl","core/source_file_info_loaders/generic/source_file_loader.cpp"],
[("style sheet","recipes/doc2html.xsl"),("call of the tool and references","recipes/doc2html.py compile, get_tags")],
"the HTML file, exit status")
p("C32","Maike builds and installs itself",
"Built by itself, with its own configuration, from any directory and with any number of workers, or by the script that a dry run prints, the project's own sources become a program that behaves as the one it was built with. After a change of any of its files, whatever is made from that file, by inclusion, linking or as a recipe, is made again, and a damaged file makes the build fail. An installation by install.sh is complete and works at any place, however the program is called, and fails if something is missing.",
["histories","configurations","inputs"],"every set of changed files, every place of sources and targets, every worker count, every project the rebuilt program is used for, every prefix and umask",
"The unit tests are built by another build script; the integration tests need a network and make one build without changes.",
["maikeconfig.json","core/bin/maike.app.maikerule","core/bin/about.py","core/bin/about.cpp","install.sh","Makefile","recipes/cxx_compiler.py","recipes/cxx_linker.py"],
[("tags of the sources","core (comments that begin with //@)"),("configuration","maikeconfig.json"),("installation","install.sh")],
"commands printed, exit status, behaviour of the rebuilt and the installed program")
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
import re
for x in P:
    n=len(re.findall(r'\.(?:\s|$)',x['statement']))
    assert n<=3,(x['id'],n)
