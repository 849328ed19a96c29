import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Without --in-place the user's source tree is never modified",
 "In the default (copying) mode, no run of the program — finished, failed, timed out, interrupted or killed — changes, creates or deletes any file in the user's source tree, even temporarily, other than the mutants.out and mutants.out.old directories. This includes trees containing symlinks, read-only files, and concurrent jobs.",
 ["inputs","histories","fault_sequences","configurations"],
 "every source tree shape (symlinks, modes, nested crates), every option combination without --in-place, every outcome history, interruption and I/O failure point",
 "Existing tests only compare a couple of testdata trees after a clean finish; they never look at the tree while mutants are being tested, nor with symlinks, faults or signals.",
 ["src/build_dir.rs","src/copy_tree.rs","src/lab.rs","src/mutant.rs"],
 [("scratch copy of the tree per worker","src/build_dir.rs copy_from"),("writes only below the build dir","src/build_dir.rs overwrite_file")],
 ["source tree snapshot at every cargo invocation and at exit","system calls of the program that write below the source tree"])
p("C02","--in-place leaves the tree byte-identical when the run ends",
 "With --in-place, once the program exits by itself — after success, failed or timed-out tests, an interrupt signal, or an I/O error while applying a mutation — every file of the source tree (outside mutants.out) has exactly its original bytes and permission bits. Between two mutants the tree is also back to its original content, so at any moment at most one file carries one mutation.",
 ["histories","fault_sequences","inputs"],
 "every sequence of outcomes, every interrupt point during a cargo run, every failing write, every source encoding (LF, CRLF, missing final newline, unicode)",
 "One test checks an in-place run that finishes normally on one small tree; no test fails a write, interrupts, or uses a file that is not plain LF text.",
 ["src/lab.rs","src/mutant.rs","src/build_dir.rs","src/source.rs"],
 [("revert after each scenario, also on error","src/lab.rs run_one_scenario"),("original text kept in memory","src/source.rs SourceFile")],
 ["tree snapshot at each cargo invocation and after exit"])
p("C03","Each cargo run sees the pristine tree plus exactly its one mutation",
 "Whenever cargo is run for a mutant, the directory it runs in equals the original source tree except for exactly that one mutant's edit in exactly one file (plus whatever cargo itself wrote there); for the baseline it equals the original tree. No edit of an earlier or concurrent mutant is ever visible, every phase of one mutant sees the same tree, and mutants tested at the same time use different directories.",
 ["schedules","histories","inputs"],
 "every set of mutants, every outcome history (including timeouts and failed builds), every number of jobs and interleaving",
 "Tests observe only final outcomes of small trees; they never inspect the tree cargo was given, nor interleavings of parallel jobs.",
 ["src/lab.rs","src/mutant.rs","src/build_dir.rs"],
 [("apply, run phases, revert","src/lab.rs run_one_scenario"),("one build dir per worker thread","src/lab.rs test_mutants")],
 ["snapshot of the working directory of every cargo invocation"])
p("C04","Every selected mutant is tested once and reported once",
 "If the baseline passes and the run is not interrupted, every mutant in mutants.json is built/tested exactly once and appears exactly once in the outcomes in outcomes.json, and nothing else is tested or reported. This holds for every number of jobs, with or without shuffling, and whatever the outcomes of other mutants are.",
 ["schedules","histories","configurations"],
 "every job count, shuffle order, thread interleaving and mix of per-mutant outcomes",
 "Tests use few mutants and mostly one job and check totals; they cannot cover interleavings or duplicated/lost work under mixed outcomes.",
 ["src/lab.rs","src/output.rs","src/outcome.rs"],
 [("shared work queue under a mutex","src/lab.rs run_queue"),("outcomes appended under a mutex","src/output.rs add_scenario_outcome")],
 ["log of cargo invocations matched against mutants.json and outcomes.json"])
p("C05","A mutant's outcome follows from what its cargo runs did",
 "For each mutant: check or build exits non-zero → Unviable and its tests are not run; a phase exceeds its timeout → Timeout; the test phase exits non-zero → CaughtMutant; it exits zero → MissedMutant; with --check, a successful check → Success. The recorded phase results (phase order, exit codes, command lines) are those of the commands that really ran, for cargo test and nextest alike and for every non-zero exit code.",
 ["histories","inputs","configurations"],
 "every combination of phase results, exit codes 0-255, test tools, --check, and job counts",
 "Tests see the few exit codes that real cargo gives on testdata trees; they do not cover the space of codes per phase nor recorded details under concurrency.",
 ["src/outcome.rs","src/lab.rs","src/cargo.rs","src/process.rs"],
 [("summary from phase results","src/outcome.rs ScenarioOutcome::summary"),("stop after first unsuccessful phase","src/lab.rs run_one_scenario")],
 ["scripted exit status of each cargo invocation vs outcomes.json"])
p("C06","Exit code, counts and result lists agree with the individual outcomes",
 "After a run, caught.txt, missed.txt, timeout.txt and unviable.txt list exactly the mutants with that outcome in outcomes.json, one per line by name; the totals in outcomes.json equal the number of such outcomes. The exit code is 4 if the baseline failed, else 3 if any mutant timed out, else 2 if any was missed, else 0, including when no mutants are selected.",
 ["histories","schedules","configurations"],
 "every multiset of outcomes, job count, and option set (--check, --baseline=skip, nextest)",
 "Each test pins one particular mix of outcomes; agreement has to hold for all mixes, including caught+timeout+missed combinations under parallel jobs.",
 ["src/output.rs","src/outcome.rs","src/exit_code.rs","src/main.rs"],
 [("per-outcome counters","src/outcome.rs LabOutcome::add"),("list files","src/output.rs add_scenario_outcome"),("exit code precedence","src/outcome.rs exit_code")],
 ["mutants.out/*.txt, outcomes.json, process exit status"])
p("C07","No mutant is tested unless the unmutated tree passes first",
 "Unless --baseline=skip is given, the first thing built and tested is the unmutated tree; no mutant is built or tested until that baseline has finished successfully in every phase. If the baseline fails or times out in any phase no mutant is tested, the failure is recorded in outcomes.json and the exit code is 4; with --baseline=skip no unmutated build or test is run at all.",
 ["histories","configurations","schedules"],
 "every baseline phase and exit status (including timeout and death by signal), every job count, test tool and --check/--in-place setting",
 "Tests cover a failing build and failing tests once each with plain exit codes, and only the final message.",
 ["src/lab.rs","src/outcome.rs"],
 [("baseline run before workers start","src/lab.rs test_mutants")],
 ["ordered log of cargo invocations with tree state"])
p("C08","Timeouts are computed and enforced as documented",
 "The test timeout of a mutant is --timeout if given, else the larger of the minimum test timeout (default 20 s) and the baseline test time times the multiplier (default 5) rounded up, and 300 s without a baseline; the build timeout is the explicit one, or multiplier × baseline build time, else none. A phase that exceeds its timeout is ended, with everything in its process group, soon after the limit and the mutant reported as Timeout while the run goes on; a phase that finishes within its limit is never reported as Timeout.",
 ["histories","configurations","schedules"],
 "every combination of timeout options, config values, baseline durations and hang durations/kinds in any phase",
 "A unit test checks the arithmetic of one helper; whole-program behaviour (which duration is used, enforcement, process groups, continuing) is sampled by one slow test.",
 ["src/timeouts.rs","src/process.rs","src/process/unix.rs","src/lab.rs"],
 [("timeout calculation","src/timeouts.rs"),("poll and terminate","src/process.rs poll/terminate")],
 ["measured life time of each scripted cargo process"])
p("C09","Interrupting the program stops everything promptly",
 "On SIGINT, SIGTERM or SIGHUP at any point of a run, no further mutant is tested (at most cargo processes being started at that very moment appear, and they are ended too); the program terminates every cargo process group it started, and exits with a non-zero code within a few seconds, leaving no cargo process running, no scratch directory (unless --leak-dirs) and no mutation applied to an in-place tree. The mutant that was being tested is not reported with any outcome, and outcomes of mutants finished before the signal are all kept.",
 ["schedules","crash_points","configurations"],
 "every signal time (copying, baseline, build, test, between mutants), 1 or more jobs, cargo children with grandchildren",
 "One test interrupts one sleeping build with one job; signal timing and parallel workers cannot be enumerated by such tests.",
 ["src/interrupt.rs","src/process.rs","src/process/unix.rs","src/lab.rs"],
 [("signal flag polled","src/interrupt.rs check_interrupted"),("process group per cargo","src/process/unix.rs")],
 ["process table, exit status and time after a signal, scratch dir listing, outcomes.json"])
p("C10","Scratch directories are cleaned up, one per parallel job at most",
 "When the program exits by itself (success, failure, interrupt or error), no scratch copy of the tree remains in the temporary directory unless --leak-dirs was given, in which case all of them remain complete and with no mutation applied. Never more scratch copies exist than parallel jobs, and with --in-place none is made.",
 ["histories","schedules","fault_sequences"],
 "every way a run can end, every job count and mutant count, failing copies",
 "Tests do not look at the temporary directory after failing or interrupted runs.",
 ["src/build_dir.rs","src/copy_tree.rs","src/lab.rs"],
 [("TempDir owned by the build dir","src/build_dir.rs BuildDir"),("threads = min(jobs, mutants)","src/lab.rs test_mutants")],
 ["listing of TMPDIR during and after runs"])
p("C11","The scratch copy is a faithful copy of the tree",
 "The tree that cargo is run in (without --in-place) contains every directory, every file with identical content and permission bits, and every symlink with the same target of the source tree — hidden files, empty directories, binary files and odd names included — except version-control metadata (unless --copy-vcs=true), any mutants.out/mutants.out.old, and, in git trees with gitignore enabled, files git itself would ignore. Outside git trees, or with --gitignore=false, .gitignore files have no effect.",
 ["inputs","configurations"],
 "every tree shape, file name, mode, nesting of .gitignore rules, and --gitignore/--copy-vcs setting by flag or config",
 "Unit tests copy four tiny trees; no test compares complete contents, modes, links or ignore semantics.",
 ["src/copy_tree.rs","src/build_dir.rs","src/options.rs"],
 [("walk with ignore rules","src/copy_tree.rs copy_tree")],
 ["full snapshot of the baseline's working directory vs source tree and git check-ignore"])
p("C12","Relative path dependencies still resolve from the scratch copy",
 "In a scratch copy, every relative path outside the tree in the top-level Cargo.toml (dependencies of every kind, replace and patch tables) and in the paths list of .cargo/config.toml is replaced by the absolute path of the same target, so the copy resolves to the same crates as the original. Paths inside the tree, absolute paths and every other value in those files keep their meaning, and files needing no change stay byte-identical.",
 ["inputs","configurations"],
 "every manifest and cargo config layout and path depth",
 "Unit tests check a handful of literal manifests; none covers generated combinations or the whole file's meaning after rewriting.",
 ["src/manifest.rs","src/path.rs","src/build_dir.rs"],
 [("manifest rewrite","src/manifest.rs fix_manifest"),("config rewrite","src/manifest.rs fix_cargo_config")],
 ["parsed TOML of the copied files vs originals, target paths resolved"])
p("C13","A mutation edits exactly the reported span, and nothing else",
 "For every mutant the mutated file equals the original with exactly the reported span (1-based line and character column) replaced by the reported replacement and the marker comment; the span covers exactly the construct named (operator, function body, match arm or guard). The reported diff, applied to the original, yields the mutated file, and the mutant's name shows that file, line and column — whatever unicode, tabs, comments, string contents or layout surround it.",
 ["inputs"],
 "every source text: multi-byte characters, combining marks, tabs, CRLF, raw strings, comments containing code, constructs on one line or spread over many, no trailing newline",
 "Snapshot tests contain nearly only ASCII sources laid out by rustfmt.",
 ["src/span.rs","src/mutant.rs","src/visit.rs"],
 [("span extraction/replacement","src/span.rs"),("diff","src/mutant.rs diff")],
 ["files seen by cargo, --list --json --diff, mutants.out/diff"])
p("C14","Operators are mutated exactly per the documented table",
 "For every binary, compound-assignment and unary operator in a mutated function, exactly the documented replacements are generated — no more, no fewer, each at that operator — and removing unary ! or -; operators that are not in the table get none. Operators in every nested position (blocks, closures, conditions, match bodies, loops, arguments, const/static items, nested functions) are found.",
 ["inputs","programs"],
 "every expression nesting and operator combination",
 "Tests list mutants for few expressions; combinations of operator and position are unbounded.",
 ["src/visit.rs"],
 [("operator table","src/visit.rs visit_expr_binary / visit_expr_unary")],
 ["--list --json on generated sources whose expected mutants are known by construction"])
p("C15","Code that must not be mutated never is",
 "No mutant is generated in test functions, #[cfg(test)] items or modules, items or modules marked #[mutants::skip] (also through cfg_attr, and inner attributes on files), unsafe functions, Default impls, functions named new in impls, or functions with empty bodies, nor for arguments of calls named by skip_calls; functions outside such regions are still mutated. These hold at every nesting depth and for modules in their own files.",
 ["inputs","programs","configurations"],
 "every nesting of modules, impls, traits and functions with such attributes, inline or out of line",
 "Tests have one example per attribute at a fixed position.",
 ["src/visit.rs","src/options.rs"],
 [("attribute checks on every visited item","src/visit.rs attrs_excluded and visitors"),("skip calls","src/visit.rs visit_expr_call")],
 ["--list --json on generated sources with expected skips by construction"])
p("C16","Exactly the source files reachable from each package's targets are mutated",
 "The files considered are exactly those reached from each selected package's library, binary and proc-macro targets by following mod declarations, including foo.rs and foo/mod.rs layouts, nested inline modules and #[path] attributes, however deep. Tests, examples, benches, unreachable files, files outside the tree and modules excluded by test or skip attributes are not, and a missing module file does not stop the others from being found.",
 ["inputs","configurations"],
 "every module tree shape and every mix of mod layout styles",
 "Testdata has a few fixed module trees.",
 ["src/visit.rs","src/workspace.rs","src/package.rs","src/source.rs","src/path.rs"],
 [("mod resolution","src/visit.rs find_mod_source / find_path_attribute"),("top sources","src/package.rs")],
 ["--list-files and --list --json vs the generated module tree; compared with what rustc itself reads (dep-info)"])
p("C17","File and name filters select exactly the matching mutants",
 "With --file/--exclude globs and --re/--exclude-re patterns (or their config equivalents), the mutants selected are exactly those whose file matches some include glob (if any) and no exclude glob, and whose full name matches some include pattern (if any) and no exclude pattern. Globs without a slash match a file or directory name anywhere in the tree and globs with a slash match the whole path from the tree root; files excluded from mutation are still followed for their submodules.",
 ["inputs","configurations"],
 "every combination of globs and patterns over every tree",
 "Tests try a few filters each alone on one tree.",
 ["src/glob.rs","src/visit.rs","src/options.rs","src/workspace.rs"],
 [("glob building","src/glob.rs"),("name filter","src/options.rs allows_mutant"),("file filter","src/visit.rs walk_tree")],
 ["--list with filters vs unfiltered --list filtered by an independent matcher"])
p("C18","Shards partition the mutants",
 "For every n, the mutants tested or listed by --shard 0/n … (n-1)/n are pairwise disjoint and together are exactly the mutants of the unsharded run, with sizes differing by at most one. The assignment depends only on the arguments and the tree, not on shuffling, jobs, or which machine runs it.",
 ["inputs","configurations"],
 "every n (including n larger than the number of mutants) and every mutant set, combined with filters and --in-diff",
 "Tests check one n on one tree.",
 ["src/shard.rs","src/main.rs"],
 [("round-robin selection","src/shard.rs select")],
 ["--list --shard k/n for all k; tested sets of full runs"])
p("C19","--in-diff selects exactly the mutants on changed lines",
 "With --in-diff, a mutant is selected exactly if its file is changed by the diff and its span includes a line that the diff adds or changes, or that is adjacent to a deletion. This holds for any unified diff of the tree (any hunk arrangement, context size, new files, deleted files, non-Rust files), and a diff that does not match the tree is refused with an error rather than misapplied.",
 ["inputs","histories"],
 "every edit history between two versions of a tree and every unified diff rendering of it",
 "Tests use a few hand-written diffs.",
 ["src/in_diff.rs","src/main.rs"],
 [("affected lines","src/in_diff.rs affected_lines"),("filter","src/in_diff.rs diff_filter")],
 ["--list --in-diff vs span/line model computed from the edit script that generated the diff"])
p("C20","--iterate skips exactly the mutants already caught or unviable",
 "With --iterate, exactly the mutants recorded as caught or unviable by name in the previous mutants.out, or carried over there from earlier iterations, are skipped, and all others are tested again. Over any sequence of iterated runs, with any outcomes, no missed or timed-out mutant is ever skipped and no caught mutant is retested until a run without --iterate.",
 ["histories"],
 "every sequence of runs with and without --iterate, with changing sources and outcomes",
 "One test does a single fixed three-step sequence.",
 ["src/output.rs","src/main.rs"],
 [("load caught, unviable and previously caught","src/output.rs load_previously_caught"),("carry over","src/output.rs write_previously_caught")],
 ["tested sets over multi-run histories vs a set model"])
p("C21","Previous results are rotated, and runs never share an output directory",
 "A run that tests mutants writes its results into a fresh mutants.out in the tree or the given --output directory (created if needed); a previous mutants.out is kept whole as mutants.out.old, replacing only an older one. A run started while another is using the same output directory waits until that one has ended and never alters or interleaves its files, and a lock left by a dead run does not block.",
 ["histories","schedules"],
 "every sequence of runs, outcomes and kills, and every overlap of two runs",
 "Tests check one rotation; no test overlaps two runs.",
 ["src/output.rs","src/main.rs"],
 [("advisory lock","src/output.rs LockFile::acquire_lock"),("rotation","src/output.rs OutputDir::new")],
 ["output directory snapshots across histories; write intervals of overlapping runs"])
p("C22","Results on disk are complete up to the last finished mutant at any crash",
 "At the time any mutant is being tested, mutants.json already lists all selected mutants and outcomes.json plus the text lists contain exactly the outcomes of the mutants that have finished. So if the program is killed while cargo runs, the files are valid and no finished result is lost and none is invented.",
 ["crash_points","schedules"],
 "every kill point while cargo is running, every outcome prefix, and every job count",
 "No test kills the program or reads the output during a run.",
 ["src/output.rs","src/lab.rs"],
 [("outcomes rewritten after each scenario","src/output.rs write_lab_outcome"),("mutants.json before testing","src/lab.rs test_mutants")],
 ["output files read by the monitor at each cargo invocation and after SIGKILL"])
p("C23","Cargo is run with the arguments and environment the user asked for",
 "Every build, check and test command carries the requested profile, feature flags and additional cargo arguments (command-line then config order), and only test commands carry the test arguments (those after --, then config); nothing else is added except the documented subcommand, verbosity and package selection. Insta updates are disabled, lints are capped when asked with the user's existing RUSTFLAGS or CARGO_ENCODED_RUSTFLAGS kept, and the rest of the environment is passed through unchanged.",
 ["configurations","inputs"],
 "every combination of options from command line, config and environment, for cargo and nextest, each phase, baseline and mutants",
 "Unit tests build a few argument vectors; no test varies combinations or looks at the environment the child really received.",
 ["src/cargo.rs","src/options.rs","src/config.rs","src/process.rs"],
 [("argument construction","src/cargo.rs cargo_argv"),("rustflags","src/cargo.rs encoded_rustflags")],
 ["argv and environment received by each cargo process"])
p("C24","Parallelism never exceeds --jobs, and makes progress in parallel",
 "At no time are more than --jobs cargo processes of the run alive (1 by default and for the baseline), and with at least as many mutants as jobs, all jobs really run at once. With the jobserver enabled all cargo processes share one token pool of the configured size; with --jobserver=false none is offered.",
 ["schedules","configurations"],
 "every job count, mutant count, and duration pattern of the phases",
 "Tests run with jobs=2 but cannot see overlap of the processes.",
 ["src/lab.rs","src/process.rs","src/options.rs"],
 [("worker threads","src/lab.rs test_mutants"),("jobserver","src/lab.rs, src/process.rs")],
 ["start/end times of every cargo process; tokens readable from the inherited jobserver pipe"])
p("C25","Configuration file and command line combine as documented",
 "A setting given on the command line overrides the same single-valued setting in .cargo/mutants.toml; for filters a command-line list replaces the config list, while additional cargo arguments, test arguments and error values from both are used. --no-config ignores the file, and an unknown key or invalid value is an error, not ignored.",
 ["configurations","inputs"],
 "every subset of options set in config, on the command line, in both or in neither, with any values",
 "Tests set one option at a time in one place.",
 ["src/options.rs","src/config.rs","src/main.rs"],
 [("merge","src/options.rs Options::new"),("strict parsing","src/config.rs")],
 ["observable effects: list output, child argv, copied tree, timeouts, exit code"])
p("C26","Packages mutated and packages tested are the ones selected",
 "Mutants are generated for exactly the packages chosen by --workspace, --package, or else by the start directory (that package, or the workspace's default members at the root), never others. For each mutant cargo is asked to test exactly the mutated package by default, the packages named by --test-package, or the whole workspace with --test-workspace=true, and the baseline tests the same selection: all mutated packages by default, or the packages so named.",
 ["configurations","inputs"],
 "every workspace layout (members, default members, root package, virtual), start directory and option combination including config",
 "Tests use two or three fixed workspaces.",
 ["src/workspace.rs","src/package.rs","src/lab.rs","src/options.rs"],
 [("package filter","src/workspace.rs"),("test selection","src/lab.rs TestsForMutant")],
 ["--list --json packages and --package arguments of each cargo process"])
p("C27","Listing is deterministic and predicts what is tested",
 "For a given tree and options, --list and --list --json give the same mutants in the same order on every run, wherever the tree is located and whatever directory the program is started from. A real run with the same options tests exactly the listed mutants, whatever --jobs or shuffling, in the listed order with one job and --no-shuffle, and its per-mutant outcomes do not depend on jobs or order.",
 ["inputs","configurations","schedules"],
 "every tree and option set; every job count and shuffle",
 "Tests compare single snapshots; never list against run, or run against run.",
 ["src/main.rs","src/list.rs","src/lab.rs","src/workspace.rs","src/visit.rs"],
 [("sorted packages and files","src/workspace.rs"),("same discovery for list and run","src/main.rs")],
 ["list output of repeated runs; mutants.json; order of cargo invocations; outcomes"])
p("C28","Each scenario has its own complete log and diff",
 "Every outcome names a log file (and, for a mutant, a diff file) that exists, belongs to it alone, and holds all of the output of that scenario's cargo commands and of no other; the diff is that of exactly that mutant. This holds for many mutants at the same position, for file names that differ only in separators or odd characters, and for parallel jobs.",
 ["schedules","inputs"],
 "every set of mutants (including many on one line), output volume, and interleaving of jobs",
 "Tests check that some logs exist for one small tree with one job.",
 ["src/output.rs","src/mutant.rs","src/process.rs"],
 [("unique base names","src/output.rs start_scenario"),("append-mode log passed as stdout/stderr","src/process.rs")],
 ["tagged output of each scripted cargo process vs log files"])
p("C29","Listing commands change nothing and run no tests",
 "--list, --list-files and the other informational commands never build or test anything, never create or rotate mutants.out, create no scratch copy, and write nothing to the source tree. --list --json output is one valid JSON document describing the same mutants as the plain list; --list --diff adds each mutant's diff.",
 ["inputs","configurations"],
 "every tree and every combination with other options (filters, shards, iterate, output, in-diff)",
 "Tests look at stdout only.",
 ["src/main.rs","src/list.rs"],
 [("early return before the output directory is made","src/main.rs main")],
 ["file system effects and child processes of listing commands"])
p("C30","Bad input is refused cleanly before anything is tested",
 "Invalid arguments, configs, globs, patterns, shard specs, missing files or diffs, and trees that are not Cargo workspaces, make the program exit with code 1 and an error message on stderr, without panicking, without running any build or test and without disturbing previous results. Arbitrary bytes in source files, diffs or config never crash it: it either handles them or reports an error.",
 ["inputs","configurations"],
 "every malformed command line, config text, diff text and source text",
 "Tests try a few bad inputs.",
 ["src/main.rs","src/options.rs","src/config.rs","src/shard.rs","src/in_diff.rs","src/visit.rs"],
 [("error propagation to exit code 1","src/main.rs"),("validation while building options","src/options.rs")],
 ["exit code, stderr, child processes and file effects"])
p("C31","Function bodies get the documented replacement values for their type",
 "For every function, exactly the documented replacement values for its return type are generated, composed recursively through Option, Result, Vec, Box, Arc, tuples, arrays, references and other documented wrappers, each replacing the whole body. Configured error values are used for Result types only, a replacement identical to the existing body is not generated, and functions returning the never type get none.",
 ["inputs","programs"],
 "every return type built from the documented constructors, at any nesting, with any paths and lifetimes",
 "A table of sample types is tested; the space of nested types is unbounded.",
 ["src/fnvalue.rs","src/visit.rs"],
 [("type to replacements","src/fnvalue.rs type_replacements")],
 ["--list --json on generated functions vs an independent model of the documented table"])
p("C32","Match arms and guards are mutated exactly as documented",
 "In a match with a wildcard arm, each other arm without a guard gives exactly one mutant deleting just that arm; without a wildcard arm no arm is deleted. Each match guard gives exactly two mutants, replacing the guard expression by true and by false; nested matches, and matches in any expression position, behave the same, and the mutated text is still well-formed Rust.",
 ["inputs","programs"],
 "every match expression: arm patterns, guards, nesting, trailing commas, block or expression bodies",
 "Snapshot tests have few matches.",
 ["src/visit.rs","src/mutant.rs"],
 [("match visitor","src/visit.rs visit_expr_match")],
 ["--list --json and mutated files on generated sources; rustc parse of the mutated files"])
p("C33","The JSON descriptions of mutants say what the mutants are",
 "Each mutant described in --list --json, in mutants.json and in outcomes.json names the package that owns its file, the file, the innermost enclosing function (its name with the type or trait it belongs to, its return type, and the span from the start to the end of the function) or none outside functions, the genre, the exact span of the replaced code, and the replacement text. The three places describe the same mutant with the same values, and --diff adds exactly the diff of that mutant.",
 ["inputs","programs","configurations"],
 "every source text (nesting of functions, impls, traits and modules, attributes, doc comments, line endings, characters beyond ASCII) and every layout of packages",
 "Snapshots hold the JSON of a few mutants of small trees; whether spans, packages and enclosing functions stay right for nested items, several packages and odd text is not sampled.",
 ["src/list.rs","src/mutant.rs","src/visit.rs","src/output.rs","src/outcome.rs","src/span.rs"],
 [("serialised mutant","src/mutant.rs Mutant Serialize"),("function stack while visiting","src/visit.rs in_function"),("list as JSON","src/list.rs list_mutants")],
 ["--list --json, mutants.json and outcomes.json vs what was tracked while the source was generated"])
p("C34","The console report agrees with what was recorded",
 "What a run prints on standard output is exactly: the number of mutants found, one line for the baseline and for each mutant whose kind of outcome is to be shown (missed and timed out always, caught and unviable on request, a failed baseline with its log), with its true outcome and, unless turned off, times that agree with those recorded, and a final summary whose counts are those of outcomes.json. Lines appear as results become known, options for colours and for logs are obeyed, on a terminal the progress counters agree with the results so far, and nothing cargo prints can displace or mangle a line.",
 ["histories","schedules","configurations"],
 "every mix of outcomes, number of jobs and interleaving, display option, colour setting and kind of terminal, and whatever cargo prints",
 "Tests match a few lines of output with the default options and no terminal; nobody accounts for all of the output nor checks it against the records.",
 ["src/console.rs","src/outcome.rs","src/lab.rs","src/output.rs"],
 [("scenario lines","src/console.rs scenario_finished"),("final summary","src/outcome.rs summary_string"),("progress model","src/console.rs LabModel")],
 ["standard output to a pipe, a file and a pseudo terminal vs outcomes.json and logs"])
p("C35","The skip attribute changes nothing in the program that carries it",
 "An item carrying #[mutants::skip], alone, repeated, among other attributes or through cfg_attr, with or without arguments, compiles wherever an attribute macro may stand, to the same code as the item without it, and the program behaves the same.",
 ["programs","inputs"],
 "every kind of item an attribute macro can be put on (functions, methods, impls, traits, modules, types, constants), with any other attributes, in any edition",
 "The attribute crate has hardly any tests: a few functions are compiled with it.",
 ["mutants_attrs/src/lib.rs"],
 [("the attribute returns its item","mutants_attrs/src/lib.rs skip")],
 ["compiled intermediate code and program output, with and without the attribute"])
p("C36","Outcomes are those the real cargo gives on a fresh tree with just that change",
 "With the real cargo, every outcome of a run (missed, caught, unviable, checked or timed out) is the one that building and testing a newly made copy of the tree with only that mutation gives, whatever mutants were tested before it, how many jobs share the work, whether it runs in a copy or in place, how old the files are, and what was built before; and after a run in place, cargo builds and tests the unmutated code in that tree.",
 ["histories","schedules","programs","configurations"],
 "every order of mutants and number of jobs, every layout of packages that depend on each other, source files of any age, existing build output, options that go on to cargo",
 "Tests run cargo on a few small trees and compare counts or snapshots; none compares each outcome with an independent fresh build, and stale build products show only in certain orders and for certain file times.",
 ["src/lab.rs","src/build_dir.rs","src/cargo.rs","src/copy_tree.rs","src/process.rs"],
 [("apply, build, test, revert","src/lab.rs Worker::run_one_scenario"),("write the mutated file","src/build_dir.rs overwrite_file"),("cargo's arguments and environment","src/cargo.rs")],
 ["outcomes.json vs exit codes of the real cargo on fresh copies"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
