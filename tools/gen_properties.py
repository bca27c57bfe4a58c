"""Writes properties.jsonl (one line per property). Edit here, then run."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Cleanups run once, in reverse order, when their scope ends",
  "Every cleanup registered in a scope is called exactly once when that scope ends, with the arguments it was registered with, in last-registered-first order including cleanups registered while cleanups run, even if other cleanups raise. The only cleanups not called are the non-critical ones when the test/session was interrupted and the success-only ones when it failed, errored or was interrupted. Cleanups registered before any scope opens belong to the next scope that opens, explicitly scoped cleanups belong to the innermost open scope of that name, and a registration that cannot be honoured raises and registers nothing.",
  ["histories", "inputs", "fault_sequences"],
  "all sequences of scope pushes/pops and registrations, all combinations of critical/success-only/scope, any subset of cleanups raising or registering further cleanups, all result states at scope end",
  "The tests run a few hand-written registrations; the order and exactly-once guarantee is about arbitrary registration histories with failing and re-registering cleanups.",
  ["slash/core/cleanup_manager.py", "slash/cleanups.py"],
  [("CleanupManager.add_cleanup", "slash/core/cleanup_manager.py"), ("CleanupManager.push_scope/pop_scope", "slash/core/cleanup_manager.py"), ("CleanupManager.call_cleanups", "slash/core/cleanup_manager.py")],
  [("scope stack", "open cleanup scopes, innermost last", "CleanupManager._scope_stack"), ("pending", "cleanups registered before any scope", "CleanupManager._pending")],
  ["calls of the registered functions"])

p("C02", "Session, module and test scopes nest and are torn down in lock-step",
  "At any time the open scopes form a prefix-nested stack session > module > test; starting a test opens exactly the missing ones, the module scope is closed and reopened exactly when the module of the next test differs, and ending a test closes exactly its test scope. Closing a scope always closes it for both cleanups and fixtures, even if closing one of them raises an error, and at the end of the session no scope stays open. A mismatched end is reported as an error rather than silently accepted.",
  ["histories", "fault_sequences"],
  "all sequences of tests from any modules, with begin/end/teardown raising at any point",
  "Tests cover a couple of module sequences without teardown faults; the guarantee is an invariant over all test sequences.",
  ["slash/core/scope_manager.py", "slash/utils/python.py"],
  [("ScopeManager.begin_test/end_test/_push_scope/_pop_scope/flush_remaining_scopes", "slash/core/scope_manager.py"), ("call_all_raise_first", "slash/utils/python.py")],
  [("scopes", "open scope names", "ScopeManager._scopes")], ["scope stack", "fixture and cleanup teardown"])

p("C03", "A result is success exactly when it ran cleanly; session verdict follows",
  "A test result counts as successful exactly when the test started and has no error, no failure, no interruption and no skip (skips tolerated where asked for), and the predicates for error, failure, pure failure, skip and not-run are exactly the presence of the corresponding records. The session is successful exactly when its global result and every test result are, and the reported counts equal the number of results with the corresponding property. Exactly one of the failure/skip/success/error summary hooks fires for each executed test, chosen by that result.",
  ["inputs", "histories"],
  "all result states, and all multisets of test results in a session including parallel sessions with failed workers",
  "Tests sample a few result combinations; the classification and the counts quantify over every combination and any number of results.",
  ["slash/core/result.py", "slash/runner.py"],
  [("Result.is_* predicates", "slash/core/result.py"), ("GlobalResult.is_success", "slash/core/result.py"), ("SessionResults counts", "slash/core/result.py"), ("_fire_test_summary_hooks", "slash/runner.py")],
  [("errors/failures/skips", "records of a result", "Result")], ["result predicates", "exit status", "summary hooks"])

p("C04", "Every exception is recorded exactly once, in the right place and kind",
  "An exception reaching the framework is recorded once, however many handling layers it passes through, on the result of the running test, or on the global result when no test is running: failure exceptions as failures, skip exceptions as skips with their reason, interruptions as interrupted test and session, anything else as an error. Different exception objects never share this bookkeeping, so recording one never hides another, and errors and failures are kept in the order they were added.",
  ["inputs", "histories", "fault_sequences"],
  "all exception objects and classes (including user-defined subclasses and repeated or nested handling) and all sequences of recordings",
  "Tests record one exception at a time; isolation of the bookkeeping across objects, classes and layers is a statement over histories.",
  ["slash/core/result.py", "slash/exception_handling.py", "slash/utils/exception_mark.py", "slash/core/error.py"],
  [("Result.add_exception/_add_error", "slash/core/result.py"), ("handle_exception/update_current_result", "slash/exception_handling.py"), ("mark_exception/get_exception_mark", "slash/utils/exception_mark.py")],
  [("marks", "per-exception bookkeeping", "exception.__slash_exc_marks__")], ["result errors/failures/skips"])

p("C05", "Exception handling swallows exactly what it was asked to",
  "A handling context lets an exception through unless swallowing was requested for its type, and never swallows skips, keyboard interrupts or system exits, nor touches exceptions of a pass-through type. Handling happens at most once per exception: every handler is called once in order, and an exception that was handled already is not handled again by outer contexts. The swallowing helper context and the assertion helpers raise or absorb exactly according to the exception types and marks given.",
  ["inputs", "fault_sequences"],
  "all exception types and combinations of swallow, swallow_types, passthrough and ignored types; nested contexts",
  "Tests try particular exception types; which exceptions get through quantifies over all types and nestings.",
  ["slash/exception_handling.py", "slash/assertions.py", "slash/utils/exception_mark.py"],
  [("handling_exceptions/_HandlingException.__exit__", "slash/exception_handling.py"), ("handle_exception", "slash/exception_handling.py"), ("assert_raises/allowing_exceptions", "slash/assertions.py")],
  (), ["exception propagation out of the context"])

p("C06", "Every collected test gets one result and runs at most once, in order",
  "A run executes tests in the given order, each at most once, gives consecutive indices, and creates at most one result per test. The run stops before the next test exactly when the last result has a fatal error, or stop-on-error is in force and the session is no longer successful, or an interruption or fatal framework error escapes. Unless something escapes, every test it was given ends up with exactly one result: those not reached because the run stopped have one marked as not run. Start and end notifications of each test are paired and nested correctly, and nothing raised by one test, its hooks or its requirements, other than an interruption, keeps the following tests from running. The session is marked complete exactly when the run was not stopped this way.",
  ["histories", "inputs", "fault_sequences", "configurations"],
  "all test lists, all outcomes per test, both stop-on-error settings, faults in hooks, test bodies and teardown",
  "Tests check single scenarios; one result per test and pairing must hold for all lists and fault positions.",
  ["slash/runner.py", "slash/utils/iteration.py", "slash/core/result.py"],
  [("run_tests", "slash/runner.py"), ("_run_single_test", "slash/runner.py"), ("_mark_unrun_tests", "slash/runner.py"), ("PeekableIterator", "slash/utils/iteration.py")],
  (), ["results per test", "test_start/test_end hooks", "reporter notifications"])

p("C07", "A test with an unmet requirement or an exclusion never starts",
  "If any requirement of a test is unmet, or its parameter combination is excluded, then the body, fixtures and start/end notifications of that test never run; it gets a skip for every unmet requirement with its reason and one avoidance notification carrying the reasons. If all requirements are met and no exclusion matches, the test does run. Requirements put on a class or a base apply to its tests and to subclasses, and requirements put on a subclass or a sibling never leak to others.",
  ["inputs", "programs"],
  "all requirement lists (booleans, callables, tuples, skips), all class hierarchies of decorated tests, all exclusion rules over parameters",
  "Tests use one or two decorators; rule combinations and inheritance shapes are unbounded.",
  ["slash/runner.py", "slash/core/requirements.py", "slash/core/exclusions.py", "slash/core/test.py", "slash/utils/function_marker.py"],
  [("_process_requirements_and_exclusions", "slash/runner.py"), ("requires/_get_requirements_list", "slash/core/requirements.py"), ("is_excluded", "slash/core/exclusions.py")],
  (), ["test body calls", "result skips", "test_avoided hook"])

p("C08", "Parametrization yields exactly the cartesian product, each once",
  "A parametrized test is run once for every combination of the values of all parameters it depends on, directly or through fixtures, with no combination missing or repeated, and a single value of a parameter is used consistently everywhere within one run. Each run receives exactly the values of its combination, tags of the values are merged, and identities of the runs differ. A test with no parameters runs exactly once.",
  ["inputs", "programs"],
  "all sets of parameters, value lists (including empty-ish, duplicated and equal values), parameters on tests, methods, setup functions and shared fixtures",
  "Tests try small fixed parametrizations; exactness is over all parameter sets and dependency graphs.",
  ["slash/core/variation_factory.py", "slash/core/variation.py", "slash/core/fixtures/parameters.py", "slash/core/fixtures/fixture_store.py"],
  [("VariationFactory.iter_variations", "slash/core/variation_factory.py"), ("Parametrization", "slash/core/fixtures/parameters.py")],
  (), ["arguments received by tests"])

p("C09", "A fixture is computed once per scope instance and torn down at its end",
  "Within one instance of its scope a fixture's value is computed once per parameter combination it depends on and shared by all users, dependencies being computed first; when the scope ends, its cleanups run in reverse order of computation, after which the value is never handed out again. Start and end callbacks of a fixture are called at the start and end of each test using it. A fixture failing to compute fails the requesting test without leaving it active.",
  ["histories", "programs", "fault_sequences"],
  "all fixture dependency graphs with test/module/session scopes, all test sequences, faults in any fixture or cleanup",
  "Tests build small graphs; value sharing and teardown are invariants over graphs and histories.",
  ["slash/core/fixtures/fixture_store.py", "slash/core/fixtures/active_fixture.py", "slash/core/fixtures/utils.py"],
  [("FixtureStore.get_fixture_dict/get_value/_activate_fixture", "slash/core/fixtures/fixture_store.py"), ("push_scope/pop_scope", "slash/core/fixtures/fixture_store.py"), ("ActiveFixture", "slash/core/fixtures/active_fixture.py")],
  [("active fixtures", "computed values by fixture id", "FixtureStore._active_fixtures_by_id")], ["fixture function calls and values"])

p("C10", "Fixture names resolve to the nearest definition; bad graphs are rejected",
  "A fixture name used by a test or fixture resolves to the nearest definition in its own module/class namespace, otherwise the nearest enclosing one, and never to a definition of a sibling. Unknown names, cyclic dependencies, and a fixture depending on one of a narrower scope are rejected with an error before any test of that module runs. Autouse fixtures apply to every test in their reach and use-fixtures requests are honoured.",
  ["programs", "inputs"],
  "all namespaces, alias chains, dotted names, dependency graphs and scope assignments",
  "Tests use a handful of namespaces and one cycle; resolution and rejection quantify over all graphs.",
  ["slash/core/fixtures/fixture_store.py", "slash/core/fixtures/namespace.py", "slash/core/fixtures/fixture.py", "slash/core/fixtures/utils.py"],
  [("FixtureStore.resolve_name/resolve", "slash/core/fixtures/fixture_store.py"), ("Namespace.iter_fixtures/get_fixture_by_name", "slash/core/fixtures/namespace.py"), ("Fixture._resolve", "slash/core/fixtures/fixture.py")],
  (), ["resolution result or error"])

p("C11", "A filter expression selects exactly the tests satisfying it",
  "A test is selected by a filter expression exactly when the boolean meaning of the expression holds for it: a plain word matches a substring of its address (or a part of a tag name), tag:name and tag:name=value match its tags, and `not`, `and`, `or`, parentheses and exclusions have their usual meaning and precedence. Several filters must all hold. Evaluating a filter has no side effect and does not depend on other tests.",
  ["inputs"],
  "all well-formed expressions, all test addresses and tag sets",
  "Tests evaluate about two dozen expressions; correctness is over all expressions of the grammar and all metadata.",
  ["slash/utils/pattern_matching.py", "slash/core/tagging.py", "slash/loader.py"],
  [("Matcher.matches", "slash/utils/pattern_matching.py"), ("Include/Exclude/And/Or", "slash/utils/pattern_matching.py"), ("Tags.matches_pattern", "slash/core/tagging.py")],
  (), ["selected tests"])

p("C12", "A suite file runs exactly the listed entries in order, with modifiers",
  "Running suite files gives exactly the tests named by their lines, in file and line order: comments and blank lines are ignored, relative paths are taken from the file's own directory, included suite files and directories are expanded in place, each once. A filter on a line restricts only that line, and repeat multiplies it. A malformed line is rejected.",
  ["inputs", "configurations"],
  "all suite file contents including nesting, whitespace, comments, filter and repeat modifiers",
  "Tests use a few fixed files; expansion is over arbitrary nesting and line contents.",
  ["slash/utils/suite_files.py", "slash/loader.py"],
  [("iter_suite_file_paths/_extract_suite_files/_generate_suite_file", "slash/utils/suite_files.py")],
  (), ["tests collected"])

p("C13", "Loading collects exactly the selected tests, each once per repeat",
  "Loading paths or addresses collects exactly the tests defined there that match the requested address and all filters, by path and by name within a file unless an explicit order is given, each once per requested repetition. Two repetitions of a test are distinguishable, ids of all tests of a run are distinct, and addresses identify tests uniquely up to repetition and the text of their parameters. A path that does not exist, an address that matches nothing, or a file that fails to import aborts the loading with an error instead of silently running fewer tests.",
  ["inputs", "configurations", "programs"],
  "all trees of test files, addresses, filters, repeat settings and sort keys",
  "Tests load a few suites; completeness and absence of duplicates is over arbitrary suites and settings.",
  ["slash/loader.py", "slash/core/metadata.py", "slash/core/runnable_test_factory.py", "slash/core/test.py", "slash/core/function_test.py"],
  [("Loader.get_runnables/_collect_tests/_duplicate_funcs/_iter_test_address", "slash/loader.py"), ("Metadata", "slash/core/metadata.py")],
  (), ["list of runnable tests"])

p("C14", "Resuming selects exactly the tests of the previous run that were asked for",
  "After any run, complete or cut short, the saved state lists every collected test exactly once with the status it reached (succeeded, failed, skipped or not started). Resuming runs exactly the tests whose status is among those selected by the resume options, each as often as it was listed, in the saved order except that the group asked to come first comes first. Contradictory options are rejected, and old state is forgotten only after the retention time.",
  ["histories", "configurations", "crash_points"],
  "all runs (outcomes, interruption point, duplicate and parametrized tests) and all option combinations",
  "Tests resume a few runs; the saved set must equal the collected set for all interruption points and suites.",
  ["slash/resuming.py", "slash/core/metadata.py"],
  [("save_resume_state", "slash/resuming.py"), ("_filter_tests/_sort_tests", "slash/resuming.py"), ("get_tests_locally", "slash/resuming.py")],
  (), ["tests returned for resuming"])

p("C15", "Parallel distribution gives every test to one permitted worker at most",
  "The distributor hands every test index out at most once, only to a worker allowed to run it: a test forced to a worker only to that worker, any other test never to a worker that excludes it. A worker asking for work gets the first waiting test it may run and gets nothing only if it may run none of the waiting tests; tests neither handed out nor cleared stay waiting. Forced and excluded tests are matched to the test the user named, whatever the test order.",
  ["histories", "schedules", "configurations"],
  "all numbers of tests and workers, all forced/excluded assignments, all request interleavings",
  "Tests run two or three workers over a few tests; at-most-once and permission hold over all assignments and request orders.",
  ["slash/parallel/tests_distributer.py", "slash/parallel/worker_configuration.py", "slash/loader.py"],
  [("TestsDistributer.get_next_test_for_client/_can_execute_test", "slash/parallel/tests_distributer.py"), ("WorkerConfiguration.force_test/exclude_test", "slash/parallel/worker_configuration.py")],
  [("waiting tests", "indices not handed out", "TestsDistributer._unstarted_tests_indices")], ["indices handed to workers"])

p("C16", "The parallel server accounts for every test whatever workers do",
  "In a parallel run no test gets more than one result, and each result belongs to the test it was made for: the result its worker reported, an interrupted one if its worker died while running it, or not-run if a stop condition or a worker failure stopped the run before it was handed out. Tests are handed out only after all workers connected and validated the same collection, and never after a stop condition; a worker asking again before reporting, or reporting a result nobody asked it for, is refused and changes nothing. A worker failure stops the distribution; a dead worker or a reported session error makes the session fail. The server keeps waiting for requests exactly while a worker is connected or a test is unaccounted for.",
  ["schedules", "fault_sequences", "histories"],
  "all interleavings of worker requests, any worker dying or disconnecting at any point, any stop condition",
  "Tests kill a worker at one or two points; accounting is over all message orders and crash points.",
  ["slash/parallel/server.py", "slash/parallel/parallel_manager.py", "slash/parallel/worker.py", "slash/core/result.py"],
  [("Server.get_test/finished_test/disconnect/report_client_failure/_mark_unrun_tests", "slash/parallel/server.py"), ("ParallelManager", "slash/parallel/parallel_manager.py")],
  [("server state", "protocol state", "Server.state")], ["results per test", "messages returned to workers"])

p("C17", "Tags: what is set is what matches, and conflicts are refused",
  "After tagging, a test has exactly the tags given to it, its class, and its parameter values, each with its value; tagging something twice, or merging tag sets, with two different values for the same tag is refused and leaves the tags unchanged. Tags of one test or class never appear on another that does not inherit from it. Merging and copying never modify the operands.",
  ["inputs", "programs", "histories"],
  "all tag names and values, all merge orders, class hierarchies and parametrizations",
  "Tests tag a few functions; non-interference and merge laws are over all tag sets.",
  ["slash/core/tagging.py", "slash/core/metadata.py", "slash/core/variation.py"],
  [("tag_test", "slash/core/tagging.py"), ("Tags.__add__/update/copy/matches_pattern", "slash/core/tagging.py")],
  (), ["test metadata tags"])

p("C18", "Plugins: hooks fire exactly while active; failed activation leaves nothing",
  "Each installed plugin has a unique name; its hook callbacks are called exactly while it is active and never after it is deactivated, and activating twice does not register twice. A plugin whose activation or hook registration is rejected (unknown hook, failed activate) is left with no active callbacks. Restoring a saved plugin state brings back exactly the plugins installed and active when it was saved.",
  ["histories", "fault_sequences"],
  "all sequences of install/uninstall/activate/deactivate/restore with valid and invalid plugins",
  "Tests do single install/activate steps; the registry invariant is over all operation sequences and failure points.",
  ["slash/plugins/plugin_manager.py", "slash/plugins/interface.py"],
  [("PluginManager.install/uninstall/activate/deactivate/restoring_state_context", "slash/plugins/plugin_manager.py")],
  [("installed/active", "registry", "PluginManager")], ["hook callbacks invoked", "active and installed plugins"])

p("C19", "Warnings: each is recorded once unless an ignore rule matches",
  "Every warning raised during a session through the warnings machinery or the logging system is recorded exactly once, in order, unless an ignore rule in force matches it; a rule matches exactly when every criterion it gives (category, message, filename, line) matches. Rules added for a block are in force exactly inside the block, however it ends. Recorded warnings carry message, location and category of the original.",
  ["inputs", "histories"],
  "all warnings and sets of ignore rules, all block nestings and exits by exception",
  "Tests add one rule at a time; rule matching and lifetime quantify over rule sets and exits.",
  ["slash/warnings.py", "slash/utils/warning_capture.py"],
  [("SessionWarnings/ _IgnoredWarning", "slash/warnings.py"), ("ignored_warnings", "slash/warnings.py")],
  (), ["session.warnings"])

p("C20", "Command-line settings are applied exactly for the run and then restored",
  "Every configuration flag, argument, and -o override given on the command line sets exactly the setting it names, converted to the type of that setting, and no other; after the run the configuration is what it was before, also when the run fails. Unknown settings and values of the wrong type are rejected. Positional arguments are passed on unchanged and in order.",
  ["inputs", "configurations", "fault_sequences"],
  "all sets of configuration leaves with and without command-line metadata, all argument lists, exits by exception",
  "Tests use a few flags; the correspondence is over every declared setting and value.",
  ["slash/utils/cli_utils.py", "slash/conf.py", "slash/app.py", "slash/utils/conf_utils.py"],
  [("SlashArgumentParser/cli configuration overrides", "slash/utils/cli_utils.py"), ("Application", "slash/app.py")],
  (), ["config values during and after the run"])

p("C21", "The current context is always the one of the innermost running test",
  "While a test runs, the ambient session, test, result and reporter are those of that test, and afterwards, however it ended, they are exactly what they were before. Pushing and popping contexts is strictly nested, attribute reads and writes only affect the top context, and the base context can never be removed.",
  ["histories", "fault_sequences"],
  "all push/pop/attribute sequences, and tests ending by any exception",
  "Tests nest one level; restoration is over arbitrary nestings and exits.",
  ["slash/ctx.py", "slash/runner.py", "slash/core/session.py"],
  [("ContextStack/_ContextStack operations", "slash/ctx.py"), ("_get_test_context/_set_current_test_context", "slash/runner.py")],
  (), ["slash.context attributes"])

p("C22", "Log retention keeps exactly the logs the configuration asks for",
  "Each test and the session write to their configured log files, every record emitted while a test runs going to that test's log exactly once, and symlinks to the last session, test and failed test point to the corresponding log. When only unsuccessful logs are to be kept, a log is removed exactly when its result was successful and it is not the log of an enclosing or unsuccessful run.",
  ["configurations", "inputs"],
  "all log configurations (root, subpaths, retention, compression, filters) and result outcomes",
  "Tests check one configuration at a time; retention is over the product of settings and outcomes.",
  ["slash/log.py"],
  [("SessionLogging/_log_session_context/_use_test_log", "slash/log.py")],
  (), ["files under the log root"])

p("C23", "Look-ahead iteration and list helpers never lose, repeat or reorder items",
  "Peeking an iterator never changes what is subsequently yielded: items come out exactly once, in order, and has-next/peek tell the truth at every point. Grouping and iteration helpers report first/last flags and counters consistently with the underlying sequence, and id and index counters never repeat a value.",
  ["inputs", "histories"],
  "all sequences (including falsy and None items) and all interleavings of peek/has_next/next",
  "Tests iterate one short list; the law is over all sequences and interleavings.",
  ["slash/utils/iteration.py", "slash/utils/id_space.py", "slash/utils/python.py"],
  [("PeekableIterator/iteration/Iteration", "slash/utils/iteration.py"), ("IDSpace", "slash/utils/id_space.py")],
  (), ["items yielded"])

p("C24", "Details and facts hold exactly what was set and notify every change",
  "A test's details and facts map each key to the last value set or the list of all values appended, in order; setting notifies the observer exactly once per set with that key and value. Reading never changes them, changing the mapping returned does not change them, and details of one result never appear in another.",
  ["inputs", "histories"],
  "all sequences of set/append/read on any keys and values",
  "Tests set one or two keys; the map law is over operation histories.",
  ["slash/core/details.py", "slash/core/result.py"],
  [("Details.set/append/all", "slash/core/details.py")], (), ["result.details", "fact_set hook"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
