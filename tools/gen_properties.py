#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that statements stay easy to review)."""
import json, os
H = "libs/cmdr11/include/cmdr11/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [f if f.startswith(("addons", "libs")) else H + f for f in files],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Exactly the matched leaf command runs, with its positional words",
 "For every command tree and argument vector in which no help, version, tree or other screen is requested and no pre-callback intervenes, the command words (long, short or alias titles) are walked down the tree; when the walk ends on a command without sub-commands and no unknown input was met (or unknown input is configured to be skipped), that command's handler is invoked exactly once, no other command's handler runs, and run() returns what the handler returned. The handler receives exactly the (non-empty) positional words that follow the leaf, then every word after a lone `--`, byte for byte and in order. When the walk ends on a command that still has sub-commands, or on an unknown command or flag that is an error, no command handler runs. Each command on the walk counts one hit under the title typed, no other command's hit count changes, and a command's on-hit callback is called once, with the words that follow it.",
 ["programs", "inputs"], "all command trees (depth, fan-out, titles, aliases) x all argument vectors mixing commands, flags, positional words and passthrough",
 "flags_c2 and the example programs run a dozen fixed command lines against one fixed tree; the space is trees x argument vectors.",
 ["cmdr_impl.hh", "cmdr_app_inl.h", "cmdr_internals.hh"],
 [("app::run loop, process_command, matching_command", H+"cmdr_impl.hh"), ("app::after_run / invoke_command / remain_args", H+"cmdr_impl.hh")],
 [("parsing_context", "matched commands, remaining words, passthrough flag, cursor", H+"cmdr_internals.hh")],
 ["on_invoke handler arguments", "run() result"])
prop("C02", "A flag token selects the longest matching title in the nearest scope",
 "Every piece of a flag token (long `--x`, short `-x`, special `~~x`, or several combined in one token) selects, among the flags of the matched command and its ancestors, the definition having the longest title or alias that is a prefix of the remaining text, the nearest command winning ties (the shortest such title when longest-first matching is switched off). Exactly that definition's hit count grows by one and its hit title becomes the text that matched; its on-hit callback (which is handed the words that follow) and the global matched-flag callback fire once per hit, in command-line order; no other definition's hit state changes. Text that no visible definition prefixes stops the run with a diagnostic and without invoking any handler (or is skipped when unknown flags are configured not to be errors).",
 ["programs", "inputs"], "all sets of (possibly prefix-overlapping) titles at every level x all flag tokens",
 "The repository tests use a handful of non-overlapping titles; overlaps between titles, aliases and levels are not sampled.",
 ["cmdr_impl.hh", "cmdr_arg.hh", "cmdr_cmd_inl.h"],
 [("app::matching_flag_on, process_flag", H+"cmdr_impl.hh"), ("bas::update_hit_count", H+"cmdr_arg.hh")],
 [("hit_count/hit_title", "per-definition hit accounting", H+"cmdr_arg.hh")],
 ["hit counts of every definition before/after run()", "on_hit / on-arg-matched callbacks"])
prop("C03", "Option values reach the option store typed and unchanged",
 "For an option with a non-boolean default, a well-formed, non-empty value given as `--name=v`, `--name v`, `--namev` or the short-title equivalents is converted to the type of the default and is the value read back under the option's dotted key inside the handler; text values arrive byte for byte (blanks included) apart from one pair of enclosing quotes, the last occurrence wins, and for boolean flags a bare hit or `+` means true and `-` means false. Options that are not mentioned keep their default, every word consumed as a value is consumed once and never seen again as a command, flag or positional word.",
 ["programs", "inputs"], "all option types x all values x all spelling forms x all positions in the command line",
 "Existing tests check a few integers and strings in one or two forms and never look at neighbouring options or at values with blanks or quotes.",
 ["cmdr_impl.hh", "cmdr_var_t.hh", "cmdr_string.hh"],
 [("app::process_flag value parsing", H+"cmdr_impl.hh"), ("variable >> (any_parsers)", H+"cmdr_var_t.hh"), ("on_arg_matched -> store.set_raw", H+"cmdr_impl.hh")],
 [("option store", "dotted key -> typed value", H+"cmdr_var_t.hh")],
 ["cmdr::get<T>/get_for_cli inside the handler", "handler's remaining words"])
prop("C04", "Value sources override each other in a fixed order",
 "For every option and every combination of sources, the value seen by the handler is the one from the strongest source present: the command line, else the last listed environment variable of the option that is set, else the environment variable derived from the option's full dotted key, else a value installed by an external loader, else the declared default. Setting an environment variable affects only the options that name it (or whose key it is derived from), and an option set through one of its declared variables counts as hit.",
 ["configurations", "inputs"], "all subsets of sources per option, all types, several options at once",
 "No existing test sets environment variables or loaders in combination; the order is only observable with several sources at once.",
 ["cmdr_impl.hh"], [("app::prepare: load_externals, apply_env_vars", H+"cmdr_impl.hh")],
 [("env_vars", "names bound to an option", H+"cmdr_arg.hh")], ["option store inside the handler"])
prop("C05", "Lifecycle callbacks run in order, exactly once, also on failure",
 "When a leaf command is dispatched the callbacks run in the order global-pre, command-pre, invoke, command-post, global-post, each at most once; a non-zero result of a pre callback skips the later pre callback and invoke but not the post callbacks, and both post callbacks still run when invoke throws. A handler that throws cmdr_requests_exception (after its post callbacks), or a hit callback of the last flag that answers with an application-defined action, hands the run over to the action registered for it, whose result run() reports. External loaders run once before any environment or command-line value is applied; each of these callbacks is handed the matched leaf and the handler's words; a hit callback (of a flag or a command) that asks for abortion ends the run without any of these command callbacks and without matching any later word; post-run callbacks run exactly once per run() whatever the outcome; a missing required option of the matched command or any ancestor prevents every one of the command callbacks; and run() reports -1 for an escaped standard exception or a missing required option and otherwise the result of the chain.",
 ["programs", "histories", "fault_sequences"], "all combinations of installed callbacks, return codes, thrown exceptions and missing required options",
 "The tests install one handler that succeeds; ordering under failure is never exercised.",
 ["cmdr_impl.hh", "cmdr_app.hh"], [("app::invoke_command, after_run, check_required_flags, post_runner", H+"cmdr_impl.hh")],
 [("callback slots", "global and per-command callbacks", H+"cmdr_app.hh")], ["event log written by the callbacks", "run() result"])
prop("C06", "Any command line and environment is handled safely",
 "For every argument vector and every environment, run() terminates without memory errors, undefined behaviour, uncaught exceptions or process death, whatever built-in or user-defined commands, flags, values, help, version, tree, debug or completion output the words select. It does so for any terminal size.",
 ["inputs", "configurations"], "all byte strings as arguments and environment values, all built-in commands and flags, any terminal width",
 "Tests run well-formed command lines without sanitizers.",
 ["cmdr_impl.hh", "cmdr_app_inl.h", "cmdr_cmd_inl.h", "cmdr_var_t.hh", "cmdr_string.hh", "cmdr_terminal.hh"],
 [("app::run and everything it reaches", H+"cmdr_impl.hh")], (), ["ASan/UBSan reports", "exit status", "watchdog"])
prop("C07", "Toggle groups behave as radio buttons",
 "In every toggle group of boolean flags, after any sequence of bare hits the group's selected title is the flag hit last (or, with no hit, the last one declared true, else the first declared); after a hit the selected title is also readable from the option store under the owning command's key, and a flag that was hit reads true while the siblings it displaced read false. Groups of the same name in different commands, and different groups in one command, do not influence each other.",
 ["programs", "inputs"], "all groupings of flags over commands x all hit sequences",
 "Only the built-in shell generator uses a toggle group in the tests; sequences of hits and groups sharing names are not tried.",
 ["cmdr_impl.hh", "cmdr_cmd_inl.h"], [("app::on_arg_matched", H+"cmdr_impl.hh"), ("cmd::toggle_group/_set", H+"cmdr_cmd_inl.h")],
 [("_hit_toggle_groups", "selected title per group", H+"cmdr_cmd.hh")], ["cmd::toggle_group()", "option store"])
prop("C08", "Conflicting definitions are rejected, valid ones can be looked up",
 "Within one command, defining a flag (or sub-command) whose long title, short title or alias equals a long/alias (respectively short) title already taken by a flag (sub-command) of that command raises the duplicate error and leaves the existing definitions working; any set of definitions without such a clash is accepted. Every accepted definition is found by its long title, and with the extensive lookup also by short title and alias, is owned by its command, has a dotted key that spells its path, is reported once to the definition callbacks and visited once by a walk; look-ups of absent titles find nothing.",
 ["programs"], "all sequences of flag and command definitions",
 "The tests define a few fixed sets; clash detection between long, short and alias titles is not covered.",
 ["cmdr_cmd_inl.h", "cmdr_cmd.hh"], [("cmd::add(arg)/add(cmd), find_flag, find_command", H+"cmdr_cmd_inl.h")],
 [("_long_args/_short_args/_indexed_args and command twins", "title indexes", H+"cmdr_cmd.hh")], ["exceptions", "find_flag/find_command", "dotted_key"])
prop("C09", "reset() restores a pristine application",
 "After reset() an application behaves, for every later set of definitions and command line, exactly as a newly created one with the same name, version and presentation settings: no definition, option value, toggle selection, callback or hit count from before survives, and the built-in commands and flags are present with zero hits.",
 ["histories"], "all histories define/run/.../reset/define/run",
 "mem_test and flags_c2 call reset once between fixed cases and never compare against a new application.",
 ["cmdr_impl.hh"], [("app::reset", H+"cmdr_impl.hh")], (), ["trace of callbacks, store dump, help text compared between a reset and a new app"])
prop("C10", "Help and tree output list exactly what is available",
 "For every application, the help screen of a command names every visible sub-command of it and every visible flag of it and of its ancestors, with long, short and alias titles and the full description text, under its group heading (if it has a group), exactly once, and names no hidden item unless hidden items are requested; the command tree lists every visible command whose ancestors are visible. The screen opens with the application's name and version, shows the command's own description, examples and usage path when it has them, and closes with the configured tail line unless that is switched off. This is independent of group names, title lengths, description lengths and terminal width.",
 ["programs", "configurations"], "all definitions (groups, hidden, long titles, descriptions) x all terminal widths",
 "The tests print help and never examine it.",
 ["cmdr_cmd_inl.h", "cmdr_impl.hh", "cmdr_app_inl.h"], [("cmd::print_commands/print_flags, detail::sort_keys/_out_desc", H+"cmdr_cmd_inl.h"), ("app::print_cmd/print_usages", H+"cmdr_impl.hh")],
 (), ["captured stdout of --help, help, ~~tree"])
prop("C11", "The option store behaves as a hierarchical typed map",
 "Under every sequence of operations the option store is equivalent to a map from dotted keys to typed values: a read returns the last value written under exactly that key with its type, has() is true exactly for keys that were written, sub-trees expose exactly the keys below the prefix with the prefix removed, full-key walks visit every written key once in sorted order, and writing one key never changes another. Reads of absent keys yield an empty value and change nothing, reading a value as another type fails and changes nothing, and reset() empties the store.",
 ["histories", "inputs"], "all sequences of set/get/has/subtree/walk/reset over overlapping dotted keys and types",
 "store_c2 checks a dozen keys written once each.",
 ["cmdr_var_t.hh", "cmdr_var_t_inl.h", "cmdr_app.hh"], [("nodeT::_set, _get_raw, has, subtree, walk_sorted", H+"cmdr_var_t.hh")],
 [("_children/_indexes", "tree and full-key index per node", H+"cmdr_var_t.hh")], ["public store API"])
prop("C12", "The option store can be shared between threads",
 "Any number of threads may insert new keys, read keys that no thread is currently overwriting, test for keys, and take sub-trees at the same time without data races; every insert that has returned is visible to every later lookup, no insert is lost, and a lookup sees a key either absent or with the complete value inserted.",
 ["schedules", "histories"], "all interleavings of concurrent inserts and lookups on one store",
 "No test touches the store from two threads.",
 ["cmdr_var_t.hh", "cmdr_var_t_inl.h"], [("nodeT::mutex_ shared/unique locking", H+"cmdr_var_t.hh")], (), ["TSan reports", "history of inserts and lookups"])
prop("C13", "Typed values parse from and print to text consistently",
 "A value holder initialised with a type parses the textual form of any value of that type (all integer widths, with 8-bit integers read as characters; floating point; booleans in every documented spelling and case; text; complex numbers; arrays) to exactly that value and keeps the type; printing a value (a floating-point value that its default printing shows exactly, a text without quotes or backslashes) and parsing the printed form back yields an equal value. Parsing never reads beyond the value it accepts and always terminates. Neither changes the stream's formatting state, so that one value printed or parsed does not alter the next.",
 ["inputs"], "all registered types x all values of the type x all accepted spellings",
 "any_1/visit_any print a few constants.",
 ["cmdr_var_t.hh", "cmdr_string.hh", "cmdr_chrono.hh"], [("variable::parse_*, any_parsers, any_visitors", H+"cmdr_var_t.hh")], (), ["operator>> / operator<< / as<T>()"])
prop("C14", "The thread pool runs accepted tasks at most once and joins cleanly",
 "Every task submitted to the thread pool runs at most once, on a pool thread, and its future carries exactly its result or exception; with one worker the newest waiting task starts first. Every task submitted and waited for before join() runs exactly once; join() and destruction wait for running tasks and discard the ones not started, whose futures then report a broken promise; no task starts after join() returned, the active and total task counts agree with the tasks running and submitted, and construction, submission from any number of threads, clear, join and destruction always terminate without data races.",
 ["schedules", "histories"], "all interleavings of submitters, workers and join, any pool size",
 "pool.cc runs one fixed schedule of a few tasks per run without a race detector.",
 ["cmdr_pool.hh"], [("thread_pool, conditional_wait", H+"cmdr_pool.hh")], (), ["task execution counters", "futures", "TSan"])
prop("C15", "The lite thread pool drains its queue before it is destroyed",
 "Every task accepted by the lite thread pool runs exactly once, tasks are started in submission order, futures deliver the task's result or exception, and destruction returns only after all accepted tasks finished; at most the configured number of tasks run at the same time, and submission, destruction and the count accessors are free of data races and deadlock.",
 ["schedules", "histories"], "all interleavings of concurrent submitters, workers and destruction, any pool size",
 "One test with a fixed small workload.",
 ["cmdr_pool.hh"], [("thread_pool_lite", H+"cmdr_pool.hh")], (), ["task event log", "futures", "TSan"])
prop("C16", "The threaded message queue neither loses nor duplicates messages",
 "With any number of producers and consumers every message put into the threaded message queue is taken by exactly one consumer, a take returns the newest message put and not yet taken, a blocking take waits until a message exists, takes on an emptied queue return nothing, and clearing or emptiness tests from other threads are free of data races.",
 ["schedules", "histories"], "all interleavings of producers and consumers",
 "pool.cc uses one producer and one consumer.",
 ["cmdr_pool.hh"], [("threaded_message_queue", H+"cmdr_pool.hh")], (), ["push/pop history", "TSan"])
prop("C17", "Condition waits wake exactly when their condition is signalled",
 "A wait on any of the condition-wait helpers returns once the condition was signalled by another thread, whether the signal came before, during or after the wait began, and no wake-up is lost: a single set releases one waiter, a set-for-all or kill releases all of them. A timed wait returns true only if the condition was signalled and false only after at least the given time; killing a timer ends all its pending waits early and makes later waits report it.",
 ["schedules"], "all interleavings of waiters and signallers, all durations",
 "pool.cc exercises each helper once.",
 ["cmdr_pool.hh"], [("conditional_wait, conditional_wait_for_bool/int, timer_killer", H+"cmdr_pool.hh")], (), ["wait/set event log", "TSan"])
prop("C18", "Observers and slots receive every notification exactly once",
 "Each observer or slot registered when a notification is emitted and not removed receives it exactly once, in registration order, with the emitted values unchanged; removed or destroyed observers receive nothing, and a scoped registration ends with its scope. The chain may be changed by other threads, or from within a notification, without data races, deadlock or use of a destroyed observer; every slot of a signal receives the same arguments.",
 ["histories", "schedules"], "all sequences and interleavings of register, unregister, destroy and emit",
 "observer.cc registers a few observers in one thread.",
 ["cmdr_common.hh"], [("observable, registerer, observable_bindable, signal", H+"cmdr_common.hh")], (), ["delivery log", "TSan/ASan"])
prop("C19", "The priority queue pops by priority, first-in first-out among equals",
 "For every sequence of pushes and pops the priority queue returns elements in order of priority and, among equal priorities, in insertion order; front, iteration and dump show the elements in that order, size, emptiness and clearing agree with the multiset of elements pushed and not yet popped, every element is returned exactly once, a pop on an empty queue yields a null value, and copies are independent of each other.",
 ["histories", "inputs"], "all sequences of push/pop/clear with any priorities",
 "priority_queue.cc pushes one fixed list.",
 ["cmdr_priority_queue.hh"], [("priority_queue", H+"cmdr_priority_queue.hh")], (), ["public API vs reference model", "ASan/UBSan"])
prop("C20", "Completion listings are complete and machine-readable",
 "In shell-completion mode (--help with -nc -sc) the output for any command path consists of exactly one line per visible sub-command of it and per visible flag of it and of its ancestors (hidden ones only when help was hit more than twice), in any order and nothing else: the text before the first '|' is the comma-separated list of exactly its titles (flags with their dashes, the long title with =placeholder), the text after it starts with its unwrapped description. Under zsh the lines are title:description for a command, --long[description] and -short[description] for a flag, with each of []:() in a description escaped by a backslash. The generated bash script loads in bash, registers itself for the program and offers exactly the listed titles that start with the word being typed; it is printed only on --stdout, written only without --dry-run, under the given --name, and removed by --drop.",
 ["programs", "configurations"], "all definitions x command paths x shells x terminal widths x generator options",
 "The tests never look at a completion listing nor run the script.",
 ["cmdr_cmd_inl.h", "cmdr_impl.hh", "cmdr_app_inl.h"], [("cmd::print_commands/print_flags in shell_completion_mode", H+"cmdr_cmd_inl.h"), ("app::generate_bash_completion, on_generate_shell_completion", H+"cmdr_app_inl.h")],
 (), ["captured stdout of --help -hhncsc", "the generated script run by bash"])
prop("C21", "String helpers implement their textual contract for every input",
 "For every input string, splitting by a string delimiter and joining are inverse, splitting by a character yields the fields getline would, and trimming, stripping, quoting, padding, case mapping, prefix/suffix tests, replace/replace-all, replacement by (literal) regular expressions and integer-to-text conversion return what their contract says for all values of their arguments, without reading or writing out of bounds and without undefined behaviour.",
 ["inputs"], "all strings, delimiters, widths and integers (including extreme values)",
 "basic tests call each helper on one or two literals.",
 ["cmdr_string.hh"], [("cmdr::string::*", H+"cmdr_string.hh")], (), ["return values vs independent reference", "ASan/UBSan"])
prop("C22", "Similarity suggestions rank by true Jaro similarity",
 "The similarity measure equals the Jaro similarity (matching window and transpositions by the standard definition, without a prefix bonus) for every pair of strings, lies in [0,1], is 1 for equal non-empty strings, and its matched verdict is distance >= threshold. On an unknown command (or unknown long flag) the diagnostics suggest exactly the titles at or above the threshold among the sub-commands at that point (the flags of the matched command and its ancestors), and with feel-like enabled the most similar command is dispatched.",
 ["inputs", "programs"], "all pairs of strings; all command trees and misspellings",
 "jaro_c2 checks fixed pairs.",
 ["cmdr_string.hh", "cmdr_impl.hh"], [("text::jaro_winkler_distance", H+"cmdr_string.hh"), ("app::unknown_*_found", H+"cmdr_impl.hh")], (), ["distances vs reference", "captured stderr"])
prop("C23", "File helpers and memory-mapped files expose exactly the file content",
 "A memory-mapped view of any regular file has the file's size and bytes, survives a move of the handle (each mapping and descriptor is released exactly once), and reports failure for files that cannot be opened; a scratch mapping neither takes over nor deletes an existing file and is private to its owner; the read/write/sparse-file/temporary-name helpers create files of the requested size and content, tell sparse, regular and missing files apart, and report failure when a file cannot be made; a numbered temporary name is never handed out twice in a process.",
 ["inputs", "histories", "fault_sequences"], "all file sizes and contents, all handle lifecycles",
 "No test covers copy/move, empty files or failures.",
 ["cmdr_mmap.hh", "cmdr_path.hh"], [("mmap::mmaplib", H+"cmdr_mmap.hh"), ("path::*", H+"cmdr_path.hh")], (), ["file content comparison", "fd table and mapping counts", "ASan"])
prop("C24", "Running a shell command captures its complete output and status",
 "Executing any shell command returns exactly the bytes it wrote to standard output and to standard error, up to any size, and its exit status (128 plus the signal number if a signal ended it), for any command length, and leaves no descriptors, zombie processes or files behind, also when several are executed at the same time.",
 ["inputs", "schedules"], "all commands, output sizes and exit codes; concurrent executions",
 "process.cc runs one or two commands.",
 ["cmdr_process.hh"], [("process::exec", H+"cmdr_process.hh")], (), ["captured text vs expected", "fd count"])
prop("C25", "Stream redirection and state savers always restore",
 "Within the scope of a stream redirection every byte written to the stream goes to the given target and none to the original; when the scope ends, normally or by exception and at any nesting depth, the stream writes to its previous target again and all saved formatting state (flags, precision, width, fill, exception mask, tied stream, locale) is as before. Redirecting or inserting nothing leaves the streams usable.",
 ["histories"], "all nestings of redirections, savers and exceptions",
 "No test nests or throws.",
 ["cmdr_os_io_redirect.hh", "cmdr_ios.hh"], [("cross::... redirect RAII", H+"cmdr_os_io_redirect.hh"), ("ios savers", H+"cmdr_ios.hh")], (), ["bytes seen by each buffer", "stream state"])
prop("C26", "Durations and time points survive text round trips",
 "Formatting any non-negative duration of any representation yields a text that, read as a sum of amounts with units, is exactly that duration, and leaves the stream's formatting state as it was; formatting a time point followed by parsing with the same format yields the same instant in the same time-zone mode, also when several threads convert and print times at once; a stop-watch scope reports exactly once.",
 ["inputs", "schedules"], "all durations of every supported representation, all time points in range, all unit spellings",
 "chrono tests print a few constants.",
 ["cmdr_chrono.hh"], [("chrono::parse_duration/format_duration, time point streams", H+"cmdr_chrono.hh")], (), ["text round trips vs reference arithmetic"])
prop("C27", "Calendar helpers agree with the calendar",
 "For every date the month, week and day helpers (first/last day, weekday arithmetic, comparison of date parts, leap-year handling, conversions between broken-down and absolute time) return the dates the proleptic Gregorian calendar prescribes.",
 ["inputs"], "all dates in 1970..2100 and all offsets",
 "chrono tests cover single dates.",
 ["cmdr_chrono.hh"], [("chrono::* date helpers", H+"cmdr_chrono.hh")], (), ["results vs Python/independent civil-calendar arithmetic"])
prop("C28", "Environment expansion replaces references exactly once",
 "Expanding environment references in any text replaces every `$NAME` and `${NAME}` (names of letters, digits and underscores) by the variable's value, leaves all other text (lone `$`, unterminated `${NAME`) unchanged, and terminates for every text and environment, including values that contain references themselves, which are not expanded again.",
 ["inputs", "configurations"], "all texts x all environments",
 "No test.",
 ["cmdr_string.hh", "cmdr_path.hh"], [("string::expand_env", H+"cmdr_string.hh")], (), ["result vs reference expander", "watchdog"])
prop("C29", "Configuration files load completely into the option store",
 "For every valid YAML document found in one of the documented locations (later locations override earlier ones, a file given by --config overrides them all, and the environment and command line override every file), each scalar leaf becomes readable in the option store under its dotted path, converted to the type of the option of that path or else as its text (or boolean) value, and each sequence with its elements in order, before command-line values are applied; absent files leave the store unchanged, and malformed files are reported with a diagnostic, never crash the program and never let a handler run.",
 ["inputs", "configurations"], "all YAML documents x all search locations",
 "No test loads a generated document.",
 ["addons/loaders/yaml_loader.hh"], [("yaml_loader", "addons/loaders/yaml_loader.hh")], (), ["store content vs reference document"])
prop("C30", "Singletons, factories and scope guards act exactly once",
 "A singleton type is constructed exactly once however many threads ask for it first, and all obtain the same object; a factory creates for each registered name exactly the registered type with the given arguments and reports unknown names; a scope guard runs its action exactly once at scope exit, also when the scope is left by an exception.",
 ["schedules", "histories"], "all interleavings of first access; all registrations; all exits",
 "mem_test_for_singleton/factory tests are single-threaded samples.",
 ["cmdr_common.hh", "cmdr_utils.hh"], [("util::singleton, defer", H+"cmdr_common.hh"), ("util::factory", H+"cmdr_utils.hh")], (), ["construction counters", "TSan"])
prop("C31", "Built-in reports tell what the application is and what was matched",
 "Whatever the application and the command line, the built-in reports agree with them: the version screen (command `version`, flag `--version`) shows the name and version given (or the one simulated by `--version-sim`/`VERSION_SIM`); `--build-info` ends with the name and the version; `help` followed by a command path shows the usage and all visible sub-commands and flags of that very command; a leaf without a handler reports the command that was hit and one line for each flag that was hit, with its hit count, the title typed, the form it was typed in and its value; `~~debug` in addition lists each key of the store exactly once with its value (the built-in keys only when `~~cli` is on) and, from the third level on, the same as a tree; the accessors for the built-in switches (is_debug(), is_verbose(), get_verbose_level() and so on) say what was typed; and while a command runs the environment carries the application's name, its file-name-safe form, its version and the path of the executable.",
 ["programs", "inputs", "configurations"], "all applications x all command lines x the simulated versions",
 "No test looks at the text of these reports; they are printed by example programs only.",
 ["cmdr_app_inl.h", "cmdr_impl.hh", "cmdr_app.hh"],
 [("app::print_*_screen, print_debug_info_screen, invoke/prepare_env_vars", H+"cmdr_app_inl.h"), ("after_run, internal actions", H+"cmdr_impl.hh")], (), ["text on stdout", "environment of the process"])
prop("C32", "Coloured text shows what was asked for and nothing is left behind",
 "For every combination of foreground, background and attributes, in every colour mode (16 colours, 256 colours, true colour), the bytes written by the colour helpers make a terminal show exactly the given text with exactly the requested attributes and colours (and the terminal's own where none was requested), and the terminal is back in its initial state afterwards; the formatting state of the stream is neither used nor changed. When colours are switched off (by enable(false), by a dumb terminal, or by --no-color, its titles or its environment variables), no escape sequence is written at all, by any helper and by any screen of the application, and the text is the same.",
 ["inputs", "configurations"], "all styles x texts x stream states x terminals, all screens with and without --no-color",
 "The terminal tests print a palette to look at; nothing is compared.",
 ["cmdr_terminal.hh", "cmdr_app_inl.h", "cmdr_impl.hh"], [("terminal::colors::colorize, color stream operators", H+"cmdr_terminal.hh"), ("--no-color and the screens", H+"cmdr_app_inl.h")], (), ["bytes read by a terminal emulator"])
prop("C33", "Callable helpers call once, with the bound values then the given ones",
 "Binding helpers (bind, easy_bind, bind_this, bind_tie, partial, curry, to_function), pipes and visitors call the wrapped callable exactly once per call, on the right object, with the bound arguments followed by the given ones, in order and unchanged (a bound value is kept: a callable can be called again and copies of it behave the same), and return what the callable returned; membership and vector-comparison helpers answer as element-wise comparison does.",
 ["inputs", "histories"], "all argument values, all numbers of calls and copies",
 "Tests call each helper once with constants and print the result.",
 ["cmdr_common.hh", "cmdr_dp.hh", "cmdr_pipeable.hh", "cmdr_types.hh", "cmdr_if.hh"], [("util::bind/easy_bind/partial/curry/bind_tie/to_function", H+"cmdr_common.hh"), ("pipeable", H+"cmdr_pipeable.hh")], (), ["log of calls of instrumented callables"])
prop("C34", "Each log call writes one complete line, also from several threads",
 "Every enabled logging call (macro or function) writes exactly one complete line that carries the time in UTC, the formatted text byte for byte and whole however long it is, and the file, line and function of the call; lines of several threads are never mixed nor lost, each thread's lines come in the order of its calls, and logging at the same time is free of data races.",
 ["inputs", "schedules"], "all texts and formats, all interleavings of logging threads",
 "No test logs from two threads or reads a line back.",
 ["cmdr_log.hh", "cmdr_dbg.hh"], [("log::holder, vdebug", H+"cmdr_log.hh")], (), ["bytes on the log stream", "TSan"])
if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    print(len(P))
