"""What each check builds and runs. cases = (quick, thorough)."""
def U(src, mode, variant, quick, thorough, **kw):
    return dict(src=src, mode=mode, variant=variant, cases=(quick, thorough), **kw)

NOT_APPLICABLE = {}
YAML = ["-lyaml-cpp"]
WRAP = ["-Wl,--wrap=pthread_mutex_lock", "-Wl,--wrap=pthread_mutex_unlock", "-Wl,--wrap=_ZNSt18condition_variable10notify_oneEv", "-Wl,--wrap=_ZNSt18condition_variable10notify_allEv"]
CLI_RULE = ("each case forks one process, defines a random application (random tree, titles, aliases, option types) and runs 1-3 random command lines on it; "
            "a case counts when the model places it inside the specified domain and it dispatches a handler or hits at least two flags; distinct by application shape and argument vector")
CLI_TECH = "runtime monitor (callback/store oracle vs independent model) over random applications and command lines, under ASan+UBSan"
CLI_NOTE = "Random exploration: the monitor judges every observed run; assurance is bounded by the generated applications and command lines. Trusts the model in harness/cli_model.hpp."
CHECKS = {
  "C01": dict(technique=CLI_TECH, note=CLI_NOTE, rule=CLI_RULE, units=[U("drv_cli.cc", "C01", "asan", 4000, 200000, unpriv=True)]),
  "C02": dict(technique=CLI_TECH, note=CLI_NOTE, rule=CLI_RULE, units=[U("drv_cli.cc", "C02", "asan", 4000, 200000, unpriv=True)]),
  "C03": dict(technique=CLI_TECH, note=CLI_NOTE, rule=CLI_RULE, units=[U("drv_cli.cc", "C03", "asan", 4000, 200000, unpriv=True)]),
  "C04": dict(technique=CLI_TECH, note=CLI_NOTE, rule=CLI_RULE, units=[U("drv_cli.cc", "C04", "asan", 4000, 200000, unpriv=True)]),
  "C05": dict(technique=CLI_TECH, note=CLI_NOTE, rule=CLI_RULE, units=[U("drv_cli.cc", "C05", "asan", 5000, 200000, unpriv=True)]),
  "C07": dict(technique=CLI_TECH, note=CLI_NOTE, rule=CLI_RULE, units=[U("drv_cli.cc", "C07", "asan", 4000, 200000, unpriv=True)]),
  "C06": dict(technique=CLI_TECH, note=CLI_NOTE, rule=CLI_RULE, units=[U("drv_cli2.cc", "C06", "full", 4000, 200000, unpriv=True, asan_opts="hard_rss_limit_mb=2500")]),
  "C08": dict(technique=CLI_TECH, note=CLI_NOTE, rule=CLI_RULE, units=[U("drv_cli2.cc", "C08", "asan", 3000, 100000, unpriv=True)]),
  "C09": dict(technique=CLI_TECH, note=CLI_NOTE, rule=CLI_RULE, units=[U("drv_cli2.cc", "C09", "asan", 1600, 60000, unpriv=True)]),
  "C10": dict(technique=CLI_TECH, note=CLI_NOTE, rule=CLI_RULE, units=[U("drv_cli2.cc", "C10", "asan", 4000, 100000, unpriv=True, asan_opts="hard_rss_limit_mb=2500")]),
  "C20": dict(technique="runtime monitor (listing compared line by line with the definitions; the generated script run by bash and its offers compared) over random applications, under ASan+UBSan", note=CLI_NOTE,
      rule="one case = one random application with 1-2 completion listings and, in one case of seven, a generated script; distinct by listing",
      units=[U("drv_cli2.cc", "C20", "asan", 3500, 100000, unpriv=True, asan_opts="hard_rss_limit_mb=2500")]),
  "C11": dict(technique="runtime monitor (store compared after every operation with a model map) over random operation sequences, under ASan+UBSan",
      note="Random exploration; assurance bounded by the generated operation sequences. Trusts the model map in harness/drv_store.cc.",
      rule="one case = one random sequence of writes, reads, look-ups, sub-trees, walks and resets on one store; distinct by the sequence",
      units=[U("drv_store.cc", "C11", "full", 4000, 200000), U("drv_store.cc", "C11app", "full", 600, 20000)]),
  "C12": dict(technique="ThreadSanitizer plus a conservation and visibility monitor over stressed concurrent histories",
      note="Schedules are sampled, not enumerated. The publication counter is relaxed so that only the store's own locking orders the accesses.",
      rule="one case = one concurrent history of 2-6 writers and as many readers; distinct by seed",
      units=[U("drv_store.cc", "C12", "tsan", 400, 20000), U("drv_store.cc", "C12", "asan", 600, 20000)]),
  "C13": dict(technique="runtime monitor (parse/print compared with independently generated values) over random texts, under ASan+UBSan",
      note="Random exploration of texts and types; the expected value is generated together with its text, independently of the code's parsers.",
      rule="one case = six typed texts plus one arbitrary text; distinct by type and text",
      units=[U("drv_store.cc", "C13", "full", 6000, 300000)]),
  "C21": dict(technique="runtime monitor (each helper's result compared with an independent reference) over random strings and integers, under ASan+UBSan",
      note="Random exploration; assurance bounded by the generated arguments. Regular-expression replacement is checked for literal patterns only.",
      rule="one case = one random argument set for each of about 40 helpers; distinct by the arguments",
      units=[U("drv_str.cc", "C21", "full", 40000, 1500000)]),
  "C22": dict(technique="runtime monitor (similarity, match verdicts and printed suggestions compared with an independent reference) under ASan+UBSan",
      note="Random exploration over string pairs and over applications with misspelt commands.",
      rule="one case = eight string pairs; distinct by the pairs",
      units=[U("drv_str.cc", "C22", "full", 100000, 3000000), U("drv_cli2.cc", "C22", "asan", 3000, 100000, unpriv=True)]),
  "C28": dict(technique="runtime monitor (expansion compared with an independent expander, watchdog for termination) under ASan+UBSan",
      note="Random exploration over texts and environments, with self-referring values and unbalanced braces.",
      rule="one case = one environment and one text; distinct by text and result",
      units=[U("drv_str.cc", "C28", "full", 100000, 1000000)]),
  "C26": dict(technique="runtime monitor (printed durations and time points read back by an independent reader and compared with civil-calendar arithmetic) under ASan+UBSan; ThreadSanitizer plus the same monitor over threads that convert times at once",
      note="Random exploration over durations, instants 1902-2200, stream settings and eight time zones. Local times are judged against the C library's zone rules.",
      rule="one case = six durations in six representations, six instants and a sequence of stream settings in one zone; distinct by values",
      units=[U("drv_chrono.cc", "C26", "full", 8000, 400000), U("drv_chrono.cc", "C26conc", "full", 1500, 30000), U("drv_chrono.cc", "C26conc", "tsan", 400, 8000)]),
  "C27": dict(technique="runtime monitor (dates compared with independent civil-calendar arithmetic) under ASan+UBSan",
      note="Random exploration over dates 1971-2099 and eight time zones with different DST rules.",
      rule="one case = ten dates with random offsets in one zone; distinct by dates and offsets",
      units=[U("drv_chrono.cc", "C27", "full", 8000, 400000)]),
  "C14": dict(technique="ThreadSanitizer plus monitors over stressed concurrent histories (exactly-once, futures, rendezvous, join) with injected delays around every lock and notification",
      note="Schedules are sampled and perturbed, not enumerated.",
      rule="one case = one pool with its producers, nested submissions, a burst cut by join() or destruction; distinct by the history's shape and perturbation seed",
      units=[U("drv_conc.cc", "C14", "tsan", 3000, 100000, flags=WRAP), U("drv_conc.cc", "C14", "asan", 8000, 60000, flags=WRAP),
             U("drv_conc.cc", "C14", "tsan", 1500, 50000, flags=WRAP + ["-std=c++20"])]),
  "C15": dict(technique="ThreadSanitizer plus monitors over stressed concurrent histories (exactly-once, first-in-first-out, drain on destruction) with injected delays around every lock and notification",
      note="Schedules are sampled and perturbed, not enumerated.",
      rule="one case = one pool with its producers, nested submissions and destruction; distinct by the history's shape and perturbation seed",
      units=[U("drv_conc.cc", "C15", "tsan", 4000, 100000, flags=WRAP), U("drv_conc.cc", "C15", "asan", 10000, 60000, flags=WRAP)]),
  "C16": dict(technique="ThreadSanitizer plus an offline checker over timestamped put/take logs (exactly-once, newest-first in real-time order, wake-up on clear)",
      note="Schedules are sampled and perturbed, not enumerated.",
      rule="one case = one sequential and one concurrent history; distinct by the order messages came out",
      units=[U("drv_conc.cc", "C16", "tsan", 6000, 200000, flags=WRAP), U("drv_conc.cc", "C16", "asan", 15000, 100000, flags=WRAP)]),
  "C17": dict(technique="ThreadSanitizer plus monitors over waiters, setters and timeouts with injected delays around every lock and notification",
      note="Schedules are sampled and perturbed, not enumerated; timeouts are checked on the early side only.",
      rule="one case = a set of waiters in different wait forms against setters before, during and after; distinct by shape",
      units=[U("drv_conc.cc", "C17", "tsan", 4000, 100000, flags=WRAP), U("drv_conc.cc", "C17", "asan", 10000, 80000, flags=WRAP)]),
  "C18": dict(technique="runtime monitor (deliveries compared with a model of the chain) under ASan+UBSan, ThreadSanitizer plus delivery monitors over concurrent registration and emission",
      note="Random exploration of operation sequences; schedules are sampled and perturbed, not enumerated.",
      rule="one case = one operation sequence per locking variant plus bound callbacks and signals, or one concurrent history; distinct by the sequence",
      units=[U("drv_dp.cc", "C18", "full", 8000, 400000, flags=WRAP, leaks=True), U("drv_dp.cc", "C18conc", "tsan", 3000, 60000, flags=WRAP), U("drv_dp.cc", "C18conc", "full", 4000, 60000, flags=WRAP)]),
  "C19": dict(technique="runtime monitor (every pop, front, size, iteration and dump compared with a stable-order model) over random operation sequences, under ASan+UBSan",
      note="Random exploration; assurance bounded by the generated sequences. Comparers are consistent three-way orders.",
      rule="one case = one operation sequence on each of four queue types; distinct by the sequence",
      units=[U("drv_dp.cc", "C19", "full", 20000, 600000, flags=WRAP)]),
  "C30": dict(technique="ThreadSanitizer plus construction-count monitors over racing first uses; call-log monitor for deferred actions and factory products under ASan+UBSan",
      note="Schedules are sampled and perturbed, not enumerated.",
      rule="one case = one fresh process racing for eight singletons, 24 factory calls and 8 nests of deferred actions",
      units=[U("drv_dp.cc", "C30", "tsan", 1500, 40000, flags=WRAP), U("drv_dp.cc", "C30", "full", 3000, 60000, flags=WRAP)]),
  "C23": dict(technique="runtime monitor (mapping bytes, sizes, descriptor and mapping tables, directory contents compared with a model) under ASan+UBSan",
      note="Random exploration over file contents and handle lifecycles, inside scratch directories.",
      rule="one case = one mapped file with its handle lifecycle, one set of scratch mappings, the file helpers, and in a quarter of the cases several processes",
      units=[U("drv_os.cc", "C23", "full", 3000, 100000, flags=WRAP, unpriv=True)]),
  "C24": dict(technique="runtime monitor (captured bytes, status, descriptors, children and leftovers compared with the command's construction), sequential and concurrent, under ASan+UBSan and ThreadSanitizer",
      note="Random shell commands built from cat/exit/kill in scratch directories, run as an unprivileged user.",
      rule="one case = one or two shell commands (or two to four threads running them at once); distinct by their shape",
      units=[U("drv_os.cc", "C24", "full", 2500, 60000, flags=WRAP, unpriv=True), U("drv_os.cc", "C24conc", "full", 600, 20000, flags=WRAP, unpriv=True), U("drv_os.cc", "C24conc", "tsan", 400, 10000, flags=WRAP, unpriv=True)]),
  "C25": dict(technique="runtime monitor (bytes per buffer, restored buffers and formatting state after every scope) over random nestings with exceptions, under ASan+UBSan",
      note="Random exploration of nestings.",
      rule="one case = four nestings of redirections and four of savers; distinct by the nesting",
      units=[U("drv_os.cc", "C25", "full", 10000, 300000, flags=WRAP, unpriv=True)]),
  "C29": dict(technique="runtime monitor (store contents after a run compared with the generated documents, layered over environment and command line; outcome of runs on damaged documents) under ASan+UBSan",
        note="Random documents in block and flow style, with quoting, anchors, comments, nested lists; damaged documents judged by what the YAML parser makes of them.",
        rule="one case = one application with up to six configuration files, environment and command line; distinct by files, layers and values",
        units=[U("drv_yaml.cc", "C29", "full", 4000, 120000, flags=YAML, unpriv=True), U("drv_yaml.cc", "C29bad", "full", 2500, 100000, flags=YAML, unpriv=True)]),
  "C31": dict(technique="runtime monitor (each built-in report read back and compared with the generated application, the model's hits and the loaded values) over random applications and command lines, under ASan+UBSan",
        note="Random exploration; assurance bounded by the generated applications and command lines. Trusts the model in harness/cli_model.hpp.",
        rule="one case = one random application and one request for a built-in report (version, build-info, help of a path, leaf without handler, print, debug); distinct by application and argument vector",
        units=[U("drv_cli3.cc", "C31", "asan", 4000, 120000, unpriv=True)]),
  "C32": dict(technique="runtime monitor (a terminal emulator reads the bytes written: every cell's attributes and colours, the terminal's state at the end, and no escape byte where colours are off) under ASan+UBSan",
        note="Random exploration over attributes, colours, colour modes, stream states, environments and screens. The emulator knows the SGR codes only.",
        rule="one case = one sequence of coloured prints, or one screen of a random application with colours on or off; distinct by what was asked for",
        units=[U("drv_term.cc", "C32", "asan", 4000, 150000, unpriv=True)]),
  "C33": dict(technique="runtime monitor (call log of instrumented callables: how often, with which arguments, on which object, what came back) under ASan+UBSan",
        note="Random exploration over the arguments; the shapes of callables are fixed in the harness at compile time.",
        rule="one case = one random set of values through each form of binding, currying and piping; distinct by the values",
        units=[U("drv_misc.cc", "C33", "full", 20000, 500000)]),
  "C34": dict(technique="runtime monitor (every byte of the log output read back as lines and compared with the calls made) under ASan+UBSan, ThreadSanitizer over threads that log at once",
        note="Random texts, time-zones and numbers of threads; schedules are sampled.",
        rule="one case = one sequence of log calls by one thread or by several at once; distinct by the texts",
        units=[U("drv_misc.cc", "C34", "full", 4000, 60000), U("drv_misc.cc", "C34", "tsan", 800, 15000)]),
}
