#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list lives here, in a readable form)."""
import json, os
I = "libs/cmdr11/include/cmdr11/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), obs=()):
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(qtext.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": [I + f if not f.startswith("addons") else f for f in files],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {}),
            **({"observe_at": list(obs)} if obs else {}),
        },
    })

prop("C01", "A command word selects exactly the sub-command registered under that title",
 """Each command word on the command line descends to the sub-command of the current command that was registered with that
 word as its long title, alias or short title (long titles and aliases win over short titles), whatever flags stand between
 the words. The deepest command reached is the one that is invoked or, if it has sub-commands, whose help screen is shown;
 no other command is invoked.""",
 ["inputs", "configurations"], "every command tree and every sequence of command words and flags",
 "The tests run a dozen fixed lines over one fixed menu; they never vary titles, depth, or the order of flags and command words.",
 ["cmdr_impl.hh", "cmdr_cmd.hh", "cmdr_cmd_inl.h"],
 [("app::matching_command / process_command", "cmdr_impl.hh"), ("cmd::add(cmd) title indexes", "cmdr_cmd_inl.h"), ("app::after_run", "cmdr_impl.hh")],
 [("matched commands", "the path of sub-commands matched so far", "cmdr_cmn.hh parsing_context")],
 ["on_invoke handlers", "on_command_hit handlers", "help screen on stdout"])

prop("C02", "A flag word selects the right flag: longest title, nearest scope, combined flags",
 """A dash-prefixed word (long form '--x', short form '-x', special form '~~x') selects, among the flags of the commands matched so far and of all
 their ancestors, the flag whose title is the longest match for the text; of equal matches the one nearest to the current
 command wins, and flags of commands not on the matched path are never selected. Text left over after a flag and its value
 is read as further flags of the same form, left to right, until the word is used up.""",
 ["inputs", "configurations"], "every command tree with overlapping flag titles and every flag word",
 "The tests use a few separate and combined flags whose titles hardly overlap; shadowing between levels and prefix competition are not sampled.",
 ["cmdr_impl.hh", "cmdr_cmd_inl.h"],
 [("app::matching_flag_on", "cmdr_impl.hh"), ("app::process_flag next_combined", "cmdr_impl.hh")],
 [("short/long flag indexes", "title -> flag of each command", "cmdr_cmd.hh")],
 ["option store", "on_flag_hit handlers", "hit titles"])

prop("C03", "Every spelling of a flag value stores the same typed value, a bad one none",
 """A flag that takes a value obtains it identically from '--flag=value', '--flag value', '-f=value', '-f value' and '-fvalue', with optional
 matching quotes removed, and afterwards the option store holds that value with the declared type of the flag (a string takes the whole text); a bool flag
 stores true, or false with a trailing '-'. The word consumed as a value is not interpreted again as a flag or a command.
 A text that cannot be read as the declared type leaves the stored value unchanged, and a following word tried as the value is then processed as an ordinary word.""",
 ["inputs"], "every value type, spelling and value text",
 "The tests try one or two texts per type; malformed, negative, quoted, empty or space-containing values and the position of the value are not covered.",
 ["cmdr_impl.hh", "cmdr_var_t.hh", "cmdr_string.hh"],
 [("app::process_flag", "cmdr_impl.hh"), ("app::parse_value", "cmdr_impl.hh"), ("variable operator>> parsers", "cmdr_var_t.hh")],
 [("flag value", "option store entry app.cli.<path>.<flag>", "cmdr_var_t.hh")],
 ["option store via get_for_cli()/get_raw()"])

prop("C04", "Value precedence: command line over environment over loaded config over default",
 """After a run the option store holds for every flag the value of the highest-ranked source that supplied one:
 the command line (its last occurrence), else an environment variable bound to the flag or derived from its dotted key, else the value
 set by an external loader, else the declared default. A source that supplies no or an unreadable value never hides a lower-ranked one,
 and values of flags not addressed by any source stay at their defaults.""",
 ["configurations", "inputs"], "every combination of sources and flags",
 "The tests never set an environment variable nor combine a loader with command-line flags.",
 ["cmdr_impl.hh", "cmdr_var_t.hh", "cmdr_app.hh"],
 [("app::prepare / apply_env_vars", "cmdr_impl.hh"), ("app::on_loading_externals", "cmdr_impl.hh"), ("app::on_arg_matched", "cmdr_impl.hh")],
 [("option store", "dotted key -> typed value", "cmdr_var_t.hh")],
 ["option store after run()"])

prop("C05", "Hit bookkeeping equals what was matched",
 """After a run, each command and flag reports as hit count exactly the number of times it was selected (by the command line
 or, for flags, by a bound environment variable), as hit title the spelling selected last, and whether it was hit by a long
 form, a special form or the environment; everything never selected reports zero hits and no title.""",
 ["inputs", "configurations"], "every tree and command line, including repeated, combined and shadowed flags",
 "Hit counters are printed but asserted by no test for repeated, nested or competing titles.",
 ["cmdr_impl.hh", "cmdr_arg.hh"],
 [("app::matching_flag_on", "cmdr_impl.hh"), ("bas::update_hit_count", "cmdr_arg.hh")],
 [("hit count/title/long/special/env", "per command and flag", "cmdr_arg.hh")],
 ["hit_count(), hit_title(), hit_long(), hit_special(), hit_env()"])

prop("C06", "A toggle group behaves as a radio group",
 """After at least one flag of a toggle group has been chosen on the command line, exactly the last chosen flag of that group is on,
 every other flag of the same group of the same command is off, and the group reports that flag as its choice, both on the command and in the
 option store under the owning command. Before any choice the group reports its default member, and choosing in one group never changes the flags of another group or of the same-named group of another command.""",
 ["inputs", "configurations", "histories"], "every grouping of flags and every order of choices",
 "One test asserts two fixed toggle lines at one level; order, repetition, nesting and same-named groups are not sampled.",
 ["cmdr_impl.hh", "cmdr_cmd_inl.h", "cmdr_cmd.hh"],
 [("app::on_arg_matched", "cmdr_impl.hh"), ("cmd::toggle_group_set", "cmdr_cmd_inl.h"), ("cmd::add(arg)", "cmdr_cmd_inl.h")],
 [("hit toggle groups", "group -> chosen title per command", "cmdr_cmd.hh")],
 ["cmd::toggle_group()", "option store"])

prop("C07", "Positional arguments are conserved in order; '--' passes the rest verbatim",
 """When a command runs, the arguments its handler receives are exactly those words of the command line that were not consumed as command
 words, flags or flag values, in their original order; every word after a bare '--' is handed over verbatim and never interpreted.
 Empty words before '--' are skipped; nothing is lost, duplicated or reordered.""",
 ["inputs"], "every command line",
 "No test looks at the remaining arguments a handler receives.",
 ["cmdr_impl.hh", "cmdr_cmn.hh"],
 [("app::run", "cmdr_impl.hh"), ("app::remain_args", "cmdr_impl.hh")],
 [("remain args", "positional words collected so far", "cmdr_cmn.hh parsing_context")],
 ["the remain_args parameter of the handlers"])

prop("C08", "Handlers run in order, each at most once, and failures are contained",
 """When a leaf command runs, the global pre-invoke handler, the command's pre-invoke handler, its invoke handler (or the fallback for unhooked commands), the
 command's post-invoke handler and the global post-invoke handler are called in this order and at most once each; a non-zero result of a pre handler
 skips the remaining pre and invoke steps but not the post handlers, and a failing invoke handler does not skip the post handlers. The result of the last of the pre/invoke steps performed is the result of the run,
 a standard exception thrown by a handler ends the run with -1 instead of escaping, and the post-run handlers always run exactly once per run.""",
 ["configurations", "fault_sequences"], "every combination of handlers, results and thrown exceptions",
 "Tests install single handlers returning 0; ordering, short-circuit and exceptions are not exercised.",
 ["cmdr_impl.hh"],
 [("app::invoke_command", "cmdr_impl.hh"), ("app::run exception handling", "cmdr_impl.hh"), ("app::post_run", "cmdr_impl.hh")],
 [], ["handler call log", "run() result"])

prop("C09", "A leaf command runs only when all its required flags were supplied",
 """A command is invoked only if every required flag of the command and of all its ancestors has been supplied by the command line or by a
 bound environment variable; otherwise no handler of the command is called and the run reports failure (or throws the error if the application asked for that).
 Required flags of unrelated commands never prevent a command from running.""",
 ["inputs", "configurations"], "every tree with required flags and every command line",
 "Only one or two fixed command lines with a required flag exist in the tests.",
 ["cmdr_impl.hh"],
 [("app::check_required_flags", "cmdr_impl.hh")], [], ["run() result", "handler call log"])

prop("C10", "Unknown words are rejected before any command runs, unless tolerated",
 """A flag or command word that matches nothing stops the run: the words after it are not processed, no command handler is called and the word is reported to the user.
 If the application asked to tolerate unknown flags or unknown commands, the unknown word is skipped and all other words are processed as if it were absent. A known command line is never rejected as unknown.""",
 ["inputs", "configurations"], "every tree, every command line with unknown words, both tolerance settings",
 "The tests contain hardly any unknown word and none with tolerance switched on.",
 ["cmdr_impl.hh"],
 [("app::unknown_long_flag_found / unknown_short_flag_found / unknown_command_found", "cmdr_impl.hh"), ("app::process_flag", "cmdr_impl.hh")],
 [], ["handler call log", "stderr"])

prop("C11", "Registration: unique titles per level, defaults published, lookups correct",
 """Adding a command or flag whose long title, short title or alias collides with a sibling's title of the same kind fails with an error, and
 every other registration succeeds. After successful registrations each flag's default value is found in the option store under the dotted path of the
 flag, lookups by title return exactly the registered commands and flags, each knows its owner, and the registration callbacks were called once per object.""",
 ["histories", "configurations"], "every sequence of registrations",
 "Tests register one fixed menu without collisions.",
 ["cmdr_cmd_inl.h", "cmdr_impl.hh"],
 [("cmd::add(arg)", "cmdr_cmd_inl.h"), ("cmd::add(cmd)", "cmdr_cmd_inl.h"), ("cmd::find_flag/find_command", "cmdr_cmd_inl.h"), ("app::on_arg_added", "cmdr_impl.hh")],
 [("title indexes", "per command", "cmdr_cmd.hh")], ["exceptions", "option store", "operator[] / operator()"])

prop("C12", "Reset and rebuild gives a fresh application; repeated runs do not interfere",
 """After a reset, an application rebuilt with the same menu behaves for every command line exactly like a newly created one, whatever was run
 before. Without a reset, a further run selects, stores, invokes and rejects by its own words just as a first run does, starting from the values and hit counts left by the runs before.""",
 ["histories"], "every history of runs and resets",
 "The tests run lines in separate sections and never compare a second run with a first one.",
 ["cmdr_impl.hh", "cmdr_app_inl.h"],
 [("app::reset", "cmdr_impl.hh"), ("app::run", "cmdr_impl.hh")],
 [("application state", "menu, store, hit counts, handlers", "cmdr_app.hh")], ["everything observable after run()"])

prop("C13", "Help, version and other built-in requests answer without running a command",
 """A request for help, version, build info or the command tree (as the last word of an otherwise valid line, or the help/version commands) prints the corresponding screen,
invokes no user command and ends with the result 0. The help screen lists exactly the visible sub-commands of the command reached and the visible flags of that command and all its ancestors, with their titles;
 a line that reaches a command with sub-commands and names no further one shows that command's help screen.""",
 ["inputs", "configurations"], "every tree, hidden setting and command line with a built-in request",
 "The tests check run()'s result for a few built-in flags only, never what is listed.",
 ["cmdr_impl.hh", "cmdr_app_inl.h", "cmdr_cmd_inl.h"],
 [("app::internal_action / print_usages / print_cmd", "cmdr_impl.hh"), ("cmd::print_commands / print_flags", "cmdr_cmd_inl.h"), ("app::internal_register_actions", "cmdr_app_inl.h")],
 [], ["stdout", "handler call log"])

prop("C14", "The option store returns for every key the last value written to it",
 """Reading a dotted key returns the value and type last written to exactly that key (directly, through a prefix, or through a reference
 handed out earlier), unaffected by writes to any other key, including its ancestors, descendants and siblings; a key never written reads as empty, and a
 reference obtained for a key stays attached to it until the store is reset.""",
 ["histories"], "every history of writes and reads over hierarchical keys",
 "The store test writes a fixed list of keys and prints them.",
 ["cmdr_var_t.hh", "cmdr_var_t_inl.h", "cmdr_app.hh"],
 [("nodeT::_set / _get_raw / _get_raw_p", "cmdr_var_t.hh"), ("treeT::set_raw(_p)", "cmdr_var_t.hh")],
 [("store tree", "dotted key -> typed value", "cmdr_var_t.hh")], ["get_raw()", "get_raw_p()", "app::get()/set()"])

prop("C15", "Store enumeration, subtrees and key tests agree with what was written",
 """Walking or dumping the store lists exactly the keys that were written, each once and in sorted order, with their current values; a subtree request returns
 exactly the keys below the prefix (and nothing for a prefix never written), and a key test answers true exactly for keys present. After a reset nothing is present.""",
 ["histories"], "every history of writes, enumerations and resets",
 "The store test dumps one fixed store and checks no listing.",
 ["cmdr_var_t.hh", "cmdr_var_t_inl.h"],
 [("nodeT::walk_by_full_keys / walk_sorted", "cmdr_var_t.hh"), ("nodeT::subtree", "cmdr_var_t_inl.h"), ("nodeT::has", "cmdr_var_t_inl.h"), ("nodeT::dump_full_keys", "cmdr_var_t_inl.h")],
 [("indexes", "full key -> node", "cmdr_var_t.hh")], ["walk_by_full_keys()", "dump_full_keys()", "subtree()", "has()"])

prop("C16", "The option store tolerates concurrent writers and key lookups",
 """When several threads write keys and look keys up (presence, references, subtrees) at the same time, every operation completes without data race or deadlock and takes effect
at one moment between its call and its return: a lookup finds exactly the keys written by then, and after the threads finish every key holds the value of its last write.""",
 ["schedules"], "every interleaving of concurrent writes and lookups",
 "No test touches the store from two threads.",
 ["cmdr_var_t.hh", "cmdr_var_t_inl.h"],
 [("nodeT::_set unique lock", "cmdr_var_t.hh"), ("nodeT::_get_raw shared lock", "cmdr_var_t_inl.h")],
 [("tree node mutex", "guards children and indexes", "cmdr_var_t.hh")], ["get_raw()", "set_raw()"])

prop("C17", "Typed values are read from text exactly, or rejected",
 """Reading text into a typed value yields the value that text denotes: true/false words in any case for bool, decimal integers within range, decimal
 floats, strings verbatim without enclosing quotes, and comma-separated lists in brackets or bare with every element once and in order. Text that denotes no value of the type fails and is reported as failure,
 and printing a bool, an integer or a list of such values and reading it back gives the same value, as it does for floats of up to six significant digits.""",
 ["inputs"], "every type and text of the documented grammar and near misses of it",
 "The tests parse one or two texts per type.",
 ["cmdr_var_t.hh", "cmdr_string.hh"],
 [("variable::parse_bool / parse_array / any_parsers", "cmdr_var_t.hh"), ("string::strip_quotes / strip", "cmdr_string.hh")],
 [], ["operator>>", "as_string()"])

prop("C18", "A thread-pool task runs at most once and its future is always settled",
 """Every task queued in a thread pool runs at most once, and while the pool stays alive it runs exactly once; its future then yields the task's result or
 the exception the task threw, and a throwing task affects no other task. If the pool is shut down before a task started, the task never runs and its
 future reports a broken promise instead of blocking forever.""",
 ["schedules"], "every interleaving of producers, workers and shutdown, every pool size",
 "The pool tests use sleeps on one schedule with one or two tasks.",
 ["cmdr_pool.hh"],
 [("thread_pool::queue_task", "cmdr_pool.hh"), ("thread_pool worker loop", "cmdr_pool.hh"), ("threaded_message_queue", "cmdr_pool.hh")],
 [("task queue", "pending tasks", "cmdr_pool.hh")], ["futures", "task side effects"])

prop("C19", "Thread-pool construction and shutdown terminate; no task runs afterwards",
 """Creating a thread pool returns only when all its workers are running, and joining or destroying it, at any moment, alone or while tasks are queued or running,
 always terminates without deadlock, after all started tasks have finished and all worker threads have ended; no task runs later. The number of active threads reported equals the number of tasks being executed, never exceeds the
 pool size and is zero when the pool is idle.""",
 ["schedules"], "every interleaving of construction, work and shutdown, every pool size",
 "The tests shut down idle pools after sleeping.",
 ["cmdr_pool.hh"],
 [("thread_pool::start_threads / join / ~thread_pool", "cmdr_pool.hh"), ("conditional_wait", "cmdr_pool.hh")],
 [("abort flag", "set by clear()", "cmdr_pool.hh")], ["active_threads()", "termination"])

prop("C20", "The lightweight pool drains its queue before it ends and refuses work afterwards",
 """Every task accepted by the lightweight pool runs exactly once, workers take tasks in the order they were accepted, each future yields the task's result or exception,
and destroying the pool returns only after all accepted tasks have run and the workers have ended. Work offered after the stop is refused with an error, never silently dropped; nothing races.""",
 ["schedules"], "every interleaving of producers, workers and destruction",
 "One test queues a handful of tasks on one schedule.",
 ["cmdr_pool.hh"],
 [("thread_pool_lite::enqueue", "cmdr_pool.hh"), ("thread_pool_lite::~thread_pool_lite", "cmdr_pool.hh")],
 [("tasks", "FIFO of accepted tasks", "cmdr_pool.hh")], ["futures", "task side effects"])

prop("C21", "The message queue delivers every message at most once and wakes its consumers",
 """Each message put into the queue is delivered to exactly one consumer, or is discarded by an explicit clear; no message is duplicated, lost or invented.
 A waiting consumer returns once a message is available or the queue is cleared, never without either and never stays blocked while a message remains available to it.""",
 ["schedules"], "every interleaving of producers, consumers and clear",
 "The test uses one producer and one consumer with sleeps.",
 ["cmdr_pool.hh"],
 [("threaded_message_queue::emplace_back / pop_front / clear", "cmdr_pool.hh")],
 [("data", "pending messages", "cmdr_pool.hh")], ["pop_front() results"])

prop("C22", "A conditional wait returns only when its condition holds or time is up",
 """Waiting on a conditional variable object returns only after the condition became true, it was killed, or the given timeout elapsed, and then
 tells these apart by its result; once the condition has been set for all (or as many times as there are waiters), no waiter remains blocked, even if the set happened before the wait.
 A wait without a timeout never gives up by itself.""",
 ["schedules"], "every interleaving of waiters, setters, kills and timeouts",
 "The tests have one waiter and one setter, ordered by sleeps.",
 ["cmdr_pool.hh"],
 [("conditional_wait::wait / wait_for / set / set_for_all / kill", "cmdr_pool.hh")],
 [("condition value", "bool or counter", "cmdr_pool.hh")], ["wait results", "termination"])

prop("C23", "The priority queue pops in priority order and iterates in popping order",
 """For every history of pushes and pops, the queue yields exactly the elements pushed and not yet popped, always an element of the highest
 priority first and the older one first among equals, and its size, emptiness, front and forward iteration agree with that order without changing the queue; popping an empty queue yields the null element and changes nothing.""",
 ["histories"], "every history of operations over every set of priorities, both orderings and both element kinds",
 "The tests push one fixed list once.",
 ["cmdr_priority_queue.hh"],
 [("priority_queue::push / pop / front / iterator", "cmdr_priority_queue.hh")],
 [("tree", "pending elements", "cmdr_priority_queue.hh")], ["pop()", "front()", "size()", "iterators"])

prop("C24", "Observers are notified exactly while registered, in order, never afterwards",
 """Emitting a subject calls every observer registered at that time exactly once, in registration order and with the emitted value, and no
 other; an observer removed, or destroyed if registered by weak reference or by a scoped registration, is never called again, and removing one never affects the others.""",
 ["histories"], "every history of registrations, removals, destructions and emissions",
 "The test registers two observers and emits once.",
 ["cmdr_if.hh", "cmdr_defs.hh", "cmdr_utils.hh"],
 [("util::observable", "cmdr_if.hh"), ("util::registerer", "cmdr_if.hh")],
 [("observers", "list of weak references", "cmdr_if.hh")], ["observe() calls"])

prop("C25", "Concurrent registration, removal and emission of observers never lose an update",
 """When threads register and remove observers and emit subjects concurrently on a lock-enabled observable, no registration or removal is lost, there is no data race or
 deadlock, and an emission calls every observer registered before it began and not removed before it ended exactly once, and none that was removed before it began.""",
 ["schedules"], "every interleaving of register, remove and emit",
 "No test uses an observable from two threads.",
 ["cmdr_if.hh"],
 [("util::observable::add_observer / remove_observer / emit", "cmdr_if.hh")],
 [("observers", "guarded list", "cmdr_if.hh")], ["observe() calls"])

prop("C26", "Signals and bindable observables deliver to every connected slot",
 """Emitting a signal calls every connected callback (function, lambda or member function) exactly once, in connection order and with the emitted arguments unchanged, preceded by
 the arguments bound at connection; copies of a signal keep their slots, connecting to one never affects another, and a bindable observable behaves likewise for its bound callbacks.""",
 ["histories"], "every history of connections, copies and emissions",
 "The test connects a few slots and emits once with small values.",
 ["cmdr_if.hh"],
 [("util::signal", "cmdr_if.hh"), ("util::observable_bindable", "cmdr_if.hh"), ("util::bind", "cmdr_if.hh")],
 [("slots", "connected callbacks", "cmdr_if.hh")], ["slot calls"])

prop("C27", "Scoped stream redirections and deferred actions are undone exactly at scope end",
 """While a scoped redirection of standard output or error is alive, everything written to the stream goes to its target and only there; when it ends, in
 whatever nesting and also by an exception, the stream is as before, and so is the format of a stream whose flags or state were saved. A deferred action runs exactly once, when its scope ends.""",
 ["histories", "fault_sequences"], "every nesting of redirections, writes and exits",
 "No test nests redirections or leaves a scope by exception.",
 ["cmdr_os_io_redirect.hh", "cmdr_utils.hh", "cmdr_defs.hh"],
 [("pipe_stdout_to / pipe_stderr_to", "cmdr_os_io_redirect.hh")], [], ["stream buffers", "captured text"])

prop("C28", "A misspelt word is answered with the similar titles; feel-like takes the best",
 """An unknown command word is answered with exactly the titles of sub-commands of the current command, and an unknown flag with exactly the titles of flags of the
 matched command and its ancestors, whose Jaro similarity to the word reaches the threshold of 0.83; no command is invoked. In feel-like mode the most similar
 sub-command is taken instead, if one reaches the threshold; the similarity is the Jaro similarity of the two texts, 1 exactly for equal texts.""",
 ["inputs", "configurations"], "every unknown word and every command tree; every pair of texts for the similarity",
 "The tests compute the similarity of a few fixed pairs and never look at the suggestions.",
 ["cmdr_impl.hh", "cmdr_string.hh"],
 [("app::unknown_command_found / unknown_long_flag_found / unknown_short_flag_found", "cmdr_impl.hh"), ("text::jaro_winkler_distance", "cmdr_string.hh")],
 [], ["suggestions on stderr", "the command invoked"])

prop("C29", "Durations, times and dates print, parse and calculate as the calendar says",
"""A printed duration denotes exactly the duration printed; a printed point in time is its local (or UTC) date and time of day with the milli-, micro- or
nanoseconds chosen, leaving the stream's other settings as they were; a date and time text the library accepts is read as just that point in time; last days of a
month or year, the order of dates, and the conversions between calendar fields and points in time follow the Gregorian calendar in every time zone.""",
["inputs", "configurations"], "every duration and every point in time between 1901 and 2199, every sequence of manipulators; UTC, zones east and west, on both hemispheres' summer time from 1971 on",
"The tests print a few durations and parse a few texts and look at none of the results.",
["cmdr_chrono.hh"],
[("operator<< of durations and time points, iom", "cmdr_chrono.hh"), ("chrono::parse_datetime / try_parse_by / time_point_2_tm / tm_2_time_point", "cmdr_chrono.hh"),
 ("chrono::last_day_at_this_month / last_day_at_this_year / compare_date_part", "cmdr_chrono.hh")],
[("iom flags", "format flags kept per stream", "cmdr_chrono.hh")], ["printed text", "parsed time points and calendar fields"])

prop("C30", "The YAML loader publishes every scalar of the documents under its dotted path",
"""After loading YAML documents, the option store holds for every scalar and every sequence of scalars, under the dotted path of its keys, an equal value
(plain yes/no words as booleans, any other scalar as its text, a sequence as a list in order; the last one where several define a path), and a path no
document mentions keeps its value; documents are loaded from $CONFIG_FILE, the predefined places and --config, in this order, and listed so.""",
["inputs", "configurations"], "every set of documents made of nested maps, scalars and sequences of scalars; every combination of the places",
"No test loads a YAML document.",
["addons/loaders/yaml_loader.hh"],
[("yaml_loader", "addons/loaders/yaml_loader.hh")], [], ["option store after the loaders ran"])

prop("C31", "The text operations split, join, trim, replace, quote and expand exactly",
"""Splitting, tokenising and reading up to a delimiter give exactly the pieces of the text between the separators, joining undoes splitting; searching, replacing, trimming, padding, stripping,
wrapping, quoting and changing case do to every text just what they say and lose no other character; a number read is the number written. Expanding replaces exactly the
references $NAME and ${NAME} of a text, and of the values put in, by the variables' values (nothing if unset), and always ends.""",
["inputs", "configurations"], "every text, separator, prefix, suffix and replacement, and every environment",
"The tests run each operation on one or two texts, mostly without looking at the result.",
["cmdr_string.hh"],
[("string::split / tokenize / join / read_until", "cmdr_string.hh"), ("string::replace / reg_replace / trim / strip / wrap / pad", "cmdr_string.hh"), ("string::expand_env", "cmdr_string.hh")],
[], ["returned texts"])

prop("C32", "Help screens and command trees show every visible item, wrapped to the terminal",
"""A help screen shows, for the command it is asked for, the headings, usage, examples and descriptions, every visible sub-command and every visible flag of the command and its
ancestors with all titles, defaults, environment variables and group, in order, each description in one column and wrapped to the terminal's width; the tree of commands shows every visible
command under its owner with its group. Nothing of a text but the blanks at the break of a line is lost by wrapping, for whatever width, settings of the application, shell or TERM; no colour codes are written if colours are not wanted.""",
["inputs", "configurations"], "every menu, terminal width, shell, TERM, and setting of the application",
"The tests print some help screens and compare none of them.",
["cmdr_cmd_inl.h", "cmdr_app_inl.h", "cmdr_impl.hh", "cmdr_terminal.hh"],
[("cmd::print_commands / print_flags / format helpers", "cmdr_cmd_inl.h"), ("app::print_usages / print_tree", "cmdr_app_inl.h")],
[], ["help screens and trees on a terminal"])

prop("C33", "Coloured text appears in just the style asked for, and leaves none behind",
"""Every text printed by a colorizer is shown by a terminal in exactly the modifiers and colours (of 256 or true colours) asked of it, each modifier turned off alone but for those that share a code;
after a colorizer with auto reset the terminal is plain and the colorizer empty, one without keeps all it was given. Names of styles, colours and resets written to a
stream do just what they say; where colours are not wanted (by TERM, set_default_colorful or enable) the text alone is written.""",
["inputs", "histories"], "every sequence of requests to colorizers, prints and style names, on every TERM",
"The tests print a few coloured texts and look at none.",
["cmdr_terminal.hh"],
[("colors::colorize", "cmdr_terminal.hh"), ("colorize::style / fg / bg / fgB / bgB / reset", "cmdr_terminal.hh")],
[("colorizer", "modifiers, colours and texts collected until it is printed", "cmdr_terminal.hh")], ["bytes written, as a terminal shows them"])

prop("C34", "A command run by exec reports its whole output, error output and status",
"""For every shell command, the exec object hands out exactly what the command wrote to its standard output and, by stderr_stream(), all that any part of it wrote to its standard error, of whatever size,
and the status a shell would report, 128 plus the signal for a command ended by one. This holds whatever other commands are run before, after or at the same time by other threads, and however and whenever the
results are read; a stream they are printed to stays good, and no file is left behind.""",
["inputs", "schedules"], "every command, sequences of commands and commands at the same time, every way of reading",
"The tests list a directory and print what they get.",
["cmdr_process.hh", "cmdr_path.hh", "cmdr_ios.hh"],
[("process::exec", "cmdr_process.hh")],
[("stderr file", "the file the error output is collected in", "cmdr_process.hh")], ["output, error output, return code, files in the temporary folder"])

prop("C35", "A mapped file shows its file's bytes, its own file is private and goes with it",
"""A mapping has the size and shows exactly the bytes of its file; a write through a shared mapping reaches the file and every other mapping of it, one through a private mapping nobody else, and a copy or move of a mapping is as good as the original.
A mapping made for a size starts with zeros in a file nobody else uses, neither another thread nor another process, which is removed with it; a file that exists is left alone, and no
descriptor is lost or closed for others. Files made, filled, read and removed by the helpers have just the contents and answers that says.""".replace("others. Files","others; files"),
["histories", "schedules"], "every sequence of mappings, copies, writes, file operations and ends; other threads and processes meanwhile",
"No test maps a file.",
["cmdr_mmap.hh", "cmdr_path.hh"],
[("mmap::mmap / mmap_um / detail::mmaplib", "cmdr_mmap.hh"), ("io::create_file / create_sparse_file / read_file_content / delete_file, path::ensure_file / tmpname_autoincr", "cmdr_path.hh")],
[("mapped bytes", "address and descriptor of a mapping", "cmdr_mmap.hh")], ["mapped bytes, files, descriptors"])

prop("C36", "Completion in the shell offers exactly the titles that can be typed there",
"""With the generated script sourced by bash, completing a command line offers exactly the titles (long, short and aliases, hidden items' too, flags with their dashes and the placeholder of their value) that begin
with what was typed of the word, of the sub-commands of the command the words before lead to, and of the flags of it and its ancestors; nothing else is offered, and nothing at all after --help or --version.
This holds for every name of the program, any TERM and whatever the descriptions contain, and the script is printed without any file being written when asked so.""",
["inputs", "configurations"], "every menu, every line of commands and flags by any of their titles, every beginning of the next word",
"No test generates or sources the script, or asks for the screens it reads.",
["cmdr_app_inl.h", "cmdr_cmd_inl.h", "cmdr_impl.hh"],
[("app::generate_bash_completion / on_generate_shell_completion", "cmdr_app_inl.h"), ("cmd::print_commands / print_flags in completion mode", "cmdr_cmd_inl.h")],
[], ["COMPREPLY of bash with the script sourced"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"])
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
