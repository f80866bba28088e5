def prop(id, title, statement, over, text, why, files, mech, note, observe=None, state=None):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files, "state": state or [], "mechanism": mech, "observe_at": observe or [], "hook_needed": None}, "note": note}

N = " Assumes sequentially consistent memory for outcomes (weaker orders are only reported as data races) and instrumented shared accesses."

PROPERTIES = [
prop("C01", "Log messages reach each accepting sink exactly once, in order",
     "A message logged on any thread is handed exactly once, unaltered, with its level and during the logging call, to every sink that is registered and accepts its level and thread for the whole call, and to no other sink; messages of one thread reach a sink in the order they were logged, and error and critical calls flush every registered sink before returning. This stays true, without data races, while other threads add and remove sinks and change levels and modes, and the global level test never rejects a level that a registered sink accepts.",
     ["schedules", "histories"], "all interleavings of logging threads with a thread that adds, removes and reconfigures sinks, for all levels, sink modes and entry points (message, per-level and printf-style)",
     "xo_test logs from one thread into fixed sinks; no test logs while sinks or levels change on another thread.",
     ["xo/system/log.h", "xo/system/log.cpp", "xo/system/log_sink.h", "xo/system/log_sink.cpp"],
     [{"name": "global_sinks under global_sink_mutex (shared for logging, exclusive for registration)", "where": "xo/system/log.cpp"}, {"name": "global_lowest_log_level as a lock-free early test", "where": "xo/system/log.cpp"}],
     "Seeded search over schedules of the real logger with recording sinks, checked against the interval history of registrations, levels and modes." + N,
     ["deliveries and flushes recorded by a sink derived from xo::log::sink", "result of test_log_level"]),
prop("C02", "Concurrent log messages come out of built-in sinks as whole lines",
     "Whatever the number of threads logging and flushing, every accepted message appears in a stream, file or console sink exactly once, with its prefix and undamaged, ended by its own line break and never mixed with another message; the lines of a multi-line console message stay together, and one thread's messages keep their order.",
     ["schedules", "fault_sequences"], "all interleavings of threads that log and flush to the same stream, file or console, with slow devices and short writes",
     "xo_test writes to the console from one thread.",
     ["xo/system/log_sink.cpp", "xo/system/log_sink.h", "xo/system/system_tools.cpp"],
     [{"name": "g_console_mutex around writes to a sink's stream", "where": "xo/system/log_sink.cpp"}, {"name": "get_date_time_str", "where": "xo/system/system_tools.cpp"}],
     "Seeded search over schedules of the real sinks writing to a slow stream buffer or the simulated disk, output parsed line by line." + N,
     ["bytes received by the stream, log file and console"]),
prop("C03", "Built-in sinks can be created and destroyed while other threads log",
     "Creating a stream, file or console sink, changing its level and destroying it is safe at any moment while other threads are logging: no crash, no data race, no use of a sink that is not yet or no longer alive. A sink receives every accepted message logged entirely within its lifetime exactly once, none logged before it was made, and sinks that stay are not disturbed.",
     ["schedules", "histories"], "all interleavings of logging threads with threads that create, adjust and destroy built-in sinks",
     "Tests create sinks before anything is logged and destroy them at the end of the program.",
     ["xo/system/log_sink.cpp", "xo/system/log_sink.h", "xo/system/log.cpp"],
     [{"name": "registration at the end of construction, removal at the start of destruction", "where": "xo/system/log_sink.cpp"}],
     "Seeded search over schedules with a heap checker and race detector under the real sinks. Sinks derived by users register in their base class and are outside this property." + N,
     ["bytes received by each sink's stream or file"]),
prop("C04", "File logging survives disk faults, and error messages survive a crash",
     "Disk errors, a full disk or failing directory creation never make logging throw, crash, hang or disturb other sinks, and damage at most the lines whose writes failed; without failures no line is missing or damaged. When an error or critical call has returned, its message is in the log file even if the process dies right afterwards.",
     ["fault_sequences", "crash_points", "schedules"], "all sequences of open, mkdir, stat, write (error, short, interrupted), close and disk-full faults and process crash points, with one to three logging threads",
     "No test logs to a failing disk or kills the process.",
     ["xo/system/log_sink.cpp", "xo/system/log.cpp", "xo/filesystem/filesystem.cpp"],
     [{"name": "line is flushed with std::endl, error/critical call flush()", "where": "xo/system/log_sink.cpp, xo/system/log.cpp"}],
     "Seeded search over fault and crash sequences of the real file sink on the simulated disk; the file is read back after the run or after the crash." + N,
     ["log file contents during and after the run and after a simulated process death"]),
prop("C05", "A cached file resource is fresh, private and loaded once per change",
     "A lookup in a file resource cache returns a private copy of contents the file had, never contents of another file, and never contents that were replaced more than the check interval plus the lookup's own waiting time earlier; later lookups never go back to an older version. Any number of threads may look up concurrently, a file is loaded no more often than it had versions, and changes of the system time have no effect on this.",
     ["schedules", "histories"], "all interleavings of lookups on several threads with file changes, waiting times and wall clock jumps",
     "No test uses the cache with more than one thread, a changing file or a changing clock.",
     ["xo/utility/file_resource_cache.h", "xo/filesystem/filesystem.cpp"],
     [{"name": "shared_mutex with re-check under the exclusive lock", "where": "xo/utility/file_resource_cache.h"}, {"name": "last_checked_time_ and file_time_ per item", "where": "xo/utility/file_resource_cache.h"}],
     "Seeded search over schedules and simulated time with files changed by the simulator; modification times are distinct per version (the cache sees whole seconds)." + N,
     ["resources returned by the cache", "calls of the create function", "simulated clock"]),
prop("C06", "A file resource cache recovers from failed loads",
     "When a file is missing, unreadable or its loader fails or runs out of memory, the lookup throws and nothing wrong is ever returned; no lock stays held and no other entry is affected. Once the failure has stopped, lookups return the current contents after at most the check interval.",
     ["fault_sequences", "schedules"], "all sequences of loader, stat, open and allocation failures, file removals and changes, with one to three threads looking up",
     "No test makes a load fail.",
     ["xo/utility/file_resource_cache.h"],
     [{"name": "file_time_ only set after a successful load", "where": "xo/utility/file_resource_cache.h"}],
     "Seeded search over faults and schedules, then a fault-free phase in which each file must be found with its current contents." + N,
     ["resources returned and exceptions thrown by the cache"]),
prop("C07", "A memoized function computes each value once, also for concurrent callers",
     "Calls of a memoized function, and concurrent calls of a thread-safe one, return the value of the function for those arguments; the function runs at most once at a time and at most once successfully per argument, and returned references keep their value for as long as the memoized function lives. A call whose computation throws, throws, leaves no entry and no lock behind, and the next call computes the value again. A memoized function that is not thread-safe may call itself.",
     ["schedules", "fault_sequences"], "all interleavings of one to three threads with overlapping keys, functions that call themselves, functions that fail and allocations that fail",
     "xo_test only times a single thread.",
     ["xo/utility/memoize.h"],
     [{"name": "second lookup under the exclusive lock", "where": "xo/utility/memoize.h"}],
     "Seeded search over schedules with a counting function and injected failures. When an allocation fails after the value was computed it may be computed again." + N,
     ["calls of the function", "returned references", "size()"]),
prop("C08", "Stop and interrupt requests are seen by every thread and never withdrawn",
     "Once a stop request or interrupt call has completed, every later query through any token, copy or thread reports it, also after the source is gone; nobody sees a request that was not made, requests of one source never show on another, and a seen request stays seen; copying, moving or assigning takes over the state of the original, and what is asked of a copy of an interruptible object does not show on the original. Waiting for a request in a loop terminates, without data races.",
     ["schedules"], "all interleavings of threads that request, query and wait, for one or two sources",
     "No test uses these types from more than one thread.",
     ["xo/thread/stop_token.h", "xo/thread/interruptible.h", "xo/thread/interruptible.cpp"],
     [{"name": "shared atomic stop state", "where": "xo/thread/stop_token.h"}, {"name": "atomic interrupt flag", "where": "xo/thread/interruptible.h"}],
     "Seeded search over schedules with the recorded history of requests and queries checked for real-time order." + N,
     ["stop_requested() and test_interrupt_flag()"]),
prop("C09", "Directories are created exactly once, unique names are never shared",
     "A unique directory that is handed out exists, was created by that call, has the first numbered name that was free, and is never handed out to another caller, whatever other threads or processes create at the same time; when creation fails or all attempts are used up the call throws. Creating a directory tree succeeds for exactly one of several concurrent callers and leaves the directory in place for all of them; nothing else is created or removed.",
     ["schedules", "fault_sequences", "histories"], "all interleavings of one to four threads that create the same or nested directories, existing directories and files in the way, and failing mkdir and stat calls",
     "xo_test creates no directories concurrently and never meets a failing system call.",
     ["xo/filesystem/filesystem.cpp", "xo/filesystem/path.cpp"],
     [{"name": "mkdir decides who created the directory", "where": "xo/filesystem/filesystem.cpp"}],
     "Seeded search over schedules and faults on the simulated disk; directories before and after each call are compared. Files in the way only count as taken names for creation, not for find_unique_directory." + N,
     ["paths returned", "directories on the simulated disk"]),
prop("C10", "Files are read, written and copied completely or the failure is reported",
     "Loading returns exactly the bytes of the file, and saving, appending and copying leave exactly the requested bytes, or the failure is reported (error_code when given, exception otherwise): a report of success is never wrong, a failure leaves the old contents or a beginning of the new ones, and without faults nothing fails. Short transfers and interrupted calls do not matter, a copy that may not overwrite leaves the target alone, no other file changes, no descriptor leaks, and concurrently appended short texts all arrive whole.",
     ["fault_sequences", "inputs", "schedules"], "all sequences of save, append, load, copy and remove calls with any bytes and sizes around the buffer sizes, with open, read, write, close, mkdir, stat and disk-full faults",
     "The tests write a few small files to a working disk.",
     ["xo/filesystem/filesystem.cpp", "xo/system/error_code.cpp"],
     [{"name": "stream state checked after close, badbit after reading", "where": "xo/filesystem/filesystem.cpp"}],
     "Seeded search over operation and fault sequences against a map from path to contents. An interrupted sendfile makes std::filesystem::copy_file report an error, which is accepted." + N,
     ["return values, error codes and exceptions", "bytes on the simulated disk"]),
prop("C11", "File searches find exactly what is there",
     "find_files returns each entry below the folder whose name matches the include and not the exclude patterns, within the recursion limit, exactly once, whatever the order and kind of information the file system returns, or throws when the folder cannot be read completely. find_file and its variants return the first candidate that is a readable file, using the search path of the calling thread only; the existence tests tell files, directories and other things apart and never report something that is not there.",
     ["fault_sequences", "schedules", "inputs"], "all directory trees with links, patterns and recursion limits, entry orders, missing entry types and failing calls, with up to three threads that have different search paths",
     "xo_test searches one fixed folder in directory order.",
     ["xo/filesystem/filesystem.cpp", "xo/filesystem/path.cpp", "xo/string/pattern_matcher.h"],
     [{"name": "thread_local search path", "where": "xo/filesystem/filesystem.cpp"}, {"name": "recursive directory iteration", "where": "xo/filesystem/filesystem.cpp"}],
     "Seeded search over trees, orders and faults against a direct model of the tree; directory links that form cycles are not generated." + N,
     ["returned paths", "exceptions"]),
prop("C12", "Documents saved to a file are loaded back unchanged",
     "When saving a document that the format can express as zml, ini or xml reports success, the file holds exactly that document: loading it again, at once, later, on any thread or after the process died and was restarted, gives the same keys, values, nesting and order. A save or load that could not be done completely reports an error, never throws when an error_code is given (except when memory runs out) and never changes the document in memory; without faults nothing fails. Saving as zml refuses nesting that zml cannot express (an item without a label in a group, a value with children in an array) with an error.",
     ["inputs", "fault_sequences", "crash_points", "schedules"], "all documents within the formats' limits, saved and loaded through every entry point, with open, read, write, close, disk-full and allocation faults, short transfers and crashes, on one to three threads",
     "The tests save a few fixed documents to a working disk.",
     ["xo/serialization/serialize.cpp", "xo/serialization/prop_node_serializer.cpp", "xo/serialization/prop_node_serializer_zml.cpp", "xo/serialization/prop_node_serializer_ini.cpp", "xo/serialization/prop_node_serializer_xml.cpp", "xo/serialization/char_stream.cpp", "xo/string/string_tools.cpp"],
     [{"name": "quoting and unquoting of labels and values", "where": "xo/serialization/prop_node_serializer_zml.cpp, xo/serialization/char_stream.cpp"}, {"name": "stream state checked after close, read_all reports read errors", "where": "xo/serialization/prop_node_serializer.cpp"}],
     "Seeded search over documents, faults and crashes. Limits of the formats: zml labels start with a visible ASCII character, nothing contains '$' or a zero byte, no value starts with '@' and none equals an operator token, no empty array items; xml has one root and elements have text or children; ini has unique trimmed keys in at most two levels, main items first, lines under 1024 characters." + N,
     ["documents returned by the load functions", "error codes, exceptions and return values"]),
prop("C13", "Damaged files are reported, not obeyed, and never crash a reader",
     "Reading any file through any document or data reader ends, with bounded memory, in a document or in a reported error: no crash, no endless loop, no invalid memory access, and no exception other than for exhausted memory when an error_code is given. Whether and what is read does not depend on how the error is asked for; a read that fails half-way is reported and never returned as if it were the whole file.",
     ["inputs", "fault_sequences", "schedules"], "all torn, overwritten, zero-filled, duplicated or arbitrary file contents and all read, open and allocation faults, for every loader, on one or two threads",
     "The tests read well-formed files from a working disk.",
     ["xo/serialization/prop_node_serializer_zml.cpp", "xo/serialization/prop_node_serializer_ini.cpp", "xo/serialization/prop_node_serializer_xml.cpp", "xo/serialization/char_stream.cpp", "xo/serialization/container_io.h", "xo/system/error_code.cpp"],
     [{"name": "set_error_or_throw", "where": "xo/system/error_code.cpp"}, {"name": "token reader that always advances", "where": "xo/serialization/char_stream.cpp"}],
     "Seeded search over damaged contents and faults, comparing each read with fault-free reads with and without error_code. Nesting is limited to about 200 levels (the readers recurse)." + N,
     ["documents, error codes and exceptions"]),
prop("C14", "Included files are inserted exactly where they are named",
     "Loading a document with includes gives what the files would give if each included file's items stood in the place of its include, with relative names taken from the folder of the including file, or with include nodes replaced by or merged with the included root. A missing file, an include loop, an included file without exactly one root where one is needed or a read failure anywhere below is reported as an error instead of a crash, an endless loop or a partial document; once failures stop the load succeeds, and the reported list of directly included files is complete.",
     ["inputs", "fault_sequences", "schedules"], "all include graphs of up to seven files in several folders, with and without loops and missing files, read with open, read and allocation faults, on one or two threads",
     "The tests include one file that is there.",
     ["xo/serialization/prop_node_serializer_zml.cpp", "xo/serialization/serialize.cpp", "xo/filesystem/path.cpp"],
     [{"name": "load_zml_include with a level limit", "where": "xo/serialization/prop_node_serializer_zml.cpp"}, {"name": "resolve_include_files", "where": "xo/serialization/serialize.cpp"}],
     "Seeded search over include graphs and faults against a direct expansion of the graph." + N,
     ["documents, included file lists, error codes and exceptions"]),
prop("C15", "Settings keep what was set and only hold what their schema allows",
     "A setting that was accepted is what every later read returns, and once save() returned it is what any later object or restarted process reads from that file; refused or clamped values follow the schema, and an unset or damaged setting reads as its default. Whatever a settings file contains (torn, edited by hand, out of range), opening it either reports an error or leaves every setting readable with a value its schema allows, and existing settings are never replaced because their file could not be opened or read.",
     ["histories", "crash_points", "fault_sequences", "inputs"], "all sequences of set, save, load, reset, reopen and outside edits, with open, read, write, close, mkdir, disk-full and allocation faults and crashes at any file operation, on one or two threads",
     "The tests set and reload a handful of values on a working disk.",
     ["xo/system/settings.cpp", "xo/system/settings.h", "xo/container/prop_node.h", "xo/serialization/serialize.cpp"],
     [{"name": "try_set: type, allowed list and range", "where": "xo/system/settings.cpp"}, {"name": "load creates defaults only when there is no file", "where": "xo/system/settings.cpp"}],
     "Seeded search against a map from setting to value. A crash while saving may tear the file (the next open then reports it or yields allowed values); stat faults are not injected; float values have six digits; load overlays the values held." + N,
     ["values read through settings::get", "return values and exceptions", "bytes of the settings file after opening"]),
prop("C16", "Tables, storages and number files are read back as written",
     "When writing a table, storage or function file succeeds, the file holds every label and value; reading it gives the same labels in the same places and the same values in the same order, for any split of the transfers. A read that fails or is cut short by an error, a missing file and a table with missing, invalid or duplicate entries are reported and never returned as if complete; without faults and damage nothing fails.",
     ["inputs", "fault_sequences", "schedules"], "all tables, storages and lists of numbers, words, enumeration values and pairs written and read with open, read, write, close, disk-full and allocation faults, short transfers, cut and overwritten files, on one to three threads",
     "The tests print one storage and read none from a disk that fails.",
     ["xo/container/table.h", "xo/container/storage.h", "xo/container/storage_tools.h", "xo/serialization/container_io.h", "xo/system/debug_storage.h"],
     [{"name": "read_table reports incomplete rows", "where": "xo/container/table.h"}, {"name": "read_data distinguishes the end of the file from failures", "where": "xo/serialization/container_io.h"}],
     "Seeded search against an independent parser of the file. Values have at most six digits and labels no blanks; file_storage writes in its destructor and cannot report errors; a cut storage pads its last row with zeros and a list of pairs drops half a pair at the end, which the formats cannot tell apart." + N,
     ["labels and values returned", "stream states, error codes and exceptions", "bytes of written files"]),
prop("C17", "Timers show the time that passed while they were running",
     "A timer shows exactly the time that passed on the steady clock while it was running, for every sequence of pause, resume, restart, set and copy, and none while it was paused, however the system clock is changed. A stopwatch adds every interval between splits to exactly one split, its report gives these totals, and an interval checker fires exactly when its interval has passed; a scope timer logs one message with exactly the time between entering and leaving its scope, also when an exception leaves it; a failed allocation leaves them usable and loses no time.",
     ["histories", "schedules", "fault_sequences"], "all sequences of operations under any progress of the clocks, system clock jumps and allocation failures, on one to three threads",
     "The tests use the real clock and can only check rough values of short intervals.",
     ["xo/time/timer.cpp", "xo/time/timer.h", "xo/time/stopwatch.h", "xo/time/stopwatch.cpp", "xo/time/interval_checker.h", "xo/time/time.h", "xo/system/benchmark_tools.h"],
     [{"name": "epoch of a running, negative time of a paused timer", "where": "xo/time/timer.cpp"}, {"name": "split", "where": "xo/time/stopwatch.h"}],
     "Seeded search against an interval model of the simulated clock (exact when the clock only moves by plan). Paused timers are only set to times that are not negative; report values are compared within the digits they show." + N,
     ["times returned", "stopwatch reports"]),
prop("C18", "Running tests in parallel gives the result of running them one by one",
     "run_tests_async runs every registered test exactly once and to its end, returns the number of tests that failed, and reports every failed check, exception, test result and total exactly as run_tests does, for every interleaving and also when no threads can be created.",
     ["schedules", "fault_sequences", "inputs"], "all sets of up to nine tests that pass, fail, throw, log, lock and sleep, with thread creation failures and a concurrent logger",
     "The test program is the user of this code and runs tests one by one.",
     ["xo/system/test_case.cpp", "xo/system/test_case.h", "xo/system/log.cpp"],
     [{"name": "run_tests_async", "where": "xo/system/test_case.cpp"}],
     "Seeded search; two recorded findings (a test that throws something other than a std::exception, or an exception without a message) are replayed on every run. One test checks from one thread." + N,
     ["test functions run", "value returned", "log messages"]),
prop("C20", "The profiler accounts all time to the sections it was spent in",
     "For every nesting and repetition of sections, a report gives each section the time that passed between its entries and exits, its own share and average without nested sections, and how often it was entered, below the section it was entered from, longest first and complete down to the given percentage; system clock changes, several profilers on several threads and failed allocations do not change that.",
     ["histories", "schedules", "fault_sequences"], "all sequences of sessions and nested sections under any progress of the clocks, with system clock jumps and allocation failures, on one or two threads",
     "The tests cannot control the clock and do not check profiler reports.",
     ["xo/system/profiler.cpp", "xo/system/profiler.h", "xo/time/timer.cpp"],
     [{"name": "start_section and end_section", "where": "xo/system/profiler.cpp"}, {"name": "report_section", "where": "xo/system/profiler.cpp"}],
     "Seeded search against a tree of sections on the simulated clock; section names are literals and sections are left in the thread and session they were entered in." + N,
     ["reports"]),
prop("C19", "Containers keep exactly what was put in, also when memory runs out",
     "For every history of operations the containers (circular_deque, circular_buffer, dynarray, flat_map, flat_set, indexed_map, indexed_set, sorted_vector, handle_vector, collection, collection_ic, label_vector, table, storage, prop_node) and value holders (optional, result, error_message, flag_set, stack_string) behave like a simple model: contents, order, sizes, lookups, labels and handles agree, also for copies, moved-from objects and arguments taken from the container itself. An operation that is refused or runs out of memory says so, leaks nothing and leaves a valid container, with its old contents when it was adding, inserting or resizing. Containers used on different threads never affect each other.",
     ["histories", "fault_sequences", "schedules"], "all sequences of container operations on one to three threads, with any allocation failing",
     "The tests run short fixed sequences and never let an allocation fail.",
     ["xo/container/circular_deque.h", "xo/container/circular_buffer.h", "xo/container/dynarray.h", "xo/container/flat_map.h", "xo/container/flat_set.h", "xo/container/indexed_map.h", "xo/container/indexed_set.h", "xo/container/sorted_vector.h", "xo/container/handle_vector.h", "xo/container/collection.h", "xo/container/label_vector.h", "xo/container/table.h", "xo/container/storage.h", "xo/container/prop_node.h", "xo/container/prop_node.cpp", "xo/container/collection_ic.h", "xo/container/flag_set.h", "xo/utility/optional.h", "xo/utility/result.h", "xo/utility/index.h", "xo/string/stack_string.h"],
     [{"name": "containers with data and labels or sizes that must stay in step", "where": "xo/container"}],
     "Seeded search over histories with failing allocations; a model is compared after each operation and the simulated heap reports leaks, double frees and accesses out of bounds." + N,
     ["contents after each operation", "exceptions", "live blocks at the end"]),
prop("C21", "Independent objects used on different threads never affect each other",
     "A call on objects that no other thread is changing gives exactly what it gives alone, without data races, whatever other threads do with other objects, also when it is the first use of something: reading and writing documents and their includes, settings, tables and files, searches, conversions of text, numbers, dates and enumerations, random numbers, memoized functions, factories, stopwatches, profilers, shapes and errors. State kept for a thread, such as its search folder and number of digits, starts with its default, is not seen by other threads and is what it was after every call, also when the call fails or runs out of memory. Random number generators with the same seed give the same numbers, within the bounds asked for.",
     ["schedules", "fault_sequences"], "all interleavings of calls of two to four threads on their own objects and folders, or on shared objects that nobody changes, with short transfers and allocation failures",
     "The tests use one thread and cannot tell state of a thread from state of the process.",
     ["xo/serialization/serialize.cpp", "xo/serialization/prop_node_serializer_zml.cpp", "xo/serialization/prop_node_serializer_ini.cpp", "xo/serialization/prop_node_serializer_xml.cpp", "xo/filesystem/filesystem.cpp", "xo/filesystem/path.cpp", "xo/string/string_tools.cpp", "xo/string/string_cast.cpp", "xo/system/settings.cpp", "xo/system/system_tools.cpp", "xo/time/stopwatch.cpp", "xo/utility/factory.h", "xo/utility/memoize.h", "xo/utility/color.cpp", "xo/shape/shape.cpp", "xo/numerical/random.h"],
     [{"name": "thread_local number of digits", "where": "xo/string/string_tools.cpp"}, {"name": "thread_local search folder", "where": "xo/filesystem/filesystem.cpp"}, {"name": "serializer factory made at first use", "where": "xo/serialization/serialize.cpp"}],
     "Seeded search over schedules: the same calls are repeated alone afterwards and must give the same; race detector. A prop_node that several threads read is excluded (it records accesses)." + N,
     ["results of the calls", "to_str_precision", "current_find_file_path"]),
prop("C24", "Signals stepped through time follow from their samples",
     "For every sequence of samples and non-negative time steps, regular, irregular, measured by a timer or stalled: a delayer and a smooth delayer give the initial value until the delay has passed and then the signal as it was that long ago, up to the resolution of their buffer and of the steps (the smooth one averages over each part of its buffer), and recover from steps of any length; a first-order filter approaches its input at its rate whatever the steps are; a low-pass filter passes a constant unchanged and halves the power at its cutoff; recursive filters, averages and differences give what their samples define; a cached variable is computed exactly once for each new time, and keeps its value when computing it fails. Reading a value changes nothing, and copies are independent.",
     ["histories", "schedules", "fault_sequences"], "all sequences of samples and time steps (with stalls up to a thousand times the delay), one to three threads, failing computations and allocations",
     "The delay and filter tests are disabled or only write files for looking at; the cached variable is tested for three calls.",
     ["xo/numerical/delayer.h", "xo/numerical/filter.h", "xo/numerical/filter_1st_order.h", "xo/numerical/average.h", "xo/numerical/delta.h", "xo/utility/cached_var.h", "xo/time/timer.cpp"],
     [{"name": "time since the last stored sample, index in the buffer", "where": "xo/numerical/delayer.h"}, {"name": "value and the time it is for", "where": "xo/utility/cached_var.h"}],
     "Seeded search: time steps come from the simulated clock or the plan; outputs are compared with the recorded signal (bounds from its slope and the steps, exact for filters, means and cached values)." + N,
     ["values returned after each sample"]),
prop("C25", "Variables and references in a zml file mean what was defined before them",
     "For every zml file, and under read faults and failing allocations: a variable ($NAME) stands for the value and children of its most recent definition before that place, in the group or array of its use or one around it; a definition inside a group ends with that group, and definitions in an included file stay in that file. A use as a whole value takes value and children; ${NAME} inside a text takes the value and is not expanded again; a reference (@path, by label or #number) takes a copy of the item read earlier at that path. Definitions do not show up among the items, and comments change nothing. A variable that is not defined, a path that does not exist or a ${ without } is an error, which names the line where it is, whether errors are thrown or stored; nothing is filled in silently.",
     ["histories", "fault_sequences", "schedules"], "all sequences of items, groups, arrays, variables, references, comments and includes in up to four files, read by one or two threads, with short and failing reads and failing allocations",
     "The tests read one file with a few variables; scopes, redefinition, nesting and every error are open.",
     ["xo/serialization/prop_node_serializer_zml.cpp", "xo/serialization/char_stream.cpp", "xo/serialization/char_stream.h", "xo/container/prop_node.cpp"],
     [{"name": "list of variables of a file, shortened at the end of each group", "where": "xo/serialization/prop_node_serializer_zml.cpp"}, {"name": "line number of the stream", "where": "xo/serialization/char_stream.cpp"}],
     "Seeded search: the harness writes random programs of items, definitions and uses as zml text, together with the tree or the first error (with its line) that they mean; the file is read by the real code under read faults and once without." + N,
     ["tree or error of every load"]),
prop("C26", "Values of a document that nobody read are reported: all of them and only those",
     "For every document (parsed, loaded with variables, references and includes, built or copied) and every history of reading and changing it, also when memory runs out: a value counts as unread until it is read through the node (get, try_get, get_any, get_all, get_str, iterating over its node), and only then as read. Just after loading or parsing nothing counts as read; a value that is set or assigned is unread again; copies carry the marks over and have their own from then on; looking for keys, sizes, parents or copies, comparing, logging a document or asking what was not read marks nothing. count_unaccessed, to_str_unaccessed and log_unaccessed give exactly the unread values, in order, under the labels they are in, as often as they are asked. Logging a document logs one complete line for each of its items, in order.",
     ["histories", "fault_sequences", "schedules"], "all documents and all sequences of reading, looking, changing, copying and reporting, by one or two threads with their own documents, with read faults while loading and failing allocations",
     "No test covers the marks.",
     ["xo/container/prop_node.h", "xo/container/prop_node.cpp", "xo/container/prop_node_tools.cpp", "xo/serialization/prop_node_serializer_zml.cpp", "xo/serialization/serialize.cpp", "xo/system/log.cpp"],
     [{"name": "accessed_flag of each node", "where": "xo/container/prop_node.h"}],
     "Seeded search: the harness keeps a tree with a mark for every value next to the real document and compares all marks after each operation; logged reports are collected by a sink of the thread." + N,
     ["mark of every value after each operation", "reports"]),
prop("C27", "Facts about the process and its places are right or reported, whatever the system calls do",
     "The program's folder, the computer name, the current folder, the configuration, documents and temporary folders and the date are exactly what the system says, for names of any length that the system allows, and never a cut, stale or garbage text: when a system call or an allocation fails, the result is empty, false or an exception. Changing the current folder takes effect exactly if it says so, and relative names mean files in it from then on. sleep lasts at least the time asked for, also when signals interrupt it or the system clock jumps, and not longer than that plus the clock's resolution when nothing else runs; a time before now or zero does not wait; the current time follows the system clock, and a date string is its local time in the given format.",
     ["inputs", "fault_sequences", "schedules"], "all program paths up to 4000 characters, computer names up to 64, environments with or without the variables, sequences of calls with failing readlink, gethostname, getcwd and chdir, interrupted sleeps, jumping clocks and failing allocations, on one to three threads",
     "No test calls these functions, and their results differ from machine to machine.",
     ["xo/filesystem/filesystem.cpp", "xo/filesystem/filesystem.h", "xo/system/system_tools.cpp", "xo/system/system_tools.h"],
     [{"name": "buffers for names given by the system", "where": "xo/filesystem/filesystem.cpp, xo/system/system_tools.cpp"}],
     "Seeded search against the simulated system's own data. HOME not set is reported by an exception of the standard library. Linux branches only." + N,
     ["values returned", "exceptions", "simulated time that passed"]),
]

NOT_APPLICABLE = [
{**prop("C22", "Geometry, numerical, colour and string functions compute what they define",
     "Vectors, quaternions, angles, transformations, shapes, interpolation, piecewise functions, regression, colours, string and path tools and conversions return the mathematically or textually defined result for every argument.",
     ["inputs"], "all arguments of the functions in xo/geometry, xo/shape, xo/numerical, xo/string, xo/filesystem/path.h and xo/utility/color.h",
     "The tests sample a few arguments.",
     ["xo/geometry", "xo/shape", "xo/numerical", "xo/string", "xo/filesystem/path.cpp", "xo/utility/color.cpp"],
     [{"name": "pure functions", "where": "xo/geometry, xo/numerical, xo/string"}], ""),
 "reason": "Pure functions of their input: no schedule, clock, fault or history can change the result, so there is nothing to simulate; generated inputs alone would be property-based testing. That their results do not depend on other threads is part of C21."},
{**prop("C23", "Thread priorities are applied to the calling thread and restored",
     "set_thread_priority sets the operating system's priority of the calling thread, and a scoped priority restores the one from before.",
     ["configurations"], "all priorities and platforms",
     "Tests cannot observe what the operating system does with a priority.",
     ["xo/thread/thread_priority.cpp", "xo/thread/thread_priority.h"],
     [{"name": "set_thread_priority", "where": "xo/thread/thread_priority.cpp"}], ""),
 "reason": "A priority only has an effect through the scheduler of the operating system, which is exactly what the simulator replaces; on this platform the functions are empty."},
]
