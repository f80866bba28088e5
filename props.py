"""what each property's check builds, how long it explores, and what is real or stubbed in it"""
SCHED = "thread scheduling (one thread at a time, switches decided by the seed at every synchronisation operation, atomic access and instrumented memory access)"
CLOCK = "system, steady and high-resolution clocks, sleeps"
DISK = "files and directories (in-memory disk with injected errors, short transfers, full disk)"
HEAP = "heap (real allocator semantics in an arena with red zones and quarantine)"
A = ["sequentially consistent memory: weak-memory effects are only seen as data races reported by the vector-clock detector",
     "the compiler instruments every shared access of the library and of header code compiled into the scenario",
     "seeded sampling, not enumeration: quiet means no violation on the seeds that ran"]

def P(scn, real, stub, **kw):
    d = {"scn": scn if isinstance(scn, list) else [scn], "real": real, "stub": stub, "assume": A + kw.pop("assume", [])}
    d.update(kw)
    return d

PROPS = {
    "C01": P("scn_log", ["xo/system/log.*", "xo/system/log_sink.*"], [SCHED, HEAP, "recording sink derived from xo::log::sink"], quick=80000),
    "C02": P("scn_log", ["xo/system/log.*", "stream_sink, console_sink, file_sink", "xo/system/system_tools (time prefix)", "libstdc++ streams"], [SCHED, CLOCK, DISK, "slow in-memory stream buffer as output device"], quick=60000),
    "C03": P("scn_log", ["xo/system/log.*", "stream_sink, console_sink, file_sink"], [SCHED, CLOCK, DISK, HEAP, "slow in-memory stream buffer as output device"],
             assume=["sinks derived by users are only destroyed when no other thread logs (their base class registers before they are complete)"], quick=60000),
    "C04": P("scn_log", ["xo/system/log.*", "file_sink", "xo/filesystem create_directories", "libstdc++ fstreams"], [SCHED, CLOCK, DISK, "process crash (restart with only the simulated disk)"], quick=50000),
    "C05": P("scn_thread", ["xo/utility/file_resource_cache.h", "xo/filesystem (last_write_time, file_exists, load_string)", "std::shared_mutex users"], [SCHED, CLOCK, DISK, "resource type and its loader"], quick=80000),
    "C06": P("scn_thread", ["xo/utility/file_resource_cache.h", "xo/filesystem (last_write_time, file_exists, load_string)"], [SCHED, CLOCK, DISK, HEAP, "resource type and its loader"], quick=60000),
    "C07": P("scn_thread", ["xo/utility/memoize.h (memoize_thread_safe)"], [SCHED, HEAP, "memoized function"], quick=60000),
    "C08": P("scn_thread", ["xo/thread/stop_token.h", "xo/thread/interruptible.*"], [SCHED], quick=80000),
    "C09": P("scn_fs", ["xo/filesystem/filesystem.* (create_directories, create_unique_directory, find_unique_directory)", "xo/filesystem/path.*"], [SCHED, DISK], quick=50000),
    "C10": P("scn_fs", ["xo/filesystem/filesystem.* (load_string, save_string, append_string, copy_file, remove)", "libstdc++ fstreams and std::filesystem"], [SCHED, DISK], quick=36000),
    "C11": P("scn_fs", ["xo/filesystem/filesystem.* (find_files, find_file, try_find_file, exists, file_exists, directory_exists)", "xo/filesystem/path.*", "xo/string/pattern_matcher.h", "std::filesystem::directory_iterator"], [SCHED, DISK], quick=60000),
    "C12": P("scn_serial", ["xo/serialization (load_file, save_file, load_zml, save_zml, parse_zml, zml/ini/xml serializers, char_stream)", "xo/container/prop_node.*", "contrib/rapidxml"], [SCHED, DISK, HEAP, "process crash (restart with only the simulated disk)"], quick=14000),
    "C13": P("scn_serial", ["xo/serialization (all readers, container_io)", "xo/filesystem load_string", "xo/system/error_code.*", "contrib/rapidxml"], [SCHED, DISK, HEAP], quick=45000),
    "C14": P("scn_serial", ["xo/serialization (zml includes, load_file_with_include)", "xo/filesystem/path.*"], [SCHED, DISK, HEAP], quick=24000),
    "C15": P("scn_settings", ["xo/system/settings.*", "xo/serialization (load_file, save_file, zml)", "xo/container/prop_node.*", "xo/filesystem create_directories"], [SCHED, DISK, HEAP, "process crash (restart with only the simulated disk)"], quick=50000),
    "C16": P("scn_data", ["xo/container/table.h, storage.h, storage_tools.h", "xo/serialization/container_io.h", "xo/system/debug_storage.h write_function", "libstdc++ fstreams"], [SCHED, DISK, HEAP], quick=22000),
    "C17": P("scn_time", ["xo/time/timer.*, stopwatch.*, interval_checker.h", "xo/string/string_cast.cpp (to_str of time)", "xo/container/prop_node.*"], [SCHED, CLOCK, HEAP], quick=100000),
    "C18": P("scn_test", ["xo/system/test_case.*", "xo/system/log.*", "std::async"], [SCHED, CLOCK, "tests that are run", "recording sink derived from xo::log::sink"], quick=50000),
    "C19": P("scn_cont", ["xo/container/*", "xo/utility (handle.h, optional.h, result.h, index.h)", "xo/string/stack_string.h"], [SCHED, HEAP], quick=120000),
    "C20": P("scn_time", ["xo/system/profiler.*", "xo/time/timer.*", "xo/container/prop_node.*"], [SCHED, CLOCK, HEAP], quick=11000, thorough=200000),
    "C24": P("scn_signal", ["xo/numerical (delayer.h, filter.h, filter_1st_order.h, average.h, delta.h)", "xo/utility/cached_var.h", "xo/time/timer.*"], [SCHED, CLOCK, HEAP], quick=40000),
    "C25": P("scn_serial", ["xo/serialization (zml reader, includes, char_stream)", "xo/container/prop_node.* (queries)", "xo/filesystem load_string"], [SCHED, DISK, HEAP], quick=40000),
    "C26": P("scn_serial", ["xo/container/prop_node.*, prop_node_tools.*", "xo/serialization (zml reader and writer, includes)", "xo/system/log.*, log_sink.*"], [SCHED, DISK, HEAP, "recording sink derived from xo::log::sink"], quick=60000),
    "C27": P("scn_place", ["xo/filesystem/filesystem.*", "xo/filesystem/path.*", "xo/system/system_tools.*"], [SCHED, CLOCK, DISK, HEAP, "readlink of the program file, gethostname, getcwd, chdir, getenv, nanosleep"], quick=60000),
    "C21": P("scn_multi", ["xo/serialization/*", "xo/container/*", "xo/filesystem/*", "xo/string/*", "xo/system/settings.*, profiler.*, system_tools.*", "xo/time/*", "xo/utility/*", "xo/shape/*", "xo/numerical/*"], [SCHED, CLOCK, DISK, HEAP], quick=9000),
}
