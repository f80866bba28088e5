// xosim: deterministic simulation runtime -- public interface for scenarios and driver.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>

namespace sim
{
	// ---- pseudo random numbers (splitmix64/xoshiro-like, self-contained) ----
	struct Rng {
		uint64_t s[2];
		explicit Rng( uint64_t seed = 1 ) { s[0] = mix( seed ); s[1] = mix( seed ^ 0x9e3779b97f4a7c15ull ); if ( !s[0] && !s[1] ) s[1] = 1; }
		static uint64_t mix( uint64_t z ) { z += 0x9e3779b97f4a7c15ull; z = ( z ^ ( z >> 30 ) ) * 0xbf58476d1ce4e5b9ull; z = ( z ^ ( z >> 27 ) ) * 0x94d049bb133111ebull; return z ^ ( z >> 31 ); }
		uint64_t next() { uint64_t a = s[0], b = s[1]; s[0] = b; a ^= a << 23; s[1] = a ^ b ^ ( a >> 18 ) ^ ( b >> 5 ); return s[1] + b; }
		uint64_t below( uint64_t n ) { return n ? next() % n : 0; }
		long range( long lo, long hi ) { return lo + (long)below( (uint64_t)( hi - lo + 1 ) ); }
		double unit() { return ( next() >> 11 ) * ( 1.0 / 9007199254740992.0 ); }
		bool chance( double p ) { return unit() < p; }
		template<class T> T pick( std::initializer_list<T> l ) { return *( l.begin() + below( l.size() ) ); }
	};

	// ---- plan: everything a run does that is not a scheduling/fault choice ----
	struct Op { int t = 0; std::string k; long a = 0, b = 0, c = 0; std::string s; };
	struct Plan {
		std::map<std::string, long> cfg;
		std::vector<Op> ops;
		long get( const char* k, long def = 0 ) const { auto it = cfg.find( k ); return it == cfg.end() ? def : it->second; }
		void add( int t, const char* k, long a = 0, long b = 0, long c = 0, const std::string& s = {} ) { Op o; o.t = t; o.k = k; o.a = a; o.b = b; o.c = c; o.s = s; ops.push_back( o ); }
	};

	struct Scenario {
		const char* name;
		void ( *gen )( Rng&, Plan& );
		void ( *run )( const Plan&, int phase );
		int weight;	// relative share of the runs
	};
	void add_scenario( const Scenario& s );
	const std::vector<Scenario>& scenarios();
	struct Register { Register( const char* n, void ( *g )( Rng&, Plan& ), void ( *r )( const Plan&, int ), int w = 1 ) { add_scenario( { n, g, r, w } ); } };

	// ---- verdicts ----
	[[noreturn]] void fail( const char* cls, const char* fmt, ... ) __attribute__( ( format( printf, 2, 3 ) ) );
#define SIM_CHECK( cond_, cls_, ... ) do { if ( !( cond_ ) ) ::sim::fail( cls_, __VA_ARGS__ ); } while ( 0 )

	// ---- run control ----
	// harness code that must not be scheduled at / monitored runs inside a Quiet scope
	struct Quiet { Quiet(); ~Quiet(); Quiet( const Quiet& ) = delete; };
	void point( const char* why = "user" );		// explicit schedule point
	void yield_other();							// let others run
	int tid();									// simulated thread number (0 = main)
	uint64_t seq();								// global event sequence number, increments on every call
	void log( const char* fmt, ... ) __attribute__( ( format( printf, 1, 2 ) ) );	// goes into the run hash (and trace when verbose)
	void probe( const char* name, long n = 1 );	// "this rare condition was reached"
	unsigned choose( const char* tag, unsigned n, double p_nonzero );	// 0 is the benign choice
	unsigned choose_uniform( const char* tag, unsigned n );
	bool fault( const char* kind, double p );	// counted fault decision
	void set_stat( const char* name, long v );
	void nontrivial();							// mark this run as non-trivial whatever happened
	int threads_alive();
	int this_thread_count();
	bool replaying();

	// heap
	bool is_freed( const void* p );
	size_t live_bytes();
	size_t live_blocks();
	size_t total_allocs();
	struct AllocFaults { AllocFaults( double p ); ~AllocFaults(); };	// this thread's allocations may fail inside this scope
	void alloc_fail_nth( long n );		// the n-th allocation (1-based) of this thread from now on fails; 0 disables
	bool alloc_fault_fired();			// and resets
	void set_mem_cap( size_t bytes );
	void set_step_cap( uint64_t steps );
	void expect_thread_limit( int n );	// pthread_create fails with EAGAIN beyond n live threads (-1: never)

	void set_thread_fail( double p );	// each pthread_create fails with EAGAIN with this probability
	void set_race_detection( bool on );

	// clock
	int64_t mono_ns();
	int64_t real_ns();
	void advance( int64_t ns );			// both clocks move forward
	void jump_realtime( int64_t ns );	// wall clock step (may be negative)
	void set_clock_tick( int64_t ns );	// how far each clock reading moves time

	// crash & restart
	struct CrashArmed { CrashArmed( double p ); ~CrashArmed(); };	// process may die at any file operation inside this scope
	void note( const std::string& s );					// durable harness note, survives a simulated crash
	std::vector<std::string> notes();
	bool crashed_before();

	// virtual file system
	struct FaultCfg {
		double open_err = 0, read_err = 0, write_err = 0, read_short = 0, write_short = 0, eintr = 0, close_err = 0, mkdir_err = 0, stat_err = 0,
			readdir_shuffle = 0, dtype_unknown = 0, readdir_err = 0, rename_err = 0, opendir_err = 0, chmod_err = 0, readlink_err = 0, host_err = 0, cwd_err = 0, sleep_intr = 0;
		long disk_cap = -1;				// bytes the disk holds; -1 unlimited
		std::string only;				// only paths that contain this text
	};
	void set_faults( const FaultCfg& f );
	void faults_on( bool on );
	// what the process is told about its place: program file, computer name, environment (null: not set)
	void set_program( const std::string& p ); void set_computer( const std::string& n ); void set_env( const std::string& name, const char* value );
	struct FaultsOff { FaultsOff(); ~FaultsOff(); bool was; };
	bool vfs_exists( const std::string& p );
	bool vfs_is_dir( const std::string& p );
	bool vfs_get( const std::string& p, std::string& out );
	std::string vfs_read( const std::string& p );
	void vfs_put( const std::string& p, const std::string& data );	// creates parents, sets mtime=now
	void vfs_mkdir( const std::string& p );
	void vfs_special( const std::string& p, unsigned mode );		// e.g. S_IFSOCK|0600
	void vfs_symlink( const std::string& target, const std::string& p );
	void vfs_remove( const std::string& p );
	void vfs_set_mtime( const std::string& p, int64_t sec );
	int64_t vfs_mtime( const std::string& p );
	std::vector<std::string> vfs_list( const std::string& dir );		// recursive, full paths
	size_t vfs_used();
	long vfs_reads( const std::string& p );		// how many times the file was opened for reading
	int open_fds();
	long vfs_ops();
	long fault_count( const char* kind );
	long faults_fired();						// total number of injected faults so far
	std::string escape( const std::string& s );
}
