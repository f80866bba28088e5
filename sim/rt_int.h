// xosim runtime internals shared between rt.cpp, vfs.cpp, shim.c and main.cpp
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <sys/types.h>
#include <time.h>

#ifdef __cplusplus
extern "C" {
#endif
	extern int rt_active;			// a simulated run is in progress in this process
	int rt_on( void );				// active and not inside the runtime itself
	int rt_tid( void );
	void rt_enter( void );
	void rt_leave( void );
	void* rt_real( const char* name );
	void rt_forget( const void* p, size_t n );
	void rt_range( const void* p, size_t n, int is_write, void* pc );
	void rt_io_point( const char* why );

	// threads and synchronisation
	int rt_thread_create( unsigned long* out, void* ( *fn )( void* ), void* arg );
	int rt_thread_join( unsigned long th, void** ret );
	int rt_thread_detach( unsigned long th );
	unsigned long rt_thread_self( void );
	int rt_mutex_lock( void* m, int recursive, int try_only, int64_t deadline );
	int rt_mutex_unlock( void* m );
	int rt_rw_lock( void* m, int write, int try_only, int64_t deadline );
	int rt_rw_unlock( void* m );
	int rt_cond_wait( void* c, void* m, int64_t deadline );
	void rt_cond_wake( void* c, int all );
	int rt_once( void* flag, void ( *fn )( void ) );
	long rt_futex( void* addr, int op, int val, const struct timespec* ts, unsigned bitset, int is_realtime );
	void rt_yield( void );
	void rt_sleep( int64_t ns );
	int rt_guard_acquire( void* g );
	void rt_guard_release( void* g, int ok );
	int64_t rt_clock_read( int realtime );
	int64_t rt_deadline( int realtime, const struct timespec* abs );	// absolute -> mono deadline

	// vfs
	int rt_vfs_fd( int fd );	// is this one of ours?
	int v_open( int dirfd, const char* path, int flags, int mode );
	int v_close( int fd );
	long v_read( int fd, void* buf, size_t n, int64_t off );
	long v_write( int fd, const void* buf, size_t n, int64_t off );
	int64_t v_lseek( int fd, int64_t off, int whence );
	struct stat;
	int v_fstat( int fd, struct stat* st );
	int v_stat( int dirfd, const char* path, struct stat* st, int nofollow );
	int v_mkdir( int dirfd, const char* path, int mode );
	int v_unlink( int dirfd, const char* path, int kind );	// 0 file, 1 dir, 2 either
	int v_rename( int d1, const char* a, int d2, const char* b, int noreplace );
	int v_link( const char* a, const char* b );
	int v_symlink( const char* target, const char* path );
	long v_readlink( int dirfd, const char* path, char* buf, size_t n );
	int v_access( int dirfd, const char* path, int mode );
	int v_chmod( int dirfd, const char* path, int mode );
	int v_fchmod( int fd, int mode );
	int v_truncate( const char* path, int64_t len );
	int v_ftruncate( int fd, int64_t len );
	int v_utimens( int dirfd, const char* path, const struct timespec* ts );
	int v_chdir( const char* path );
	char* v_getcwd( char* buf, size_t n );
	int v_gethostname( char* buf, size_t n );
	char* v_getenv( const char* name, int* known );
	int v_sleep_interrupted( void );
	char* v_realpath( const char* path, char* out );
	void* v_opendir( int dirfd, const char* path );
	void* v_fdopendir( int fd );
	void* v_readdir( void* d );
	int v_closedir( void* d );
	int v_is_dir( void* d );
	int v_dirfd( void* d );
	void v_rewinddir( void* d );
	long v_sendfile( int out, int in, int64_t* off, size_t n );
	long v_copy_range( int in, int64_t* io, int out, int64_t* oo, size_t n );
	int v_dup( int fd );
	void* v_fopen( const char* path, const char* mode );
	void* v_fdopen( int fd, const char* mode );
	int v_fileno( void* f );	// -1 if not ours
	void v_forget( void* f );
#ifdef __cplusplus
}

#include <string>
#include <vector>
namespace sim {
	struct Choice { uint16_t tag; uint16_t val; uint32_t occ; };
	struct Counter { char name[40]; long n; };
	constexpr int MAXCH = 200000, MAXTAG = 256, MAXCNT = 160;
	struct Shared {
		int status;			// 0 running 1 ok 2 violation 3 simulated crash, restart wanted
		int nontrivial;
		char cls[96];
		char detail[4096];
		uint64_t hash, schedhash, steps, switches, points, ioops;
		int64_t simtime;	// nanoseconds of simulated monotonic time that passed
		int64_t mono, real;	// carried over restarts
		int phase;
		int maxthreads;
		uint32_t nchoices, choices_dropped;
		int ntags; char tags[MAXTAG][24];
		int nfaults; Counter faults[MAXCNT];
		int nprobes; Counter probes[MAXCNT];
		size_t peak_bytes;
		Choice choices[MAXCH];
		size_t notes_len; char notes[1 << 18];
		size_t vfs_len; char vfs[8 << 20];
		size_t trace_len; char trace[8 << 20];
	};
	extern Shared* SH;
	struct RunCfg {
		uint64_t seed; bool replay; bool verbose; int phase;
		const std::vector<std::vector<std::pair<uint32_t, uint16_t>>>* rep;	// by tag index into rep_tags
		const std::vector<std::string>* rep_tags;
	};
	constexpr size_t STACK_SZ = 8 << 20;
	void* rt_stack( int id );
	void rt_begin( const RunCfg& rc );
	void rt_finish();
	void vfs_reset();
	void vfs_serialize( std::string& out );
	void vfs_restore( const char* p, size_t n );
	void hash_bytes( const void* p, size_t n );
	void hash_u64( uint64_t v );
	void trace( const char* fmt, ... ) __attribute__( ( format( printf, 1, 2 ) ) );
	void count_fault( const char* kind );
	bool faults_enabled();
	struct Enter { Enter() { rt_enter(); } ~Enter() { rt_leave(); } };
}
#endif
