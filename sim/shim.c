// xosim: libc interposers. Built with -fexceptions; not instrumented. Everything forwards to the runtime while a
// simulated run is active and to the real libc otherwise.
#define _GNU_SOURCE
#include "rt_int.h"
#include <stdarg.h>
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <fcntl.h>
#include <dirent.h>
#include <unistd.h>
#include <pthread.h>
#include <sched.h>
#include <poll.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/time.h>
#include <sys/sendfile.h>
#include <sys/statvfs.h>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <linux/futex.h>

#define REAL( name_, ... ) ( { static __typeof__( name_ )* fn_; if ( !fn_ ) fn_ = (__typeof__( name_ )*)rt_real( #name_ ); fn_( __VA_ARGS__ ); } )

// ---------------- memory
// what libraries get from malloc is not simulated, but it may have belonged to another thread before
extern void* __libc_malloc( size_t ); extern void* __libc_calloc( size_t, size_t ); extern void* __libc_realloc( void*, size_t );
void* malloc( size_t n ) { void* p = __libc_malloc( n ); if ( rt_active && p ) rt_forget( p, n ); return p; }
void* calloc( size_t n, size_t m ) { void* p = __libc_calloc( n, m ); if ( rt_active && p ) rt_forget( p, n * m ); return p; }
void* realloc( void* q, size_t n ) { void* p = __libc_realloc( q, n ); if ( rt_active && p && p != q ) rt_forget( p, n ); return p; }
void* memcpy( void* restrict d, const void* restrict s, size_t n )
{
	void* r = d;
	if ( rt_active && n ) { void* pc = __builtin_return_address( 0 ); rt_range( s, n, 0, pc ); rt_range( d, n, 1, pc ); }
	__asm__ volatile( "rep movsb" : "+D"( d ), "+S"( s ), "+c"( n ) : : "memory" );
	return r;
}
void* memmove( void* d, const void* s, size_t n )
{
	void* r = d;
	if ( rt_active && n ) { void* pc = __builtin_return_address( 0 ); rt_range( s, n, 0, pc ); rt_range( d, n, 1, pc ); }
	if ( d < s || (char*)d >= (char*)s + n ) __asm__ volatile( "rep movsb" : "+D"( d ), "+S"( s ), "+c"( n ) : : "memory" );
	else { char* dd = (char*)d + n - 1; const char* ss = (const char*)s + n - 1; __asm__ volatile( "std\n\trep movsb\n\tcld" : "+D"( dd ), "+S"( ss ), "+c"( n ) : : "memory" ); }
	return r;
}
void* memset( void* d, int c, size_t n )
{
	void* r = d;
	if ( rt_active && n ) rt_range( d, n, 1, __builtin_return_address( 0 ) );
	__asm__ volatile( "rep stosb" : "+D"( d ), "+c"( n ) : "a"( c ) : "memory" );
	return r;
}

// ---------------- threads
int pthread_create( pthread_t* t, const pthread_attr_t* a, void* ( *fn )( void* ), void* arg ) { if ( !rt_on() ) return REAL( pthread_create, t, a, fn, arg ); return rt_thread_create( t, fn, arg ); }
int pthread_join( pthread_t t, void** r ) { if ( !rt_on() ) return REAL( pthread_join, t, r ); return rt_thread_join( t, r ); }
int pthread_detach( pthread_t t ) { if ( !rt_active ) return REAL( pthread_detach, t ); return rt_thread_detach( t ); }
pthread_t pthread_self( void ) { if ( !rt_active ) return REAL( pthread_self ); return rt_thread_self(); }
int pthread_setname_np( pthread_t t, const char* n ) { if ( !rt_active ) return REAL( pthread_setname_np, t, n ); return 0; }
int pthread_setschedparam( pthread_t t, int p, const struct sched_param* s ) { if ( !rt_active ) return REAL( pthread_setschedparam, t, p, s ); return 0; }
int pthread_getschedparam( pthread_t t, int* p, struct sched_param* s ) { if ( !rt_active ) return REAL( pthread_getschedparam, t, p, s ); *p = 0; s->sched_priority = 0; return 0; }
static int rec( pthread_mutex_t* m ) { return ( m->__data.__kind & 3 ) == PTHREAD_MUTEX_RECURSIVE_NP; }
int pthread_mutex_init( pthread_mutex_t* m, const pthread_mutexattr_t* a ) { return REAL( pthread_mutex_init, m, a ); }
int pthread_mutex_destroy( pthread_mutex_t* m ) { (void)m; return 0; }
int pthread_mutex_lock( pthread_mutex_t* m ) { if ( !rt_on() ) return 0; return rt_mutex_lock( m, rec( m ), 0, -1 ); }
int pthread_mutex_trylock( pthread_mutex_t* m ) { if ( !rt_on() ) return 0; return rt_mutex_lock( m, rec( m ), 1, -1 ); }
int pthread_mutex_timedlock( pthread_mutex_t* m, const struct timespec* ts ) { if ( !rt_on() ) return 0; return rt_mutex_lock( m, rec( m ), 0, rt_deadline( 1, ts ) ); }
int pthread_mutex_clocklock( pthread_mutex_t* m, clockid_t c, const struct timespec* ts ) { if ( !rt_on() ) return 0; return rt_mutex_lock( m, rec( m ), 0, rt_deadline( c == CLOCK_REALTIME, ts ) ); }
int pthread_mutex_unlock( pthread_mutex_t* m ) { if ( !rt_on() ) return 0; return rt_mutex_unlock( m ); }
int pthread_rwlock_init( pthread_rwlock_t* m, const pthread_rwlockattr_t* a ) { return REAL( pthread_rwlock_init, m, a ); }
int pthread_rwlock_destroy( pthread_rwlock_t* m ) { (void)m; return 0; }
int pthread_rwlock_rdlock( pthread_rwlock_t* m ) { if ( !rt_on() ) return 0; return rt_rw_lock( m, 0, 0, -1 ); }
int pthread_rwlock_wrlock( pthread_rwlock_t* m ) { if ( !rt_on() ) return 0; return rt_rw_lock( m, 1, 0, -1 ); }
int pthread_rwlock_tryrdlock( pthread_rwlock_t* m ) { if ( !rt_on() ) return 0; return rt_rw_lock( m, 0, 1, -1 ); }
int pthread_rwlock_trywrlock( pthread_rwlock_t* m ) { if ( !rt_on() ) return 0; return rt_rw_lock( m, 1, 1, -1 ); }
int pthread_rwlock_timedrdlock( pthread_rwlock_t* m, const struct timespec* ts ) { if ( !rt_on() ) return 0; return rt_rw_lock( m, 0, 0, rt_deadline( 1, ts ) ); }
int pthread_rwlock_timedwrlock( pthread_rwlock_t* m, const struct timespec* ts ) { if ( !rt_on() ) return 0; return rt_rw_lock( m, 1, 0, rt_deadline( 1, ts ) ); }
int pthread_rwlock_clockrdlock( pthread_rwlock_t* m, clockid_t c, const struct timespec* ts ) { if ( !rt_on() ) return 0; return rt_rw_lock( m, 0, 0, rt_deadline( c == CLOCK_REALTIME, ts ) ); }
int pthread_rwlock_clockwrlock( pthread_rwlock_t* m, clockid_t c, const struct timespec* ts ) { if ( !rt_on() ) return 0; return rt_rw_lock( m, 1, 0, rt_deadline( c == CLOCK_REALTIME, ts ) ); }
int pthread_rwlock_unlock( pthread_rwlock_t* m ) { if ( !rt_on() ) return 0; return rt_rw_unlock( m ); }
int pthread_cond_init( pthread_cond_t* c, const pthread_condattr_t* a ) { (void)a; memset( c, 0, sizeof *c ); return 0; }
int pthread_cond_destroy( pthread_cond_t* c ) { (void)c; return 0; }
int pthread_cond_wait( pthread_cond_t* c, pthread_mutex_t* m ) { if ( !rt_on() ) return 0; return rt_cond_wait( c, m, -1 ); }
int pthread_cond_timedwait( pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts ) { if ( !rt_on() ) return 0; return rt_cond_wait( c, m, rt_deadline( 1, ts ) ); }
int pthread_cond_clockwait( pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts ) { if ( !rt_on() ) return 0; return rt_cond_wait( c, m, rt_deadline( k == CLOCK_REALTIME, ts ) ); }
int pthread_cond_signal( pthread_cond_t* c ) { if ( rt_on() ) rt_cond_wake( c, 0 ); return 0; }
int pthread_cond_broadcast( pthread_cond_t* c ) { if ( rt_on() ) rt_cond_wake( c, 1 ); return 0; }
int pthread_once( pthread_once_t* o, void ( *fn )( void ) ) { if ( !rt_on() ) { if ( *o == 0 ) { fn(); *o = 2; } return 0; } return rt_once( o, fn ); }
int sched_yield( void ) { if ( !rt_on() ) return REAL( sched_yield ); rt_yield(); return 0; }
int get_nprocs( void ) { return 4; }

int __cxa_guard_acquire( long* g ) { if ( !rt_on() ) { return *(char*)g ? 0 : 1; } return rt_guard_acquire( g ); }
void __cxa_guard_release( long* g ) { if ( !rt_on() ) { *(char*)g = 1; return; } rt_guard_release( g, 1 ); }
void __cxa_guard_abort( long* g ) { if ( rt_on() ) rt_guard_release( g, 0 ); }

long syscall( long n, ... )
{
	va_list va; va_start( va, n ); long a[6]; for ( int i = 0; i < 6; ++i ) a[i] = va_arg( va, long ); va_end( va );
	if ( n == SYS_futex && rt_on() ) return rt_futex( (void*)a[0], (int)a[1], (int)a[2], (const struct timespec*)a[3], (unsigned)a[5], ( a[1] & FUTEX_CLOCK_REALTIME ) != 0 );
	static long ( *fn_ )( long, ... ); if ( !fn_ ) fn_ = (long ( * )( long, ... ))rt_real( "syscall" );
	return fn_( n, a[0], a[1], a[2], a[3], a[4], a[5] );
}

// ---------------- time
static void tsof( int64_t ns, struct timespec* ts ) { ts->tv_sec = ns / 1000000000; ts->tv_nsec = ns % 1000000000; if ( ts->tv_nsec < 0 ) { ts->tv_nsec += 1000000000; ts->tv_sec--; } }
int clock_gettime( clockid_t c, struct timespec* ts ) { if ( !rt_on() ) return REAL( clock_gettime, c, ts ); tsof( rt_clock_read( c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ), ts ); return 0; }
time_t time( time_t* t ) { time_t v; if ( !rt_on() ) { struct timespec ts; REAL( clock_gettime, CLOCK_REALTIME, &ts ); v = ts.tv_sec; } else { int64_t ns = rt_clock_read( 1 ); struct timespec ts; tsof( ns, &ts ); v = ts.tv_sec; } if ( t ) *t = v; return v; }
int gettimeofday( struct timeval* restrict tv, void* restrict z ) { (void)z; struct timespec ts; clock_gettime( CLOCK_REALTIME, &ts ); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
int timespec_get( struct timespec* ts, int base ) { clock_gettime( CLOCK_REALTIME, ts ); return base; }
clock_t clock( void ) { if ( !rt_on() ) return REAL( clock ); return rt_clock_read( 0 ) / 1000; }
int nanosleep( const struct timespec* r, struct timespec* rem )
{
	if ( !rt_on() ) return REAL( nanosleep, r, rem );
	int64_t ns = r->tv_sec * 1000000000ll + r->tv_nsec;
	if ( ns > 1 && v_sleep_interrupted() ) { rt_sleep( ns / 3 ); if ( rem ) tsof( ns - ns / 3, rem ); errno = EINTR; return -1; }
	rt_sleep( ns ); return 0;
}
int clock_nanosleep( clockid_t c, int fl, const struct timespec* r, struct timespec* rem )
{
	if ( !rt_on() ) return REAL( clock_nanosleep, c, fl, r, rem );
	int64_t v = r->tv_sec * 1000000000ll + r->tv_nsec;
	if ( fl & TIMER_ABSTIME ) v -= rt_clock_read( c == CLOCK_REALTIME );
	rt_sleep( v ); return 0;
}
int usleep( useconds_t u ) { if ( !rt_on() ) return REAL( usleep, u ); rt_sleep( u * 1000ll ); return 0; }
unsigned sleep( unsigned s ) { if ( !rt_on() ) return REAL( sleep, s ); rt_sleep( s * 1000000000ll ); return 0; }
static struct tm shared_tm;
static struct tm* tm_conv( const time_t* t, int local )
{
	// localtime()/gmtime() hand out one static buffer: model that, including the race on it
	struct tm v; rt_enter(); if ( local ) localtime_r( t, &v ); else gmtime_r( t, &v ); rt_leave();
	rt_range( &shared_tm, sizeof shared_tm, 1, __builtin_return_address( 0 ) );
	rt_enter(); shared_tm = v; rt_leave();
	rt_range( &shared_tm, sizeof shared_tm, 1, __builtin_return_address( 0 ) );
	return &shared_tm;
}
struct tm* localtime( const time_t* t ) { if ( !rt_on() ) return REAL( localtime, t ); return tm_conv( t, 1 ); }
struct tm* gmtime( const time_t* t ) { if ( !rt_on() ) return REAL( gmtime, t ); return tm_conv( t, 0 ); }

// ---------------- randomness
ssize_t getrandom( void* b, size_t n, unsigned f ) { (void)f; memset( b, 0x5a, n ); return n; }
int getentropy( void* b, size_t n ) { memset( b, 0x5a, n ); return 0; }
uint32_t arc4random( void ) { return 0x5a5a5a5a; }

// ---------------- files
#define MODE int mode = 0; if ( fl & ( O_CREAT | O_TMPFILE ) ) { va_list va; va_start( va, fl ); mode = va_arg( va, int ); va_end( va ); }
int open( const char* p, int fl, ... ) { MODE if ( !rt_on() ) return REAL( open, p, fl, mode ); return v_open( AT_FDCWD, p, fl, mode ); }
int open64( const char* p, int fl, ... ) { MODE if ( !rt_on() ) return REAL( open64, p, fl, mode ); return v_open( AT_FDCWD, p, fl, mode ); }
int openat( int d, const char* p, int fl, ... ) { MODE if ( !rt_on() ) return REAL( openat, d, p, fl, mode ); return v_open( d, p, fl, mode ); }
int openat64( int d, const char* p, int fl, ... ) { MODE if ( !rt_on() ) return REAL( openat64, d, p, fl, mode ); return v_open( d, p, fl, mode ); }
int __open_2( const char* p, int fl ) { return open( p, fl ); }
int __open64_2( const char* p, int fl ) { return open( p, fl ); }
int __openat_2( int d, const char* p, int fl ) { return openat( d, p, fl ); }
int __openat64_2( int d, const char* p, int fl ) { return openat( d, p, fl ); }
int creat( const char* p, mode_t m ) { return open( p, O_CREAT | O_WRONLY | O_TRUNC, m ); }
int close( int fd ) { if ( rt_vfs_fd( fd ) ) return v_close( fd ); return REAL( close, fd ); }
ssize_t read( int fd, void* b, size_t n ) { if ( rt_vfs_fd( fd ) ) return v_read( fd, b, n, -1 ); return REAL( read, fd, b, n ); }
ssize_t __read_chk( int fd, void* b, size_t n, size_t bn ) { (void)bn; return read( fd, b, n ); }
ssize_t write( int fd, const void* b, size_t n ) { if ( rt_vfs_fd( fd ) ) return v_write( fd, b, n, -1 ); return REAL( write, fd, b, n ); }
ssize_t pread( int fd, void* b, size_t n, off_t o ) { if ( rt_vfs_fd( fd ) ) return v_read( fd, b, n, o ); return REAL( pread, fd, b, n, o ); }
ssize_t pwrite( int fd, const void* b, size_t n, off_t o ) { if ( rt_vfs_fd( fd ) ) return v_write( fd, b, n, o ); return REAL( pwrite, fd, b, n, o ); }
ssize_t readv( int fd, const struct iovec* v, int c ) { if ( !rt_vfs_fd( fd ) ) return REAL( readv, fd, v, c ); ssize_t t = 0; for ( int i = 0; i < c; ++i ) { if ( !v[i].iov_len ) continue; ssize_t r = v_read( fd, v[i].iov_base, v[i].iov_len, -1 ); if ( r < 0 ) return t ? t : r; t += r; if ( (size_t)r < v[i].iov_len ) break; } return t; }
ssize_t writev( int fd, const struct iovec* v, int c ) { if ( !rt_vfs_fd( fd ) ) return REAL( writev, fd, v, c ); ssize_t t = 0; for ( int i = 0; i < c; ++i ) { if ( !v[i].iov_len ) continue; ssize_t r = v_write( fd, v[i].iov_base, v[i].iov_len, -1 ); if ( r < 0 ) return t ? t : r; t += r; if ( (size_t)r < v[i].iov_len ) break; } return t; }
off_t lseek( int fd, off_t o, int w ) { if ( rt_vfs_fd( fd ) ) return v_lseek( fd, o, w ); return REAL( lseek, fd, o, w ); }
off64_t lseek64( int fd, off64_t o, int w ) { if ( rt_vfs_fd( fd ) ) return v_lseek( fd, o, w ); return REAL( lseek64, fd, o, w ); }
int fstat( int fd, struct stat* st ) { if ( rt_vfs_fd( fd ) ) return v_fstat( fd, st ); return REAL( fstat, fd, st ); }
int fstat64( int fd, struct stat64* st ) { if ( rt_vfs_fd( fd ) ) return v_fstat( fd, (struct stat*)st ); return REAL( fstat64, fd, st ); }
int stat( const char* restrict p, struct stat* restrict st ) { if ( !rt_on() ) return REAL( stat, p, st ); return v_stat( AT_FDCWD, p, st, 0 ); }
int stat64( const char* restrict p, struct stat64* restrict st ) { if ( !rt_on() ) return REAL( stat64, p, st ); return v_stat( AT_FDCWD, p, (struct stat*)st, 0 ); }
int lstat( const char* restrict p, struct stat* restrict st ) { if ( !rt_on() ) return REAL( lstat, p, st ); return v_stat( AT_FDCWD, p, st, 1 ); }
int lstat64( const char* restrict p, struct stat64* restrict st ) { if ( !rt_on() ) return REAL( lstat64, p, st ); return v_stat( AT_FDCWD, p, (struct stat*)st, 1 ); }
int fstatat( int d, const char* restrict p, struct stat* restrict st, int fl ) { if ( !rt_on() ) return REAL( fstatat, d, p, st, fl ); return v_stat( d, p, st, ( fl & AT_SYMLINK_NOFOLLOW ) != 0 ); }
int fstatat64( int d, const char* restrict p, struct stat64* restrict st, int fl ) { if ( !rt_on() ) return REAL( fstatat64, d, p, st, fl ); return v_stat( d, p, (struct stat*)st, ( fl & AT_SYMLINK_NOFOLLOW ) != 0 ); }
int statvfs( const char* restrict p, struct statvfs* restrict s ) { if ( !rt_on() ) return REAL( statvfs, p, s ); memset( s, 0, sizeof *s ); s->f_bsize = s->f_frsize = 4096; s->f_blocks = s->f_bfree = s->f_bavail = 1 << 20; return 0; }
int mkdir( const char* p, mode_t m ) { if ( !rt_on() ) return REAL( mkdir, p, m ); return v_mkdir( AT_FDCWD, p, m ); }
int mkdirat( int d, const char* p, mode_t m ) { if ( !rt_on() ) return REAL( mkdirat, d, p, m ); return v_mkdir( d, p, m ); }
int rmdir( const char* p ) { if ( !rt_on() ) return REAL( rmdir, p ); return v_unlink( AT_FDCWD, p, 1 ); }
int unlink( const char* p ) { if ( !rt_on() ) return REAL( unlink, p ); return v_unlink( AT_FDCWD, p, 0 ); }
int unlinkat( int d, const char* p, int fl ) { if ( !rt_on() ) return REAL( unlinkat, d, p, fl ); return v_unlink( d, p, ( fl & AT_REMOVEDIR ) ? 1 : 0 ); }
int remove( const char* p ) { if ( !rt_on() ) return REAL( remove, p ); return v_unlink( AT_FDCWD, p, 2 ); }
int rename( const char* a, const char* b ) { if ( !rt_on() ) return REAL( rename, a, b ); return v_rename( AT_FDCWD, a, AT_FDCWD, b, 0 ); }
int renameat( int d, const char* a, int e, const char* b ) { if ( !rt_on() ) return REAL( renameat, d, a, e, b ); return v_rename( d, a, e, b, 0 ); }
int renameat2( int d, const char* a, int e, const char* b, unsigned f ) { if ( !rt_on() ) return REAL( renameat2, d, a, e, b, f ); return v_rename( d, a, e, b, f & 1 ); }
int link( const char* a, const char* b ) { if ( !rt_on() ) return REAL( link, a, b ); return v_link( a, b ); }
int symlink( const char* a, const char* b ) { if ( !rt_on() ) return REAL( symlink, a, b ); return v_symlink( a, b ); }
ssize_t readlink( const char* restrict p, char* restrict b, size_t n ) { if ( !rt_on() ) return REAL( readlink, p, b, n ); return v_readlink( AT_FDCWD, p, b, n ); }
ssize_t readlinkat( int d, const char* restrict p, char* restrict b, size_t n ) { if ( !rt_on() ) return REAL( readlinkat, d, p, b, n ); return v_readlink( d, p, b, n ); }
int access( const char* p, int m ) { if ( !rt_on() ) return REAL( access, p, m ); return v_access( AT_FDCWD, p, m ); }
int faccessat( int d, const char* p, int m, int f ) { if ( !rt_on() ) return REAL( faccessat, d, p, m, f ); return v_access( d, p, m ); }
int chmod( const char* p, mode_t m ) { if ( !rt_on() ) return REAL( chmod, p, m ); return v_chmod( AT_FDCWD, p, m ); }
int fchmod( int fd, mode_t m ) { if ( rt_vfs_fd( fd ) ) return v_fchmod( fd, m ); return REAL( fchmod, fd, m ); }
int fchmodat( int d, const char* p, mode_t m, int f ) { if ( !rt_on() ) return REAL( fchmodat, d, p, m, f ); return v_chmod( d, p, m ); }
int truncate( const char* p, off_t l ) { if ( !rt_on() ) return REAL( truncate, p, l ); return v_truncate( p, l ); }
int ftruncate( int fd, off_t l ) { if ( rt_vfs_fd( fd ) ) return v_ftruncate( fd, l ); return REAL( ftruncate, fd, l ); }
int utimensat( int d, const char* p, const struct timespec ts[2], int f ) { if ( !rt_on() ) return REAL( utimensat, d, p, ts, f ); return v_utimens( d, p, ts ); }
int chdir( const char* p ) { if ( !rt_on() ) return REAL( chdir, p ); return v_chdir( p ); }
char* getcwd( char* b, size_t n ) { if ( !rt_on() ) return REAL( getcwd, b, n ); return v_getcwd( b, n ); }
int gethostname( char* b, size_t n ) { if ( !rt_on() ) return REAL( gethostname, b, n ); return v_gethostname( b, n ); }
char* getenv( const char* name )
{
	if ( rt_on() ) { int known = 0; char* v = v_getenv( name, &known ); if ( known ) return v; }
	return REAL( getenv, name );
}
char* realpath( const char* restrict p, char* restrict o ) { if ( !rt_on() ) return REAL( realpath, p, o ); return v_realpath( p, o ); }
DIR* opendir( const char* p ) { if ( !rt_on() ) return REAL( opendir, p ); return (DIR*)v_opendir( AT_FDCWD, p ); }
DIR* fdopendir( int fd ) { if ( rt_vfs_fd( fd ) ) return (DIR*)v_fdopendir( fd ); return REAL( fdopendir, fd ); }
struct dirent* readdir( DIR* d ) { if ( v_is_dir( d ) ) return (struct dirent*)v_readdir( d ); return REAL( readdir, d ); }
struct dirent64* readdir64( DIR* d ) { if ( v_is_dir( d ) ) return (struct dirent64*)v_readdir( d ); return REAL( readdir64, d ); }
int closedir( DIR* d ) { if ( v_is_dir( d ) ) return v_closedir( d ); return REAL( closedir, d ); }
int dirfd( DIR* d ) { if ( v_is_dir( d ) ) return v_dirfd( d ); return REAL( dirfd, d ); }
void rewinddir( DIR* d ) { if ( v_is_dir( d ) ) v_rewinddir( d ); else REAL( rewinddir, d ); }
ssize_t sendfile( int o, int i, off_t* off, size_t n ) { if ( rt_vfs_fd( o ) || rt_vfs_fd( i ) ) return v_sendfile( o, i, (int64_t*)off, n ); return REAL( sendfile, o, i, off, n ); }
ssize_t copy_file_range( int i, off64_t* io, int o, off64_t* oo, size_t n, unsigned f ) { if ( rt_vfs_fd( o ) || rt_vfs_fd( i ) ) return v_copy_range( i, (int64_t*)io, o, (int64_t*)oo, n ); return REAL( copy_file_range, i, io, o, oo, n, f ); }
int fsync( int fd ) { if ( rt_vfs_fd( fd ) ) return 0; return REAL( fsync, fd ); }
int fdatasync( int fd ) { if ( rt_vfs_fd( fd ) ) return 0; return REAL( fdatasync, fd ); }
int posix_fadvise( int fd, off_t a, off_t b, int c ) { if ( rt_vfs_fd( fd ) ) return 0; return REAL( posix_fadvise, fd, a, b, c ); }
int isatty( int fd ) { if ( rt_vfs_fd( fd ) ) { errno = ENOTTY; return 0; } return REAL( isatty, fd ); }
int dup( int fd ) { if ( rt_vfs_fd( fd ) ) return v_dup( fd ); return REAL( dup, fd ); }
int poll( struct pollfd* p, nfds_t n, int t ) { if ( n == 1 && rt_vfs_fd( p->fd ) ) { p->revents = p->events & ( POLLIN | POLLOUT ); return 1; } return REAL( poll, p, n, t ); }
int ioctl( int fd, unsigned long r, ... ) { va_list va; va_start( va, r ); void* a = va_arg( va, void* ); va_end( va ); if ( rt_vfs_fd( fd ) ) { errno = ENOTTY; return -1; } return REAL( ioctl, fd, r, a ); }
FILE* fopen( const char* restrict p, const char* restrict m ) { if ( !rt_on() ) return REAL( fopen, p, m ); return (FILE*)v_fopen( p, m ); }
FILE* fopen64( const char* restrict p, const char* restrict m ) { if ( !rt_on() ) return REAL( fopen64, p, m ); return (FILE*)v_fopen( p, m ); }
FILE* fdopen( int fd, const char* m ) { if ( rt_vfs_fd( fd ) ) return (FILE*)v_fdopen( fd, m ); return REAL( fdopen, fd, m ); }
int fileno( FILE* f ) { int r = v_fileno( f ); return r >= 0 ? r : REAL( fileno, f ); }
int fclose( FILE* f ) { if ( v_fileno( f ) >= 0 ) v_forget( f ); return REAL( fclose, f ); }
int mkstemp( char* t ) { (void)t; errno = ENOSYS; return -1; }
