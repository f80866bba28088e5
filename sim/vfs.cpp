// xosim: in-memory file system with fault injection. Not instrumented. No call in here touches the real file system.
#include "rt.h"
#include "rt_int.h"
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <cctype>
#include <map>
#include <vector>
#include <string>
#include <algorithm>
#include <fcntl.h>
#include <dirent.h>
#include <unistd.h>
#include <sys/stat.h>

namespace sim
{
	struct Inode { int ino; unsigned mode; std::string data; int64_t mtime; std::map<std::string, int> kids; int nlink; long reads; };
	struct Fd { bool used; int ino; int flags; int64_t pos; int tid; };
	struct Dir { int fd; std::vector<std::pair<std::string, int>> ent; size_t pos; struct dirent de; bool snap; };
	static std::map<int, Inode>* nodes; static int next_ino; static std::string *cwd, *program, *computer; static std::map<std::string, std::pair<bool, std::string>>* environment;
	static std::vector<Fd>* fds; static std::map<void*, int>* files; static std::vector<Dir*>* dirs;
	static FaultCfg F; static bool f_on; static long nops; static int64_t used;
	constexpr int FD0 = 1000; constexpr int ROOT = 2;

	static int f_off[64];	// FaultsOff scopes open on each thread
	bool faults_enabled() { return f_on && !f_off[rt_tid() & 63]; }
	void set_faults( const FaultCfg& f ) { Enter e; F = f; }
	void faults_on( bool on ) { f_on = on; }
	FaultsOff::FaultsOff() : was( f_on ) { ++f_off[rt_tid() & 63]; }
	FaultsOff::~FaultsOff() { --f_off[rt_tid() & 63]; }
	bool fault( const char* kind, double p )
	{
		if ( !rt_active || !faults_enabled() || p <= 0 ) return false;
		Enter e;
		char tag[24]; snprintf( tag, sizeof tag, "f:%s", kind );
		if ( !choose( tag, 2, p ) ) return false;
		count_fault( kind ); trace( "fault: %s", kind );
		return true;
	}
	static bool fpath( const std::string& p ) { return F.only.empty() || p.find( F.only ) != std::string::npos; }
	static int err( int e ) { errno = e; return -1; }

	void vfs_reset()
	{
		nodes = new std::map<int, Inode>; fds = new std::vector<Fd>; files = new std::map<void*, int>; dirs = new std::vector<Dir*>;
		cwd = new std::string( "/work" ); program = new std::string( "/work/bin/app" ); computer = new std::string( "simulated" ); environment = new std::map<std::string, std::pair<bool, std::string>>;
		next_ino = ROOT; F = FaultCfg(); f_on = false; nops = 0; used = 0;
		Inode r{}; r.ino = next_ino++; r.mode = S_IFDIR | 0755; r.mtime = real_ns(); r.nlink = 2; ( *nodes )[ROOT] = r;
		for ( auto d : { "/work", "/tmp", "/home", "/home/sim" } ) vfs_mkdir( d );
	}
	static Inode& N( int i ) { return nodes->at( i ); }

	// resolve. returns inode or -errno; parent/leaf filled when the parent directory exists
	static int resolve( int dirfd, const std::string& path, bool follow, int* parent, std::string* leaf, int depth = 0 )
	{
		if ( parent ) *parent = -1;
		if ( path.empty() ) return -ENOENT;
		if ( path.size() > 4000 ) return -ENAMETOOLONG;
		if ( depth > 20 ) return -ELOOP;
		int cur = ROOT;
		if ( path[0] != '/' ) {
			if ( dirfd == AT_FDCWD ) { cur = resolve( AT_FDCWD, *cwd, true, nullptr, nullptr, depth + 1 ); if ( cur < 0 ) return cur; }
			else if ( rt_vfs_fd( dirfd ) ) cur = ( *fds )[dirfd - FD0].ino;
			else return -EBADF;
		}
		std::vector<int> chain{ cur };
		if ( path[0] != '/' && dirfd == AT_FDCWD ) {	// rebuild chain for ".."
			chain.clear(); int c = ROOT; chain.push_back( c ); size_t i = 1;
			while ( i < cwd->size() ) { size_t j = cwd->find( '/', i ); if ( j == std::string::npos ) j = cwd->size(); if ( j > i ) { auto it = N( c ).kids.find( cwd->substr( i, j - i ) ); if ( it == N( c ).kids.end() ) return -ENOENT; c = it->second; chain.push_back( c ); } i = j + 1; }
		}
		size_t i = 0;
		std::vector<std::string> parts; bool trailing = path.back() == '/';
		while ( i <= path.size() ) { size_t j = path.find( '/', i ); if ( j == std::string::npos ) j = path.size(); if ( j > i ) parts.push_back( path.substr( i, j - i ) ); i = j + 1; }
		for ( size_t k = 0; k < parts.size(); ++k ) {
			bool last = k + 1 == parts.size();
			Inode& d = N( chain.back() );
			if ( !S_ISDIR( d.mode ) ) return -ENOTDIR;
			if ( parts[k] == "." ) { continue; }
			if ( parts[k] == ".." ) { if ( chain.size() > 1 ) chain.pop_back(); continue; }
			if ( parts[k].size() > 255 ) return -ENAMETOOLONG;
			if ( last ) { if ( parent ) *parent = chain.back(); if ( leaf ) *leaf = parts[k]; }
			auto it = d.kids.find( parts[k] );
			if ( it == d.kids.end() ) return -ENOENT;
			Inode& c = N( it->second );
			if ( S_ISLNK( c.mode ) && ( !last || follow || trailing ) ) {
				std::string rest = c.data; for ( size_t m = k + 1; m < parts.size(); ++m ) rest += "/" + parts[m];
				if ( rest[0] != '/' ) { // relative to the directory holding the link: only root/cwd chains are supported
					return resolve( AT_FDCWD, "/" + rest, follow, parent, leaf, depth + 1 );
				}
				return resolve( AT_FDCWD, rest, follow, parent, leaf, depth + 1 );
			}
			chain.push_back( it->second );
		}
		if ( trailing && !S_ISDIR( N( chain.back() ).mode ) ) return -ENOTDIR;
		return chain.back();
	}
	static int mk( int parent, const std::string& leaf, unsigned mode )
	{
		Inode n{}; n.ino = next_ino++; n.mode = mode; n.mtime = real_ns(); n.nlink = 1;
		N( parent ).kids[leaf] = n.ino; N( parent ).mtime = real_ns();
		( *nodes )[n.ino] = n;
		return n.ino;
	}
	static void op( const char* name, const std::string& p, int64_t r ) { hash_bytes( name, strlen( name ) ); hash_bytes( p.data(), p.size() ); hash_u64( (uint64_t)r ); trace( "%s %s -> %lld", name, p.c_str(), (long long)r ); ++nops; }
	static void gc( int ino )
	{
		auto it = nodes->find( ino ); if ( it == nodes->end() || it->second.nlink > 0 ) return;
		for ( auto& f : *fds ) if ( f.used && f.ino == ino ) return;
		if ( S_ISREG( it->second.mode ) ) used -= it->second.data.size();
		nodes->erase( it );
	}
	static int new_fd( int ino, int flags )
	{
		size_t i = 0; while ( i < fds->size() && ( *fds )[i].used ) ++i;
		if ( i == fds->size() ) fds->push_back( {} );
		( *fds )[i] = Fd{ true, ino, flags, 0, rt_tid() };
		return FD0 + (int)i;
	}
	static std::string at( int dirfd, const char* p ) { return ( p[0] == '/' || dirfd == AT_FDCWD ) ? std::string( p ) : "<fd>/" + std::string( p ); }

	// ---- harness side access, no faults, no schedule points
	static int hres( const std::string& p ) { return resolve( AT_FDCWD, p, true, nullptr, nullptr ); }
	bool vfs_exists( const std::string& p ) { Enter e; return hres( p ) > 0; }
	bool vfs_is_dir( const std::string& p ) { Enter e; int i = hres( p ); return i > 0 && S_ISDIR( N( i ).mode ); }
	bool vfs_get( const std::string& p, std::string& out ) { Enter e; int i = hres( p ); if ( i < 0 || !S_ISREG( N( i ).mode ) ) return false; out = N( i ).data; return true; }
	std::string vfs_read( const std::string& p ) { std::string s; vfs_get( p, s ); return s; }
	void vfs_mkdir( const std::string& p )
	{
		Enter e; std::string acc; size_t i = 0;
		while ( i <= p.size() ) { size_t j = p.find( '/', i ); if ( j == std::string::npos ) j = p.size(); acc = p.substr( 0, j ); if ( j > i ) { int par; std::string leaf; int r = resolve( AT_FDCWD, acc, true, &par, &leaf ); if ( r == -ENOENT && par > 0 ) mk( par, leaf, S_IFDIR | 0755 ); } i = j + 1; }
	}
	void vfs_put( const std::string& p, const std::string& data )
	{
		Enter e; size_t s = p.rfind( '/' ); if ( s != std::string::npos && s > 0 ) vfs_mkdir( p.substr( 0, s ) );
		int par; std::string leaf; int r = resolve( AT_FDCWD, p, true, &par, &leaf );
		if ( r == -ENOENT ) r = mk( par, leaf, S_IFREG | 0644 );
		if ( r < 0 ) fail( "internal", "vfs_put %s", p.c_str() );
		used += (int64_t)data.size() - (int64_t)N( r ).data.size();
		N( r ).data = data; N( r ).mtime = real_ns();
	}
	void vfs_special( const std::string& p, unsigned mode ) { Enter e; int par; std::string leaf; int r = resolve( AT_FDCWD, p, true, &par, &leaf ); if ( r == -ENOENT && par > 0 ) mk( par, leaf, mode ); }
	void vfs_symlink( const std::string& t, const std::string& p ) { Enter e; int par; std::string leaf; int r = resolve( AT_FDCWD, p, false, &par, &leaf ); if ( r == -ENOENT && par > 0 ) N( mk( par, leaf, S_IFLNK | 0777 ) ).data = t; }
	void vfs_remove( const std::string& p ) { Enter e; int par; std::string leaf; int r = resolve( AT_FDCWD, p, false, &par, &leaf ); if ( r > 0 && par > 0 ) { N( par ).kids.erase( leaf ); N( r ).nlink = 0; gc( r ); } }
	void vfs_set_mtime( const std::string& p, int64_t sec ) { Enter e; int i = hres( p ); if ( i > 0 ) N( i ).mtime = sec * 1000000000; }
	int64_t vfs_mtime( const std::string& p ) { Enter e; int i = hres( p ); return i > 0 ? N( i ).mtime : -1; }
	long vfs_reads( const std::string& p ) { Enter e; int i = hres( p ); return i > 0 ? N( i ).reads : 0; }
	static void list_rec( int ino, const std::string& pre, std::vector<std::string>& out ) { for ( auto& k : N( ino ).kids ) { out.push_back( pre + "/" + k.first ); if ( S_ISDIR( N( k.second ).mode ) ) list_rec( k.second, pre + "/" + k.first, out ); } }
	std::vector<std::string> vfs_list( const std::string& d ) { Enter e; std::vector<std::string> r; int i = hres( d ); if ( i > 0 && S_ISDIR( N( i ).mode ) ) list_rec( i, d == "/" ? "" : d, r ); return r; }
	size_t vfs_used() { return used; }
	long vfs_ops() { return nops; }
	int open_fds() { Enter e; int n = 0; for ( auto& f : *fds ) n += f.used; return n; }
	std::string escape( const std::string& s )
	{
		Enter e; std::string r; char b[8];
		for ( unsigned char c : s ) { if ( c == '\\' ) r += "\\\\"; else if ( c == '"' ) r += "\\\""; else if ( c >= 32 && c < 127 ) r += (char)c; else { snprintf( b, sizeof b, "\\x%02x", c ); r += b; } }
		return r;
	}

	// ---- snapshot for restart: regular files, directories, links; open descriptors and stdio buffers are lost
	static void put( std::string& o, const void* p, size_t n ) { o.append( (const char*)p, n ); }
	template<class T> static void putv( std::string& o, T v ) { put( o, &v, sizeof v ); }
	static void puts_( std::string& o, const std::string& s ) { putv<uint64_t>( o, s.size() ); o += s; }
	void vfs_serialize( std::string& o )
	{
		putv<int>( o, next_ino ); putv<int64_t>( o, used ); puts_( o, *cwd ); putv<uint64_t>( o, nodes->size() );
		for ( auto& kv : *nodes ) { auto& n = kv.second; putv( o, n.ino ); putv( o, n.mode ); putv( o, n.mtime ); putv( o, n.nlink ); puts_( o, n.data ); putv<uint64_t>( o, n.kids.size() ); for ( auto& k : n.kids ) { puts_( o, k.first ); putv( o, k.second ); } }
	}
	struct Rd { const char* p; template<class T> T v() { T t; memcpy( &t, p, sizeof t ); p += sizeof t; return t; } std::string s() { auto n = v<uint64_t>(); std::string r( p, n ); p += n; return r; } };
	void vfs_restore( const char* p, size_t )
	{
		Rd r{ p }; nodes->clear(); next_ino = r.v<int>(); used = r.v<int64_t>(); *cwd = r.s(); auto n = r.v<uint64_t>();
		for ( uint64_t i = 0; i < n; ++i ) { Inode d{}; d.ino = r.v<int>(); d.mode = r.v<unsigned>(); d.mtime = r.v<int64_t>(); d.nlink = r.v<int>(); d.data = r.s(); auto k = r.v<uint64_t>(); for ( uint64_t j = 0; j < k; ++j ) { auto nm = r.s(); d.kids[nm] = r.v<int>(); } ( *nodes )[d.ino] = d; }
		*cwd = "/work";
	}
	static void fill( struct stat* st, const Inode& n )
	{
		memset( st, 0, sizeof *st ); st->st_ino = n.ino; st->st_mode = n.mode; st->st_nlink = n.nlink; st->st_size = n.data.size(); st->st_dev = 99; st->st_blksize = 4096; st->st_blocks = ( n.data.size() + 511 ) / 512;
		st->st_mtim.tv_sec = n.mtime / 1000000000; st->st_mtim.tv_nsec = n.mtime % 1000000000; st->st_ctim = st->st_atim = st->st_mtim; st->st_uid = getuid();
	}
}

namespace sim
{
	void set_program( const std::string& p ) { Enter e; *program = p; }
	void set_computer( const std::string& n ) { Enter e; *computer = n; }
	void set_env( const std::string& name, const char* value ) { Enter e; ( *environment )[name] = { value != nullptr, value ? value : "" }; }
}

using namespace sim;
extern "C"
{
	int rt_vfs_fd( int fd ) { return fds && fd >= FD0 && fd < FD0 + (int)fds->size() && ( *fds )[fd - FD0].used; }
	static Fd& D( int fd ) { return ( *fds )[fd - FD0]; }

	int v_open( int dirfd, const char* path, int flags, int mode )
	{
		Enter e; std::string p = at( dirfd, path );
		rt_io_point( "open" );
		if ( fpath( p ) ) {
			if ( ( flags & O_DIRECTORY ) ? fault( "opendir_eacces", F.opendir_err ) : fault( "open_eacces", F.open_err ) ) { op( "open!", p, -1 ); return err( fault( "open_emfile", 0.5 ) ? EMFILE : EACCES ); }
		}
		int par; std::string leaf; int r = resolve( dirfd, path, !( flags & O_NOFOLLOW ), &par, &leaf );
		if ( r == -ENOENT && ( flags & O_CREAT ) && par > 0 && path[strlen( path ) - 1] != '/' ) {
			if ( F.disk_cap >= 0 && faults_enabled() && used >= F.disk_cap && fpath( p ) && fault( "open_enospc", 0.5 ) ) return err( ENOSPC );
			r = mk( par, leaf, S_IFREG | ( mode & 0777 & ~022 ) );
		}
		else if ( r > 0 && ( flags & O_CREAT ) && ( flags & O_EXCL ) ) { op( "open", p, -EEXIST ); return err( EEXIST ); }
		if ( r < 0 ) { op( "open", p, r ); return err( -r ); }
		Inode& n = N( r );
		if ( S_ISLNK( n.mode ) ) return err( ELOOP );
		if ( S_ISDIR( n.mode ) && ( flags & O_ACCMODE ) != O_RDONLY ) { op( "open", p, -EISDIR ); return err( EISDIR ); }
		if ( ( flags & O_DIRECTORY ) && !S_ISDIR( n.mode ) ) { op( "open", p, -ENOTDIR ); return err( ENOTDIR ); }
		if ( S_ISSOCK( n.mode ) ) return err( ENXIO );
		if ( ( flags & O_TRUNC ) && S_ISREG( n.mode ) && ( flags & O_ACCMODE ) != O_RDONLY ) { used -= n.data.size(); n.data.clear(); n.mtime = real_ns(); }
		if ( ( flags & O_ACCMODE ) != O_WRONLY && S_ISREG( n.mode ) ) n.reads++;
		int fd = new_fd( r, flags );
		op( "open", p, fd );
		return fd;
	}
	int v_close( int fd )
	{
		Enter e; rt_io_point( "close" );
		if ( !rt_vfs_fd( fd ) ) return err( EBADF );
		int ino = D( fd ).ino; bool wr = ( D( fd ).flags & O_ACCMODE ) != O_RDONLY;
		D( fd ).used = false; gc( ino );
		op( "close", std::to_string( fd ), 0 );
		if ( wr && fault( "close_eio", F.close_err ) ) return err( EIO );
		return 0;
	}
	long v_read( int fd, void* buf, size_t n, int64_t off )
	{
		Enter e; rt_io_point( "read" );
		if ( !rt_vfs_fd( fd ) ) return err( EBADF );
		Fd& f = D( fd ); Inode& d = N( f.ino );
		if ( ( f.flags & O_ACCMODE ) == O_WRONLY ) return err( EBADF );
		if ( S_ISDIR( d.mode ) ) return err( EISDIR );
		if ( fault( "read_eintr", F.eintr ) ) return err( EINTR );
		int64_t pos = off >= 0 ? off : f.pos;
		size_t avail = pos < (int64_t)d.data.size() ? d.data.size() - pos : 0; size_t k = std::min( n, avail );
		if ( k && fault( "read_eio", F.read_err ) ) { op( "read!", std::to_string( fd ), -EIO ); return err( EIO ); }	// at the end of a file there is nothing to read from the disk
		if ( k > 1 && fault( "read_short", F.read_short ) ) k = 1 + choose_uniform( "short_len", k > 60000 ? 60000 : (unsigned)k - 1 );
		memcpy( buf, d.data.data() + pos, k );
		if ( off < 0 ) f.pos += k;
		op( "read", std::to_string( fd ), k );
		return k;
	}
	long v_write( int fd, const void* buf, size_t n, int64_t off )
	{
		Enter e; rt_io_point( "write" );
		if ( !rt_vfs_fd( fd ) ) return err( EBADF );
		Fd& f = D( fd ); Inode& d = N( f.ino );
		if ( ( f.flags & O_ACCMODE ) == O_RDONLY ) return err( EBADF );
		if ( n == 0 ) return 0;
		if ( fault( "write_eintr", F.eintr ) ) return err( EINTR );
		if ( fault( "write_eio", F.write_err ) ) { op( "write!", std::to_string( fd ), -EIO ); return err( EIO ); }
		size_t k = n;
		if ( k > 1 && fault( "write_short", F.write_short ) ) k = 1 + choose_uniform( "short_len", k > 60000 ? 60000 : (unsigned)k - 1 );
		int64_t pos = off >= 0 ? off : ( f.flags & O_APPEND ) ? (int64_t)d.data.size() : f.pos;
		if ( F.disk_cap >= 0 && faults_enabled() ) {
			int64_t grow = pos + (int64_t)k - (int64_t)d.data.size();
			if ( grow > 0 && used + grow > F.disk_cap ) {
				int64_t room = F.disk_cap - used; if ( room < 0 ) room = 0;
				int64_t can = (int64_t)d.data.size() + room - pos; if ( can < 0 ) can = 0;
				k = std::min<size_t>( k, can );
				count_fault( "disk_full" ); trace( "fault: disk_full" );
				if ( k == 0 ) { op( "write!", std::to_string( fd ), -ENOSPC ); return err( ENOSPC ); }
			}
		}
		size_t old = d.data.size();
		if ( pos + k > d.data.size() ) d.data.resize( pos + k );
		memcpy( &d.data[pos], buf, k );
		used += (int64_t)d.data.size() - (int64_t)old;
		if ( off < 0 ) f.pos = pos + k;
		d.mtime = real_ns();
		op( "write", std::to_string( fd ), k ); hash_bytes( buf, k );
		return k;
	}
	int64_t v_lseek( int fd, int64_t o, int wh )
	{
		Enter e; if ( !rt_vfs_fd( fd ) ) return err( EBADF );
		Fd& f = D( fd ); int64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? f.pos : (int64_t)N( f.ino ).data.size();
		if ( b + o < 0 ) return err( EINVAL );
		return f.pos = b + o;
	}
	int v_fstat( int fd, struct stat* st ) { Enter e; if ( !rt_vfs_fd( fd ) ) return err( EBADF ); fill( st, N( D( fd ).ino ) ); return 0; }
	int v_stat( int dirfd, const char* path, struct stat* st, int nofollow )
	{
		Enter e; std::string p = at( dirfd, path ); rt_io_point( "stat" );
		if ( fpath( p ) && fault( "stat_eio", F.stat_err ) ) { op( "stat!", p, -EIO ); return err( EIO ); }
		int r = resolve( dirfd, path, !nofollow, nullptr, nullptr );
		op( "stat", p, r );
		if ( r < 0 ) return err( -r );
		fill( st, N( r ) ); return 0;
	}
	int v_mkdir( int dirfd, const char* path, int mode )
	{
		Enter e; std::string p = at( dirfd, path ); rt_io_point( "mkdir" );
		if ( fpath( p ) && fault( "mkdir_error", F.mkdir_err ) ) { op( "mkdir!", p, -1 ); return err( choose_uniform( "mkdir_errno", 2 ) ? EACCES : ENOSPC ); }
		int par; std::string leaf; int r = resolve( dirfd, path, false, &par, &leaf );
		if ( r > 0 ) { op( "mkdir", p, -EEXIST ); return err( EEXIST ); }
		if ( r != -ENOENT || par < 0 ) { op( "mkdir", p, r ); return err( r == -ENOENT || par < 0 ? ( r < 0 ? -r : ENOENT ) : -r ); }
		mk( par, leaf, S_IFDIR | ( mode & 0755 ) );
		op( "mkdir", p, 0 ); return 0;
	}
	int v_unlink( int dirfd, const char* path, int kind )
	{
		Enter e; std::string p = at( dirfd, path ); rt_io_point( "unlink" );
		int par; std::string leaf; int r = resolve( dirfd, path, false, &par, &leaf );
		op( "unlink", p, r );
		if ( r < 0 ) return err( -r );
		if ( par < 0 ) return err( EBUSY );
		bool dir = S_ISDIR( N( r ).mode );
		if ( dir && kind == 0 ) return err( EISDIR );
		if ( !dir && kind == 1 ) return err( ENOTDIR );
		if ( dir && !N( r ).kids.empty() ) return err( ENOTEMPTY );
		if ( fpath( p ) && fault( "unlink_eacces", F.rename_err ) ) return err( EACCES );
		N( par ).kids.erase( leaf ); N( par ).mtime = real_ns();
		N( r ).nlink = dir ? 0 : N( r ).nlink - 1; gc( r );
		return 0;
	}
	int v_rename( int d1, const char* a, int d2, const char* b, int noreplace )
	{
		Enter e; std::string p = at( d1, a ) + "->" + at( d2, b ); rt_io_point( "rename" );
		if ( fpath( p ) && fault( "rename_error", F.rename_err ) ) { op( "rename!", p, -1 ); return err( EACCES ); }
		int p1, p2; std::string l1, l2; int r1 = resolve( d1, a, false, &p1, &l1 ), r2 = resolve( d2, b, false, &p2, &l2 );
		op( "rename", p, r1 );
		if ( r1 < 0 ) return err( -r1 );
		if ( p1 < 0 || p2 < 0 ) return err( r2 < 0 ? -r2 : EBUSY );
		if ( r2 > 0 ) {
			if ( noreplace ) return err( EEXIST );
			if ( r1 == r2 ) return 0;
			if ( S_ISDIR( N( r2 ).mode ) && !S_ISDIR( N( r1 ).mode ) ) return err( EISDIR );
			if ( !S_ISDIR( N( r2 ).mode ) && S_ISDIR( N( r1 ).mode ) ) return err( ENOTDIR );
			if ( S_ISDIR( N( r2 ).mode ) && !N( r2 ).kids.empty() ) return err( ENOTEMPTY );
			N( r2 ).nlink = 0;
		}
		N( p1 ).kids.erase( l1 ); N( p2 ).kids[l2] = r1; if ( r2 > 0 ) gc( r2 );
		N( p1 ).mtime = N( p2 ).mtime = real_ns();
		return 0;
	}
	int v_link( const char* a, const char* b )
	{
		Enter e; rt_io_point( "link" ); int p2; std::string l2; int r1 = resolve( AT_FDCWD, a, false, nullptr, nullptr ), r2 = resolve( AT_FDCWD, b, false, &p2, &l2 );
		op( "link", b, r1 ); if ( r1 < 0 ) return err( -r1 ); if ( r2 > 0 ) return err( EEXIST ); if ( p2 < 0 ) return err( ENOENT );
		if ( S_ISDIR( N( r1 ).mode ) ) return err( EPERM );
		N( p2 ).kids[l2] = r1; N( r1 ).nlink++; return 0;
	}
	int v_symlink( const char* t, const char* b ) { Enter e; rt_io_point( "symlink" ); int p2; std::string l2; int r2 = resolve( AT_FDCWD, b, false, &p2, &l2 ); if ( r2 > 0 ) return err( EEXIST ); if ( p2 < 0 ) return err( ENOENT ); N( mk( p2, l2, S_IFLNK | 0777 ) ).data = t; return 0; }
	long v_readlink( int dirfd, const char* path, char* buf, size_t n )
	{
		Enter e; rt_io_point( "readlink" );
		if ( fault( "readlink_error", F.readlink_err ) ) return err( EACCES );
		if ( !strcmp( path, "/proc/self/exe" ) ) { size_t k = std::min( n, program->size() ); memcpy( buf, program->data(), k ); return k; }
		int r = resolve( dirfd, path, false, nullptr, nullptr ); if ( r < 0 ) return err( -r );
		if ( !S_ISLNK( N( r ).mode ) ) return err( EINVAL );
		size_t k = std::min( n, N( r ).data.size() ); memcpy( buf, N( r ).data.data(), k ); return k;
	}
	int v_access( int dirfd, const char* path, int )
	{
		Enter e; std::string p = at( dirfd, path ); rt_io_point( "access" ); if ( fpath( p ) && fault( "stat_eio", F.stat_err ) ) return err( EIO );
		int r = resolve( dirfd, path, true, nullptr, nullptr ); op( "access", p, r ); return r < 0 ? err( -r ) : 0;
	}
	int v_chmod( int dirfd, const char* path, int mode ) { Enter e; rt_io_point( "chmod" ); int r = resolve( dirfd, path, true, nullptr, nullptr ); if ( r < 0 ) return err( -r ); if ( fault( "chmod_error", F.chmod_err ) ) return err( EPERM ); N( r ).mode = ( N( r ).mode & S_IFMT ) | ( mode & 07777 ); return 0; }
	int v_fchmod( int fd, int mode ) { Enter e; rt_io_point( "fchmod" ); if ( !rt_vfs_fd( fd ) ) return err( EBADF ); if ( fault( "chmod_error", F.chmod_err ) ) return err( EPERM ); auto& n = N( D( fd ).ino ); n.mode = ( n.mode & S_IFMT ) | ( mode & 07777 ); return 0; }
	static int trunc_( int ino, int64_t len ) { auto& n = N( ino ); if ( !S_ISREG( n.mode ) ) return err( EINVAL ); used += len - (int64_t)n.data.size(); n.data.resize( len ); n.mtime = real_ns(); return 0; }
	int v_truncate( const char* path, int64_t len ) { Enter e; rt_io_point( "truncate" ); int r = resolve( AT_FDCWD, path, true, nullptr, nullptr ); if ( r < 0 ) return err( -r ); return trunc_( r, len ); }
	int v_ftruncate( int fd, int64_t len ) { Enter e; rt_io_point( "ftruncate" ); if ( !rt_vfs_fd( fd ) ) return err( EBADF ); return trunc_( D( fd ).ino, len ); }
	int v_utimens( int dirfd, const char* path, const struct timespec* ts )
	{
		Enter e; rt_io_point( "utimens" ); int r = resolve( dirfd, path, true, nullptr, nullptr ); if ( r < 0 ) return err( -r );
		if ( ts && ts[1].tv_nsec != UTIME_OMIT && ts[1].tv_nsec != UTIME_NOW ) N( r ).mtime = ts[1].tv_sec * 1000000000ll + ts[1].tv_nsec; else if ( !ts || ts[1].tv_nsec == UTIME_NOW ) N( r ).mtime = real_ns();
		return 0;
	}
	int v_chdir( const char* path )
	{
		Enter e; rt_io_point( "chdir" ); if ( fault( "chdir_error", F.cwd_err ) ) return err( EACCES ); int r = resolve( AT_FDCWD, path, true, nullptr, nullptr ); op( "chdir", path, r ); if ( r < 0 ) return err( -r ); if ( !S_ISDIR( N( r ).mode ) ) return err( ENOTDIR );
		std::string p = path[0] == '/' ? path : *cwd + "/" + path, o; std::vector<std::string> st; size_t i = 0;
		while ( i <= p.size() ) { size_t j = p.find( '/', i ); if ( j == std::string::npos ) j = p.size(); auto s = p.substr( i, j - i ); if ( s == ".." ) { if ( !st.empty() ) st.pop_back(); } else if ( !s.empty() && s != "." ) st.push_back( s ); i = j + 1; }
		for ( auto& s : st ) o += "/" + s; if ( o.empty() ) o = "/"; *cwd = o; return 0;
	}
	char* v_getcwd( char* buf, size_t n )
	{
		char now[4100];
		{
			Enter e; rt_io_point( "getcwd" );
			if ( fault( "getcwd_error", F.cwd_err ) ) { errno = ENOENT; return nullptr; }	// the folder was deleted
			snprintf( now, sizeof now, "%s", cwd->c_str() );
		}
		size_t len = strlen( now ) + 1;
		if ( !buf ) { size_t k = n ? n : len; if ( k >= len && !( buf = (char*)malloc( k ) ) ) return nullptr; n = k; }
		if ( n < len ) { errno = ERANGE; return nullptr; }
		memcpy( buf, now, len ); return buf;
	}
	int v_gethostname( char* buf, size_t n )
	{
		Enter e; rt_io_point( "gethostname" );
		if ( fault( "gethostname_error", F.host_err ) ) return err( EPERM );
		size_t len = computer->size() + 1; memcpy( buf, computer->c_str(), std::min( len, n ) );
		return len > n ? err( ENAMETOOLONG ) : 0;
	}
	char* v_getenv( const char* name, int* known )
	{
		Enter e; if ( !environment ) return nullptr;
		auto it = environment->find( name ); *known = it != environment->end(); return *known && it->second.first ? (char*)it->second.second.c_str() : nullptr;
	}
	int v_sleep_interrupted( void ) { return fault( "sleep_interrupted", F.sleep_intr ); }
	char* v_realpath( const char* path, char* out )
	{
		Enter e; int r = resolve( AT_FDCWD, path, true, nullptr, nullptr ); if ( r < 0 ) { errno = -r; return nullptr; }
		std::string p = path[0] == '/' ? path : *cwd + "/" + path, o; std::vector<std::string> st; size_t i = 0;
		while ( i <= p.size() ) { size_t j = p.find( '/', i ); if ( j == std::string::npos ) j = p.size(); auto s = p.substr( i, j - i ); if ( s == ".." ) { if ( !st.empty() ) st.pop_back(); } else if ( !s.empty() && s != "." ) st.push_back( s ); i = j + 1; }
		for ( auto& s : st ) o += "/" + s; if ( o.empty() ) o = "/";
		if ( !out ) out = (char*)malloc( o.size() + 1 ); strcpy( out, o.c_str() ); return out;
	}
	void* v_fdopendir( int fd ) { Enter e; if ( !rt_vfs_fd( fd ) || !S_ISDIR( N( D( fd ).ino ).mode ) ) { errno = ENOTDIR; return nullptr; } auto* d = new Dir(); d->fd = fd; d->snap = false; d->pos = 0; dirs->push_back( d ); return d; }
	void* v_opendir( int dirfd, const char* path ) { int fd = v_open( dirfd, path, O_RDONLY | O_DIRECTORY, 0 ); if ( fd < 0 ) return nullptr; return v_fdopendir( fd ); }
	int v_is_dir( void* d ) { return dirs && std::find( dirs->begin(), dirs->end(), (Dir*)d ) != dirs->end(); }
	void* v_readdir( void* dd )
	{
		Enter e; auto* d = (Dir*)dd; rt_io_point( "readdir" );
		if ( !d->snap ) {
			d->snap = true; d->ent.clear();
			Inode& n = N( D( d->fd ).ino );
			d->ent.push_back( { ".", n.ino } ); d->ent.push_back( { "..", n.ino } );
			for ( auto& k : n.kids ) d->ent.push_back( k );
			if ( d->ent.size() > 3 && fault( "readdir_reorder", F.readdir_shuffle ) )
				for ( size_t i = d->ent.size() - 1; i > 2; --i ) std::swap( d->ent[i], d->ent[2 + choose_uniform( "shuffle", (unsigned)( i - 1 ) )] );
		}
		if ( fault( "readdir_eio", F.readdir_err ) ) { op( "readdir!", "", -EIO ); errno = EIO; return nullptr; }
		while ( d->pos < d->ent.size() && d->pos >= 2 && !nodes->count( d->ent[d->pos].second ) ) d->pos++;	// removed meanwhile
		if ( d->pos >= d->ent.size() ) return nullptr;
		auto& x = d->ent[d->pos++]; memset( &d->de, 0, sizeof d->de ); d->de.d_ino = x.second; snprintf( d->de.d_name, sizeof d->de.d_name, "%s", x.first.c_str() );
		unsigned m = N( x.second ).mode;
		d->de.d_type = fault( "dtype_unknown", F.dtype_unknown ) ? DT_UNKNOWN : S_ISDIR( m ) ? DT_DIR : S_ISREG( m ) ? DT_REG : S_ISLNK( m ) ? DT_LNK : S_ISSOCK( m ) ? DT_SOCK : DT_UNKNOWN;
		op( "readdir", x.first, 0 );
		return &d->de;
	}
	int v_closedir( void* dd ) { Enter e; auto* d = (Dir*)dd; int fd = d->fd; dirs->erase( std::find( dirs->begin(), dirs->end(), d ) ); delete d; if ( rt_vfs_fd( fd ) ) D( fd ).used = false; return 0; }
	int v_dirfd( void* d ) { return ( (Dir*)d )->fd; }
	void v_rewinddir( void* d ) { ( (Dir*)d )->pos = 0; ( (Dir*)d )->snap = false; }
	long v_sendfile( int out, int in, int64_t* off, size_t n )
	{
		Enter e; rt_io_point( "sendfile" );
		if ( !rt_vfs_fd( in ) || !rt_vfs_fd( out ) ) return err( EBADF );
		if ( S_ISDIR( N( D( in ).ino ).mode ) ) return err( EISDIR );
		std::string b; b.resize( std::min<size_t>( n, 1 << 20 ) );
		long k = v_read( in, &b[0], b.size(), off ? *off : -1 ); if ( k <= 0 ) return k;
		long w = v_write( out, b.data(), k, -1 );
		if ( w < 0 ) { if ( !off ) D( in ).pos -= k; return w; }
		if ( off ) *off += w; else D( in ).pos -= k - w;
		return w;
	}
	long v_copy_range( int in, int64_t* io, int out, int64_t* oo, size_t n )
	{
		Enter e; std::string b; b.resize( std::min<size_t>( n, 1 << 20 ) ); long k = v_read( in, &b[0], b.size(), io ? *io : -1 ); if ( k <= 0 ) return k;
		long w = v_write( out, b.data(), k, oo ? *oo : -1 ); if ( w < 0 ) { if ( !io ) D( in ).pos -= k; return w; }
		if ( io ) *io += w; else D( in ).pos -= k - w; if ( oo ) *oo += w; return w;
	}
	int v_dup( int fd ) { Enter e; if ( !rt_vfs_fd( fd ) ) return err( EBADF ); int r = new_fd( D( fd ).ino, D( fd ).flags ); D( r ).pos = D( fd ).pos; return r; }

	struct Cookie { int fd; };
	static ssize_t ck_read( void* c, char* b, size_t n ) { return v_read( ( (Cookie*)c )->fd, b, n, -1 ); }
	static ssize_t ck_write( void* c, const char* b, size_t n ) { long r = v_write( ( (Cookie*)c )->fd, b, n, -1 ); return r < 0 ? 0 : r; }
	static int ck_seek( void* c, off64_t* o, int wh ) { auto r = v_lseek( ( (Cookie*)c )->fd, *o, wh ); if ( r < 0 ) return -1; *o = r; return 0; }
	static int ck_close( void* c ) { int fd = ( (Cookie*)c )->fd; free( c ); return v_close( fd ); }
	void* v_fdopen( int fd, const char* mode )
	{
		Enter e; auto* c = (Cookie*)malloc( sizeof( Cookie ) ); c->fd = fd; cookie_io_functions_t io{ ck_read, ck_write, ck_seek, ck_close };
		FILE* f = fopencookie( c, mode, io ); if ( f ) ( *files )[f] = fd; return f;
	}
	void* v_fopen( const char* path, const char* mode )
	{
		Enter e; int fl = 0; bool plus = strchr( mode, '+' );
		if ( mode[0] == 'r' ) fl = plus ? O_RDWR : O_RDONLY; else if ( mode[0] == 'w' ) fl = ( plus ? O_RDWR : O_WRONLY ) | O_CREAT | O_TRUNC; else if ( mode[0] == 'a' ) fl = ( plus ? O_RDWR : O_WRONLY ) | O_CREAT | O_APPEND; else { errno = EINVAL; return nullptr; }
		if ( strchr( mode, 'x' ) ) fl |= O_EXCL;
		int fd = v_open( AT_FDCWD, path, fl, 0666 ); if ( fd < 0 ) return nullptr;
		return v_fdopen( fd, mode );
	}
	int v_fileno( void* f ) { if ( !files ) return -1; auto it = files->find( f ); return it == files->end() ? -1 : it->second; }
	void v_forget( void* f ) { Enter e; files->erase( f ); }
}
