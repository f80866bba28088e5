// C09 unique directories, C10 file contents and errors, C11 finding files
#include <cstdarg>
#include <cstdio>
#include "scn.h"
#include "xo/filesystem/filesystem.h"
#include "xo/filesystem/path.h"
#include "xo/string/pattern_matcher.h"
#include "xo/system/error_code.h"
#include <sys/stat.h>
#include <cstring>
#include <memory>

using namespace sim;

namespace
{
	std::string abs_of( const std::string& p ) { return p.empty() || p[0] == '/' ? p : "/work/" + p; }
	std::set<std::string> all_dirs()
	{
		std::set<std::string> s;
		for ( auto& f : vfs_list( "/work" ) ) if ( vfs_is_dir( f ) ) s.insert( f );
		return s;
	}
	std::map<std::string, std::string> all_files()
	{
		std::map<std::string, std::string> m;
		for ( auto& f : vfs_list( "/work" ) ) { std::string d; if ( !vfs_is_dir( f ) && vfs_get( f, d ) ) m[f] = d; }
		return m;
	}

	// ------------------------------------------------------------------------------------------------ C09
	const char* bases[] = { "/work/out/run", "rel/deep/er/run", "/work/x (1)", "/work/a.b/run.1", "plain" };
	void gen_unique( Rng& r, Plan& p )
	{
		int nth = (int)r.range( 1, 4 ), nb = (int)r.range( 1, 2 );
		p.cfg["base0"] = r.below( 5 ); p.cfg["base1"] = r.below( 5 ); p.cfg["max"] = r.chance( 0.6 ) ? 9999 : r.range( 1, 4 );
		for ( int b = 0; b < nb; ++b ) for ( int i = 0; i < 4; ++i ) if ( r.chance( 0.3 ) ) p.cfg[fmt( "pre%d.%d", b, i )] = r.chance( 0.3 ) ? r.range( 2, 3 ) : 1;	// already there: 1 a directory, 2 a file, 3 a link to a directory
		if ( r.chance( 0.05 ) ) { p.cfg["premany"] = r.range( 5, 150 ); if ( r.chance( 0.5 ) ) p.cfg["max"] = p.cfg["premany"] + r.range( -2, 3 ); }	// many names are taken
		if ( r.chance( 0.3 ) ) { p.cfg["f.mkdir"] = r.range( 50, 400 ); }
		if ( r.chance( 0.2 ) ) { p.cfg["f.stat"] = r.range( 50, 400 ); }
		for ( int t = nth == 1 ? 0 : 1; t <= nth; ++t ) {
			int n = (int)r.range( 1, 4 );
			for ( int i = 0; i < n; ++i ) {
				int k = (int)r.below( 8 );
				if ( k < 5 ) p.add( t, "create", r.below( nb ) );
				else if ( k == 5 ) p.add( t, "find", r.below( nb ) );
				else p.add( t, "dirs", r.below( 4 ), r.range( 1, 4 ) );
			}
		}
	}
	void run_unique( const Plan& p, int )
	{
		struct Made { std::string path; int base; bool threw; };
		struct Found { std::string path; int base; std::set<std::string> before; };
		std::vector<Made>* made; std::vector<Found>* found; std::map<std::string, int>* trues; std::set<std::string>* asked; std::set<std::string> pre;
		{ Quiet q; made = new std::vector<Made>; found = new std::vector<Found>; trues = new std::map<std::string, int>; asked = new std::set<std::string>; }
		int max = (int)p.get( "max", 9999 );
		auto base = [&]( long b ) { return std::string( bases[p.get( b % 2 ? "base1" : "base0" ) % 5] ); };
		auto cand = []( const std::string& b, int i ) { return i ? b + " (" + std::to_string( i ) + ")" : b; };
		for ( int b = 0; b < 2; ++b ) for ( int i = 0; i < 4; ++i ) {
			long k = p.get( fmt( "pre%d.%d", b, i ).c_str() ); auto c = abs_of( cand( base( b ), i ) );
			if ( k && !vfs_exists( c ) ) { if ( k == 1 ) vfs_mkdir( c ); else if ( k == 2 ) vfs_put( c, "a file" ); else { vfs_mkdir( c.substr( 0, c.find_last_of( '/' ) ) ); vfs_symlink( "/tmp", c ); } }
		}
		for ( int i = 0; i < p.get( "premany" ); ++i ) { auto c = abs_of( cand( base( 0 ), i ) ); if ( !vfs_exists( c ) ) vfs_mkdir( c ); }
		bool faulty = p.get( "f.mkdir" ) || p.get( "f.stat" );
		{ Quiet q; pre = all_dirs(); }
		set_faults( fault_cfg( p ) ); faults_on( true );
		run_threads( p, [&]( const Op& o ) {
			if ( o.k == "create" ) {
				Made m; m.base = (int)( o.a % 2 ); m.threw = false; std::set<std::string> before; { Quiet q; before = all_dirs(); }
				xo::path b( base( o.a ) );
				try { auto r = xo::create_unique_directory( b, max ); Quiet q; m.path = r.str(); }
				catch ( std::exception& ) { m.threw = true; }
				Quiet q;
				if ( !m.threw ) {
					SIM_CHECK( vfs_is_dir( abs_of( m.path ) ), "not-created", "create_unique_directory returned '%s', which is not a directory", m.path.c_str() );
					SIM_CHECK( !before.count( abs_of( m.path ) ), "not-unique", "create_unique_directory returned '%s', which was there before the call", m.path.c_str() );
				}
				made->push_back( m );
			}
			else if ( o.k == "find" ) {
				Found f; f.base = (int)( o.a % 2 ); { Quiet q; f.before = all_dirs(); }
				xo::path b( base( o.a ) );
				try { auto r = xo::find_unique_directory( b, max ); Quiet q; f.path = r.str(); }
				catch ( std::exception& ) {}
				Quiet q; found->push_back( f );
			}
			else {
				static const char* parts[] = { "p", "q q", "r.s", "t" };
				std::string d = "/work/dirs" + std::to_string( o.a % 2 ); if ( o.a >= 2 ) d = d.substr( 6 );
				for ( long i = 0; i < o.b; ++i ) d += std::string( "/" ) + parts[( i + o.a ) % 4];
				{ Quiet q; asked->insert( abs_of( d ) ); }
				bool r = xo::create_directories( xo::path( d ) );
				Quiet q;
				if ( r ) { SIM_CHECK( vfs_is_dir( abs_of( d ) ), "not-created", "create_directories('%s') returned true", d.c_str() ); SIM_CHECK( ++( *trues )[abs_of( d )] == 1, "created-twice", "two calls both say they created '%s'", d.c_str() ); }
				else if ( !faulty ) SIM_CHECK( vfs_is_dir( abs_of( d ) ), "not-created", "create_directories('%s') failed without any fault and the directory is not there", d.c_str() );
			}
		} );
		faults_on( false );
		Quiet q;
		auto dirs = all_dirs(); std::set<std::string> mine;
		for ( auto& m : *made ) {
			auto b = base( m.base );
			if ( m.threw ) {
				probe( "create_threw" );
				if ( !faulty ) for ( int i = 0; i < max; ++i ) SIM_CHECK( vfs_exists( abs_of( cand( b, i ) ) ), "gave-up", "create_unique_directory gave up after %d attempts although '%s' was free", max, cand( b, i ).c_str() );
				continue;
			}
			SIM_CHECK( mine.insert( abs_of( m.path ) ).second, "not-unique", "two calls returned '%s'", m.path.c_str() );
			int idx = -1;
			for ( int i = 0; i < 400 && idx < 0; ++i ) if ( cand( b, i ) == m.path ) idx = i;
			SIM_CHECK( idx >= 0 && idx < max, "wrong-name", "'%s' is not a numbered name of '%s' within %d attempts", m.path.c_str(), b.c_str(), max );
			if ( !faulty ) for ( int i = 0; i < idx; ++i ) SIM_CHECK( vfs_exists( abs_of( cand( b, i ) ) ), "skipped", "'%s' was returned although '%s' was free", m.path.c_str(), cand( b, i ).c_str() );
			if ( idx > 0 ) probe( "numbered" );
		}
		if ( !faulty ) for ( auto& f : *found ) if ( f.path.empty() ) for ( int i = 0; i < max; ++i ) SIM_CHECK( vfs_exists( abs_of( cand( base( f.base ), i ) ) ), "gave-up", "find_unique_directory gave up after %d attempts although '%s' was free", max, cand( base( f.base ), i ).c_str() );
		if ( !p.get( "f.stat" ) ) for ( auto& f : *found ) if ( !f.path.empty() ) {
			SIM_CHECK( !f.before.count( abs_of( f.path ) ), "not-unique", "find_unique_directory returned '%s', which was there before the call", f.path.c_str() );
			auto b = base( f.base ); for ( int i = 0; i < max && cand( b, i ) != f.path; ++i ) SIM_CHECK( vfs_is_dir( abs_of( cand( b, i ) ) ), "skipped", "find_unique_directory returned '%s' although '%s' was free", f.path.c_str(), cand( b, i ).c_str() ); bool known = false; for ( int i = 0; i < max; ++i ) known = known || cand( b, i ) == f.path; SIM_CHECK( known, "wrong-name", "find_unique_directory with %d attempts returned '%s'", max, f.path.c_str() );
		}
		// nothing else was created, nothing removed
		for ( auto& d : pre ) SIM_CHECK( dirs.count( d ), "removed", "'%s' is gone", d.c_str() );
		std::set<std::string> want = pre;
		auto add = [&]( std::string d ) { for ( ; d.size() > 5; d = d.substr( 0, d.find_last_of( '/' ) ) ) want.insert( d ); };
		for ( auto& m : mine ) add( m ); for ( auto& a : *asked ) add( a ); for ( auto& m : *made ) if ( m.threw ) { auto s = abs_of( base( m.base ) ); add( s.substr( 0, s.find_last_of( '/' ) ) ); }
		for ( auto& d : dirs ) SIM_CHECK( want.count( d ), "stray-directory", "'%s' was created but never returned or asked for", d.c_str() );
		SIM_CHECK( open_fds() == 0, "fd-leak", "%d descriptors are still open", open_fds() );
	}
	Register r9( "C09.unique", gen_unique, run_unique );

	// ------------------------------------------------------------------------------------------------ C10
	std::string blob( long seed, long n )
	{
		std::string s; s.resize( n ); Rng r( seed * 7919 + n );
		for ( auto& c : s ) { c = (char)r.below( 256 ); if ( r.chance( 0.05 ) ) c = "\r\n\0\x1a\xff"[r.below( 5 )]; }
		return s;
	}
	long pick_size( Rng& r ) { if ( r.chance( 0.02 ) ) return r.pick<long>( { 65535, 65536, 65537, 131072, 200000 } ) + r.range( 0, 5 ); return r.pick<long>( { 0, 1, 7, 100, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 9000, 20000 } ) + ( r.chance( 0.3 ) ? r.range( 0, 50 ) : 0 ); }
	void gen_content( Rng& r, Plan& p )
	{
		int nth = (int)r.range( 1, 3 );
		if ( nth == 1 ) nth = 0;
		p.cfg["shared"] = nth > 1 && r.chance( 0.6 );
		auto some = [&]( const char* k, int lo, int hi, double pr ) { if ( r.chance( pr ) ) p.cfg[k] = r.range( lo, hi ); };
		if ( r.chance( 0.5 ) ) { some( "f.rshort", 100, 700, 0.6 ); some( "f.wshort", 100, 700, p.cfg["shared"] ? 0 : 0.6 ); some( "f.eintr", 50, 300, 0.4 ); }	// must not matter
		if ( r.chance( 0.6 ) ) { some( "f.open", 30, 250, 0.3 ); some( "f.read", 30, 250, 0.3 ); some( "f.write", 30, 250, 0.4 ); some( "f.close", 30, 250, 0.3 ); some( "f.stat", 30, 250, 0.15 ); some( "f.mkdir", 30, 250, 0.15 ); some( "f.chmod", 30, 250, 0.15 ); if ( r.chance( 0.3 ) ) p.cfg["f.diskcap"] = r.range( 100, 60000 ); }
		for ( int t = nth ? 1 : 0; t <= nth; ++t ) {
			int n = (int)r.range( 2, nth ? 5 : 9 );
			for ( int i = 0; i < n; ++i ) {
				int k = (int)r.below( 12 ); long ec = r.chance( 0.6 );
				if ( k < 4 ) p.add( t, "save", r.below( 4 ), pick_size( r ), ec );
				else if ( k < 6 ) p.add( t, "append", r.below( 4 ), pick_size( r ), ec );
				else if ( k < 9 ) p.add( t, "load", r.below( 5 ), 0, ec );
				else if ( k < 11 ) p.add( t, "copy", r.below( 6 ), r.below( 6 ), ec + 2 * r.chance( 0.6 ) );
				else p.add( t, "remove", r.below( 4 ) );
				if ( p.cfg["shared"] && r.chance( 0.5 ) ) p.add( t, "log", i );
			}
		}
	}
	void run_content( const Plan& p, int )
	{
		vfs_mkdir( "/work/dir0" );
		set_faults( fault_cfg( p ) ); faults_on( true );
		bool hard = p.get( "f.open" ) || p.get( "f.read" ) || p.get( "f.write" ) || p.get( "f.close" ) || p.get( "f.stat" ) || p.get( "f.mkdir" ) || p.get( "f.chmod" ) || p.get( "f.diskcap", -1 ) >= 0;
		std::vector<std::pair<std::string, bool>>* logged; { Quiet q; logged = new std::vector<std::pair<std::string, bool>>; }
		std::vector<std::map<std::string, std::string>>* models; { Quiet q; models = new std::vector<std::map<std::string, std::string>>( 8 ); }
		auto file = []( int t, long i ) -> std::string {
			std::string d = "/work/t" + std::to_string( t );
			switch ( i ) { case 0: return d + "a.bin"; case 1: return d + "/sub dir/b"; case 2: return "t" + std::to_string( t ) + "_rel"; case 3: return d + "/c.txt"; case 4: return d + "/never/there"; default: return "/work/dir0"; }
		};
		auto content = []( std::map<std::string, std::string>& m, const std::string& f ) -> const std::string* { auto it = m.find( f ); return it == m.end() ? nullptr : &it->second; };
		run_threads( p, [&]( const Op& o ) {
			std::map<std::string, std::string>* m; std::string f, s; { Quiet q; m = &( *models )[o.t]; f = file( o.t, o.a ); }
			xo::error_code ec; bool use_ec = o.c & 1, threw = false; std::string why;
			auto done = [&] { return !threw && ec.good(); };
			auto after = [&]( const std::string& name, std::string& out ) { return vfs_get( abs_of( name ), out ); };
			if ( o.k == "save" || o.k == "append" ) {
				{ Quiet q; s = blob( o.t * 31 + o.a + ( o.k == "save" ), o.b ); }
				try { if ( o.k == "save" ) xo::save_string( xo::path( f ), s, use_ec ? &ec : nullptr ); else xo::append_string( xo::path( f ), s, use_ec ? &ec : nullptr ); }
				catch ( std::exception& e ) { threw = true; Quiet q; why = e.what(); }
				Quiet q;
				SIM_CHECK( !( threw && use_ec ), "throws", "%s_string threw although it was given an error_code: %s", o.k.c_str(), why.c_str() );
				const std::string* old = content( *m, f ); std::string now; bool there = after( f, now ), prefix_ok;
				std::string want = o.k == "append" && old ? *old + s : s;
				if ( done() ) {
					SIM_CHECK( there && now == want, "lost-write", "%s_string of %zu bytes to %s succeeded, but the file %s (%zu bytes, expected %zu)", o.k.c_str(), s.size(), f.c_str(), there ? "differs" : "is missing", now.size(), want.size() );
				}
				else {
					SIM_CHECK( hard && faults_fired() > 0, "fails", "%s_string to %s failed without any fault: %s", o.k.c_str(), f.c_str(), ec.message().c_str() );
					prefix_ok = !there ? !old : want.compare( 0, now.size(), now ) == 0 && ( o.k == "save" || !old || now.size() >= old->size() );
					SIM_CHECK( prefix_ok || ( old && there && now == *old ), "garbage", "a failed %s_string to %s left %zu bytes that are neither the old contents nor the start of the new", o.k.c_str(), f.c_str(), now.size() );
					probe( "reported_failure" );
				}
				if ( there ) ( *m )[f] = now; else m->erase( f );
			}
			else if ( o.k == "load" ) {
				std::string got;
				try { got = xo::load_string( xo::path( f ), use_ec ? &ec : nullptr ); } catch ( std::exception& e ) { threw = true; Quiet q; why = e.what(); }
				Quiet q; const std::string* old = content( *m, f );
				SIM_CHECK( !( threw && use_ec ), "throws", "load_string threw although it was given an error_code: %s", why.c_str() );
				if ( done() ) { SIM_CHECK( old, "invented", "load_string of %s succeeded, but there is no such file", f.c_str() ); SIM_CHECK( got == *old, "partial-read", "load_string of %s returned %zu bytes of %zu and no error", f.c_str(), got.size(), old->size() ); }
				else { SIM_CHECK( !old || ( hard && faults_fired() > 0 ), "fails", "load_string of %s failed without any fault", f.c_str() ); SIM_CHECK( got.empty(), "partial-read", "a failed load_string returned data" ); }
			}
			else if ( o.k == "copy" ) {
				std::string to; { Quiet q; to = file( o.t, o.b ); }
				bool over = o.c & 2, ok = false;
				try { ok = xo::copy_file( xo::path( f ), xo::path( to ), over, use_ec ? &ec : nullptr ); } catch ( std::exception& e ) { threw = true; Quiet q; why = e.what(); }
				Quiet q;
				SIM_CHECK( !( threw && use_ec ), "throws", "copy_file threw although it was given an error_code: %s", why.c_str() );
				if ( use_ec ) SIM_CHECK( ok == ec.good(), "inconsistent", "copy_file returned %d, but the error_code says '%s'", (int)ok, ec.message().c_str() );
				else SIM_CHECK( ok != threw, "inconsistent", "copy_file returned false without throwing" );
				const std::string *src = content( *m, f ), *old = content( *m, to ); std::string now; bool there = after( to, now );
				bool dirs_there = o.b != 5 && o.a != 5 && vfs_is_dir( abs_of( to ).substr( 0, abs_of( to ).find_last_of( '/' ) ) );
				if ( ok ) {
					SIM_CHECK( src && there && now == *src, "lost-write", "copy_file to %s succeeded, but the contents differ", to.c_str() );
					SIM_CHECK( over || !old, "overwritten", "copy_file replaced %s although it was told not to", to.c_str() );
				}
				else {
					bool allowed = src && dirs_there && ( over || !old ) && f != to;
					SIM_CHECK( !allowed || ( ( hard || p.get( "f.eintr" ) ) && faults_fired() > 0 ), "fails", "copy_file %s to %s failed without any fault", f.c_str(), to.c_str() );
					if ( !over && old ) SIM_CHECK( there && now == *old, "overwritten", "copy_file damaged %s although it was told not to replace it", to.c_str() );
					if ( !src && old ) SIM_CHECK( there && now == *old, "garbage", "copying a file that is not there damaged %s", to.c_str() );
					if ( there && o.b != 5 ) SIM_CHECK( ( old && now == *old ) || ( src && src->compare( 0, now.size(), now ) == 0 ), "garbage", "a failed copy_file left something else in %s", to.c_str() );
				}
				if ( o.b != 5 ) { if ( there ) ( *m )[to] = now; else m->erase( to ); }
			}
			else if ( o.k == "remove" ) {
				bool r = xo::remove( xo::path( f ) );
				Quiet q; bool was = content( *m, f ) != nullptr;
				SIM_CHECK( r == was && !vfs_exists( abs_of( f ) ), "remove", "remove of %s returned %d, the file was %sthere", f.c_str(), (int)r, was ? "" : "not " ); m->erase( f );
			}
			else if ( o.k == "log" ) {
				{ Quiet q; s = fmt( "<t%d line %ld %s>\n", o.t, o.a, std::string( ( o.a * 37 ) % 300, char( 'a' + o.t ) ).c_str() ); }
				try { xo::append_string( xo::path( "/work/shared.log" ), s, &ec ); } catch ( std::exception& e ) { fail( "throws", "append_string threw: %s", e.what() ); }
				Quiet q; logged->push_back( { s, ec.good() } );
			}
			// nothing but the named file changed
			Quiet q;
			std::string mine = "/work/t" + std::to_string( o.t );
			for ( auto& x : all_files() ) if ( x.first.compare( 0, mine.size(), mine ) == 0 ) { bool known = false; for ( auto& y : *m ) if ( abs_of( y.first ) == x.first ) { known = true; SIM_CHECK( y.second == x.second, "garbage", "%s changed %s", o.k.c_str(), x.first.c_str() ); } SIM_CHECK( known, "stray-file", "%s created %s", o.k.c_str(), x.first.c_str() ); }
			for ( auto& y : *m ) SIM_CHECK( vfs_exists( abs_of( y.first ) ), "garbage", "%s removed %s", o.k.c_str(), y.first.c_str() );
		} );
		faults_on( false );
		Quiet q;
		if ( p.get( "shared" ) ) {
			std::string d; vfs_get( "/work/shared.log", d ); bool all_good = true;
			for ( auto& l : *logged ) {
				size_t n = 0; for ( size_t i = d.find( l.first ); i != std::string::npos; i = d.find( l.first, i + 1 ) ) ++n;
				SIM_CHECK( n <= 1, "duplicate", "a line appended once is in the file %zu times", n ); SIM_CHECK( n == 1 || !l.second, "lost-write", "a line that was appended by one of several threads is damaged or missing" ); all_good = all_good && l.second;
			}
			size_t want = 0; for ( auto& l : *logged ) want += l.first.size();
			if ( all_good ) SIM_CHECK( d.size() == want, "garbage", "the shared file has %zu bytes instead of %zu", d.size(), want );
			probe( "shared_append", (long)logged->size() );
		}
		SIM_CHECK( open_fds() == 0, "fd-leak", "%d descriptors are still open", open_fds() );
	}
	Register r10( "C10.content", gen_content, run_content );

	// ------------------------------------------------------------------------------------------------ C11
	const char* names[] = { "a.txt", "b.txt", "c.log", "sub", "deep", "x.txt.bak", "run_01.par", "run_02.par", "no_ext", ".hidden", "sub.txt", "A.TXT" };
	const char* pats[] = { "*", "*.txt", "*.log;*.par", "run_*", "?.txt", "", "sub*", "*_0[12]*", "a.txt;b.txt;c.log", "*hidden*" };
	bool glob1( const char* p, const char* s )
	{
		if ( !*p ) return !*s;
		if ( *p == '*' ) return glob1( p + 1, s ) || ( *s && glob1( p, s + 1 ) );
		if ( !*s ) return false;
		if ( *p == '[' ) { const char* e = strchr( p, ']' ); bool in = false; for ( auto* c = p + 1; c < e; ++c ) in = in || *c == *s; return in && glob1( e + 1, s + 1 ); }
		return ( *p == '?' || *p == *s ) && glob1( p + 1, s + 1 );
	}
	bool globs( const std::string& pats, const std::string& s )
	{
		size_t i = 0;
		while ( i < pats.size() ) { size_t j = pats.find( ';', i ); if ( j == std::string::npos ) j = pats.size(); if ( j > i && glob1( pats.substr( i, j - i ).c_str(), s.c_str() ) ) return true; i = j + 1; }
		return false;
	}
	void gen_find( Rng& r, Plan& p )
	{
		p.cfg["nodes"] = r.chance( 0.06 ) ? r.range( 15, 150 ) : r.range( 0, 14 ); if ( r.chance( 0.06 ) ) { p.cfg["deep"] = 1; p.cfg["nodes"] += 10; } p.cfg["tree"] = (long)( r.next() >> 20 ); if ( r.chance( 0.3 ) ) p.cfg["links"] = 1;
		if ( r.chance( 0.7 ) ) p.cfg["f.shuffle"] = 700; if ( r.chance( 0.4 ) ) p.cfg["f.dtype"] = r.range( 100, 1000 );
		if ( r.chance( 0.25 ) ) { if ( r.chance( 0.5 ) ) p.cfg["f.readdir"] = r.range( 20, 200 ); if ( r.chance( 0.5 ) ) p.cfg["f.opendir"] = r.range( 20, 200 ); if ( r.chance( 0.5 ) ) p.cfg["f.stat"] = r.range( 20, 200 ); if ( r.chance( 0.5 ) ) p.cfg["f.open"] = r.range( 20, 200 ); }
		int nth = r.chance( 0.5 ) ? 0 : (int)r.range( 2, 3 );
		for ( int t = nth ? 1 : 0; t <= nth; ++t ) {
			p.add( t, "cd", r.below( 3 ) );
			int n = (int)r.range( 1, 4 );
			for ( int i = 0; i < n; ++i ) {
				int k = (int)r.below( 8 );
				if ( k == 0 ) p.add( t, "cd", r.below( 3 ) );
				else if ( k < 4 ) p.add( t, "files", r.below( 10 ), r.chance( 0.5 ) ? -1 : (long)r.below( 10 ), p.cfg.count( "deep" ) ? r.range( -2, 12 ) : r.range( -2, 3 ) );
				else if ( k < 6 ) p.add( t, "find", r.below( 16 ), r.below( 16 ), r.below( 2 ) );
				else if ( k == 6 ) p.add( t, "dirs", r.below( 16 ), r.below( 16 ), r.chance( 0.5 ) ? 2 : (long)r.below( 5 ) );
				else p.add( t, "exists", r.below( 36 ) );
			}
		}
	}
	void run_find( const Plan& p, int )
	{
		std::vector<std::string> dirs{ "/work/tree" }, every; vfs_mkdir( "/work/tree" ); vfs_mkdir( "/work/alt" ); vfs_put( "/work/alt/a.txt", "alt" ); vfs_put( "/work/alt/c.log", "alt" ); vfs_put( "/work/a.txt", "top" ); vfs_special( "/work/sock", S_IFSOCK | 0600 ); vfs_symlink( "/work/alt", "/work/ldir" ); vfs_symlink( "/work/alt/c.log", "/work/lfile" ); vfs_symlink( "/nowhere", "/work/lnone" );
		{
			Quiet q; Rng r( (uint64_t)p.get( "tree" ) );
			for ( long i = 0; i < p.get( "nodes" ); ++i ) {
				auto d = dirs[p.get( "deep" ) && r.chance( 0.7 ) ? dirs.size() - 1 : r.below( dirs.size() )] + "/" + names[r.below( 12 )];
				if ( std::count( every.begin(), every.end(), d ) ) continue;
				if ( r.chance( 0.4 ) ) { vfs_mkdir( d ); dirs.push_back( d ); } else if ( r.chance( 0.1 ) ) vfs_symlink( r.chance( 0.5 ) ? "/work/a.txt" : "/nowhere", d ); else vfs_put( d, d );
				every.push_back( d );
				if ( p.get( "links" ) && r.chance( 0.2 ) && !std::count( every.begin(), every.end(), d + "_l" ) ) { vfs_symlink( "/work/alt", d + "_l" ); for ( auto* e : { "_l", "_l/a.txt", "_l/c.log" } ) every.push_back( d + e ); }
			}
		}
		bool hard = p.get( "f.readdir" ) || p.get( "f.opendir" ) || p.get( "f.stat" ) || p.get( "f.open" );
		set_faults( fault_cfg( p ) ); faults_on( true );
		std::vector<std::string> cwds{ "", "/work/tree", "/work/alt" };
		std::vector<std::string>* cur; { Quiet q; cur = new std::vector<std::string>( 8 ); }
		auto name_of = [&]( long i ) -> std::string { return i < 12 ? names[i] : i == 12 ? "/work/a.txt" : i == 13 ? "/work/tree" : i == 14 ? "/work/sock" : "/work/tree/sub/a.txt"; };
		auto is_file = []( const std::string& f ) { std::string d; return vfs_exists( f ) && !vfs_is_dir( f ) && vfs_get( f, d ); };
		auto under = []( const std::string& d, const std::string& f ) { return f[0] == '/' ? f : d.empty() ? "/work/" + f : d + "/" + f; };
		run_threads( p, [&]( const Op& o ) {
			if ( o.k == "cd" ) { xo::current_find_file_path( xo::path( cwds[o.a] ) ); Quiet q; ( *cur )[o.t] = cwds[o.a]; }
			else if ( o.k == "exists" ) {
				std::string f; { Quiet q; static const char* more[] = { "/work/ldir", "/work/lfile", "/work/lnone", "/work/ldir/a.txt" }; f = o.a < 16 ? name_of( o.a ) : o.a < 20 ? more[o.a - 16] : every.empty() ? "/work/tree" : every[( o.a * 7 ) % every.size()]; }
				bool e = xo::exists( xo::path( f ) ), fe = xo::file_exists( xo::path( f ) ), de = xo::directory_exists( xo::path( f ) );
				Quiet q; auto a = abs_of( f );
				SIM_CHECK( e == vfs_exists( a ) || ( hard && !e ), "exists", "exists('%s') is %d", f.c_str(), (int)e );
				SIM_CHECK( de == vfs_is_dir( a ) || ( hard && !de ), "exists", "directory_exists('%s') is %d", f.c_str(), (int)de );
				if ( !p.get( "f.stat" ) ) SIM_CHECK( fe == is_file( a ) || ( hard && !fe ), "exists", "file_exists('%s') is %d", f.c_str(), (int)fe );
			}
			else if ( o.k == "find" ) {
				std::string a, b; { Quiet q; a = name_of( o.a ); b = name_of( o.b ); }
				std::string got; bool some = false;
				if ( o.c ) { auto r = xo::try_find_file( { xo::path( a ), xo::path( b ) } ); some = bool( r ); if ( some ) got = r->str(); }
				else { try { got = xo::find_file( { xo::path( a ), xo::path( b ) } ).str(); some = true; } catch ( std::exception& ) {} }
				Quiet q;
				SIM_CHECK( xo::current_find_file_path().str() == ( *cur )[o.t], "search-path", "the search path of this thread changed to '%s'", xo::current_find_file_path().str().c_str() );
				auto fa = under( ( *cur )[o.t], a ), fb = under( ( *cur )[o.t], b );
				// an absolute path that is missing may still be found below the search path by find_file
				std::string want = is_file( fa ) ? fa : is_file( fb ) ? fb : "";
				if ( hard ) { if ( some && !p.get( "f.stat" ) ) SIM_CHECK( is_file( abs_of( got ) ), "found-wrong", "'%s' was found, which is not a file", got.c_str() ); }
				else if ( want.empty() ) SIM_CHECK( !some, "found-wrong", "'%s' was found, which is not a file", got.c_str() );
				else SIM_CHECK( some && abs_of( got ) == want, "found-wrong", "looking for '%s' and '%s' in '%s' found '%s' instead of '%s'", a.c_str(), b.c_str(), ( *cur )[o.t].c_str(), got.c_str(), want.c_str() );
				if ( some ) probe( "found" );
			}
			else if ( o.k == "dirs" ) {
				std::string f; std::vector<xo::path> ds; { Quiet q; f = name_of( o.a ); for ( long i = 0; i < o.c; ++i ) ds.push_back( xo::path( cwds[1 + ( o.b >> i ) % 2] ) ); }
				auto r = xo::try_find_file( xo::path( f ), ds );
				Quiet q; std::string want;
				if ( f[0] == '/' ) { if ( is_file( f ) ) want = f; else f = f.substr( f.find_last_of( '/' ) + 1 ); }
				for ( auto& d : ds ) if ( want.empty() && is_file( under( d.str(), f ) ) ) want = under( d.str(), f );
				if ( hard ) { if ( r && !p.get( "f.stat" ) ) SIM_CHECK( is_file( r->str() ), "found-wrong", "'%s' was found, which is not a file", r->str().c_str() ); }
				else SIM_CHECK( want.empty() ? !r : r && r->str() == want, "found-wrong", "looking for '%s' found '%s' instead of '%s'", f.c_str(), r ? r->str().c_str() : "nothing", want.c_str() );
			}
			else {
				std::vector<std::string> got; bool threw = false;
				std::string inc = pats[o.a], exc = o.b < 0 ? "" : pats[o.b];
				int levels = (int)o.c; bool rec = levels != -2;
				try {
					auto v = o.b < 0 ? xo::find_files( xo::path( "/work/tree" ), xo::pattern_matcher( inc ), rec, levels ) : xo::find_files( xo::path( "/work/tree" ), xo::pattern_matcher( inc ), xo::pattern_matcher( exc ), rec, levels );
					Quiet q; for ( auto& x : v ) got.push_back( x.str() );
				}
				catch ( std::exception& ) { threw = true; }
				Quiet q;
				if ( threw ) { SIM_CHECK( hard && faults_fired() > 0, "throws", "find_files threw without any fault" ); return; }
				std::vector<std::string> want;
				for ( auto& f : every ) {
					auto rel = f.substr( 11 ); long depth = std::count( rel.begin(), rel.end(), '/' ); auto base = rel.substr( rel.find_last_of( '/' ) == std::string::npos ? 0 : rel.find_last_of( '/' ) + 1 );
					if ( ( rec ? levels < 0 || depth <= levels : depth == 0 ) && globs( inc, base ) && !globs( exc, base ) ) want.push_back( f );
				}
				std::sort( want.begin(), want.end() ); std::sort( got.begin(), got.end() );
				if ( got != want ) {
					std::string d; for ( auto& x : want ) if ( !std::count( got.begin(), got.end(), x ) ) { d = "misses " + x; break; }
					if ( d.empty() ) for ( auto& x : got ) if ( std::count( got.begin(), got.end(), x ) != std::count( want.begin(), want.end(), x ) ) { d = "returns " + x; break; }
					fail( "wrong-files", "find_files( '%s', '%s', levels %d ) %s (%zu files instead of %zu)", inc.c_str(), exc.c_str(), levels, d.c_str(), got.size(), want.size() );
				}
				probe( "matched", (long)want.size() );
			}
		} );
		faults_on( false );
		SIM_CHECK( open_fds() == 0, "fd-leak", "%d descriptors are still open", open_fds() );
	}
	Register r11( "C11.find", gen_find, run_find );
}
