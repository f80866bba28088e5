// C27 what the system tells about the process: folders, computer name, clock, sleep
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <ctime>
#include "scn.h"
#include "xo/filesystem/filesystem.h"
#include "xo/filesystem/path.h"
#include "xo/system/system_tools.h"

using namespace sim;

namespace
{
	const char* folders[] = { "/work", "/work/a", "/work/a/b b", "/work/c", "/" };
	const char* targets[] = { "/work", "/work/a", "a", "b b", "..", "a/b b", "c", "../c", "/work/none", "none/a", "/work/file", "file", ".", "/", "/work/a/b b" };
	const char* formats[] = { "%Y-%m-%d_%H.%M.%S", "%H:%M:%S", "%d/%m/%y", "%j day %A", "%s" };
	std::string absolute( const std::string& cwd, const std::string& p )
	{
		std::string s = p[0] == '/' ? p : cwd + "/" + p, o; std::vector<std::string> st; size_t i = 0;
		while ( i <= s.size() ) { auto j = std::min( s.find( '/', i ), s.size() ); auto x = s.substr( i, j - i ); if ( x == ".." ) { if ( !st.empty() ) st.pop_back(); } else if ( !x.empty() && x != "." ) st.push_back( x ); i = j + 1; }
		for ( auto& x : st ) o += "/" + x; return o.empty() ? "/" : o;
	}
	std::string date( std::time_t t, const char* f ) { std::tm tm = {}; localtime_r( &t, &tm ); char b[200]; b[strftime( b, sizeof b, f, &tm )] = 0; return b; }
	void gen( Rng& r, Plan& p )
	{
		p.cfg["exe"] = r.chance( 0.6 ) ? r.range( 1, 80 ) : r.chance( 0.5 ) ? r.range( 1000, 1050 ) : r.range( 80, 4000 ); p.cfg["host"] = r.chance( 0.3 ) ? r.range( 61, 64 ) : r.range( 1, 64 );
		p.cfg["home"] = r.below( 5 ); p.cfg["tmp"] = r.below( 3 ); p.cfg["tick"] = r.chance( 0.5 ) ? 0 : r.range( 1, 1000000 );
		if ( r.chance( 0.5 ) ) for ( auto* k : { "f.readlink", "f.host", "f.cwd", "f.sleep" } ) if ( r.chance( 0.5 ) ) p.cfg[k] = r.range( 50, 600 );
		if ( r.chance( 0.3 ) ) p.cfg["nomem"] = r.range( 20, 300 );
		int nth = r.chance( 0.5 ) ? 0 : (int)r.range( 2, 3 );
		for ( int t = nth ? 1 : 0; t <= nth; ++t ) {
			int n = (int)r.range( 3, nth ? 8 : 20 );
			for ( int i = 0; i < n; ++i ) {
				long nm = r.chance( 0.25 );
				switch ( r.below( nth ? 10 : 15 ) ) {
				case 0: p.add( t, "config", 0, 0, nm ); break;
				case 1: p.add( t, "documents", 0, 0, nm ); break;
				case 2: p.add( t, "temp", 0, 0, nm ); break;
				case 3: p.add( t, "app", 0, 0, nm ); break;
				case 4: p.add( t, "host", 0, 0, nm ); break;
				case 5: p.add( t, "cwd", 0, 0, nm ); break;
				case 6: p.add( t, "sleep", r.chance( 0.1 ) ? -(long)r.below( 50 ) : r.chance( 0.2 ) ? 0 : r.range( 1, 100000 ) ); break;
				case 7: p.add( t, "now", r.chance( 0.3 ) ? r.range( -4000000000000000, 4000000000000000 ) : 0 ); break;
				case 8: p.add( t, "date", r.below( 5 ), 0, nm ); break;
				case 9: p.add( t, "date_of", r.below( 5 ), r.chance( 0.2 ) ? -r.range( 0, 2000000000 ) : r.range( 0, 4000000000 ), nm ); break;
				case 10: case 11: if ( nth ) break; p.add( t, "env", r.below( 2 ), r.below( 5 ) ); break;	// the program changes its environment
				default: p.add( t, "cd", r.below( sizeof( targets ) / sizeof( *targets ) ), 0, nm );
				}
			}
		}
	}
	void run( const Plan& p, int )
	{
		for ( auto* d : folders ) if ( strlen( d ) > 1 ) { vfs_mkdir( d ); vfs_put( std::string( d ) + "/mark", d ); } vfs_put( "/mark", "/" ); vfs_put( "/work/file", "x" );
		std::string exe, dir, host, cwd = "/work"; const char* homes[] = { nullptr, "/home/user", "/home/u ser", "", "rel" }; const char* tmps[] = { nullptr, "/var/tmp", "C:/t m p" };
		const char *home = homes[p.get( "home" ) % 5], *tmp = tmps[p.get( "tmp" ) % 3];
		{
			Quiet q; long n = p.get( "exe" ); for ( long i = 0; (long)dir.size() < n; ++i ) dir += "/" + std::string( std::min<long>( n - dir.size(), 40 ), "abc"[i % 3] ); exe = dir + "/app"; n = p.get( "host" ); for ( long i = 0; i < n; ++i ) host += "abcdefghij-0123456789"[i * 7 % 21];
			set_program( exe ); set_computer( host ); set_env( "HOME", home ); set_env( "TMP", tmp );
		}
		set_clock_tick( p.get( "tick" ) ); set_faults( fault_cfg( p ) ); faults_on( true ); double nm = pct( p.get( "nomem" ) ); bool alone = true; for ( auto& o : p.ops ) alone = alone && o.t == 0;
		run_threads( p, [&]( const Op& o ) {
			if ( o.k == "env" ) { Quiet q; if ( !alone ) return; if ( o.a ) home = homes[o.b % 5]; else tmp = tmps[o.b % 3]; set_env( o.a ? "HOME" : "TMP", o.a ? home : tmp ); return; }
			long before = faults_fired(); std::string got, what; bool threw = false, oom = false, ok = false; std::string want; int64_t m0, r0, m1, r1; std::time_t now = 0;
			{ Quiet q; m0 = mono_ns(); r0 = real_ns(); }
			{
				AllocFaults a( o.c ? nm : 0 );
				try {
					if ( o.k == "config" ) got = xo::get_config_dir().str();
					else if ( o.k == "documents" ) got = xo::get_documents_dir().str();
					else if ( o.k == "temp" ) got = xo::temp_directory_path().str();
					else if ( o.k == "app" ) got = xo::get_application_dir().str();
					else if ( o.k == "host" ) got = xo::get_computer_name();
					else if ( o.k == "cwd" ) got = xo::current_path().str();
					else if ( o.k == "sleep" ) xo::sleep( (int)o.a );
					else if ( o.k == "now" ) { if ( o.a ) { { Quiet q; jump_realtime( o.a ); r0 = r1 = real_ns(); } probe( "clock_jump" ); } now = xo::get_current_time(); }
					else if ( o.k == "date" ) got = xo::get_date_time_str( formats[o.a] );
					else if ( o.k == "date_of" ) got = xo::get_date_time_str( std::time_t( o.b ), formats[o.a] );
					else if ( o.k == "cd" ) ok = xo::current_path( xo::path( targets[o.a] ) );
				}
				catch ( std::bad_alloc& ) { threw = oom = true; }
				catch ( std::exception& x ) { threw = true; Quiet q; what = x.what(); }
			}
			{ Quiet q; m1 = mono_ns(); r1 = real_ns(); } std::string mark; if ( o.k == "cd" && !threw ) { FaultsOff off; mark = xo::load_string( xo::path( "mark" ) ); }
			Quiet q; bool fired = faults_fired() > before; nontrivial();
			SIM_CHECK( !oom || nm > 0, "memory", "%s ran out of memory", o.k.c_str() );
			auto text = [&]( const std::string& w, bool may_fail ) {
				if ( threw ) SIM_CHECK( oom || fired || may_fail, "fails", "%s failed: %s", o.k.c_str(), what.c_str() );
				else if ( got.empty() && ( fired || may_fail ) ) probe( "reported_empty" );
				else SIM_CHECK( got == w, "wrong", "%s is '%s' instead of '%s'", o.k.c_str(), escape( got.substr( 0, 200 ) ).c_str(), escape( w.substr( 0, 200 ) ).c_str() );
			};
			if ( o.k == "config" ) text( home ? std::string( home ) + "/.config" : "not set", !home );
			else if ( o.k == "documents" ) text( home ? home : "not set", !home );
			else if ( o.k == "temp" ) text( tmp ? tmp : "/tmp", false );
			else if ( o.k == "app" ) text( dir, false );
			else if ( o.k == "host" ) text( host, false );
			else if ( o.k == "cwd" ) text( cwd, false );
			else if ( o.k == "sleep" ) { int64_t want = std::max<int64_t>( 0, o.a ) * 1000000; SIM_CHECK( !threw && m1 - m0 >= want, "woke-early", "sleep( %ld ) took %ld ns", o.a, (long)( m1 - m0 ) ); if ( alone ) SIM_CHECK( m1 - m0 <= want + 20000000, "woke-late", "sleep( %ld ) took %ld ns", o.a, (long)( m1 - m0 ) ); if ( fired ) probe( "interrupted_sleep" ); }
			else if ( o.k == "now" ) { if ( alone || !o.a ) SIM_CHECK( !alone || ( now >= r0 / 1000000000 - 1 && now <= r1 / 1000000000 + 1 ), "wrong-clock", "the time is %ld instead of %ld", (long)now, (long)( r1 / 1000000000 ) ); }
			else if ( o.k == "date" && !threw ) { if ( alone ) { bool in = false; for ( int64_t s = r0 / 1000000000 - 1; s <= r1 / 1000000000 + 1; ++s ) in = in || got == date( s, formats[o.a] ); SIM_CHECK( in, "wrong-date", "the date is '%s' instead of '%s'", got.c_str(), date( r1 / 1000000000, formats[o.a] ).c_str() ); } else SIM_CHECK( !got.empty(), "wrong-date", "no date" ); }
			else if ( o.k == "date_of" ) { if ( !threw ) text( date( o.b, formats[o.a] ), false ); }
			else if ( o.k == "cd" ) {
				std::string to = absolute( cwd, targets[o.a] ); bool is = vfs_is_dir( to );
				if ( threw ) { SIM_CHECK( oom, "fails", "changing the folder threw: %s", what.c_str() ); return; }
				SIM_CHECK( ok == is || ( fired && !ok ), "wrong-cd", "changing the folder to %s %s", to.c_str(), ok ? "succeeded" : "failed" ); if ( ok ) cwd = to, probe( "changed_folder" );
				SIM_CHECK( mark == cwd, "wrong-folder", "relative files are in '%s' instead of '%s'", mark.c_str(), cwd.c_str() );
				
			}
			if ( threw && !oom && !fired ) probe( "home_not_set" );
		} );
		faults_on( false );
		SIM_CHECK( open_fds() == 0, "fd-leak", "%d descriptors are still open", open_fds() );
	}
	Register r27( "C27.place", gen, run, 1 );
}
