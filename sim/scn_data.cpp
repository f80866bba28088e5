// C16 tables, storages and data files
#include <cstdarg>
#include <cstdio>
#include <fstream>
#include <sstream>
#include <memory>
#include "scn.h"
#include "xo/container/table.h"
#include "xo/container/storage.h"
#include "xo/container/storage_tools.h"
#include "xo/filesystem/path.h"
#include "xo/filesystem/filesystem.h"
#include "xo/serialization/container_io.h"
#include "xo/system/debug_storage.h"
#include "xo/string/string_tools.h"
#include "xo/utility/smart_enum.h"

using namespace sim;

xo_smart_enum_class( shade, dark, light, lighter, day, daylight );

namespace
{
	enum Kind { TABLE, STORAGE, DOUBLES, INTS, STRINGS, PAIRS, ENUMS, NKIND };
	const char* shades[] = { "dark", "light", "lighter", "day", "daylight" };
	bool is_shade( const std::string& s ) { for ( auto x : shades ) if ( s == x ) return true; return false; }
	enum { EC = 1, NOHEAD = 2, NOMEM = 4 };
	double num( long c, long i, long j ) { return ( (long)( Rng::mix( c * 1000 + i * 37 + j ) % 8001 ) - 4000 ) / 8.0; }	// at most six digits
	std::string show( double v ) { return fmt( "%g", v ); }
	// what a file is supposed to contain
	struct Grid { std::vector<std::string> cols, rows; std::vector<std::vector<double>> v; };
	std::string name_of( long c, int i, const char* p ) { std::string s = p + std::to_string( i ); if ( Rng::mix( c * 77 + i ) % 3 == 0 ) s += Rng::mix( c + i ) % 2 ? "/x.y" : "_\xc3\xa9"; return s; }
	Grid make_grid( long rows, long cols, long c ) { Grid g; for ( int i = 0; i < cols; ++i ) g.cols.push_back( name_of( c, i, "c" ) ); for ( int i = 0; i < rows; ++i ) { g.rows.push_back( name_of( c, i, "r" ) ); g.v.emplace_back(); for ( int j = 0; j < cols; ++j ) g.v.back().push_back( num( c, i, j ) ); } return g; }
	std::string text_of( int kind, const Grid& g )
	{
		std::string s; size_t k = 0;
		if ( kind == TABLE ) { s = "Row"; for ( auto& c : g.cols ) s += "\t" + c; s += "\n"; for ( size_t i = 0; i < g.rows.size(); ++i ) { s += g.rows[i]; for ( auto x : g.v[i] ) s += "\t" + show( x ); s += "\n"; } }
		else if ( kind == STORAGE ) { for ( size_t j = 0; j < g.cols.size(); ++j ) s += ( j ? "\t" : "" ) + g.cols[j]; s += "\n"; for ( auto& r : g.v ) { for ( size_t j = 0; j < r.size(); ++j ) s += ( j ? "\t" : "" ) + show( r[j] ); s += "\n"; } }
		else for ( size_t i = 0; i < g.rows.size(); ++i ) { for ( size_t j = 0; j < g.v[i].size(); ++j, ++k ) { if ( kind == DOUBLES ) s += show( g.v[i][j] ); else if ( kind == INTS ) s += std::to_string( (int)( g.v[i][j] * 8 ) ); else if ( kind == STRINGS ) s += g.rows[i] + g.cols[j]; else if ( kind == ENUMS ) s += shades[(long)( g.v[i][j] * 8 + 4000 ) % 5]; else s += std::to_string( (int)( g.v[i][j] * 8 ) ) + " " + show( g.v[i][j] ); s += ( j + 1 == g.v[i].size() ? "\n" : " " ); } }
		return s;
	}
	void gen( Rng& r, Plan& p )
	{
		int mode = (int)r.below( 3 );
		auto f = [&]( const char* k, double pr, int hi ) { if ( r.chance( pr ) ) p.cfg[k] = r.range( 20, hi ); };
		if ( mode == 0 ) { f( "f.open", 0.3, 250 ); f( "f.read", 0.5, 300 ); f( "f.write", 0.4, 300 ); f( "f.rshort", 0.6, 900 ); f( "f.wshort", 0.6, 900 ); f( "f.eintr", 0.4, 300 ); f( "f.close", 0.3, 300 ); f( "f.mkdir", 0.2, 300 ); if ( r.chance( 0.3 ) ) p.cfg["f.diskcap"] = r.range( 0, 500 ); }
		if ( mode == 1 ) { f( "f.rshort", 0.7, 900 ); f( "f.wshort", 0.7, 900 ); f( "f.eintr", 0.5, 300 ); p.cfg["nomem"] = r.chance( 0.4 ) ? r.range( 5, 100 ) : 0; }
		int nth = r.chance( 0.6 ) ? 1 : (int)r.range( 2, 3 );
		for ( int t = 1; t <= nth; ++t ) {
			int n = (int)r.range( 1, 5 );
			for ( int i = 0; i < n; ++i ) {
				long kind = (long)r.below( NKIND ), fl = ( r.chance( 0.5 ) ? EC : 0 ) | ( r.chance( 0.3 ) ? NOHEAD : 0 ) | ( r.chance( 0.4 ) ? NOMEM : 0 );
				long big = r.chance( 0.03 ) ? 300 : 0;	// more than one buffer
				p.add( t, "write", kind, r.range( 0, 7 ) + big, r.range( 1, 6 ) * 1000 + r.below( 1000 ) );
				if ( r.chance( 0.25 ) ) p.add( t, "cut", r.below( 1001 ) );
				if ( r.chance( 0.06 ) ) p.add( t, "junk", r.below( 1001 ), 0, 0, r.pick<const char*>( { "abc", "\x80", "1 2 3", ",", "1e", "-" } ) );
				if ( r.chance( 0.03 ) ) p.add( t, "remove" );
				int m = (int)r.range( 1, 2 ); for ( int j = 0; j < m; ++j ) p.add( t, "read", kind, fl );
			}
			if ( r.chance( 0.25 ) ) p.add( t, "func", r.range( -20, 20 ), r.range( 0, 60 ), r.below( 3 ) );
		}
	}
	struct World { std::string file; Grid g; int kind = -1; std::string text; bool known = false, cut = false, head = true; };
	std::vector<std::string> split( const std::string& s, const char* sep ) { std::vector<std::string> v; size_t i = 0; while ( i < s.size() ) { size_t e = s.find_first_of( sep, i ); if ( e == std::string::npos ) e = s.size(); if ( e > i ) v.push_back( s.substr( i, e - i ) ); i = e + 1; } return v; }
	struct Tokens { std::vector<std::string> t; bool tail; };	// tail: the last token touches the end
	Tokens tokens( const std::string& s ) { Tokens r; r.t = split( s, " \t\n" ); r.tail = !s.empty() && !strchr( " \t\n", s.back() ); return r; }
	bool number( const std::string& s, double& v ) { char* e; v = strtod( s.c_str(), &e ); return e != s.c_str() && !*e; }
	// independent reading of a table; false: damaged
	bool parse_table( const std::string& s, bool head, Grid& g, bool& unclear )
	{
		size_t nl = s.find( '\n' ); auto h = split( s.substr( 0, nl ), " \t" ); for ( size_t i = head; i < h.size(); ++i ) { for ( auto& c : g.cols ) if ( c == h[i] ) return false; g.cols.push_back( h[i] ); }
		if ( nl == std::string::npos ) return true;
		auto t = tokens( s.substr( nl + 1 ) ); size_t i = 0;
		while ( i < t.t.size() ) {
			if ( i + 1 == t.t.size() && t.tail ) return true;	// half a row label
			for ( auto& r : g.rows ) if ( r == t.t[i] ) return false;
			g.rows.push_back( t.t[i++] ); g.v.emplace_back();
			for ( size_t j = 0; j < g.cols.size(); ++j, ++i ) { double v; if ( i < t.t.size() && !number( t.t[i], v ) ) unclear = strchr( "+-.0123456789", t.t[i][0] );	// 12abc: may be taken as two entries
				if ( i >= t.t.size() || !number( t.t[i], v ) ) return false; g.v.back().push_back( v ); }
		}
		return true;
	}
	template< class T > std::string str_of( const T& v ) { if constexpr ( std::is_same_v<T, shade> ) return (unsigned)v < 5 ? shades[(int)v] : "invalid"; else if constexpr ( std::is_same_v<T, std::string> ) return v; else if constexpr ( std::is_same_v<T, double> ) return show( v ); else return std::to_string( v ); }
	template< class A, class B > std::string str_of( const std::pair<A, B>& p ) { return str_of( p.first ) + " " + str_of( p.second ); }
	// one list of words
	void read_words( World& w, bool ec_given, double nm )
	{
		std::vector<shade> res; xo::error_code ec; bool threw = false, oom = false; std::string why; long before = faults_fired();
		{ AllocFaults a( nm ); try { res = xo::read_data<std::vector<shade>>( xo::path( w.file ), ec_given ? &ec : nullptr ); } catch ( std::bad_alloc& ) { threw = oom = true; } catch ( std::exception& e ) { threw = true; Quiet q; why = e.what(); } }
		Quiet q; SIM_CHECK( !threw || oom || !ec_given, "throws", "reading %s threw although an error_code was given: %s", w.file.c_str(), why.c_str() );
		bool failed = threw || ec.bad(), faulty = faults_fired() > before; auto tk = tokens( w.text ); std::string got, want; bool clean = vfs_exists( w.file ) && !tk.t.empty(); size_t good = 0;
		if ( !threw ) for ( auto& x : res ) got += str_of( x ) + " ";
		while ( good < tk.t.size() && is_shade( tk.t[good] ) ) want += tk.t[good++] + " ";
		if ( good + 1 < tk.t.size() ) SIM_CHECK( failed, "not-reported", "reading %s, which has an invalid word, succeeded", w.file.c_str() );	// not just a word that was cut off at the end
		if ( failed ) SIM_CHECK( faulty || !clean || good < tk.t.size(), "fails", "reading %s failed although nothing failed: %s%s", w.file.c_str(), why.c_str(), ec.message().c_str() );
		if ( failed ? !oom && !threw : true ) SIM_CHECK( failed ? want.compare( 0, got.size(), got ) == 0 : got == want, "wrong-data", "%s was read as '%s' instead of '%s'", w.file.c_str(), escape( got ).substr( 0, 300 ).c_str(), escape( want ).substr( 0, 300 ).c_str() );
		probe( failed ? "words_failed" : "words_read" );
		for ( auto& t : tk.t ) { shade e = shade::day; bool ok = from_str( t, e ); SIM_CHECK( ok == is_shade( t ) && ( ok ? str_of( e ) == t && to_str( e ) == t : e == shade::day ), "wrong-data", "'%s' was converted to %d", escape( t ).c_str(), (int)e ); }
	}
	// one list of values
	template< class T > void read_list( World& w, bool ec_given, double nm, int width )
	{
		T res; xo::error_code ec; bool threw = false, oom = false; std::string why; long before = faults_fired();
		{ AllocFaults a( nm ); try { res = xo::read_data<T>( xo::path( w.file ), ec_given ? &ec : nullptr ); } catch ( std::bad_alloc& ) { threw = oom = true; } catch ( std::exception& e ) { threw = true; Quiet q; why = e.what(); } }
		Quiet q; SIM_CHECK( !threw || oom || !ec_given, "throws", "reading %s threw although an error_code was given: %s", w.file.c_str(), why.c_str() );
		bool failed = threw || ec.bad(); auto tk = tokens( w.text ); std::string got; size_t n = 0; if ( !threw ) for ( auto& x : res ) { got += str_of( x ) + " "; n += width; }
		std::string want; bool clean = vfs_exists( w.file ) && !tk.t.empty(); size_t m = 0;
		for ( auto& t : tk.t ) { double v; if ( !std::is_same_v<typename T::value_type, std::string> ) { if ( !number( t, v ) || ( ( width == 2 ? m % 2 == 0 : std::is_same_v<typename T::value_type, int> ) && t.find_first_of( ".e" ) != std::string::npos ) ) { clean = false; break; } } ++m; }
		if ( width == 2 && m % 2 ) --m;
		for ( size_t i = 0; i < m; ++i ) { double v; want += ( width == 2 ? i % 2 == 1 : std::is_same_v<typename T::value_type, double> ) && number( tk.t[i], v ) ? show( v ) + " " : std::is_same_v<typename T::value_type, std::string> ? tk.t[i] + " " : std::to_string( strtol( tk.t[i].c_str(), nullptr, 10 ) ) + " "; }
		bool faulty = faults_fired() > before;
		if ( !std::is_same_v<typename T::value_type, std::string> ) for ( auto& t : tk.t )	// cannot be (a part of) a number
			SIM_CHECK( strchr( "+-.0123456789", t[0] ) || failed, "not-reported", "reading %s, which has an invalid entry, succeeded", w.file.c_str() );
		if ( !clean && !w.cut ) SIM_CHECK( failed || ( width == 2 && !tk.t.empty() ), "not-reported", "reading damaged data from %s succeeded", w.file.c_str() );
		if ( failed ) { SIM_CHECK( faulty || !clean || m == 0, "fails", "reading %s failed although nothing failed: %s%s", w.file.c_str(), why.c_str(), ec.message().c_str() ); SIM_CHECK( !clean || got.size() <= want.size() + 40, "wrong-data", "a failed read of %s returned more than the file holds: '%s' '%s'", w.file.c_str(), escape( got ).c_str(), escape( want ).c_str() ); probe( "list_failed" ); }
		else if ( clean ) { SIM_CHECK( got == want, "wrong-data", "%s was read as '%s' instead of '%s'", w.file.c_str(), escape( got ).substr( 0, 300 ).c_str(), escape( want ).substr( 0, 300 ).c_str() ); probe( "list_read" ); }
	}
	void run( const Plan& p, int )
	{
		std::vector<World>* ws; { Quiet q; ws = new std::vector<World>( 8 ); for ( int t = 0; t < 8; ++t ) ( *ws )[t].file = "/work/data" + std::to_string( t ) + ".txt"; }
		set_faults( fault_cfg( p ) ); faults_on( true );
		run_threads( p, [&]( const Op& o ) {
			World& w = ( *ws )[o.t]; double nm = pct( p.get( "nomem" ) );
			if ( o.k == "write" ) {
				{ Quiet q; w.kind = (int)o.a; w.g = make_grid( o.b, o.c / 1000, o.c % 1000 ); w.text = text_of( w.kind, w.g ); w.cut = false; w.head = true; }
				bool ok = true; long before = faults_fired();
				if ( w.kind == TABLE ) {
					xo::table<double> t; for ( auto& c : w.g.cols ) t.add_column( c ); for ( size_t i = 0; i < w.g.rows.size(); ++i ) { t.add_row( w.g.rows[i] ); for ( size_t j = 0; j < w.g.cols.size(); ++j ) t.back_row( j ) = w.g.v[i][j]; }
					std::ofstream f( w.file ); f << t; f.close(); ok = f.good();
				}
				else if ( w.kind == STORAGE ) {
					if ( o.c % 2 ) {	// saves itself, cannot report errors
						xo::file_storage<double> s{ xo::path( w.file ) }; for ( auto& c : w.g.cols ) s.add_channel( c ); for ( auto& r : w.g.v ) { if ( o.c % 3 ) s.add_frame( r ); else { auto f = s.add_frame(); for ( size_t j = 0; j < r.size(); ++j ) f[w.g.cols[j]] = r[j]; } }
						ok = !s.empty(); if ( !ok ) { Quiet q; w.known = false; }
					}
					else { xo::storage<double> s; for ( auto& c : w.g.cols ) s.add_channel( c ); for ( auto& r : w.g.v ) { auto f = s.add_frame(); for ( size_t j = 0; j < r.size(); ++j ) f[(xo::index_t)j] = r[j]; } std::ofstream f( w.file ); f << s; f.close(); ok = f.good(); }
				}
				else { std::ofstream f( w.file ); f << w.text; f.close(); ok = f.good(); }
				Quiet q; bool faulty = faults_fired() > before; std::string now = vfs_read( w.file );
				SIM_CHECK( ok || faulty || w.kind == STORAGE, "fails", "writing %s failed although nothing failed", w.file.c_str() );
				if ( ok && ( !faulty || w.kind != STORAGE || o.c % 2 == 0 ) ) SIM_CHECK( now == w.text, "wrong-file", "%s holds '%s' instead of '%s'", w.file.c_str(), escape( now ).substr( 0, 400 ).c_str(), escape( w.text ).substr( 0, 400 ).c_str() );
				w.cut = now != w.text; w.text = now; probe( w.cut ? "write_failed" : "written" );
			}
			else if ( o.k == "cut" ) { Quiet q; if ( w.kind < 0 || !vfs_exists( w.file ) ) return; w.text = vfs_read( w.file ); w.text = w.text.substr( 0, w.text.size() * o.a / 1000 ); vfs_put( w.file, w.text ); w.cut = true; }
			else if ( o.k == "junk" ) { Quiet q; if ( w.kind < 0 || !vfs_exists( w.file ) ) return; w.text = vfs_read( w.file ); w.text.insert( w.text.size() * o.a / 1000, " " + o.s + " " ); vfs_put( w.file, w.text ); w.cut = true; }
			else if ( o.k == "remove" ) { Quiet q; vfs_remove( w.file ); w.text.clear(); w.cut = true; }
			else if ( o.k == "read" ) {
				if ( w.kind < 0 ) return;
				if ( !( o.b & NOMEM ) ) nm = 0;
				bool there = vfs_exists( w.file ); long before = faults_fired();
				if ( w.kind == TABLE ) {
					std::unique_ptr<xo::table<double>> t; std::string why; bool head = !( o.b & NOHEAD );
					if ( !head && there ) { Quiet q; if ( w.text.substr( 0, 4 ) == "Row\t" ) { w.text = w.text.substr( 4 ); vfs_put( w.file, w.text ); w.head = false; } }
					head = w.head;
					{ AllocFaults a( nm ); try { t = std::make_unique<xo::table<double>>( xo::load_table<double>( xo::path( w.file ), head ) ); } catch ( std::bad_alloc& ) { Quiet q; why = "bad_alloc"; } catch ( std::exception& e ) { Quiet q; why = e.what(); } }
					Quiet q; Grid g; bool unclear = false, fine = there && parse_table( w.text, head, g, unclear ), faulty = faults_fired() > before;
					if ( !t ) { SIM_CHECK( faulty || !fine, "fails", "loading table %s failed although nothing failed: %s", w.file.c_str(), why.c_str() ); probe( fine ? "table_failed" : "damaged_table_reported" ); return; }
					if ( unclear ) return;
					SIM_CHECK( fine, "not-reported", "loading damaged or missing table %s succeeded: %s", w.file.c_str(), escape( w.text ).substr( 0, 400 ).c_str() );
					SIM_CHECK( t->column_size() == g.cols.size() && t->row_size() == g.rows.size(), "wrong-size", "table %s was read with %zu columns and %zu rows instead of %zu and %zu", w.file.c_str(), t->column_size(), t->row_size(), g.cols.size(), g.rows.size() );
					for ( size_t i = 0; i < g.rows.size(); ++i ) for ( size_t j = 0; j < g.cols.size(); ++j ) {
						SIM_CHECK( t->find_row( g.rows[i] ) == i && t->find_column( g.cols[j] ) == j, "wrong-label", "label %s or %s of table %s is in the wrong place", g.rows[i].c_str(), g.cols[j].c_str(), w.file.c_str() );
						SIM_CHECK( ( *t )( i, j ) == g.v[i][j], "wrong-data", "%s: row %zu column %zu is %g instead of %g", w.file.c_str(), i, j, ( *t )( i, j ), g.v[i][j] );
					}
					probe( w.cut ? "cut_table_read" : "table_read" );
				}
				else if ( w.kind == STORAGE ) {
					xo::storage<double> s; bool threw = false; std::string why; std::ifstream f( w.file ); bool open = f.good();
					{ AllocFaults a( nm ); try { f >> s; } catch ( std::bad_alloc& ) { threw = true; Quiet q; why = "bad_alloc"; } catch ( std::exception& e ) { threw = true; Quiet q; why = e.what(); } }
					Quiet q; bool faulty = faults_fired() > before, failed = threw || f.bad() || !open;
					std::vector<std::string> lines; { size_t i = 0; while ( i < w.text.size() ) { size_t e = w.text.find( '\n', i ); if ( e == std::string::npos ) e = w.text.size(); lines.push_back( w.text.substr( i, e - i ) ); i = e + 1; } }
					auto h = lines.empty() ? std::vector<std::string>() : split( lines[0], " \t" ); bool dup = std::set<std::string>( h.begin(), h.end() ).size() != h.size();
					SIM_CHECK( !failed || faulty || dup || !there, "fails", "reading storage %s failed although nothing failed: %s", w.file.c_str(), why.c_str() );
					if ( dup || !there ) { SIM_CHECK( failed, "not-reported", "reading storage %s with duplicate labels succeeded", w.file.c_str() ); return; }
					if ( failed ) { probe( "storage_failed" ); SIM_CHECK( s.channel_size() <= h.size(), "wrong-size", "a failed read of %s gave %zu channels", w.file.c_str(), s.channel_size() ); }
					else {
						size_t n = lines.empty() ? 0 : lines.size() - 1;
						SIM_CHECK( s.channel_size() == h.size() && s.frame_size() == n, "wrong-size", "storage %s was read with %zu channels and %zu frames instead of %zu and %zu", w.file.c_str(), s.channel_size(), s.frame_size(), h.size(), n );
						for ( size_t j = 0; j < h.size(); ++j ) SIM_CHECK( s.find_channel( h[j] ) == j && s.get_label( j ) == h[j], "wrong-label", "label %s of storage %s is in the wrong place", h[j].c_str(), w.file.c_str() );
						for ( size_t i = 0; i < n; ++i ) { auto t = split( lines[i + 1], " \t" ); if ( t.size() != h.size() ) continue; for ( size_t j = 0; j < h.size(); ++j ) { double v; if ( !number( t[j], v ) ) break; SIM_CHECK( s( i, j ) == v, "wrong-data", "%s: frame %zu channel %zu is %g instead of %g", w.file.c_str(), i, j, s( i, j ), v ); } }
						probe( w.cut ? "cut_storage_read" : "storage_read" );
					}
				}
				else if ( w.kind == DOUBLES ) read_list<std::vector<double>>( w, o.b & EC, nm, 1 );
				else if ( w.kind == INTS ) read_list<std::vector<int>>( w, o.b & EC, nm, 1 );
				else if ( w.kind == STRINGS ) read_list<std::vector<std::string>>( w, o.b & EC, nm, 1 );
				else if ( w.kind == ENUMS ) read_words( w, o.b & EC, nm );
				else read_list<std::vector<std::pair<int, double>>>( w, o.b & EC, nm, 2 );
			}
			else if ( o.k == "func" ) {
				std::string f, why, want; { Quiet q; f = "/work/out" + std::to_string( o.t ) + "/f" + std::to_string( o.c ) + ".txt"; for ( long x = o.a; x <= o.a + o.b; ++x ) want += show( x / 4.0 ) + "\t" + show( x * 0.5 ) + "\n"; }
				bool ok = true; long before = faults_fired();
				try { xo::write_function<double>( xo::path( f ), o.a / 4.0, ( o.a + o.b ) / 4.0, +[]( double x ) { return 2 * x; }, 0.25 ); } catch ( std::exception& e ) { ok = false; Quiet q; why = e.what(); }
				Quiet q; SIM_CHECK( ok || faults_fired() > before, "fails", "write_function failed although nothing failed: %s", why.c_str() );
				if ( ok ) SIM_CHECK( vfs_read( f ) == want, "wrong-file", "write_function succeeded, but the file holds '%s' instead of '%s'", escape( vfs_read( f ) ).substr( 0, 300 ).c_str(), escape( want ).substr( 0, 300 ).c_str() ); probe( "function_written" );
			}
		} );
		faults_on( false );
		SIM_CHECK( open_fds() == 0, "fd-leak", "%d descriptors are still open", open_fds() );
	}
	Register r16( "C16.data", gen, run, 1 );
}
