// C15 settings
#include <cstdarg>
#include <cstdio>
#include <cmath>
#include "scn.h"
#include "xo/system/settings.h"
#include "xo/geometry/vec3.h"
#include "xo/utility/color.h"
#include "xo/container/prop_node.h"
#include "xo/filesystem/path.h"
#include "xo/filesystem/filesystem.h"
#include "xo/serialization/serialize.h"
#include "xo/serialization/prop_node_serializer_zml.h"
#include "xo/system/version.h"
#include <cstring>
#include <memory>
#include <optional>

using namespace sim;

namespace
{
	enum Kind { FLT, FLTR, INT, INTR, BOOL, STR, ALLOW, ANY, VEC, COL };
	struct Def { const char* id; Kind kind; const char* def; double lo, hi; const char* allowed[4]; };
	const Def defs[] = {
		{ "speed", FLT, "1.5", 0, 0, {} }, { "view.zoom", FLTR, "1", 0.25, 8, {} }, { "view.width", INTR, "800", 100, 2000000000, {} }, { "view.full", BOOL, "0", 0, 0, {} },
		{ "user.name", STR, "nobody", 0, 0, {} }, { "user.count", INT, "0", 0, 0, {} }, { "user.theme", ALLOW, "dark", 0, 0, { "dark", "light", "high contrast", "7" } }, { "a.b.c.deep", INTR, "-3", -5, 5, {} }, { "misc", ANY, "x", 0, 0, {} }, { "view.level", FLTR, "0", -1, 0, {} }, { "view.up", VEC, "0 1 0", 0, 0, {} }, { "color", COL, "rgb(0, 128, 255)", 0, 0, {} }
	};
	constexpr int ND = sizeof( defs ) / sizeof( *defs );
	xo::prop_node make_schema()
	{
		xo::prop_node s;
		for ( auto& d : defs ) {
			auto& n = s.get_or_add_query( d.id ); n.add_key_value( "label", std::string( d.id ) ); n.add_key_value( "default", std::string( d.def ) );
			const char* t[] = { "float", "float", "int", "int", "bool", "string", "string", "", "vec3", "color" }; if ( d.kind != ANY ) n.add_key_value( "type", std::string( t[d.kind] ) );
			if ( d.kind == FLTR || d.kind == INTR ) n.add_key_value( "range", fmt( d.kind == INTR ? "%.0f..%.0f" : "%g..%g", d.lo, d.hi ) );
			if ( d.kind == ALLOW ) { auto& a = n.add_child( "allowed" ); for ( auto* v : d.allowed ) if ( v ) a.add_key_value( "", std::string( v ) ); }
		}
		return s;
	}
	// three numbers, or "" if it is something else
	std::string three( const std::string& v )
	{
		std::string o; int n = 0; size_t i = v.find_first_not_of( " \t" );
		while ( i != std::string::npos ) { size_t e = std::min( v.find_first_of( " \t", i ), v.size() ); auto t = v.substr( i, e - i ); char* x; double d = strtod( t.c_str(), &x ); if ( x == t.c_str() || std::isnan( d ) ) return ""; o += fmt( n ? " %.17g" : "%.17g", d ); ++n; i = v.find_first_not_of( " \t", e ); }
		return n == 3 ? o : "";
	}
	// red, green, blue and alpha, or "" if it is not a colour
	std::string colour( std::string v )
	{
		for ( auto& c : v ) c = (char)tolower( c ); float r, g, b, a = 1; if ( v.compare( 0, 2, "c " ) == 0 ) return v;
		if ( v.compare( 0, 3, "rgb" ) == 0 || v.compare( 0, 3, "hsv" ) == 0 ) {
			std::vector<std::string> w; for ( size_t i = v.find_first_not_of( ",; ()" ); i != std::string::npos; ) { size_t e = std::min( v.find_first_of( ",; ()", i ), v.size() ); w.push_back( v.substr( i, e - i ) ); i = v.find_first_not_of( ",; ()", e ); }
			if ( w.size() != 4 ) return ""; float x[3]; for ( int i = 0; i < 3; ++i ) { char* e; x[i] = strtof( w[i + 1].c_str(), &e ); if ( e == w[i + 1].c_str() ) return ""; }
			if ( v[0] == 'r' ) r = x[0] / 255, g = x[1] / 255, b = x[2] / 255; else r = g = b = x[2] / 100;	// the generator only makes grey ones
		}
		else {
			char* e; auto n = strtoul( v.c_str(), &e, 16 ); if ( e == v.c_str() ) return ""; auto at = [&]( int k ) { return ( n >> k & 255 ) / 255.f; };
			if ( v.size() - ( v.compare( 0, 2, "0x" ) == 0 ? 2 : 0 ) == 8 ) r = at( 24 ), g = at( 16 ), b = at( 8 ), a = at( 0 ); else r = at( 16 ), g = at( 8 ), b = at( 0 );
		}
		return fmt( "c %.4f %.4f %.4f %.4f", r, g, b, a );
	}
	// what a setting holds after an attempt to give it this text; nullopt: refused
	std::optional<std::string> accept( const Def& d, const std::string& v )
	{
		char* e; if ( v.empty() || v == d.def ) return std::string( d.def );
		if ( d.kind == FLT || d.kind == FLTR ) { strtod( v.c_str(), &e ); if ( e == v.c_str() || std::isnan( strtod( v.c_str(), nullptr ) ) ) return {}; }
		if ( d.kind == INT || d.kind == INTR ) { strtol( v.c_str(), &e, 10 ); if ( e == v.c_str() ) return {}; }
		if ( d.kind == BOOL && v != "1" && v != "0" && v != "true" && v != "false" && v != "yes" && v != "no" ) return {};
		if ( ( d.kind == VEC && three( v ).empty() ) || ( d.kind == COL && colour( v ).empty() ) ) return {};
		if ( d.kind == ALLOW ) { bool ok = false; for ( auto* a : d.allowed ) if ( a && v == a ) ok = true; if ( !ok ) return {}; }
		if ( d.kind == FLTR || d.kind == INTR ) {
			double x = strtod( v.c_str(), nullptr ); if ( std::isnan( x ) ) return {};
			x = std::min( std::max( x, d.lo ), d.hi ); return d.kind == INTR ? std::to_string( (long long)x ) : fmt( "%g", x );
		}
		return v;
	}
	bool truth( const std::string& v ) { return v == "1" || v == "true" || v == "yes"; }
	// value of a setting as its user sees it
	std::string observe( const xo::settings& s, const Def& d )
	{
		switch ( d.kind ) {
		case FLT: case FLTR: { double x = s.get<double>( d.id ); Quiet q; return fmt( "%.17g", x ); }
		case INT: case INTR: { int x = s.get<int>( d.id ); Quiet q; return std::to_string( x ); }
		case BOOL: { bool x = s.get<bool>( d.id ); Quiet q; return x ? "1" : "0"; }
		case VEC: { auto x = s.get<xo::vec3d>( d.id ); Quiet q; return fmt( "%.17g %.17g %.17g", x.x, x.y, x.z ); }
		case COL: { auto x = s.get<xo::color>( d.id ); Quiet q; return fmt( "c %.4f %.4f %.4f %.4f", x.r, x.g, x.b, x.a ); }
		default: { std::string x = s.get<xo::string>( d.id ); Quiet q; for ( auto& c : x ) if ( !c ) c = '?'; return x; }	// an unterminated quoted string ends with a NUL
		}
	}
	std::string shown( const Def& d, const std::string& v )
	{
		switch ( d.kind ) {
		case FLT: case FLTR: return fmt( "%.17g", strtod( v.c_str(), nullptr ) );
		case INT: case INTR: return std::to_string( (int)strtol( v.c_str(), nullptr, 10 ) );
		case BOOL: return truth( v ) ? "1" : "0";
		case VEC: return three( v );
		case COL: return colour( v );
		default: return v;
		}
	}
	bool valid( const Def& d, const std::string& shown_value )
	{
		double x = strtod( shown_value.c_str(), nullptr );
		if ( d.kind == FLTR || d.kind == INTR ) return x >= d.lo && x <= d.hi;
		if ( d.kind == ALLOW ) { for ( auto* a : d.allowed ) if ( a && shown_value == a ) return true; return false; }
		return true;
	}
	std::string some_value( Rng& r, const Def& d )
	{
		int k = (int)r.below( 10 );
		if ( k == 0 ) return r.pick<const char*>( { "", "abc", "nan", "-", "yes", "1e400", "inf", "-inf", "0x1F", "  5", "12 monkeys", "99999999999", "2.5" } );
		if ( k == 1 ) return d.def;
		switch ( d.kind ) {
		case FLT: return fmt( "%g", ( r.unit() - 0.5 ) * r.pick( { 1.0, 100.0, 1e6, 1e-6, 1e30 } ) );
		case FLTR: return r.chance( 0.6 ) ? fmt( "%g", d.lo + r.unit() * ( d.hi - d.lo ) ) : fmt( "%g", ( r.unit() - 0.5 ) * 50 );
		case INT: return std::to_string( r.chance( 0.5 ) ? r.range( -9, 9 ) : r.range( -2147483647, 2147483647 ) );
		case INTR: return std::to_string( r.chance( 0.6 ) ? r.range( (long)d.lo, (long)d.hi ) : r.range( -2147483647, 2147483647 ) );
		case BOOL: return r.pick<const char*>( { "0", "1", "true", "false", "yes", "no" } );
		case VEC: { std::string o; int n = r.chance( 0.1 ) ? (int)r.below( 5 ) : 3; for ( int i = 0; i < n; ++i ) o += fmt( i ? r.chance( 0.1 ) ? " \t%g" : " %g" : "%g", r.chance( 0.3 ) ? 0.0 : r.range( -400, 400 ) / 4.0 ); return r.chance( 0.03 ) ? o + "x y" : o; }
		case COL: { long a = r.below( 256 ), b = r.below( 256 ), c = r.below( 256 ); switch ( r.below( 7 ) ) { case 0: return fmt( "rgb(%ld,%ld,%ld)", a, b, c ); case 1: return fmt( "RGB %ld %ld %ld", a, b, c ); case 2: return fmt( "hsv(0, 0, %ld)", a % 101 ); case 3: return fmt( "%02lx%02lx%02lx", a, b, c ); case 4: return fmt( "0x%02lx%02lx%02lxff", a, b, c ); case 5: return fmt( "%02lX%02lX%02lX%02lX", a, b, c, a ); default: return r.pick<const char*>( { "rgb(1,2)", "rgb(a,b,c)", "hsv", "white", "rgb(1,2,3,4)", "#ff0000" } ); } }
		case ALLOW: if ( k < 8 ) return d.allowed[r.below( 4 )]; return r.pick<const char*>( { "Dark", "blue", "light ", "70" } );
		default: return r.pick<const char*>( { "a", "two words", "quote \"q\"", "tab\tand\nline", "C:\\x\\", "{ a = 1 }", "a=b", "http://x/#y", "\xc3\xa9", "'", "end:", "// c" } );
		}
	}
	std::string file_of( int t, long i ) { return i == 0 ? "/work/t" + std::to_string( t ) + ".zml" : i == 1 ? "/work/conf/t" + std::to_string( t ) + "/settings.zml" : "rel/t" + std::to_string( t ) + ".zml"; }
	void gen( Rng& r, Plan& p )
	{
		int mode = (int)r.below( 4 ); p.cfg["version"] = r.below( 3 ); p.cfg["file"] = r.below( 3 );
		if ( mode == 0 ) { auto f = [&]( const char* k, double pr, int hi ) { if ( r.chance( pr ) ) p.cfg[k] = r.range( 20, hi ); }; f( "f.open", 0.4, 200 ); f( "f.read", 0.4, 300 ); f( "f.write", 0.4, 300 ); f( "f.rshort", 0.4, 800 ); f( "f.wshort", 0.4, 800 ); f( "f.eintr", 0.2, 200 ); f( "f.close", 0.3, 300 ); f( "f.mkdir", 0.3, 300 ); if ( r.chance( 0.3 ) ) p.cfg["f.diskcap"] = r.range( 0, 300 ); }
		if ( mode == 1 ) p.cfg["crash"] = r.range( 20, 250 );
		if ( mode == 2 ) p.cfg["nomem"] = r.range( 1, 30 );
		int nth = r.chance( 0.85 ) ? 0 : 2;
		for ( int t = nth ? 1 : 0; t <= nth; ++t ) {
			int n = (int)r.range( 2, nth ? 5 : 14 ); p.add( t, "open", r.chance( 0.2 ) );
			for ( int i = 0; i < n; ++i ) {
				int k = (int)r.below( 20 );
				if ( k < 9 ) { long d = (long)r.below( ND ); p.add( t, "set", d, r.below( 3 ), mode == 2 && r.chance( 0.5 ) ? r.range( 1, 12 ) : 0, some_value( r, defs[d] ) ); }
				else if ( k == 9 ) p.add( t, "set", -1 - (long)r.below( 4 ), 0, 0, "5" );
				else if ( k < 13 ) p.add( t, "save" );
				else if ( k == 13 ) p.add( t, "load" );
				else if ( k < 16 ) p.add( t, "open", r.chance( 0.3 ) );
				else if ( k == 16 ) p.add( t, "reset" );
				else if ( k == 17 ) p.add( t, "save_as", r.below( 3 ) );
				else { std::string s; int m = (int)r.range( 0, 5 ); for ( int j = 0; j < m; ++j ) { long d = (long)r.below( ND + 1 ); s += ( j ? "\x02" : "" ) + std::string( d < ND ? defs[d].id : "unknown.thing" ) + "=" + ( d < ND ? some_value( r, defs[d] ) : "1" ); } long kind = r.below( 6 ); p.add( t, "edit", kind, 0, r.range( 0, 2 ), s ); }
			}
			if ( r.chance( 0.6 ) ) { p.add( t, "save" ); p.add( t, "open" ); }
		}
	}
	struct World {
		std::unique_ptr<xo::settings> s; std::string file; std::map<std::string, std::string> now;	// id -> text held; missing means default
		std::map<std::string, std::optional<std::map<std::string, std::string>>> disk;				// file -> text of every setting; nullopt: a failed save or edit left something else
		int vers = 0; std::map<std::string, int> disk_version;
	};
	std::string abs_name( const std::string& f ) { return f[0] == '/' ? f : "/work/" + f; }
	void check_all( World& w, const char* when )
	{
		for ( auto& d : defs ) {
			std::string got; try { got = observe( *w.s, d ); } catch ( std::exception& e ) { fail( "unreadable", "%s: %s cannot be read: %s", when, d.id, e.what() ); }
			Quiet q; auto it = w.now.find( d.id ); auto want = shown( d, it == w.now.end() ? d.def : it->second );
			SIM_CHECK( valid( d, got ), "invalid-value", "%s: %s is '%s', which its schema does not allow", when, d.id, escape( got ).c_str() );
			SIM_CHECK( got == want, "wrong-value", "%s: %s is '%s' instead of '%s'", when, d.id, escape( got ).c_str(), escape( want ).c_str() );
		}
	}
	void adopt( World& w )	// take over what the object holds, after checking that it is allowed
	{
		for ( auto& d : defs ) {
			std::string got; try { got = observe( *w.s, d ); } catch ( std::exception& e ) { fail( "unreadable", "%s cannot be read: %s", d.id, e.what() ); }
			Quiet q; SIM_CHECK( valid( d, got ), "invalid-value", "%s is '%s', which its schema does not allow", d.id, escape( got ).c_str() ); w.now[d.id] = got;
		}
	}
	void overlay( World& w, const std::map<std::string, std::string>& f ) { for ( auto& d : defs ) { auto it = f.find( d.id ); if ( it == f.end() ) continue; if ( auto v = accept( d, it->second ) ) w.now[d.id] = *v; } }
	xo::version ver( long i ) { return i == 0 ? xo::version() : i == 1 ? xo::version( 1, 2, 3 ) : xo::version( 2, 0, 0, 41 ); }
	void run( const Plan& p, int phase )
	{
		auto open = [&]( World& w ) -> std::string {
			try { w.s = std::make_unique<xo::settings>( make_schema(), xo::path( w.file ), ver( p.get( "version" ) ) ); return ""; }
			catch ( std::bad_alloc& ) { return "bad_alloc"; } catch ( std::exception& e ) { Quiet q; return std::string( "!" ) + e.what(); }
		};
		if ( phase > 0 ) {
			std::map<std::string, std::string> last; { Quiet q; for ( auto& n : notes() ) { auto b = n.find( '|' ); last[n.substr( 0, b )] = n.substr( b + 1 ); } }
			for ( auto& l : last ) {
				World w; { Quiet q; w.file = l.first; } auto why = open( w );
				if ( l.second == "begin" ) { if ( w.s ) adopt( w ); probe( w.s ? "torn_but_readable" : "torn_and_reported" ); continue; }
				SIM_CHECK( w.s, "lost-settings", "settings saved to %s cannot be opened after the process died: %s", l.first.c_str(), why.c_str() );
				{ Quiet q; size_t i = 0; while ( i < l.second.size() ) { size_t e = l.second.find( '\x01', i ), k = l.second.find( '=', i ); w.now[l.second.substr( i, k - i )] = l.second.substr( k + 1, e - k - 1 ); i = e + 1; } }
				check_all( w, "after the process died" ); probe( "checked_after_crash" );
			}
			return;
		}
		std::vector<World>* ws; { Quiet q; ws = new std::vector<World>( 8 ); for ( int t = 0; t < 8; ++t ) { ( *ws )[t].file = file_of( t, p.get( "file" ) ); } vfs_mkdir( "/work/rel" ); }
		set_faults( fault_cfg( p ) ); faults_on( true ); double nm = pct( p.get( "nomem" ) );
		run_threads( p, [&]( const Op& o ) {
			World& w = ( *ws )[o.t];
			if ( o.k == "open" ) {
				{ Quiet q; w.s.reset(); }
				std::string af = abs_name( w.file ); bool was = vfs_exists( af ); auto old = vfs_read( af ); long before = faults_fired();
				bool fresh = !was; if ( fresh && p.get( "crash" ) ) note( w.file + "|begin" );
				std::string why; { AllocFaults a( o.a ? nm : 0 ); CrashArmed c( pct( p.get( "crash" ) ) ); why = open( w ); }
				Quiet q; auto it = w.disk.find( w.file );
				if ( was ) SIM_CHECK( vfs_read( af ) == old, "settings-lost", "opening existing settings changed the file" );
				if ( !w.s ) {
					bool torn = it != w.disk.end() && !it->second;
					SIM_CHECK( torn || faults_fired() > before, "fails", "settings could not be opened although nothing failed: %s", why.c_str() ); probe( "open_failed" );
					if ( fresh ) { if ( vfs_exists( af ) ) w.disk[w.file] = std::nullopt; }
					return;
				}
				if ( fresh ) { SIM_CHECK( vfs_exists( af ), "lost-write", "opening settings without a file did not create it" ); w.now.clear(); auto& m = w.disk[w.file]; m = std::map<std::string, std::string>(); for ( auto& d : defs ) ( *m )[d.id] = d.def; w.disk_version[w.file] = (int)p.get( "version" ); if ( p.get( "crash" ) ) note( w.file + "|" ); }
				else if ( it != w.disk.end() && it->second ) { w.now.clear(); overlay( w, *it->second ); if ( w.disk_version.count( w.file ) ) SIM_CHECK( w.s->data_version() == ver( w.disk_version[w.file] ), "wrong-version", "the version of saved settings was not read back" ); }
				else { adopt( w ); return; }
				check_all( w, "after opening" );
			}
			else if ( o.k == "edit" ) {	// somebody else writes the file
				Quiet q; std::string af = abs_name( w.file ); std::map<std::string, std::string> m; xo::prop_node pn; w.disk_version.erase( w.file );
				if ( o.a < 4 ) {
					size_t i = 0; while ( i < o.s.size() ) { size_t e = o.s.find( '\x02', i ); if ( e == std::string::npos ) e = o.s.size(); size_t k = o.s.find( '=', i ); if ( k != std::string::npos && k < e ) { auto id = o.s.substr( i, k - i ), v = o.s.substr( k + 1, e - k - 1 ); if ( v.find( '$' ) == std::string::npos ) { auto& n = pn.get_or_add_query( id ); auto t = three( v ); double x, y, z;
						if ( id == "view.up" && o.a > 1 && !t.empty() && sscanf( t.c_str(), "%lf %lf %lf", &x, &y, &z ) == 3 ) { const char* l[] = { "x", "y", "z" }; double c[] = { x, y, z }; n.clear(); for ( int j = 0; j < 3; ++j ) n.add_key_value( o.a == 2 ? l[j] : "", fmt( "%g", c[j] ) ); }
						else { n.clear(); n.set_value( v ); } m[id] = v; } } i = e + 1; }
					if ( o.c > 0 && o.c < 3 ) { pn.set( "version", xo::to_str( ver( o.c ) ) ); w.disk_version[w.file] = (int)o.c; }
					xo::path tmp( fmt( "/work/edit%d.zml", o.t ) ); { FaultsOff off; xo::save_zml( pn, tmp, nullptr ); } vfs_put( af, vfs_read( tmp.str() ) ); w.disk[w.file] = m; if ( p.get( "crash" ) ) note( w.file + "|begin" );
				}
				else { if ( p.get( "crash" ) ) note( w.file + "|begin" ); vfs_put( af, o.a == 4 ? o.s + " { [" : o.s.substr( 0, o.s.size() / 2 ) ); w.disk[w.file] = std::nullopt; }
			}
			else if ( !w.s ) return;
			else if ( o.k == "set" ) {
				std::string id, v = o.s; const Def* d = o.a >= 0 ? &defs[o.a % ND] : nullptr; { Quiet q; id = d ? d->id : o.a == -1 ? "view" : o.a == -2 ? "nothing" : o.a == -3 ? "view.nothing" : ""; }
				bool res = false, oom = false; std::optional<std::string> want;
				{
					AllocFaults a( nm ); alloc_fail_nth( o.c );
					try {
						if ( d && o.b == 1 && ( d->kind == FLT || d->kind == FLTR ) ) { double x = strtod( o.s.c_str(), nullptr ); { Quiet q; v = fmt( "%g", x ); } res = w.s->set( id, x ); }
						else if ( d && o.b == 1 && ( d->kind == INT || d->kind == INTR ) ) { int x = (int)strtol( o.s.c_str(), nullptr, 10 ); { Quiet q; v = std::to_string( x ); } res = w.s->set( id, x ); }
						else if ( d && o.b == 1 && d->kind == BOOL ) { bool x = truth( o.s ); { Quiet q; v = x ? "1" : "0"; } res = w.s->set( id, x ); }
						else if ( d && o.b == 1 && d->kind == VEC && !three( o.s ).empty() ) { xo::vec3d x; { Quiet q; v = three( o.s ); sscanf( v.c_str(), "%lf %lf %lf", &x.x, &x.y, &x.z ); } res = w.s->set( id, x ); }
						else res = w.s->set( id, v );
					}
					catch ( std::bad_alloc& ) { oom = true; }
					catch ( std::exception& e ) { alloc_fail_nth( 0 ); fail( "throws", "setting %s to '%s' threw: %s", id.c_str(), escape( v ).c_str(), e.what() ); }
				}
				alloc_fail_nth( 0 ); if ( d ) { Quiet q; want = accept( *d, v ); }
				if ( oom ) {	// old, new or default
					std::string got; if ( d ) try { got = observe( *w.s, *d ); } catch ( std::exception& e ) { fail( "unreadable", "after running out of memory %s cannot be read: %s", id.c_str(), e.what() ); }
					Quiet q; if ( d ) { auto old = shown( *d, w.now.count( id ) ? w.now[id] : d->def ); SIM_CHECK( got == old || ( want && got == shown( *d, *want ) ) || got == shown( *d, d->def ), "wrong-value", "after running out of memory %s is '%s'", id.c_str(), escape( got ).c_str() ); w.now[id] = got; }
					probe( "set_without_memory" );
				}
				else {
					SIM_CHECK( res == want.has_value(), "set-result", "setting %s to '%s' returned %d", id.c_str(), escape( v ).c_str(), (int)res );
					if ( want ) { Quiet q; w.now[id] = *want; }
					probe( want ? "set_accepted" : "set_refused" );
				}
				check_all( w, "after set" );
			}
			else if ( o.k == "save" || o.k == "save_as" ) {
				if ( o.k == "save_as" ) { Quiet q; w.file = file_of( o.t, o.a ); }
				if ( p.get( "crash" ) ) note( w.file + "|begin" );
				bool ok = true, oom = false; std::string why; long before = faults_fired();
				{ CrashArmed c( pct( p.get( "crash" ) ) ); AllocFaults a( nm ); try { if ( o.k == "save" ) w.s->save(); else w.s->save( xo::path( w.file ) ); } catch ( std::bad_alloc& ) { ok = false; oom = true; } catch ( std::exception& e ) { ok = false; Quiet q; why = e.what(); } }
				if ( ok ) {
					Quiet q; std::map<std::string, std::string> m; std::string n = w.file + "|"; for ( auto& d : defs ) { auto v = w.now.count( d.id ) ? w.now[d.id] : std::string( d.def ); m[d.id] = v; n += std::string( d.id ) + "=" + v + "\x01"; }
					w.disk[w.file] = m; if ( p.get( "version" ) ) w.disk_version[w.file] = (int)p.get( "version" ); else w.disk_version.erase( w.file ); if ( p.get( "crash" ) ) note( n );
				}
				else { Quiet q; SIM_CHECK( faults_fired() > before, "fails", "saving failed although nothing failed: %s", why.c_str() ); w.disk[w.file] = std::nullopt; probe( "save_failed" ); }
				check_all( w, "after saving" );
				if ( ok ) {	// another process reads it
					FaultsOff off; World x; std::string y; { Quiet q; x.file = w.file; x.now = w.now; } y = open( x ); SIM_CHECK( x.s, "lost-settings", "saved settings cannot be opened: %s", y.c_str() ); check_all( x, "in another object" ); probe( "reopened" );
				}
				else if ( w.s->data_file().str() != w.file ) { Quiet q; w.file = w.s->data_file().str(); }
			}
			else if ( o.k == "load" ) {
				bool ok = true; std::string why, af = abs_name( w.file ); bool was = vfs_exists( af ); long before = faults_fired();
				if ( !was && p.get( "crash" ) ) note( w.file + "|begin" );
				{ CrashArmed c( pct( p.get( "crash" ) ) ); AllocFaults a( nm ); try { w.s->load(); } catch ( std::bad_alloc& ) { ok = false; } catch ( std::exception& e ) { ok = false; Quiet q; why = e.what(); } }
				auto it = w.disk.find( w.file ); bool torn = it != w.disk.end() && !it->second;
				SIM_CHECK( ok || torn || faults_fired() > before, "fails", "loading failed although nothing failed: %s", why.c_str() );
				if ( !ok || torn || !was ) { adopt( w ); Quiet q; if ( !was ) { if ( ok ) { auto& m = w.disk[w.file]; m = std::map<std::string, std::string>(); for ( auto& d : defs ) ( *m )[d.id] = d.def; w.now.clear(); w.disk_version.erase( w.file ); if ( p.get( "crash" ) ) note( w.file + "|" ); } else if ( vfs_exists( af ) ) w.disk[w.file] = std::nullopt; } if ( ok && !was ) check_all( w, "after loading without a file" ); return; }
				// what the file says; anything it does not mention keeps its value or goes back to the default
				for ( auto& d : defs ) { std::string got = observe( *w.s, d ); Quiet q; if ( !it->second->count( d.id ) || !accept( d, ( *it->second )[d.id] ) ) { auto old = shown( d, w.now.count( d.id ) ? w.now[d.id] : d.def ); SIM_CHECK( got == old || got == shown( d, d.def ), "wrong-value", "after loading %s is '%s'", d.id, escape( got ).c_str() ); w.now[d.id] = got; }
					else if ( ( *it->second )[d.id] == d.def || ( d.kind == COL && colour( ( *it->second )[d.id] ) == colour( d.def ) ) ) { auto old = shown( d, w.now.count( d.id ) ? w.now[d.id] : d.def ); SIM_CHECK( got == old || got == shown( d, d.def ), "wrong-value", "after loading %s is '%s'", d.id, escape( got ).c_str() ); w.now[d.id] = got; }
					else w.now[d.id] = *accept( d, ( *it->second )[d.id] ); }
				check_all( w, "after loading" );
				if ( w.disk_version.count( w.file ) ) SIM_CHECK( w.s->data_version() == ver( w.disk_version[w.file] ), "wrong-version", "the version in the file was not taken over by a load" );
			}
			else if ( o.k == "reset" ) { w.s->reset(); { Quiet q; w.now.clear(); } check_all( w, "after reset" ); }
		} );
		faults_on( false );
		SIM_CHECK( open_fds() == 0, "fd-leak", "%d descriptors are still open", open_fds() );
	}
	Register r15( "C15.settings", gen, run, 1 );
}
