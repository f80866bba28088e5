// C21 independent objects: what a thread gets must not depend on what other threads do with other objects
#include <cstdarg>
#include <cstdio>
#include <cmath>
#include <cstring>
#include <memory>
#include <optional>
#include <sstream>
#include "scn.h"
#include "xo/container/prop_node.h"
#include "xo/container/prop_node_tools.h"
#include "xo/container/table.h"
#include "xo/container/storage.h"
#include "xo/container/label_vector.h"
#include "xo/container/flat_map.h"
#include "xo/filesystem/path.h"
#include "xo/filesystem/filesystem.h"
#include "xo/serialization/serialize.h"
#include "xo/serialization/prop_node_serializer_zml.h"
#include "xo/serialization/prop_node_serializer_ini.h"
#include "xo/serialization/prop_node_serializer_xml.h"
#include "xo/serialization/container_io.h"
#include "xo/string/string_tools.h"
#include "xo/string/string_cast.h"
#include "xo/string/pattern_matcher.h"
#include "xo/string/dictionary.h"
#include "xo/system/error_code.h"
#include "xo/system/settings.h"
#include "xo/system/profiler.h"
#include "xo/system/system_tools.h"
#include "xo/system/version.h"
#include "xo/time/stopwatch.h"
#include "xo/time/date.h"
#include "xo/utility/color.h"
#include "xo/utility/factory.h"
#include "xo/utility/memoize.h"
#include "xo/utility/smart_enum.h"
#include "xo/numerical/random.h"
#include "xo/numerical/filter.h"
#include "xo/numerical/delayer.h"
#include "xo/numerical/piecewise_linear_function.h"
#include "xo/numerical/regression.h"
#include "xo/shape/shape.h"

using namespace sim;

namespace xo { xo_smart_enum( sim_fruit, apple, pear, plum, cherry ); }
using xo::sim_fruit;

namespace
{
	using S = std::string;
	enum { ZMLDOC, INIDOC, XMLDOC, FILEDOC, INCLUDE, BADFILE, NUMBERS, RANDOM, STRINGS, SPLITS, SECTIONS, MEMO, FACTORY, SETTINGS, COLORS, DATA, SHARED, ERRORS, DATES, PATHS, SEARCH, SHAPES, NUMERIC, ENUMS, TREES, KINDS };
	const char* ext[] = { ".zml", ".ini", ".xml" };

	S canon( const xo::prop_node& p ) { S s = "'" + p.peek_str() + "'"; if ( p.size() ) { s += "{"; for ( size_t i = 0; i < p.size(); ++i ) s += "'" + p.at( i ).first + "'=" + canon( p.at( i ).second ) + ";"; s += "}"; } return s; }
	S word( Rng& r ) { S s; int n = (int)r.range( 1, 9 ); for ( int i = 0; i < n; ++i ) s += "abcdefghijklmnopqrstuvwxyz0123456789"[r.below( i ? 36 : 26 )]; return s; }
	S value( Rng& r, int f ) { S s = word( r ); int n = (int)r.below( 3 ); for ( int i = 0; i < n; ++i ) { s += r.pick<const char*>( { " ", "-", " # ", ": ", "\"", "/", " <b> ", "\\", " & ", "," } ); s += word( r ); } if ( f == INIDOC ) for ( auto& c : s ) if ( c == '#' || c == '"' ) c = '.'; return s; }
	// documents that every format can hold: a root with one level (ini) or more
	xo::prop_node make_doc( Rng& r, int f )
	{
		xo::prop_node root; xo::prop_node& top = f == XMLDOC ? root.add_child( "doc" ) : root;
		int n = (int)r.range( 1, 4 );
		for ( int i = 0; i < n; ++i ) top.add_child( word( r ) + fmt( "k%d", i ), xo::prop_node() ).set_value( value( r, f ) );
		for ( int g = 0, m = (int)r.range( 0, 3 ); g < m; ++g ) { auto& c = top.add_child( word( r ) + fmt( "g%d", g ) ); for ( int i = 0, k = (int)r.range( 1, 4 ); i < k; ++i ) c.add_child( word( r ) + fmt( "k%d", i ), xo::prop_node() ).set_value( value( r, f ) ); if ( f == ZMLDOC && r.chance( 0.4 ) ) { auto& a = c.add_child( "arr" ); for ( int i = 0; i < 3; ++i ) a.add_child( "", xo::prop_node() ).set_value( word( r ) ); } }
		return root;
	}
	template<class F> S what( F f ) { try { return f(); } catch ( std::bad_alloc& ) { throw; } catch ( std::exception& e ) { return S( "error: " ) + e.what(); } }

	struct Animal { virtual ~Animal() {} virtual S name() const = 0; };
	struct Dog : Animal { int v; Dog( int i ) : v( i ) {} S name() const override { return "dog" + std::to_string( v ); } };
	struct Cat : Animal { int v; Cat( int i ) : v( i ) {} S name() const override { return "cat" + std::to_string( v ); } };

	// objects all threads read and nobody changes
	struct Common
	{
		xo::table<double> tab; xo::storage<double> sto; xo::flat_map<S, int> map; xo::pattern_matcher pm{ "*.zml;a*;??b" }; xo::label_vector<S> labels; xo::piecewise_linear_function<double> fun; xo::prop_node schema;
		xo::dictionary<int> dict{ { 1, "one" }, { 2, "two" }, { 3, "three" } }; xo::path dir{ "/work/common/a.b/c.d" }; xo::version ver{ 3, 4, 5, 6 }; std::vector<S> names;
		Common() {
			for ( int i = 0; i < 6; ++i ) { tab.add_column( fmt( "c%d", i ) ); labels.add( fmt( "l%d", i ) ); map[fmt( "m%d", i )] = i * 7; fun.insert_point( i, i * i ); names.push_back( fmt( "name%d", i ) ); }
			for ( int i = 0; i < 4; ++i ) { tab.add_row( fmt( "r%d", i ) ); for ( int k = 0; k < 6; ++k ) tab( (xo::index_t)i, (xo::index_t)k ) = i * 10 + k; }
			for ( int i = 0; i < 3; ++i ) sto.add_channel( fmt( "s%d", i ) ); for ( int f = 0; f < 5; ++f ) { sto.add_frame(); for ( int i = 0; i < 3; ++i ) sto( f, i ) = f + i * 0.5; }
		}
	};

	struct World { Common* common; S dir; };

	void prepare( const S& d, int t )	// harness files
	{
		// the same names with other contents for each thread
		vfs_put( d + "/main.zml", fmt( "a = %d\n<< sub/part.zml >>\nb = { << sub/part.zml >> c = x%d }\n", t, t ) );
		vfs_put( d + "/sub/part.zml", fmt( "p%d = q\n<< deep/leaf.zml >>\n", t ) );
		vfs_put( d + "/sub/deep/leaf.zml", fmt( "leaf = %d\n", t * 11 ) );
		vfs_put( d + "/broken.zml", fmt( "a = { b = %d\n<< sub/part.zml >>\n c = [ 1 2 }", t ) );
		vfs_put( d + "/lost.zml", "a = 1\n<< sub/nothere.zml >>\n" );
		vfs_put( d + "/loop.zml", "a = 1\n<< loop.zml >>\n" );
		vfs_put( d + "/broken.xml", fmt( "<a><b%d></c></a>", t ) );
		vfs_put( d + "/broken.ini", fmt( "[a\nb=%d", t ) );
		vfs_put( d + "/inc.zml", fmt( "x { INCLUDE { file = \"sub/part2.zml\" } y = %d }", t ) );
		vfs_put( d + "/sub/part2.zml", fmt( "z = %d", t ) );
		for ( int i = 0; i < t; ++i ) vfs_put( d + fmt( "/search/f%d/only%d.txt", i, t ), "x" );
		vfs_put( d + "/search/common.txt", fmt( "%d", t ) );
		vfs_put( d + "/search/common.dat", fmt( "%d", t ) );
		vfs_put( d + "/here.txt", fmt( "here %d", t ) );
	}

	S exec( const Op& o, World& w )
	{
		Rng r( o.b ); S d = w.dir + "/"; S res; int n = 1 + (int)( o.c % 3 ); auto& cm = *w.common;
		for ( int i = 0; i < n; ++i ) {
			if ( i ) res += " | ";
			switch ( o.a ) {
			case ZMLDOC: case INIDOC: case XMLDOC: {
				auto pn = make_doc( r, (int)o.a ); xo::error_code ec; std::stringstream ss; xo::prop_node back;
				{ auto s = xo::make_serializer( ext[o.a] + 1, (const xo::prop_node&)pn, &ec ); ss << *s; }
				res += ss.str() + "=>"; if ( ec.bad() ) res += ec.message();
				{ auto s = xo::make_serializer( ext[o.a] + 1, back, &ec ); ss >> *s; }
				res += ec.bad() ? ec.message() : canon( back ); if ( o.a == ZMLDOC ) { std::stringstream s2; s2 << xo::prop_node_serializer_zml_concise( pn, &ec ); res += s2.str(); }
				break; }
			case FILEDOC: { int f = (int)r.below( 3 ); auto pn = make_doc( r, f ); xo::error_code ec; xo::path p( d + fmt( "out%d", i ) + ext[f] ); res += xo::save_file( pn, p, &ec ) ? "saved " : "not saved " + ec.message(); res += canon( xo::load_file( p, &ec ) ); if ( ec.bad() ) res += ec.message(); { xo::path c( d + "copy" ); xo::copy_file( p, c, true, &ec ); res += xo::load_string( c, &ec ); } break; }
			case INCLUDE: { xo::error_code ec; switch ( r.below( 3 ) ) { case 0: res += canon( xo::load_zml( d + "main.zml", &ec ) ); break; case 1: res += canon( xo::load_file( d + "main.zml", &ec ) ); break; default: res += canon( xo::load_file_with_include( d + "inc.zml" ) ); } if ( ec.bad() ) res += ec.message(); break; }
			case BADFILE: { S f = d + r.pick<const char*>( { "broken.zml", "broken.xml", "broken.ini", "lost.zml", "loop.zml", "none.zml", "none.xml", "here.txt" } ); xo::error_code ec; if ( r.chance( 0.5 ) ) { res += canon( xo::load_file( f, &ec ) ); res += ec.message(); } else res += what( [&] { return canon( xo::load_file( f ) ); } ); break; }
			case NUMBERS: {
				double v = ( r.unit() - 0.5 ) * pow( 10, r.range( -8, 12 ) ); long l = (long)r.next() >> r.below( 60 );
				S s = xo::to_str( v ) + " " + xo::to_str( (float)v ) + " " + xo::to_str( l ) + " " + xo::to_str( (int)l ) + " " + xo::to_str( (unsigned)l ) + " " + xo::to_str( l & 1 ? true : false ) + " " + xo::to_str( xo::version( (int)( l & 7 ), 2, 3, 4 ) ) + " " + xo::to_str( xo::time( l ) );
				double v2; long l2; xo::version ve; xo::from_str( xo::to_str( v ), v2 ); xo::from_str( xo::to_str( l ), l2 ); bool ok = xo::from_str( "1.2.3", ve ); res += s + fmt( " %.17g %ld %d %d", v2, l2, ok, ve.patch_ ); break; }
			case RANDOM: {
				auto same = [&]( auto g, auto h ) {	// the same numbers for the same seed, between their bounds
					unsigned seed = (unsigned)( o.b % 1000 ); if ( r.chance( 0.2 ) ) seed = r.pick<unsigned>( { 0u, 1u, 0x7fffffffu, 0x80000000u, 0xffffffffu } ); h.uniform( 0.0f, 1.0f ); g.seed( seed ); h.seed( seed ); double lo = (double)r.range( -50, 50 ), hi = lo + r.range( 1, 90 ), mean = 0, nm = 0; int again = 0;
					for ( int k = 0; k < 40; ++k ) {
						double u = g.uniform( lo, hi ), n = g.normal( lo, 2.0 ); int w = g.uniform_int( (int)lo, (int)hi ), w2 = g.uniform_int( xo::bounds<int>( (int)lo, (int)hi ) ); auto v = g.uniform_vec3( (float)lo, (float)hi ); float b = g.uniform( xo::bounds<float>( (float)lo, (float)hi ) );
						bool eq = u == h.uniform( lo, hi ); eq = n == h.normal( lo, 2.0 ) && eq; eq = w == h.uniform_int( (int)lo, (int)hi ) && eq; eq = w2 == h.uniform_int( xo::bounds<int>( (int)lo, (int)hi ) ) && eq; auto v2 = h.uniform_vec3( (float)lo, (float)hi ); eq = v.x == v2.x && v.y == v2.y && v.z == v2.z && eq; eq = b == h.uniform( xo::bounds<float>( (float)lo, (float)hi ) ) && eq;
						auto in = [&]( double x ) { return x >= lo && x <= hi; }; mean += ( u - lo ) / ( hi - lo ) / 40; nm += ( n - lo ) / 40;
						Quiet q; SIM_CHECK( eq, "random", "generators with seed %u give other numbers", seed ); SIM_CHECK( in( u ) && in( w ) && in( w2 ) && in( v.x ) && in( v.y ) && in( v.z ) && in( b ), "random", "numbers between %g and %g are %g %d %d %g %g %g %g", lo, hi, u, w, w2, v.x, v.y, v.z, b );
						again += ( u == v.x ) + ( v.x == v.y ) + ( v.y == v.z );
					}
					Quiet q; SIM_CHECK( again < 4, "random", "the same numbers come again and again" ); SIM_CHECK( mean > 0.08 && mean < 0.92 && std::abs( nm ) < 2.6, "random", "40 numbers average %g of the range and %g from the mean", mean, nm );
				};
				switch ( r.below( 3 ) ) { case 0: same( xo::random_number_generator_default(), xo::random_number_generator_default( 7 ) ); break; case 1: same( xo::random_number_generator_fast(), xo::random_number_generator_fast( 7 ) ); break; default: same( xo::random_number_generator_accurate(), xo::random_number_generator_accurate( 7 ) ); }
				xo::random_number_generator_default g( (unsigned)o.b ); for ( int k = 0; k < 5; ++k ) res += fmt( "%.9g %d %.9g ", g.uniform( 0.0, 1.0 ), g.uniform_int( 0, 100 ), g.normal( 0.0, 2.0 ) ); break; }
			case STRINGS: {
				S a = word( r ), b = value( r, ZMLDOC ), c = b; xo::replace_special_chars( c ); res += c + xo::quoted( b ) + xo::try_quoted( b ) + xo::stringf( "%s-%d-%.3f-%s", a.c_str(), (int)r.below( 1000 ), r.unit(), S( r.below( 400 ), 'x' ).c_str() ) + xo::to_upper( a ) + xo::trim_str( " " + b + " " ) + xo::replace_str( S( b ), "a", "bb" );
				for ( auto& e : xo::split_str( b, " -:/" ) ) res += "[" + e + "]"; res += xo::pattern_match( a, "?" + a.substr( 1 ) + "*" ) ? "+" : "-"; res += xo::tidy_identifier( b ) + xo::tidy_type_name( xo::get_type_name<std::vector<S>>().c_str() ) + xo::concat_str( { a, b }, "," ); char buf[8]; res += fmt( "%zu", xo::copy_str( b, buf, 8 ) ) + buf; res += xo::try_unquoted( xo::quoted( a ) ); break; }
			case SPLITS: { xo::stopwatch sw; int k = (int)r.range( 1, 4 ); for ( int j = 0; j < k; ++j ) sw.split( fmt( "s%d", j ).c_str() ); auto rep = sw.get_report( 3 ); for ( auto& e : rep ) res += e.first + ","; break; }
			case SECTIONS: { xo::profiler pf; pf.start(); int k = (int)r.range( 1, 4 ); for ( int j = 0; j < k; ++j ) { xo::scoped_profiler_section a( "outer", pf ); if ( r.chance( 0.5 ) ) { xo::scoped_profiler_section b( "inner", pf ); } } pf.stop(); auto rep = pf.report( 0 ); for ( auto& e : rep ) res += e.first + fmt( "(%zu)", e.second.size() ); break; }
			case MEMO: { int calls = 0; long base = (long)o.b; xo::memoize<S( int )> m( [&]( int x ) { ++calls; return fmt( "memo %ld %d with its own memory", base, x ); } ); for ( int j = 0; j < 5; ++j ) res += m( (int)r.below( 3 ) ) + ";"; res += fmt( "%d", calls ); break; }
			case FACTORY: { xo::factory<Animal, int> f; f.register_type<Dog>( "dog" ); if ( r.chance( 0.7 ) ) f.register_type<Cat>( "cat" ); for ( int j = 0; j < 3; ++j ) { S k = r.pick<const char*>( { "dog", "cat", "cow" } ); res += what( [&] { return f.create( k, j )->name(); } ) + ","; } res += what( [&] { f.unregister_type( "cat" ); return S( "gone" ); } ); for ( auto& e : f ) res += e.first; break; }
			case SETTINGS: {
				xo::prop_node schema; { auto& c = schema.add_child( "num" ); c.add_child( "type" ).set_value( S( "float" ) ); c.add_child( "default" ).set_value( S( "0.5" ) ); } auto& c = schema.add_child( "size" ); c.add_child( "type" ).set_value( S( "int" ) ); c.add_child( "default" ).set_value( S( "5" ) );
				xo::path f( d + fmt( "set%d.zml", i ) ); res += what( [&] { xo::settings s( schema, f, xo::version( 1, 2, 3 ) ); bool ok = s.set( "size", (int)r.below( 100 ) ) && !s.set( "num", S( "x" ) ) && !s.set( "none", 1 ); s.save(); xo::settings s2( schema, f, xo::version( 1, 2, 3 ) ); if ( !ok ) return S( "wrong" ); return fmt( "%d", s2.get<int>( "size" ) ); } ); break; }
			case COLORS: { auto c = xo::make_unique_color( (xo::index_t)r.below( 40 ) ); auto h = xo::color_from_hsv( (float)( r.unit() * 360 ), 0.5f, 0.7f ); res += fmt( "%.6f %.6f %.6f %x %.6f", c.r, c.g, c.b, xo::hex_rgb_from_color( h ), xo::perceived_brightness( c ) ); break; }
			case DATA: { xo::table<double> t; for ( int j = 0; j < 3; ++j ) t.add_column( fmt( "c%d", j ) ); for ( int k = 0; k < 3; ++k ) { t.add_row( fmt( "r%d", k ) ); for ( int j = 0; j < 3; ++j ) t( (xo::index_t)k, (xo::index_t)j ) = r.range( 0, 99 ); } std::stringstream ss; ss << t; xo::save_string( d + "t.txt", ss.str() ); auto b = xo::load_table<double>( d + "t.txt" ); std::stringstream s2; s2 << b; res += s2.str(); break; }
			case SHARED: {
				int k = (int)r.below( 6 ); S m = fmt( "m%d", (int)r.below( 8 ) ); auto it = cm.map.find( m ); res += it == cm.map.end() ? "none" : std::to_string( it->second );
				res += fmt( " %g %g %d %zu %g", cm.tab( cm.tab.find_row( fmt( "r%d", k % 4 ) ), (xo::index_t)k ), cm.sto( k % 5, k % 3 ), (int)cm.pm( k & 1 ? "b.zml" : "c.xml" ), (size_t)cm.labels.find( fmt( "l%d", k + 1 ) ), cm.fun( k * 0.7 ) );
				res += what( [&] { return cm.dict( (int)r.below( 5 ) ); } ) + cm.dir.filename().str() + cm.dir.stem().str() + cm.dir.extension().str() + cm.dir.parent_path().str() + ( cm.ver < xo::version( 3, (int)r.below( 9 ), 1 ) ? "<" : ">=" ) + xo::to_str( cm.ver ) + xo::concat_str( cm.names, "+" ) + cm.pm.str(); std::stringstream ss; ss << cm.tab << cm.sto; res += ss.str(); break; }
			case ERRORS: { int k = (int)r.below( 100 ); res += what( [&]() -> S { xo_error( "failed with " + xo::to_str( k ) ); } ); res += what( [&] { xo_error_if( k >= 0, fmt( "value %d", k ) ); return S(); } ); xo::error_code ec; ec = { true, fmt( "message %d", k ) }; res += ec.message() + fmt( "%d", ec.bad() ); break; }
			case DATES: { std::time_t t = 1000000000 + (std::time_t)r.below( 700000000 ); res += xo::get_date_time_str( t ) + " " + xo::get_date_time_str( t, "%H:%M %j" ); xo::date dt; xo::from_str( "2020-1-2", dt ); res += xo::to_str( dt ); break; }
			case PATHS: { xo::path p = xo::path( d + word( r ) ) / ( word( r ) + "." + word( r ) ); res += p.str() + p.stem().str() + p.extension().str() + p.parent_path().str(); p.concat_stem( "_x" ); p.replace_extension( "y" ); res += p.str() + p.filename().str() + ( p.is_absolute() ? "/" : "" ); xo::create_directories( d + "made/by" ); res += xo::directory_exists( d + "made/by" ) ? "made" : "missing"; res += xo::exists( d + "nothing" ) ? "!" : ""; break; }
			case SEARCH: {
				auto v = xo::find_files( d + "search", xo::pattern_matcher( r.pick<const char*>( { "*.txt", "*", "o*;c*" } ) ) ); std::vector<S> f; for ( auto& e : v ) f.push_back( e.str() ); std::sort( f.begin(), f.end() ); for ( auto& e : f ) res += e + ",";
				res += what( [&] { return xo::find_file( { "here.txt", d + "here.txt" } ).str(); } ); auto q = xo::try_find_file( "common.dat", { d + "sub", d + "search" } ); res += q ? q->str() : "none"; break; }
			case SHAPES: { S t = r.pick<const char*>( { "sphere { radius = 2 }", "box { dim = [ 1 2 3 ] }", "cylinder { radius = 1 height = 3 }", "capsule { radius = 1 height = 2 }", "ball { radius = 1 }" } ); res += what( [&] { auto pn = xo::parse_zml( ( "type = " + t.substr( 0, t.find( ' ' ) ) + t.substr( t.find( ' ' ) ).replace( 1, 1, " " ).substr( 0, t.size() - t.find( ' ' ) - 1 ) ).c_str() ); xo::shape s; bool ok = xo::from_prop_node( pn, s ); return fmt( "%d %.5f ", ok, xo::volume( s ) ) + xo::to_str( s ); } ); break; }
			case NUMERIC: { auto f = xo::make_lowpass_butterworth_2nd_order( 0.05 + 0.2 * r.unit() ); xo::delayer<double, 3> dl( 0.5f ); std::vector<double> v; for ( int k = 0; k < 8; ++k ) { double x = r.unit(); v.push_back( x ); res += fmt( "%.9g %.9g ", f( x ), dl( x, 0.1f ) ); } auto lf = xo::linear_regression( v, 0.0, 1.0 ); res += fmt( "%.9g %.9g", lf( 0.0 ), lf( 1.0 ) ); break; }
			case ENUMS: { sim_fruit e = sim_fruit( r.below( 4 ) ), b = xo::apple; S s = xo::to_str( e ); bool ok = xo::from_str( s, b ); bool no = xo::from_str( "stone", b ); res += s + fmt( "%d%d%d", ok, no, (int)b ); break; }
			default: { auto a = make_doc( r, ZMLDOC ), b = make_doc( r, ZMLDOC ); auto c = a; c.merge( b ); c.set( "n", (int)r.below( 100 ) ); c.set_query( "x.y.z", (int)r.below( 10 ) ); res += canon( c ) + xo::to_str( c ) + fmt( "%d%d", c.get<int>( "n" ), (int)( a == b ) ) + fmt( "%d", c.get_child( "x" ).get_child( "y" ).get<int>( "z" ) ) + fmt( "%zu", c.count_unaccessed() ); }
			}
		}
		return res;
	}

	void gen( Rng& r, Plan& p )
	{
		auto kind = [&] { long k = (long)r.below( KINDS ); return k == SECTIONS && r.chance( 0.8 ) ? (long)INCLUDE : k; };
		int nth = (int)r.range( 2, 4 ); bool mix = r.chance( 0.5 ); long one = kind(), two = kind();
		if ( r.chance( 0.25 ) ) p.cfg["nomem"] = r.range( 1, 40 );
		if ( r.chance( 0.2 ) ) { p.cfg["f.rshort"] = 300; p.cfg["f.wshort"] = 300; } if ( r.chance( 0.2 ) ) { p.cfg["f.shuffle"] = 500; p.cfg["f.dtype"] = 300; }
		for ( int t = 1; t <= nth; ++t ) {
			int n = (int)r.range( 1, 5 );
			for ( int i = 0; i < n; ++i ) {
				if ( r.chance( 0.15 ) ) p.add( t, "digits", r.range( 1, 12 ) );
				if ( r.chance( 0.15 ) ) p.add( t, "folder", r.range( 1, nth ) );
				long k = mix ? kind() : r.chance( 0.7 ) ? one : two;
				p.add( t, "do", k, (long)( r.next() >> 33 ), k == SECTIONS ? 0 : r.below( 3 ) );
			}
		}
	}
	void run( const Plan& p, int )
	{
		set_clock_tick( 0 ); World w[8]; std::vector<S>* res; std::vector<char>* skip; Common* cm;
		{
			Quiet q; cm = new Common; res = new std::vector<S>( p.ops.size() ); skip = new std::vector<char>( p.ops.size() );
			for ( int t = 0; t < 8; ++t ) { w[t].common = cm; w[t].dir = fmt( "/work/t%d", t ); if ( t ) prepare( w[t].dir, t ); }
		}
		double nm = pct( p.get( "nomem" ) ); set_faults( fault_cfg( p ) ); faults_on( true );
		int digits[8]; xo::path folder[8]; for ( int& d : digits ) d = 4;
		auto step = [&]( const Op& o, bool first ) {
			size_t i = &o - &p.ops[0]; auto& wt = w[o.t];
			if ( o.k == "digits" ) { int old = xo::set_to_str_precision( (int)o.a ); SIM_CHECK( old == digits[o.t], "thread-state", "the number of digits of thread %d was %d instead of %d", o.t, old, digits[o.t] ); digits[o.t] = (int)o.a; }
			else if ( o.k == "folder" ) { folder[o.t] = w[o.a].dir; xo::current_find_file_path( folder[o.t] ); probe( "search_folder" ); }
			else {
				S s; bool oom = false;
				{ AllocFaults f( first && o.a != SEARCH ? nm : 0 ); alloc_fault_fired(); try { s = exec( o, wt ); } catch ( std::bad_alloc& ) { oom = true; } catch ( std::exception& e ) { Quiet q; s = S( "exception: " ) + e.what(); } if ( first && alloc_fault_fired() ) oom = true; }
				Quiet q;
				if ( first ) { ( *res )[i] = s; ( *skip )[i] = oom; if ( oom ) probe( "out_of_memory" ); probe( fmt( "kind_%ld", o.a ).c_str() ); if ( s.compare( 0, 10, "exception:" ) == 0 ) probe( "exception" ); }
				else if ( !( *skip )[i] ) {
					auto& c = ( *res )[i]; size_t k = 0; while ( k < c.size() && k < s.size() && c[k] == s[k] ) ++k; size_t b = k > 20 ? k - 20 : 0;
					SIM_CHECK( c == s, "interference", "operation %ld of thread %d: '%s' with other threads and '%s' alone", o.a, o.t, escape( c.substr( b, 80 ) ).c_str(), escape( s.substr( b, 80 ) ).c_str() );
				}
			}
			SIM_CHECK( xo::to_str_precision() == digits[o.t], "thread-state", "the number of digits of thread %d is %d instead of %d", o.t, xo::to_str_precision(), digits[o.t] );
			SIM_CHECK( xo::current_find_file_path() == folder[o.t], "thread-state", "the search folder of thread %d is %s instead of %s", o.t, xo::current_find_file_path().str().c_str(), folder[o.t].str().c_str() );
		};
		run_threads( p, [&]( const Op& o ) { step( o, true ); } );
		faults_on( false ); nontrivial();
		// the same calls one thread after the other
		for ( int t = 1; t < 8; ++t ) { xo::set_to_str_precision( 4 ); xo::current_find_file_path( "" ); digits[t] = 4; folder[t] = xo::path(); for ( auto& o : p.ops ) if ( o.t == t ) step( o, false ); }
	}
	Register r21( "C21.independent", gen, run, 1 );
}
