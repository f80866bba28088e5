// C12 round trips through files, C13 damaged files, C14 includes
#include <cstdarg>
#include <cstdio>
#include "scn.h"
#include "xo/container/prop_node.h"
#include "xo/container/prop_node_tools.h"
#include "xo/system/log.h"
#include "xo/system/log_sink.h"
#include "xo/filesystem/path.h"
#include "xo/filesystem/filesystem.h"
#include "xo/serialization/serialize.h"
#include "xo/serialization/prop_node_serializer_zml.h"
#include "xo/serialization/prop_node_serializer_ini.h"
#include "xo/serialization/prop_node_serializer_xml.h"
#include "xo/serialization/container_io.h"
#include "xo/system/error_code.h"
#include <cstring>
#include <memory>
#include <sstream>
#include <optional>
#include <filesystem>

using namespace sim;

namespace
{
	// a document as the harness sees it
	struct Node { std::string key, val; std::vector<Node> kids; };
	bool same( const Node& n, const xo::prop_node& p, std::string& where )
	{
		if ( n.val != p.peek_str() ) { where += " value '" + escape( p.peek_str().substr( 0, 60 ) ) + "' instead of '" + escape( n.val.substr( 0, 60 ) ) + "'"; return false; }
		if ( n.kids.size() != p.size() ) { where += fmt( " %zu children instead of %zu", p.size(), n.kids.size() ); return false; }
		for ( size_t i = 0; i < n.kids.size(); ++i ) {
			auto& kv = p.at( i );
			if ( kv.first != n.kids[i].key ) { where += " key '" + escape( kv.first.substr( 0, 60 ) ) + "' instead of '" + escape( n.kids[i].key.substr( 0, 60 ) ) + "'"; return false; }
			where += "/" + escape( kv.first.substr( 0, 20 ) );
			if ( !same( n.kids[i], kv.second, where ) ) return false;
			where.resize( where.rfind( '/' ) );
		}
		return true;
	}
	xo::prop_node to_pn( const Node& n ) { xo::prop_node p; p.set_value( std::string( n.val ) ); for ( auto& k : n.kids ) p.add_child( k.key, to_pn( k ) ); return p; }
	std::string canon( const xo::prop_node& p ) { std::string s = "'" + p.peek_str() + "'"; if ( p.size() ) { s += "{"; for ( size_t i = 0; i < p.size(); ++i ) s += "'" + p.at( i ).first + "'=" + canon( p.at( i ).second ) + ";"; s += "}"; } return s; }

	// ------------------------------------------------------------------------------------------------ document generators
	enum { ZML, INI, XML };
	// references and macros have no way to be written as plain text (known finding)
	void zml_plain( std::string& s )
	{
		if ( !s.empty() && s[0] == '@' ) s[0] = 'a';
		if ( s.size() > 1 && s[0] == '$' && s[1] != '{' ) s[0] = 'b';
		for ( size_t i = 0; ( i = s.find( "${", i ) ) != s.npos; ) s[i] = '%';
	}
	std::string word( Rng& r, int lo, int hi ) { std::string s; int n = (int)r.range( lo, hi ); for ( int i = 0; i < n; ++i ) s += "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_.-"[r.below( i ? 45 : 26 )]; return s; }
	std::string text( Rng& r, int format )
	{
		std::string s; int k = (int)r.below( 10 ); if ( k == 9 && r.chance( 0.7 ) ) k = 4;
		if ( k < 3 ) s = word( r, 1, 12 );
		else if ( k == 3 ) s = fmt( "%g", ( r.unit() - 0.5 ) * 1e6 );
		else if ( k == 4 ) { int n = (int)r.range( 1, 5 ); for ( int i = 0; i < n; ++i ) { if ( i ) s += ' '; s += word( r, 1, 6 ); } }
		else if ( k < 8 ) { int n = (int)r.range( 1, 24 ); for ( int i = 0; i < n; ++i ) s += r.chance( 0.5 ) ? "{}[]#<>\\/='\":;,&%!?*()|~^`+-@_"[r.below( 31 )] : r.chance( 0.3 ) ? (char)r.range( 1, 32 ) : r.chance( 0.3 ) ? (char)r.range( 127, 255 ) : (char)r.range( 33, 126 ); }
		else if ( k == 8 ) s = r.pick<const char*>( { "\xc3\xa9t\xc3\xa9", "\xe6\x97\xa5\xe6\x9c\xac", "a:", "C:\\dir\\file.txt", "http://x.y/z?a=b#c", "12:30:00", "/* no */", "<<f>>", "it's", "say \"hi\"", "x\\", "\\n", "\\101", " lead", "trail ", "\t", "0", "true", "nan", "1e-300", "{ a = b }", "[ 1 2 ]", "a=b", "--", "{", "}", "[", "]", "=", ": ", "#", "//", "/*", "*/", "<<", ">>", "$", "a$", "$ 5", ";no comment", "&amp;", "]]>", "<b>", "</a>" } );
		else { int n = (int)r.range( 200, 9000 ); char c = (char)r.range( 33, 126 ); s = std::string( n, c ); for ( int i = 0; i < 20; ++i ) s[r.below( n )] = (char)r.range( 32, 126 ); }
		if ( format == ZML ) {
			for ( auto& c : s ) if ( c == 0 ) c = '-';
			zml_plain( s );
		}
		else if ( format == INI ) {
			for ( auto& c : s ) if ( (unsigned char)c < 32 || c == 0 ) c = '_';
			if ( s.size() > 400 ) s.resize( 400 );
			while ( !s.empty() && isspace( (unsigned char)s.front() ) ) s.erase( 0, 1 );
			while ( !s.empty() && isspace( (unsigned char)s.back() ) ) s.pop_back();
		}
		else {
			for ( auto& c : s ) if ( c == 0 ) c = '_';
			bool blank = true; for ( char c : s ) if ( !strchr( " \t\r\n", c ) ) blank = false;
			if ( blank ) s = "v";
		}
		return s;
	}
	std::string label( Rng& r, int format )
	{
		std::string s = r.chance( 0.7 ) ? word( r, 1, 10 ) : text( r, format );
		if ( format == ZML ) { if ( s.empty() || s[0] == '$' ) s = "k" + s; if ( s.size() > 300 ) s.resize( 300 ); }
		else if ( format == INI && r.chance( 0.3 ) ) s = word( r, 1, 3 );
		else if ( format == INI ) { if ( s.size() > 60 ) s.resize( 60 ); s = "k" + s + "k"; for ( auto& c : s ) if ( c == '=' ) c = '-'; }
		else s = word( r, 1, 12 );
		return s;
	}
	int deepest = 6, widest = 6; bool chain = false;	// of the document that is being made
	void grow( Rng& r, int format, Node& n, int depth, int& left )
	{
		bool arr = format == ZML && depth > 0 && r.chance( 0.3 );
		int k = (int)r.range( 1, widest );
		for ( int i = 0; i < k && left > 0; ++i ) {
			Node c; --left;
			if ( !arr ) c.key = label( r, format );
			int kind = (int)r.below( 10 ); if ( chain && kind < 6 && r.chance( 0.8 ) ) kind = 6;
			if ( kind < 6 || depth >= deepest ) c.val = r.chance( 0.06 ) ? "" : text( r, format );
			else if ( kind < 9 || arr || format == XML ) { grow( r, format, c, depth + 1, left ); }
			else { c.val = text( r, format ); grow( r, format, c, depth + 1, left ); }
			n.kids.push_back( std::move( c ) );
		}
	}
	Node make_doc( uint64_t seed, int size, int format )
	{
		Rng r( seed ); Node root; chain = r.chance( 0.03 ); bool wide = !chain && r.chance( 0.03 ); deepest = chain ? (int)r.range( 8, 70 ) : 6; widest = wide ? 200 : chain ? 2 : 6; if ( chain ) size = deepest + 5; if ( wide ) size = (int)r.range( 70, 200 ); int left = size;
		if ( format == ZML ) { while ( left > 0 ) grow( r, ZML, root, 0, left ); }
		else if ( format == XML ) { Node c; c.key = word( r, 1, 10 ); --left; if ( left > 0 ) grow( r, XML, c, 1, left ); else c.val = r.chance( 0.5 ) ? text( r, XML ) : ""; root.kids.push_back( c ); }
		else {
			std::set<std::string> used; auto uniq = [&]( std::string k ) { while ( !used.insert( k ).second ) k += "k"; return k; };
			int mains = (int)r.range( 0, size / 2 + 1 );
			for ( int i = 0; i < mains; ++i, --left ) { Node c; c.key = uniq( label( r, INI ) ); c.val = text( r, INI ); if ( c.val.empty() ) c.val = "v"; root.kids.push_back( c ); }
			while ( left > 0 ) { Node g; g.key = uniq( label( r, INI ) ); std::set<std::string> in; int n = (int)r.range( 1, 5 ); for ( int i = 0; i < n; ++i, --left ) { Node c; c.key = label( r, INI ); while ( !in.insert( c.key ).second ) c.key += "k"; c.val = r.chance( 0.1 ) ? "" : text( r, INI ); g.kids.push_back( c ); } root.kids.push_back( g ); }
		}
		return root;
	}

	// ------------------------------------------------------------------------------------------------ C12
	enum { EC = 1, EXPLICIT = 2, DIRECT = 4, NOMEM = 8 };
	int format_of( long i ) { return i == 2 ? INI : i == 3 ? XML : ZML; }
	const char* type_of( long i ) { return i == 2 ? "ini" : i == 3 ? "xml" : "zml"; }
	std::string doc_file( int t, long i )
	{
		std::string d = "/work/t" + std::to_string( t );
		switch ( i ) { case 0: return d + "_a.zml"; case 1: return "t" + std::to_string( t ) + "/rel file.zml"; case 2: return d + "/c.ini"; case 3: return d + "/d.xml"; case 4: return d + "/e.dat"; default: return d + "/not/there.zml"; }
	}
	void gen_round( Rng& r, Plan& p )
	{
		int mode = (int)r.below( 5 );
		if ( mode == 0 ) { p.cfg["f.rshort"] = r.range( 0, 700 ); p.cfg["f.wshort"] = r.range( 0, 700 ); p.cfg["f.eintr"] = r.range( 0, 300 ); }
		if ( mode == 1 || mode == 2 ) {
			auto f = [&]( const char* k, double pr, int hi ) { if ( r.chance( pr ) ) p.cfg[k] = r.range( 20, hi ); };
			f( "f.open", 0.3, 300 ); f( "f.write", 0.4, 400 ); f( "f.read", 0.4, 400 ); f( "f.wshort", 0.4, 600 ); f( "f.rshort", 0.4, 600 ); f( "f.close", 0.3, 400 ); f( "f.eintr", 0.2, 300 );
			if ( r.chance( 0.4 ) ) p.cfg["f.diskcap"] = r.range( 0, 6000 );
			if ( r.chance( 0.3 ) ) p.cfg["nomem"] = r.range( 1, 30 );
		}
		p.cfg["crash"] = mode == 3 ? r.range( 10, 150 ) : 0;
		int nth = r.chance( 0.7 ) ? 0 : (int)r.range( 2, 3 );
		for ( int t = nth ? 1 : 0; t <= nth; ++t ) {
			int n = (int)r.range( 2, nth ? 4 : 9 );
			for ( int i = 0; i < n; ++i ) {
				long fl = r.chance( 0.5 ) * EC + r.chance( 0.2 ) * EXPLICIT + r.chance( 0.2 ) * DIRECT + r.chance( 0.3 ) * NOMEM; long file = r.chance( 0.05 ) ? 5 : (long)r.below( 5 );
				int size = r.chance( 0.1 ) ? (int)r.range( 0, 1 ) : r.chance( 0.1 ) && !nth ? (int)r.range( 60, 200 ) : (int)r.range( 1, 25 );
				if ( r.chance( 0.6 ) ) p.add( t, "save", file, size, fl, std::to_string( r.next() >> 24 ) ); else p.add( t, r.chance( 0.2 ) ? "shared" : "load", file, 0, fl );
			}
		}
	}
	struct Loaded { bool ok = false, threw = false, nomem = false; std::string why; xo::prop_node pn; };
	Loaded load_doc( const std::string& f, long i, long fl, double nomem = 0 )
	{
		Loaded l; xo::error_code ec; auto* e = fl & EC ? &ec : nullptr;
		{
			AllocFaults a( nomem );
			try {
				xo::path file( f );
				if ( ( fl & DIRECT ) && format_of( i ) == ZML ) l.pn = xo::load_zml( file, e );
				else if ( ( fl & EXPLICIT ) || i == 4 ) l.pn = xo::load_file( file, type_of( i ), e );
				else l.pn = xo::load_file( file, e );
				l.ok = ec.good();
			}
			catch ( std::bad_alloc& ) { l.nomem = l.threw = true; }
			catch ( std::exception& x ) { l.threw = true; Quiet q; l.why = x.what(); }
		}
		{ Quiet q; if ( ec.bad() ) l.why = ec.message(); if ( l.nomem ) l.why = "bad_alloc"; }
		SIM_CHECK( !l.threw || l.nomem || !e, "throws", "loading %s threw although an error_code was given: %s", f.c_str(), l.why.c_str() );
		SIM_CHECK( !l.nomem || nomem > 0, "throws", "loading %s ran out of memory", f.c_str() );
		return l;
	}
	void run_round( const Plan& p, int phase )
	{
		struct Have { int state = 0; Node doc; };	// 0 not there, 1 holds doc, 2 a failed save touched it
		auto compare = []( const Loaded& l, const Node& want, const std::string& f, const char* when ) {
			std::string where; SIM_CHECK( l.ok, "fails", "loading %s %s failed without a fault: %s", f.c_str(), when, l.why.c_str() );
			SIM_CHECK( same( want, l.pn, where ), "corrupt", "%s loaded %s differs from what was saved: %s", f.c_str(), when, where.c_str() );
		};
		if ( phase > 0 ) {
			std::map<std::string, std::string> last; { Quiet q; for ( auto& n : notes() ) { auto b = n.find( '|' ); last[n.substr( 0, b )] = n.substr( b + 1 ); } }
			for ( auto& n : last ) {
				int t; long i; sscanf( n.first.c_str(), "%d.%ld", &t, &i ); auto f = doc_file( t, i );
				std::unique_ptr<Loaded> l; l = std::make_unique<Loaded>( load_doc( f, i, EC ) );
				Quiet q; if ( n.second == "begin" ) { probe( l->ok ? "torn_but_readable" : "torn_and_reported" ); continue; }
				int size; unsigned long long seed; sscanf( n.second.c_str(), "%d %llu", &size, &seed );
				compare( *l, make_doc( seed, size, format_of( i ) ), f, "after the process died" ); probe( "checked_after_crash" );
			}
			return;
		}
		std::vector<std::map<long, Have>>* st; Node* common; { Quiet q; st = new std::vector<std::map<long, Have>>( 8 ); common = new Node( make_doc( 77, 12, ZML ) ); for ( int t = 0; t < 6; ++t ) vfs_mkdir( "/work/t" + std::to_string( t ) ); }
		{ xo::prop_node c; { Quiet q; c = to_pn( *common ); } xo::save_file( c, xo::path( "/work/common.zml" ) ); }
		set_faults( fault_cfg( p ) ); faults_on( true );
		double nm = pct( p.get( "nomem" ) );
		run_threads( p, [&]( const Op& o ) {
			std::string f; Have* h; { Quiet q; f = doc_file( o.t, o.a ); h = &( *st )[o.t][o.a]; }
			double nomem = o.c & NOMEM ? nm : 0;
			if ( o.k == "save" ) {
				Node doc; xo::prop_node pn; std::string id; uint64_t seed;
				{ Quiet q; seed = strtoull( o.s.c_str(), nullptr, 10 ); doc = make_doc( seed, (int)o.b, format_of( o.a ) ); pn = to_pn( doc ); id = fmt( "%d.%ld|", o.t, o.a ); }
				bool crashable = p.get( "crash" ) && o.a < 5; if ( crashable ) note( id + "begin" );
				CrashArmed c( pct( p.get( "crash" ) ) );
				xo::error_code ec; auto* e = o.c & EC ? &ec : nullptr; bool threw = false, oom = false, res = true; std::string why;
				{
					AllocFaults a( nomem );
					try {
						xo::path file( f );
						if ( ( o.c & DIRECT ) && format_of( o.a ) == ZML ) xo::save_zml( pn, file, e );
						else if ( ( o.c & EXPLICIT ) || o.a == 4 ) res = xo::save_file( pn, file, type_of( o.a ), e );
						else res = xo::save_file( pn, file, e );
					}
					catch ( std::bad_alloc& ) { threw = oom = true; }
					catch ( std::exception& x ) { threw = true; Quiet q; why = x.what(); }
				}
				bool ok = !threw && ec.good();
				{ Quiet q; if ( ec.bad() ) why = ec.message(); }
				SIM_CHECK( !threw || oom || !e, "throws", "saving %s threw although an error_code was given: %s", f.c_str(), why.c_str() );
				SIM_CHECK( threw || !e || ( ( o.c & DIRECT ) && format_of( o.a ) == ZML ) || res == ok, "inconsistent", "save_file returned %d, but the error_code says '%s'", (int)res, why.c_str() );
				{ std::string where; Quiet q; SIM_CHECK( same( doc, pn, where ), "corrupt", "saving changed the document:%s", where.c_str() ); }
				if ( ok ) {
					SIM_CHECK( o.a != 5, "lost-write", "saving to a directory that does not exist succeeded" );
					if ( crashable ) { Quiet q; note( id + fmt( "%ld %llu", o.b, (unsigned long long)seed ) ); }
					FaultsOff off; auto l = load_doc( f, o.a, EC ); Quiet q; compare( l, doc, f, "right after saving" );
					h->state = 1; h->doc = std::move( doc );
				}
				else { SIM_CHECK( faults_fired() > 0 || o.a == 5, "fails", "saving %s failed without any fault: %s", f.c_str(), why.c_str() ); h->state = 2; probe( "save_failed" ); }
			}
			else if ( o.k == "load" ) {
				auto l = load_doc( f, o.a, o.c, nomem );
				Quiet q; std::string where;
				if ( h->state == 0 ) SIM_CHECK( !l.ok, "invented", "loading %s succeeded, but it was never saved", f.c_str() );
				else if ( h->state == 1 ) {
					if ( l.ok ) SIM_CHECK( same( h->doc, l.pn, where ), "corrupt", "%s loaded without error, but differs from what was saved:%s", f.c_str(), where.c_str() );
					else { SIM_CHECK( faults_fired() > 0, "fails", "loading %s failed without any fault: %s", f.c_str(), l.why.c_str() ); probe( "load_failed" ); }
				}
			}
			else {
				auto l = load_doc( "/work/common.zml", 0, o.c, nomem ); Quiet q; std::string where;
				if ( l.ok ) SIM_CHECK( same( *common, l.pn, where ), "corrupt", "a file read by several threads differs:%s", where.c_str() ); else SIM_CHECK( faults_fired() > 0, "fails", "loading common.zml failed without any fault: %s", l.why.c_str() );
			}
		} );
		faults_on( false );
		for ( size_t t = 0; t < st->size(); ++t ) for ( auto& kv : ( *st )[t] ) if ( kv.second.state ) {
			auto f = doc_file( (int)t, kv.first ); auto l = load_doc( f, kv.first, EC ); Quiet q;
			if ( kv.second.state == 1 ) compare( l, kv.second.doc, f, "at the end" );
		}
		SIM_CHECK( open_fds() == 0, "fd-leak", "%d descriptors are still open", open_fds() );
	}
	Register r12( "C12.roundtrip", gen_round, run_round, 3 );

	// the writers and readers used on streams, without files
	void gen_stream( Rng& r, Plan& p )
	{
		p.cfg["fmt"] = r.below( 5 ); int n = (int)r.range( 1, 4 ); for ( int i = 0; i < n; ++i ) p.add( (int)r.below( 3 ), "rt", r.chance( 0.7 ) ? (long)r.range( 0, 25 ) : (long)r.range( 25, 120 ), r.chance( 0.1 ) ? (long)r.range( 1, 500 ) : 0, 0, std::to_string( r.next() >> 24 ) );
	}
	// give one of the items in a group no label, or one of the values in an array children
	bool spoil( Node& n, size_t at )
	{
		std::vector<Node*> all, found; all.push_back( &n ); for ( size_t i = 0; i < all.size(); ++i ) for ( auto& k : all[i]->kids ) all.push_back( &k );
		for ( auto* x : all ) { bool arr = true; for ( auto& k : x->kids ) arr = arr && k.key.empty(); if ( !arr && x->kids.size() > 1 ) found.push_back( x ); if ( arr && x != &n ) for ( auto& k : x->kids ) if ( !k.val.empty() && k.kids.empty() ) found.push_back( &k ); }
		if ( found.empty() ) return false;
		auto* x = found[at % found.size()]; if ( x->kids.empty() ) { Node k; k.key = "a"; k.val = "b"; x->kids.push_back( k ); } else x->kids[at / 7 % x->kids.size()].key.clear();
		return true;
	}
	void run_stream( const Plan& p, int )
	{
		if ( p.get( "one" ) ) {	// one document: a=1 a label, a=2 a value, a=3 an array of values without a label
			for ( auto& o : p.ops ) {
				xo::prop_node pn, back; xo::error_code ec; if ( o.a == 1 ) pn.add_child( o.s ).set_value( "v" ); else if ( o.a == 2 ) pn.add_child( "k" ).set_value( std::string( o.s ) ); else { pn.add_child( "" ).set_value( std::string( o.s ) ); pn.add_child( "" ).set_value( "v" ); }
				xo::save_file( pn, "/work/one.zml", &ec ); SIM_CHECK( ec.good(), "fails", "saving failed" );
				back = xo::load_file( "/work/one.zml", &ec ); Quiet q;
				SIM_CHECK( ec.good() && canon( back ) == canon( pn ), "not-representable", "saving %s reported success, loading it again %s", canon( pn ).c_str(), ec.bad() ? ( "failed: " + ec.message() ).c_str() : ( "gave " + canon( back ) ).c_str() );
			}
			return;
		}
		run_threads( p, [&]( const Op& o ) {
			long f = p.get( "fmt" ); int format = f == 1 ? INI : f == 2 ? XML : ZML;
			Node doc; xo::prop_node pn, back; { Quiet q; doc = make_doc( strtoull( o.s.c_str(), nullptr, 10 ), (int)o.a, format ); pn = to_pn( doc ); }
			const xo::prop_node& cpn = pn; std::stringstream str; xo::error_code ec; bool odd = false;
			if ( o.b && format == ZML ) { Quiet q; odd = spoil( doc, (size_t)o.b ); if ( odd ) pn = to_pn( doc ); }
			if ( odd ) {	// must be refused, or read back as it is
				const char* how = o.b % 2 ? "ec" : "throw"; bool bad = false; std::string f; { Quiet q; f = fmt( "odd%d.zml", o.t ); }
				try { if ( o.b % 2 ) bad = !xo::save_file( cpn, xo::path( f ), &ec ); else if ( p.get( "fmt" ) == 3 ) { xo::prop_node_serializer_zml_concise w( cpn ); str << w; back = xo::parse_zml( str.str().c_str() ); } else xo::save_file( cpn, xo::path( f ) ); }
				catch ( std::exception& ) { bad = true; SIM_CHECK( o.b % 2 == 0, "throws", "saving threw although an error_code was given" ); }
				if ( !bad && ( o.b % 2 || p.get( "fmt" ) != 3 ) ) back = xo::load_file( xo::path( f ) );
				Quiet q; std::string where; nontrivial(); probe( "odd" );
				SIM_CHECK( bad || same( doc, back, where ), "silently-changed", "a document that zml cannot hold was saved (%s) without an error and is read back as something else:%s", how, where.c_str() ); return;
			}
			if ( f == 0 ) { xo::prop_node_serializer_zml w( cpn ); str << w; xo::prop_node_serializer_zml r( back, &ec ); str >> r; }
			else if ( f == 1 ) { xo::prop_node_serializer_ini w; w.write_pn_ = &cpn; str << w; xo::prop_node_serializer_ini r; r.read_pn_ = &back; r.ec_ = &ec; str >> r; }
			else if ( f == 2 ) { xo::prop_node_serializer_xml w( cpn ); str << w; xo::prop_node_serializer_xml r( back, &ec ); str >> r; }
			else if ( f == 3 ) { xo::prop_node_serializer_zml_concise w( cpn ); str << w; std::string s; { Quiet q; s = str.str(); } back = xo::parse_zml( s.c_str(), &ec ); }
			else { auto w = xo::make_serializer( "zml", cpn ); str << *w; auto r = xo::make_serializer( "zml", back, &ec ); str >> *r; }
			Quiet q; std::string where; nontrivial();
			SIM_CHECK( ec.good(), "fails", "reading back a document written to a stream failed: %s (%s)", ec.message().c_str(), escape( str.str().substr( 0, 300 ) ).c_str() );
			SIM_CHECK( same( doc, back, where ), "corrupt", "a document read back from a stream differs from what was written:%s (%s)", where.c_str(), escape( str.str().substr( 0, 300 ) ).c_str() );
		} );
	}
	Register r12b( "C12.stream", gen_stream, run_stream, 1 );

	// ------------------------------------------------------------------------------------------------ C13
	const char* bits[] = { "{", "}", "[", "]", "=", ": ", "\"", "'", "\\", "#", "//", "/*", "*/", "<<", ">>", "$", "${", "$x", "@", "@a.b", "@#1", "\n", "\r\n", "\t", " ", "a", "key", "1", "-1e9", "nan", "\"\"", "${x}", "$x = ", "a = ", "b { ", "c [ ", " }", " ]", "<a>", "</a>", "<a b='c'/>", "<!--", "-->", "<![CDATA[", "]]>", "&lt;", "&#65;", "&#", "<?xml ", "?>", "<!DOCTYPE", ";", "[g]\n", "k=v\n", "INCLUDE { file = x.zml }", "\xef\xbb\xbf", "\xff\xfe", "\x7f", "\\x", "\\777", "\\0" };
	std::string damaged( Rng& r, int format )
	{
		std::string s;
		if ( r.chance( 0.75 ) ) {
			Node d = make_doc( r.next() >> 20, (int)r.range( 1, 20 ), format ); auto pn = to_pn( d ); std::ostringstream o;
			{ FaultsOff off; if ( format == ZML ) { const auto& c = pn; if ( r.chance( 0.7 ) ) { xo::prop_node_serializer_zml w( c ); o << w; } else { xo::prop_node_serializer_zml_concise w( c ); o << w; } } else if ( format == INI ) { xo::prop_node_serializer_ini w; w.write_pn_ = &pn; o << w; } else { xo::prop_node_serializer_xml w( std::as_const( pn ) ); o << w; } }
			s = o.str();
		}
		else { int n = (int)r.range( 0, 40 ); for ( int i = 0; i < n; ++i ) { s += bits[r.below( sizeof( bits ) / sizeof( *bits ) )]; if ( r.chance( 0.4 ) ) s += ' '; } }
		int m = (int)r.below( 5 ); bool harmless = r.chance( 0.3 );
		for ( int i = 0; i < m; ++i ) {
			size_t a = r.below( s.size() + 1 ), b = r.below( s.size() + 1 ); if ( a > b ) std::swap( a, b );
			if ( harmless ) a = std::min( s.find( '\n', a ), s.size() - 1 ) + 1;
			switch ( harmless ? 8 : r.below( 9 ) ) {
			case 8: if ( format == INI && harmless ) s.insert( a, r.pick<const char*>( { ";c\n", "\n", " k = v \n", "[g]\n", "[]=1\n", "a b=c=d\n", "x=\n", "k=2\r\n", "=v\n" } ) ); else if ( format == INI ) { int n = (int)r.range( 1000, r.chance( 0.5 ) ? 1040 : 3000 ); s.insert( a, std::string( n, "x=;"[r.below( 3 )] ) ); } else if ( format == ZML ) s.insert( a, r.pick<const char*>( { " # x\n", " // } {\n", " /* } */ ", " /**/ ", "\n#\n", " /* \n */\n", " \"a b\" = 'c d' ", " k {} ", " k [] ", " k = v { x = 1 } ", "k: v ", " \"\"", "'}' = '{' " } ) ); break;
			case 0: s.resize( a ); break;									// torn
			case 1: if ( a < s.size() ) s[a] = (char)r.below( 256 ); break;		// flipped
			case 2: s.insert( a, bits[r.below( sizeof( bits ) / sizeof( *bits ) )] ); break;
			case 3: for ( size_t k = a; k < b && k < a + 512; ++k ) s[k] = 0; break;	// a block that was never written
			case 4: s.erase( a, std::min<size_t>( b - a, 64 ) ); break;
			case 5: s.insert( a, s.substr( a, std::min<size_t>( b - a, 200 ) ) ); break;	// a block twice
			case 6: { int n = (int)r.range( 1, 60 ); std::string x; for ( int k = 0; k < n; ++k ) x += format == XML ? "<n>" : r.chance( 0.5 ) ? "{ " : "[ "; s.insert( a, x ); break; }
			default: { std::string x = r.pick<const char*>( { "0.5 1 2 3 ", "1e999 ", "x ", "0x10 ", "- ", "1 2 3" } ); int n = (int)r.range( 1, 5 ); for ( int k = 0; k < n; ++k ) s.insert( a, x ); }
			}
		}
		if ( s.size() > 20000 ) s.resize( 20000 );
		return s;
	}
	// ---- what a text means, written down once more
	struct Unclear {};	// the format does not say; anything goes that does not break
	struct Wrong { std::string why; };
	struct ZmlRef
	{
		const std::string& s; size_t i = 0; struct Tok { std::string t; bool quoted = false, end = false; bool is( const char* x ) const { return !quoted && !end && t == x; } bool op() const { for ( auto* x : { "=", ": ", "{", "}", "[", "]", "#", "<<", ">>", "//", "/*", "*/" } ) if ( is( x ) ) return true; return false; } } cur;
		static bool at( const std::string& s, size_t i, const char* x ) { return s.compare( i, strlen( x ), x ) == 0; }
		void next()
		{
			for ( ;; ) {
				cur = Tok(); bool any = false;
				while ( i < s.size() && strchr( " \n\r\t\v", s[i] ) ) ++i;
				if ( i == s.size() ) { cur.end = true; return; }
				for ( ; i < s.size() && !strchr( " \n\r\t\v", s[i] ); any = true ) {
					if ( s[i] == '"' || s[i] == '\'' ) {
						char q = s[i++]; cur.quoted = true;
						for ( ;; ++i ) {
							if ( i >= s.size() ) throw Unclear();	// no closing quote
							if ( s[i] == q ) { ++i; break; }
							if ( s[i] != '\\' ) { cur.t += s[i]; continue; }
							if ( ++i >= s.size() ) throw Unclear();
							switch ( s[i] ) { case '\\': cur.t += '\\'; break; case '"': cur.t += '"'; break; case 'r': cur.t += '\r'; break; case 'n': cur.t += '\n'; break; case 't': cur.t += '\t'; break; default: throw Unclear(); }
						}
						continue;
					}
					const char* op = nullptr; for ( auto* x : { ": ", "<<", ">>", "//", "/*", "*/", "=", "{", "}", "[", "]", "#" } ) if ( !op && at( s, i, x ) ) op = x;
					if ( op ) { if ( !any ) { cur.t = op; i += strlen( op ); } break; }
					cur.t += s[i++];
				}
				if ( cur.is( "#" ) || cur.is( "//" ) ) { while ( i < s.size() && s[i] != '\n' && s[i] != '\r' ) ++i; continue; }
				if ( cur.is( "/*" ) ) { i = s.find( "*/", i ); if ( i == s.npos ) { i = s.size(); throw Wrong{ "comment without end" }; } i += 2; continue; }
				return;
			}
		}
		bool macro() const { return !cur.t.empty() && ( cur.t[0] == '@' || cur.t[0] == '$' || cur.t.find( "${" ) != cur.t.npos ); }
		// reads to close, 0 for the end of the text
		void layer( Node& parent, const char* close, int depth )
		{
			if ( depth > 200 ) throw Unclear();
			for ( next(); close ? !cur.is( close ) : !cur.end; next() ) {
				if ( cur.end ) throw Wrong{ "end of text inside a group" };
				if ( cur.is( "<<" ) || macro() ) throw Unclear();
				Node* n; bool arr = close && *close == ']';
				if ( !arr && ( cur.is( "{" ) || cur.is( "[" ) ) ) { if ( parent.kids.empty() ) throw Wrong{ "group without a label" }; n = &parent.kids.back(); }
				else if ( !arr ) {
					if ( cur.op() ) throw Unclear();
					if ( cur.t.empty() ) throw Wrong{ "empty label" };
					if ( !cur.quoted && ( cur.t[0] < 33 || cur.t[0] > 126 ) ) throw Unclear();
					parent.kids.push_back( Node{ cur.t } ); n = &parent.kids.back(); next();
					if ( cur.is( "=" ) || cur.is( ": " ) ) next(); else if ( !cur.is( "{" ) && !cur.is( "[" ) ) throw Wrong{ "label without value" };
				}
				else { parent.kids.push_back( Node() ); n = &parent.kids.back(); }
				if ( cur.end || macro() ) throw Unclear();
				if ( cur.is( "{" ) ) layer( *n, "}", depth + 1 );
				else if ( cur.is( "[" ) ) layer( *n, "]", depth + 1 );
				else if ( cur.op() ) throw Unclear();
				else n->val = cur.t;
			}
		}
	};
	std::string strip( const std::string& s ) { size_t a = 0, b = s.size(); while ( a < b && isspace( (unsigned char)s[a] ) ) ++a; while ( b > a && isspace( (unsigned char)s[b - 1] ) ) --b; return s.substr( a, b - a ); }
	void ini_ref( const std::string& s, Node& root )
	{
		int group = -1;
		for ( size_t i = 0; i < s.size(); ) {
			size_t e = std::min( s.find( '\n', i ), s.size() ); std::string l = s.substr( i, e - i ); i = e + 1;
			if ( l.size() >= 1024 ) throw Wrong{ "line too long" };
			if ( l.empty() || l[0] == ';' ) continue;
			if ( l.size() > 2 && l[0] == '[' && l.back() == ']' ) { root.kids.push_back( Node{ l.substr( 1, l.size() - 2 ) } ); group = (int)root.kids.size() - 1; continue; }
			size_t q = l.find( '=' ); if ( q == l.npos ) throw Wrong{ "line without =" };
			Node& p = group < 0 ? root : root.kids[group]; std::string k = strip( l.substr( 0, q ) ), v = strip( l.substr( q + 1 ) );
			if ( group < 0 && k.empty() ) throw Unclear();
			for ( auto& x : p.kids ) if ( x.key == k ) { x.val = v; k = "\n"; break; }
			if ( k != "\n" ) p.kids.push_back( Node{ k, v } );
		}
	}
	std::string canon( const Node& p ) { std::string s = "'" + p.val + "'"; if ( p.kids.size() ) { s += "{"; for ( auto& k : p.kids ) s += "'" + k.key + "'=" + canon( k ) + ";"; s += "}"; } return s; }
	// result of reading data as the given format: 1 out holds it, 0 it is wrong (out says why), -1 unclear
	int meaning( const std::string& data, int format, std::string& out )
	{
		if ( data.find( '\0' ) != data.npos || format == XML ) return -1;
		try { Node n; if ( format == INI ) ini_ref( data, n ); else { ZmlRef z{ data }; z.layer( n, nullptr, 0 ); } out = canon( n ); return 1; }
		catch ( Unclear& ) { return -1; }
		catch ( Wrong& w ) { out = w.why; return 0; }
	}
	const char* bad_names[] = { "/work/b0.zml", "/work/b1.zml", "/work/b2.ini", "/work/b3.xml", "/work/sub/b4.zml", "/work/b5.dat" };
	void gen_bad( Rng& r, Plan& p )
	{
		for ( int i = 0; i < 6; ++i ) if ( r.chance( 0.7 ) ) p.add( -1, "file", i, 0, 0, damaged( r, i == 2 ? INI : i == 3 ? XML : ZML ) );
		if ( r.chance( 0.5 ) ) { auto f = [&]( const char* k, double pr, int hi ) { if ( r.chance( pr ) ) p.cfg[k] = r.range( 20, hi ); }; f( "f.open", 0.4, 300 ); f( "f.read", 0.5, 500 ); f( "f.rshort", 0.5, 800 ); f( "f.eintr", 0.2, 300 ); f( "f.close", 0.2, 300 ); f( "f.stat", 0.2, 300 ); if ( r.chance( 0.4 ) ) p.cfg["nomem"] = r.range( 1, 40 ); }
		int nth = r.chance( 0.8 ) ? 0 : 2;
		for ( int t = nth ? 1 : 0; t <= nth; ++t ) { int n = (int)r.range( 2, nth ? 4 : 8 ); for ( int i = 0; i < n; ++i ) { long f = (long)r.below( 7 ); p.add( t, "read", f, r.chance( 0.5 ) ? (long)r.below( 10 ) : f == 5 ? (long)r.pick<int>( { 3, 4, 5, 7, 8 } ) : (long)r.pick<int>( { 0, 5, 6, 9 } ), r.chance( 0.6 ) * EC + r.chance( 0.4 ) * NOMEM ); } }
	}
	// returns the result in a comparable form, "!" plus the error otherwise
	std::string read_any( const std::string& f, long api, bool use_ec, double nomem, bool& oom )
	{
		xo::error_code ec; auto* e = use_ec ? &ec : nullptr; std::string res, why; bool threw = false; oom = false;
		{
			AllocFaults a( nomem );
			try {
				xo::path file( f );
				switch ( api ) {
				case 0: case 1: case 2: { auto pn = xo::load_file( file, e ); Quiet q; res = canon( pn ); break; }
				case 3: { auto pn = xo::load_file( file, "ini", e ); Quiet q; res = canon( pn ); break; }
				case 4: { auto pn = xo::load_file( file, "xml", e ); Quiet q; res = canon( pn ); break; }
				case 5: { std::vector<xo::path> inc; auto pn = xo::load_zml( file, e, xo::path(), &inc ); Quiet q; res = canon( pn ); break; }
				case 6: { auto s = xo::load_string( file, e ); if ( !ec.bad() ) { auto pn = xo::parse_zml( s.c_str(), e ); Quiet q; res = canon( pn ); } break; }
				case 7: { auto v = xo::read_data<std::vector<double>>( file, e ); Quiet q; for ( auto d : v ) res += fmt( "%.17g ", d ); break; }
				case 8: { auto v = xo::read_data<std::vector<std::string>>( file, e ); Quiet q; for ( auto& d : v ) res += d + " "; break; }
				default: { auto pn = xo::load_file_with_include( file ); Quiet q; res = canon( pn ); break; }
				}
			}
			catch ( std::bad_alloc& ) { threw = oom = true; }
			catch ( std::exception& x ) { threw = true; Quiet q; why = x.what(); }
		}
		Quiet q;
		SIM_CHECK( !threw || oom || !use_ec || api == 9, "throws", "reading %s (way %ld) threw although an error_code was given: %s", f.c_str(), api, why.c_str() );
		SIM_CHECK( !oom || nomem > 0, "memory", "reading %s (way %ld) ran out of memory", f.c_str(), api );
		if ( threw || ec.bad() ) return "!" + ( threw ? why : ec.message() );
		return res;
	}
	void run_bad( const Plan& p, int )
	{
		set_mem_cap( 64 << 20 ); set_step_cap( 60000000 );
		vfs_mkdir( "/work/sub" ); vfs_mkdir( "/work/adir.zml" );
		for ( auto& o : p.ops ) if ( o.k == "file" ) vfs_put( bad_names[o.a % 6], o.s );
		set_faults( fault_cfg( p ) ); faults_on( true ); nontrivial();
		double nm = pct( p.get( "nomem" ) );
		run_threads( p, [&]( const Op& o ) {
			if ( o.k != "read" ) return;
			std::string f; { Quiet q; f = o.a == 6 ? "/work/adir.zml" : bad_names[o.a]; }
			bool oom, oom2; long before = faults_fired();
			auto got = read_any( f, o.b, o.c & EC, o.c & NOMEM ? nm : 0, oom ); long fired = faults_fired() - before;
			FaultsOff off;
			auto want = read_any( f, o.b, true, 0, oom2 ), plain = read_any( f, o.b, false, 0, oom2 );
			Quiet q; bool ge = got[0] == '!', we = want[0] == '!', pe = plain[0] == '!';
			std::string data; bool there = vfs_get( f, data );
			int format = o.b == 3 ? INI : o.b == 5 || o.b == 6 ? ZML : o.b == 4 || o.b == 7 || o.b == 8 ? XML : o.a == 0 || o.a == 1 || o.a == 4 ? ZML : o.a == 2 ? INI : XML; std::string means;
			if ( there && ( o.b != 9 || data.find( "INCLUDE" ) == data.npos ) ) {
				int m = meaning( data, format, means ); if ( m == 1 ) probe( "content_checked" ); if ( m == 0 ) probe( "damage_known" );
				SIM_CHECK( m != 0 || we, "not-reported", "reading %s (way %ld) succeeded although it has a %s", f.c_str(), o.b, means.c_str() );
				SIM_CHECK( m != 1 || !we, "fails", "reading %s (way %ld), which is well-formed, failed: %s", f.c_str(), o.b, want.c_str() );
				if ( m == 1 && want != means ) { size_t d = 0; while ( d < want.size() && d < means.size() && want[d] == means[d] ) ++d; d = d > 30 ? d - 30 : 0; SIM_CHECK( false, "wrong-content", "reading %s (way %ld) gives '%s' where the file says '%s'", f.c_str(), o.b, escape( want.substr( d, 80 ) ).c_str(), escape( means.substr( d, 80 ) ).c_str() ); }
			}
			SIM_CHECK( there || we, "invented", "reading %s (way %ld) succeeded, but there is no such file", f.c_str(), o.b );
			SIM_CHECK( we == pe && ( we || want == plain ), "inconsistent", "reading %s (way %ld) with an error_code gives '%s', without one '%s'", f.c_str(), o.b, escape( want.substr( 0, 80 ) ).c_str(), escape( plain.substr( 0, 80 ) ).c_str() );
			if ( !ge ) { SIM_CHECK( !we && got == want, "partial-read", "reading %s (way %ld) gives '%s' without an error, but '%s' when nothing fails", f.c_str(), o.b, escape( got.substr( 0, 80 ) ).c_str(), escape( want.substr( 0, 80 ) ).c_str() ); probe( "read_ok" ); }
			else { SIM_CHECK( we || fired > 0, "fails", "reading %s (way %ld) failed once without a fault: %s", f.c_str(), o.b, got.c_str() ); probe( we ? "bad_content_reported" : "fault_reported" ); }
		} );
		faults_on( false );
		SIM_CHECK( open_fds() == 0, "fd-leak", "%d descriptors are still open", open_fds() );
	}
	Register r13( "C13.damaged", gen_bad, run_bad, 1 );

	// ------------------------------------------------------------------------------------------------ C14
	// A file is described by a string: letters are items, { [ } open and close a level, digits include that file, 8 a missing one, '#' is a comment.
	const char* inc_dirs[] = { "/work/inc/", "/work/inc/sub/", "/work/inc/sub/deep/", "/work/other dir/" };
	long inc_work;	// what the loads of a run cost together
	bool inc_flat;	// all in the current folder, so that relative names have no folder
	std::string inc_dir( int k ) { return inc_flat ? "/work/" : inc_dirs[k % 4]; }
	std::string inc_file( int i, bool xml ) { return inc_dir( i * 7 ) + "f" + std::to_string( i ) + ( xml ? ".xml" : ".zml" ); }
	std::string inc_name( int from, int to, bool xml, unsigned style )
	{
		std::string target = to == 8 ? inc_dir( from ) + "missing.zml" : inc_file( to, xml );
		if ( style % 4 == 3 ) return target;	// absolute
		std::string rel = std::filesystem::path( target ).lexically_relative( inc_dir( from * 7 ) ).string();
		return style % 4 == 1 ? "./" + rel : rel;
	}
	// other files that would be read if a relative name was taken from the current folder or the folder of another file
	void inc_decoys( bool xml )
	{
		std::set<std::string> real; for ( int i = 0; i < 8; ++i ) real.insert( inc_file( i, xml ) ); for ( auto d : inc_dirs ) real.insert( std::string( d ) + "missing.zml" );
		for ( int from = 0; from < 8; ++from ) for ( int to = 0; to < 9; ++to ) for ( std::string base : { "/work/", "/work/inc/", "/work/inc/sub/" } ) {
			auto f = std::filesystem::path( base + inc_name( from, to, xml, 0 ) ).lexically_normal().string();
			if ( !real.count( f ) && !vfs_exists( f ) ) vfs_put( f, xml ? "<decoy>wrong</decoy>" : "decoy = wrong" );
		}
	}
	struct Expander
	{
		std::map<int, std::string> files; bool bad = false; long budget = 20000; std::vector<std::string> top;
		unsigned style = 0; bool xml = false, directive = false;
		// what file id expands to; false: no such document
		bool expand( int id, int level, Node& out )
		{
			auto it = files.find( id ); if ( it == files.end() ) return false;
			const std::string& s = it->second; size_t i = 0; int n = 0;
			return layer( id, s, i, n, level, out, false );
		}
		bool layer( int id, const std::string& s, size_t& i, int& n, int level, Node& out, bool arr )
		{
			for ( ; i < s.size(); ++i ) {
				char c = s[i]; ++n; if ( --budget < 0 ) return false;
				if ( c == '}' ) return true;
				if ( c == '{' || c == '[' ) { Node k; if ( !arr ) k.key = fmt( "g%d", n ); ++i; if ( !layer( id, s, i, n, level, k, c == '[' ) ) return false; if ( c == '[' && k.kids.empty() && arr ) k.val = ""; out.kids.push_back( k ); }
				else if ( c >= '0' && c <= '8' ) {
					if ( level >= 100 ) return false;
					if ( level == 0 ) top.push_back( std::filesystem::path( c == '8' ? inc_dir( 0 ) : inc_file( c - '0', false ) ).lexically_normal().string() );
					Node k; if ( !expand( c == '8' ? -1 : c - '0', level + 1, k ) ) return false;
					for ( auto& x : k.kids ) out.kids.push_back( x );
				}
				else if ( c >= 'a' && c <= 'z' ) { Node k; if ( !arr ) k.key = std::string( 1, c ); k.val = fmt( "v%d.%d", id, n ); out.kids.push_back( k ); }
			}
			return true;
		}
	};
	std::string inc_text( int id, const std::string& s, unsigned style )
	{
		std::string o; int n = 0; std::vector<bool> arr{ false };
		for ( char c : s ) {
			++n; const char* sep = ( style + n ) % 3 ? "\n" : " ";
			if ( c == '}' ) { if ( arr.size() > 1 ) { o += arr.back() ? "]" : "}"; arr.pop_back(); } else break; }
			else if ( c == '{' || c == '[' ) { if ( !arr.back() ) o += fmt( "g%d %s", n, ( style + n ) % 2 ? "= " : "" ); o += c; arr.push_back( c == '[' ); }
			else if ( c >= '0' && c <= '8' ) { auto f = inc_name( id, c - '0', false, style + n ); bool q = f.find( ' ' ) != std::string::npos || ( style + n ) % 2; o += "<< " + ( q ? "\"" + f + "\"" : f ) + " >>"; }
			else if ( c == '#' ) o += ( style + n ) % 2 ? "# << nothing >>\n" : "/* << \"x\" >> } */";
			else if ( c >= 'a' && c <= 'z' ) { if ( !arr.back() ) o += std::string( 1, c ) + " = "; o += fmt( "v%d.%d", id, n ); }
			o += sep;
		}
		while ( arr.size() > 1 ) { o += arr.back() ? " ]" : " }"; arr.pop_back(); }
		return o;
	}
	std::string inc_random( Rng& r, int id, int nfiles, bool cycles, bool plain )
	{
		std::string s; int n = (int)r.range( 0, 7 ), inc = 0;
		for ( int i = 0; i < n; ++i ) {
			int k = (int)r.below( 10 );
			if ( k < 4 ) s += (char)( 'a' + r.below( 6 ) );
			else if ( k < 7 && inc < 2 ) { int to = cycles ? (int)r.below( nfiles ) : id + 1 + (int)r.below( 3 ); if ( to < nfiles ) { s += (char)( '0' + to ); ++inc; } else if ( r.chance( 0.04 ) ) s += '8'; }
			else if ( plain ) s += 'z';
			else s += "{[}#"[r.below( 4 )];
		}
		return s;
	}
	void gen_faulty( Rng& r, Plan& p )
	{
		if ( !r.chance( 0.5 ) ) return;
		auto f = [&]( const char* k, double pr, int hi ) { if ( r.chance( pr ) ) p.cfg[k] = r.range( 20, hi ); }; f( "f.open", 0.5, 300 ); f( "f.read", 0.5, 300 ); f( "f.rshort", 0.5, 800 ); f( "f.eintr", 0.2, 200 ); f( "f.close", 0.2, 300 );
		if ( r.chance( 0.3 ) ) p.cfg["nomem"] = r.range( 1, 20 );
	}
	void gen_inc( Rng& r, Plan& p )
	{
		int n = (int)r.range( 1, 7 ); p.cfg["style"] = r.below( 24 ); if ( r.chance( 0.15 ) ) p.cfg["flat"] = 1; bool cycles = r.chance( 0.2 );
		for ( int i = 0; i < n; ++i ) if ( i == 0 || !r.chance( 0.03 ) ) p.add( -1, "file", i, 0, 0, inc_random( r, i, n, cycles, false ) );
		gen_faulty( r, p );
		int nth = r.chance( 0.75 ) ? 0 : 2;
		for ( int t = nth ? 1 : 0; t <= nth; ++t ) { int m = (int)r.range( 1, 4 ); for ( int i = 0; i < m; ++i ) p.add( t, "load", r.chance( 0.7 ) ? 0 : (long)r.below( n ), r.below( 4 ), r.chance( 0.6 ) * EC + r.chance( 0.4 ) * NOMEM ); }
	}
	bool load_inc( const std::string& f, long api, bool use_ec, double nomem, xo::prop_node& pn, std::vector<xo::path>& inc, std::string& why )
	{
		xo::error_code ec; auto* e = use_ec ? &ec : nullptr; bool threw = false, oom = false;
		{
			AllocFaults a( nomem );
			try {
				xo::path file( f );
				if ( api == 0 ) pn = xo::load_file( file, e );
				else if ( api == 1 ) pn = xo::load_zml( file, e, xo::path(), &inc );
				else if ( api == 2 ) pn = xo::load_file( xo::path( f[0] == '/' && f.rfind( "/work/", 0 ) == 0 ? f.substr( 6 ) : f ), e );
				else { xo::prop_node_serializer_zml z; pn = z.load_file( file, e ); for ( auto& x : z.included_files_ ) inc.push_back( x ); }
			}
			catch ( std::bad_alloc& ) { threw = oom = true; }
			catch ( std::exception& x ) { threw = true; Quiet q; why = x.what(); }
		}
		Quiet q; if ( ec.bad() ) why = ec.message();
		SIM_CHECK( !threw || oom || !use_ec, "throws", "loading %s threw although an error_code was given: %s", f.c_str(), why.c_str() );
		SIM_CHECK( !oom || nomem > 0, "memory", "loading %s ran out of memory", f.c_str() );
		return !threw && !ec.bad();
	}
	void run_inc( const Plan& p, int )
	{
		set_mem_cap( 64 << 20 ); unsigned style = (unsigned)p.get( "style" ); Expander* ex; { Quiet q; ex = new Expander; }
		set_step_cap( 90000000 ); inc_work = 0; inc_flat = p.get( "flat" ); for ( auto d : inc_dirs ) vfs_mkdir( std::string( d ).substr( 0, strlen( d ) - 1 ) );
		{ Quiet q; for ( auto& o : p.ops ) if ( o.k == "file" ) { int id = (int)o.a; ex->files[id] = o.s; vfs_put( inc_file( id, false ), inc_text( id, o.s, style ) ); } if ( style % 2 && !inc_flat ) inc_decoys( false ); }
		set_faults( fault_cfg( p ) ); faults_on( true ); double nm = pct( p.get( "nomem" ) );
		run_threads( p, [&]( const Op& o ) {
			if ( o.k != "load" ) return;
			std::string f, why; Node want; bool exists; std::vector<std::string> tops; { Quiet q; f = inc_file( (int)o.a, false ); Expander e; e.files = ex->files; exists = e.expand( (int)o.a, 0, want ); tops = e.top; if ( e.budget < 0 || ( inc_work += 20000 - e.budget ) > 5000 ) return; }
			for ( int again = 0; again < 2; ++again ) {
				xo::prop_node pn; std::vector<xo::path> inc; long before = faults_fired(); bool ok;
				if ( again ) { FaultsOff off; ok = load_inc( f, o.b, o.c & EC, 0, pn, inc, why ); } else ok = load_inc( f, o.b, o.c & EC, o.c & NOMEM ? nm : 0, pn, inc, why );
				Quiet q; bool fired = !again && faults_fired() > before; std::string where; nontrivial();
				if ( ok ) {
					SIM_CHECK( exists, "invented", "loading %s succeeded, although an included file is missing or includes itself", f.c_str() );
					SIM_CHECK( same( want, pn, where ), "wrong-include", "%s with its includes is wrong:%s", f.c_str(), where.c_str() );
					if ( o.b == 1 || o.b == 3 ) {
						bool eq = inc.size() == tops.size(); for ( size_t i = 0; eq && i < inc.size(); ++i ) eq = std::filesystem::path( inc[i].str() ).lexically_normal().string() == tops[i];
						SIM_CHECK( eq, "included-files", "loading %s reports %zu included files, expected %zu (or other names)", f.c_str(), inc.size(), tops.size() );
					}
					probe( "expanded" );
				}
				else { SIM_CHECK( !exists || fired, "fails", "loading %s failed without a fault: %s", f.c_str(), why.c_str() ); probe( exists ? "fault_reported" : "cycle_or_missing_reported" ); }
			}
		} );
		faults_on( false );
		SIM_CHECK( open_fds() == 0, "fd-leak", "%d descriptors are still open", open_fds() );
	}
	Register r14( "C14.zml", gen_inc, run_inc, 2 );

	// load_file_with_include: every file has one root node "root<id>", includes are INCLUDE nodes that are replaced by the included root or merged
	bool dir_expand( const std::map<int, std::string>& files, int id, int level, Node& out, long& budget );
	void merge_into( Node& to, const Node& from )
	{
		for ( auto& o : from.kids ) { Node* c = nullptr; for ( auto& k : to.kids ) if ( k.key == o.key ) { c = &k; break; } if ( c ) merge_into( *c, o ); else to.kids.push_back( o ); }
	}
	bool dir_resolve( const std::map<int, std::string>& files, Node& n, int level, long& budget )
	{
		for ( size_t i = 0; i < n.kids.size(); ) {
			if ( --budget < 0 ) return false;
			if ( n.kids[i].key == "INCLUDE" ) {
				int to = atoi( n.kids[i].val.c_str() ); bool merge = n.kids[i].val.find( 'm' ) != std::string::npos; Node inc;
				if ( !dir_expand( files, to, level + 1, inc, budget ) || inc.kids.size() != 1 ) return false;	// only files with one root can be included
				n.kids.erase( n.kids.begin() + i );
				if ( merge ) { merge_into( n, inc.kids[0] ); i = 0; } else n.kids.insert( n.kids.begin() + i, inc.kids[0] );
			}
			else { if ( !dir_resolve( files, n.kids[i], level, budget ) ) return false; ++i; }
		}
		return true;
	}
	void dir_layer( int id, const std::string& s, size_t& i, int& n, Node& out )
	{
		for ( ; i < s.size(); ++i ) {
			char c = s[i]; ++n;
			if ( c == '}' ) return;
			if ( c == '{' || c == '[' ) { Node k; k.key = c == '[' ? "same" : fmt( "g%d", n ); ++i; dir_layer( id, s, i, n, k ); if ( k.kids.empty() ) k.val = "e"; out.kids.push_back( k ); }
			else if ( c >= '0' && c <= '8' ) { Node k; k.key = "INCLUDE"; k.val = fmt( "%d%s", c - '0', ( n + id ) % 2 ? "m" : "" ); out.kids.push_back( k ); }
			else if ( c >= 'a' && c <= 'z' ) { Node k; k.key = std::string( 1, c ); k.val = fmt( "v%d.%d", id, n ); out.kids.push_back( k ); }
		}
	}
	Node dir_doc( int id, const std::string& s ) { Node d, root; root.key = fmt( "root%d", id ); size_t i = 0; int n = 0; dir_layer( id, s, i, n, root ); if ( s[0] != '~' ) d.kids.push_back( root ); if ( s[0] == '!' ) d.kids.push_back( Node{ "second", "2" } ); return d; }
	bool dir_expand( const std::map<int, std::string>& files, int id, int level, Node& out, long& budget )
	{
		if ( level >= 100 ) return false;
		auto it = files.find( id ); if ( it == files.end() ) return false;
		out = dir_doc( id, it->second ); return dir_resolve( files, out, level, budget );
	}
	const char* dir_name( unsigned style ) { return style % 5 == 3 ? "use" : "INCLUDE"; }	// the label of include nodes
	void dir_to_pn( const Node& n, int id, bool xml, unsigned style, xo::prop_node& p )
	{
		for ( auto& k : n.kids ) {
			auto& c = p.add_child( k.key == "INCLUDE" ? dir_name( style ) : k.key );
			if ( k.key == "INCLUDE" ) { c.add_key_value( "file", inc_name( id, atoi( k.val.c_str() ), xml, style % 2 ? 0 : 1 ) ); if ( k.val.find( 'm' ) != std::string::npos ) c.add_key_value( "merge_children", "true" ); else if ( style % 3 == 0 ) c.add_key_value( "merge_children", "false" ); }
			else { c.set_value( std::string( k.val ) ); dir_to_pn( k, id, xml, style, c ); }
		}
	}
	size_t dir_values( const Node& n ) { size_t c = n.val.empty() ? 0 : 1; for ( auto& k : n.kids ) c += dir_values( k ); return c; }
	void gen_dir( Rng& r, Plan& p )
	{
		int n = (int)r.range( 1, 6 ); p.cfg["style"] = r.below( 24 ); if ( r.chance( 0.15 ) ) p.cfg["flat"] = 1; p.cfg["xml"] = r.below( 2 ); bool cycles = r.chance( 0.2 );
		for ( int i = 0; i < n; ++i ) if ( i == 0 || !r.chance( 0.03 ) ) p.add( -1, "file", i, 0, 0, ( !p.cfg["xml"] && r.chance( 0.06 ) ? r.chance( 0.7 ) ? "!" : "~" : "" ) + inc_random( r, i, n, cycles, false ) );
		gen_faulty( r, p ); p.cfg.erase( "nomem" );
		int nth = r.chance( 0.8 ) ? 0 : 2;
		for ( int t = nth ? 1 : 0; t <= nth; ++t ) { int m = (int)r.range( 1, 3 ); for ( int i = 0; i < m; ++i ) p.add( t, "load", r.chance( 0.7 ) ? 0 : (long)r.below( n ) ); }
	}
	void run_dir( const Plan& p, int )
	{
		set_mem_cap( 64 << 20 ); unsigned style = (unsigned)p.get( "style" ); bool xml = p.get( "xml" ); std::map<int, std::string>* files; { Quiet q; files = new std::map<int, std::string>; }
		set_step_cap( 90000000 ); inc_work = 0; inc_flat = p.get( "flat" ); for ( auto d : inc_dirs ) vfs_mkdir( std::string( d ).substr( 0, strlen( d ) - 1 ) );
		for ( auto& o : p.ops ) if ( o.k == "file" ) { xo::prop_node pn; { Quiet q; ( *files )[(int)o.a] = o.s; dir_to_pn( dir_doc( (int)o.a, o.s ), (int)o.a, xml, style, pn ); } xo::save_file( pn, xo::path( inc_file( (int)o.a, xml ) ) ); }
		if ( style % 2 && !inc_flat ) { Quiet q; inc_decoys( xml ); }
		set_faults( fault_cfg( p ) ); faults_on( true );
		run_threads( p, [&]( const Op& o ) {
			if ( o.k != "load" ) return;
			std::string f, why; Node want; bool exists; long budget = 20000; { Quiet q; f = inc_file( (int)o.a, xml ); if ( p.get( "flat" ) ) f = f.substr( 6 ); exists = dir_expand( *files, (int)o.a, 0, want, budget ); if ( budget < 0 || ( inc_work += 20000 - budget ) > 2000 ) return; }
			for ( int again = 0; again < 2; ++again ) {
				xo::prop_node pn; long before = faults_fired(); bool ok = true;
				std::unique_ptr<FaultsOff> off; if ( again ) off = std::make_unique<FaultsOff>();
				try { pn = style % 5 == 3 ? xo::load_file_with_include( xo::path( f ), dir_name( style ) ) : xo::load_file_with_include( xo::path( f ) ); } catch ( std::exception& x ) { ok = false; Quiet q; why = x.what(); }
				Quiet q; bool fired = faults_fired() > before; std::string where; nontrivial();
				if ( ok ) { SIM_CHECK( exists, "invented", "loading %s succeeded, although an included file is missing or includes itself", f.c_str() ); SIM_CHECK( same( want, pn, where ), "wrong-include", "%s with its includes is wrong:%s", f.c_str(), where.c_str() ); if ( p.get( "marks" ) ) { size_t n = dir_values( want ), c = pn.count_unaccessed(); SIM_CHECK( c == n, "wrong-count", "after loading %s %zu of its %zu values count as unread", f.c_str(), c, n ); } probe( "expanded" ); }
				else { SIM_CHECK( !exists || fired, "fails", "loading %s failed without a fault: %s", f.c_str(), why.c_str() ); probe( exists ? "fault_reported" : "cycle_or_missing_reported" ); }
			}
		} );
		faults_on( false );
		SIM_CHECK( open_fds() == 0, "fd-leak", "%d descriptors are still open", open_fds() );
	}
	Register r14b( "C14.directive", gen_dir, run_dir, 1 );
	void gen_dir_marks( Rng& r, Plan& p ) { gen_dir( r, p ); p.cfg["marks"] = 1; }
	Register r26b( "C26.include", gen_dir_marks, run_dir, 1 );

	// ------------------------------------------------------------------------------------------------ C25
	// zml files with variables and references are written together with what they stand for
	struct VarDoc { std::string text; Node root; bool bad = false, includes = false; int line = 0; };
	struct VarWriter
	{
		const std::map<int, std::string>& files; unsigned style; int id; VarDoc d; std::vector<std::pair<char, Node>> vars; size_t i = 0; int n = 0; const std::string* s = nullptr; long* budget;
		VarWriter( const std::map<int, std::string>& f, unsigned st, int i_, long* b ) : files( f ), style( st ), id( i_ ), budget( b ) {}
		bool pick( int m ) { return ( style + n ) % m == 0; }
		void wrong() { if ( d.bad ) return; d.bad = true; d.line = 1 + (int)std::count( d.text.begin(), d.text.end(), '\n' ); }
		// names that begin and end alike
		static std::string name( char c ) { const char* n[] = { "A", "AB", "B", "A_1", "AA", "a", "BA" }; return c >= 'A' && c <= 'G' ? n[c - 'A'] : std::string( 1, c ); }
		Node* var( char c ) { for ( size_t k = vars.size(); k-- > 0; ) if ( vars[k].first == c ) return &vars[k].second; return nullptr; }
		static const Node* find( const Node& n, const std::string& p )
		{
			auto e = p.find( '.' ); std::string k = p.substr( 0, e ); const Node* r = nullptr;
			for ( auto& c : n.kids ) if ( c.key == k ) { r = &c; break; }
			if ( !r && k[0] == '#' ) { size_t at = atoi( k.c_str() + 1 ); if ( at >= 1 && at <= n.kids.size() ) r = &n.kids[at - 1]; }
			return !r || e == p.npos ? r : find( *r, p.substr( e + 1 ) );
		}
		static void paths( const Node& n, const std::string& pre, std::vector<std::string>& out ) { int k = 0; for ( auto& c : n.kids ) { ++k; auto p = pre + ( c.key.empty() || k % 3 == 0 ? fmt( "#%d", k ) : c.key ); out.push_back( p ); if ( out.size() > 60 ) return; paths( c, p + ".", out ); } }
		void label( const std::string& k, bool arr ) { if ( !arr ) d.text += k + ( pick( 4 ) ? ": " : pick( 5 ) ? "=" : " = " ); }
		// the value of a variable, or of an item; false: it was wrong
		void whole( char v, Node& to ) { d.text += "$" + name( v ); if ( Node* m = var( v ) ) { to.val = m->val; to.kids = m->kids; } else wrong(); }
		void text( const char* pattern, Node& to )	// upper case letters stand for variables
		{
			std::string o = "\"", v; char bad = 0; for ( const char* c = pattern; *c; ++c ) if ( *c == '^' ) { o += *++c; v += *c; } else if ( *c >= 'A' && *c <= 'Z' ) { o += "${" + name( *c ) + "}"; if ( Node* m = var( *c ) ) v += m->val; else bad = 1; } else { o += *c; v += *c; }
			d.text += o + "\""; to.val = v; if ( bad ) wrong();
		}
		void layer( Node& out, bool arr )
		{
			size_t before = vars.size(); bool after_var = false;
			for ( ; i < s->size(); ++i ) {
				char c = ( *s )[i]; ++n; const char* sep = ( style + n ) % 3 ? "\n" : " "; if ( --*budget < 0 ) return;
				if ( c >= 'A' && c <= 'G' && arr ) continue;
				bool use = ( c >= '0' && c <= '6' ) || ( c >= 'h' && c <= 'p' ) || c == 'D' || c == 'E';
				if ( use ) { bool known = true; for ( char v : c <= '6' ? std::string( 1, 'A' + c - '0' ) : c == 'D' ? "A" : c == 'E' ? "B" : c == 'o' ? "AB" : c == 'p' ? "C" : std::string( 1, 'A' + c - 'h' ) ) known = known && var( v ); if ( !known && !pick( 11 ) ) c = 'a'; }
				if ( c == '}' ) { if ( &out != &d.root ) break; continue; }
				Node k; bool def = c >= 'A' && c <= 'G', item = ( c >= 'a' && c <= 'p' ) || ( c >= '0' && c <= '6' ) || c == '{' || c == '[' || c == '@' || c == '$' || c == '?'; Node* to = &k;
				if ( def ) d.text += "$" + name( c ) + ( pick( 4 ) ? ": " : " = " );
				else if ( item ) { std::string key = c >= 'a' && c <= 'f' ? std::string( 1, c ) : fmt( "%c%d", c == '{' || c == '[' ? 'g' : 'u', n ); if ( !arr ) { k.key = key; } if ( ( c == '{' || c == '[' ) && pick( 2 ) ) { if ( !arr ) d.text += key + " "; } else label( key, arr ); out.kids.push_back( k ); to = &out.kids.back(); }
				switch ( c ) {
				case 'A': case 'B': case 'C': to->val = fmt( pick( 3 ) ? "m%d.%d$" : pick( 5 ) ? "m%d.%d-that.takes.more.than.a.few.characters" : "m%d.%d", id, n ); d.text += to->val; break;
				case 'D': text( pick( 3 ) ? "{^A}" : "x A y", *to ); break;	// a variable can stand for something that looks like a use
				case 'E': whole( 'B', *to ); break;
				case 'F': case '{': d.text += "{ "; ++i; layer( *to, false ); d.text += " }"; break;
				case 'G': case '[': d.text += "[ "; ++i; layer( *to, true ); d.text += " ]"; break;
				case 'o': text( pick( 3 ) ? "A{^B}" : pick( 7 ) ? "AA{^A}" : "AB", *to ); break;	// what was put in is not looked at again
				case 'p': text( pick( 2 ) ? "a C b C c" : pick( 3 ) ? "-$C$\n" : "C", *to ); break;
				case '@': { std::vector<std::string> p; paths( d.root, "", p ); std::string r = p.empty() ? "nothere" : p[( style * 7 + n * 13 ) % p.size()]; d.text += r.find( '#' ) != r.npos || pick( 3 ) ? "\"@" + r + "\"" : "@" + r; if ( auto* f = find( d.root, r ) ) { Node t = *f; to->val = t.val; to->kids = t.kids; probe( "reference" ); } else wrong(); break; }
				case '$': switch ( ( style + n ) % 3 ) { case 0: d.text += "$Z"; break; case 1: d.text += "\"a ${Z} b\""; break; default: d.text += "\"a ${A\""; } wrong(); break;
				case '?': d.text += pick( 2 ) ? "@no.such" : "\"@#99\""; wrong(); break;
				case '+': if ( arr || ( !after_var && out.kids.empty() ) ) break; { Node e; e.key = fmt( "e%d", n ); e.val = fmt( "v%d.%d", id, n ); d.text += "{ " + e.key + " = " + e.val + " }"; ( after_var ? vars.back().second : out.kids.back() ).kids.push_back( e ); if ( after_var ) probe( "variable_with_value_and_children" ); } break;
				case '#': d.text += pick( 2 ) ? "# $A = nothing\n" : "/* $B = { $C = \n\"${Z}\" */"; break;
				case 'Q': case 'R': case 'S': {
					int other = id + 1 + c - 'Q'; if ( !files.count( other ) ) break;
					auto f = inc_name( id, other, false, style + n ); d.text += "<< " + ( f.find( ' ' ) != std::string::npos || pick( 2 ) ? "\"" + f + "\"" : f ) + " >>"; d.includes = true; after_var = false;
					VarWriter w( files, style, other, budget ); w.write(); if ( w.d.bad ) d.bad = true; for ( auto& x : w.d.root.kids ) out.kids.push_back( x ); break; }
				default:
					if ( c >= '0' && c <= '6' ) whole( 'A' + c - '0', *to ); else if ( c >= 'h' && c <= 'n' ) { char b[] = { 'p', 'r', pick( 3 ) ? '\n' : ' ', '$', char( 'A' + c - 'h' ), 0 }; text( pick( 2 ) ? b + 4 : pick( 5 ) ? b + 2 : b, *to ); } else if ( c >= 'a' && c <= 'f' ) { to->val = fmt( pick( 4 ) ? "v%d.%d,which.does.not.fit.in.a.short.string" : "v%d.%d", id, n ); d.text += to->val; }
				}
				if ( def ) vars.push_back( { c, *to } ), after_var = true; else if ( item ) after_var = false;
				d.text += sep;
			}
			vars.resize( std::min( vars.size(), before ) );
		}
		void write() { s = &files.at( id ); layer( d.root, false ); }
	};
	void gen_var( Rng& r, Plan& p )
	{
		int n = r.chance( 0.6 ) ? 1 : (int)r.range( 2, 4 ); p.cfg["style"] = r.below( 240 ); double bad = r.chance( 0.2 ) ? 0.08 : 0;
		for ( int i = 0; i < n; ++i ) {
			bool few = r.chance( 0.4 );	// few names, more scopes
			std::string s; int m = (int)r.range( 2, 16 ); const char* sets[] = { few ? "ABABF" : "ABCDEFG", few ? "01hio" : "0123456hijklmnop", few ? "{}[{}" : "{[}F}{}", few ? "ab" : "abcdef", few ? "+AB" : "@@+#", few ? "01h" : "QRS" };
			for ( int k = 0; k < m; ++k ) { int x = (int)r.below( 12 ); const char* t = sets[x < 3 ? 0 : x < 6 ? 1 : x < 8 ? 2 : x < 9 ? 3 : x < 11 ? 4 : 5]; s += r.chance( bad ) ? "$?"[r.below( 2 )] : t[r.below( strlen( t ) )]; }
			p.add( -1, "file", i, 0, 0, s );
		}
		gen_faulty( r, p );
		int nth = r.chance( 0.8 ) ? 0 : 2;
		for ( int t = nth ? 1 : 0; t <= nth; ++t ) { int m = (int)r.range( 1, 3 ); for ( int i = 0; i < m; ++i ) p.add( t, "load", r.chance( 0.7 ) ? 0 : (long)r.below( n ), r.below( 4 ), r.chance( 0.6 ) * EC + r.chance( 0.4 ) * NOMEM ); }
	}
	void run_var( const Plan& p, int )
	{
		set_mem_cap( 64 << 20 ); unsigned style = (unsigned)p.get( "style" ); std::map<int, VarDoc>* docs; { Quiet q; docs = new std::map<int, VarDoc>; }
		inc_flat = false; for ( auto dir : inc_dirs ) vfs_mkdir( std::string( dir ).substr( 0, strlen( dir ) - 1 ) );
		{
			Quiet q; std::map<int, std::string> files; for ( auto& o : p.ops ) if ( o.k == "file" ) files[(int)o.a] = o.s;
			for ( auto& f : files ) { long budget = 4000; VarWriter w( files, style, f.first, &budget ); w.write(); if ( budget < 0 ) return; vfs_put( inc_file( f.first, false ), w.d.text ); ( *docs )[f.first] = w.d; }
		}
		set_faults( fault_cfg( p ) ); faults_on( true ); double nm = pct( p.get( "nomem" ) );
		run_threads( p, [&]( const Op& o ) {
			if ( o.k != "load" ) return;
			std::string f, why; VarDoc* d; { Quiet q; f = inc_file( (int)o.a, false ); auto it = docs->find( (int)o.a ); if ( it == docs->end() ) return; d = &it->second; }
			for ( int again = 0; again < 2; ++again ) {
				xo::prop_node pn; std::vector<xo::path> inc; long before = faults_fired(); bool ok; { Quiet q; why.clear(); }
				if ( again ) { FaultsOff off; ok = load_inc( f, o.b, o.c & EC, 0, pn, inc, why ); } else ok = load_inc( f, o.b, o.c & EC, o.c & NOMEM ? nm : 0, pn, inc, why );
				Quiet q; bool fired = !again && faults_fired() > before; std::string where; nontrivial();
				if ( ok ) {
					SIM_CHECK( !d->bad, "invented", "loading a file with an undefined variable or path succeeded" );
					SIM_CHECK( same( d->root, pn, where ), "wrong-variable", "a file with variables is wrong:%s", where.c_str() ); probe( "variables" );
				}
				else {
					SIM_CHECK( d->bad || fired, "fails", "loading a file with variables failed: %s", why.c_str() ); if ( !fired ) probe( "undefined_reported" );
					if ( !fired && !d->includes ) { auto at = why.find( "line " ); int l = at == why.npos ? -1 : atoi( why.c_str() + at + 5 ); SIM_CHECK( l == d->line, "wrong-line", "an error in line %d is reported as '%s'", d->line, why.c_str() ); probe( "line" ); }
				}
			}
		} );
		faults_on( false );
		SIM_CHECK( open_fds() == 0, "fd-leak", "%d descriptors are still open", open_fds() );
	}
	Register r25( "C25.variables", gen_var, run_var, 1 );

	// ------------------------------------------------------------------------------------------------ C26
	// a document and which of its values were read
	struct Mark { std::string key, val; std::vector<Mark> kids; bool read = false; };
	using Way = std::vector<size_t>;
	Mark mark( const Node& n ) { Mark m; m.key = n.key; m.val = n.val; for ( auto& k : n.kids ) m.kids.push_back( mark( k ) ); return m; }
	void ways( const Mark& m, Way& at, std::vector<Way>& out ) { out.push_back( at ); for ( size_t i = 0; i < m.kids.size(); ++i ) { at.push_back( i ); ways( m.kids[i], at, out ); at.pop_back(); } }
	Mark& go( Mark& m, const Way& w, size_t n ) { auto* x = &m; for ( size_t i = 0; i < n; ++i ) x = &x->kids[w[i]]; return *x; }
	size_t first( const Mark& m, const std::string& key ) { size_t i = 0; while ( i < m.kids.size() && m.kids[i].key != key ) ++i; return i; }
	size_t unread( const Mark& m ) { size_t n = !m.read && !m.val.empty(); for ( auto& k : m.kids ) n += unread( k ); return n; }
	void report( const Mark& m, std::string& out, int depth = 0 ) { for ( auto& k : m.kids ) if ( unread( k ) ) { out += std::string( depth * 2, ' ' ) + k.key; if ( !k.read && !k.val.empty() ) out += " = " + k.val + " *"; out += "\n"; report( k, out, depth + 1 ); } }
	// strict: after a failure a value may or may not count as read
	void check_marks( Mark& m, const Mark* before, const xo::prop_node& pn, const std::string& what, const std::string& where = "" )
	{
		SIM_CHECK( m.val == pn.peek_str() && m.kids.size() == pn.size(), "changed", "%s changed the document at '%s'", what.c_str(), where.c_str() );
		bool real = pn.is_accessed();
		if ( before && real == ( before->read || m.val.empty() ) ) m.read = before->read;
		SIM_CHECK( real == ( m.read || m.val.empty() ), real ? "falsely-read" : "forgotten-read", "%s: '%s' (%s) counts as %s", what.c_str(), where.c_str(), m.val.c_str(), real ? "read" : "not read" );
		for ( size_t i = 0; i < m.kids.size(); ++i ) check_marks( m.kids[i], before ? &before->kids[i] : nullptr, pn.at( i ).second, what, where + "/" + m.kids[i].key );
	}
	struct MarkSink : public xo::log::sink
	{
		std::string text; int level = 0;
		MarkSink() : xo::log::sink( unregistered(), xo::log::level::trace, {}, xo::log::sink_mode::current_thread ) { xo::log::add_sink( this ); }
		~MarkSink() { xo::log::remove_sink( this ); }
		void hande_log_message( xo::log::level l, const xo::string& msg ) override { Quiet q; level = (int)l; text += msg + "\n"; }
	};
	// a document in the log: one line for each value, in order and complete, up to a failure
	void log_lines( const Mark& m, size_t depth, std::vector<std::pair<std::string, std::string>>& out ) { for ( auto& k : m.kids ) { out.push_back( { std::string( depth * 2, ' ' ) + k.key, !k.val.empty() || k.kids.empty() ? " = " + k.val : "" } ); log_lines( k, depth + 1, out ); } }
	void check_log( const Mark& m, const std::string& text, bool failed )
	{
		std::vector<std::pair<std::string, std::string>> want; log_lines( m, 0, want ); size_t at = 0, col = std::string::npos;
		for ( auto& [head, tail] : want ) {
			if ( at == text.size() && failed ) return;
			std::string left = text.substr( at ), pad; bool ok = left.compare( 0, head.size(), head ) == 0; size_t b = head.size();
			if ( ok && !tail.empty() ) { while ( b < left.size() && left[b] == ' ' ) ++b; ok = b > head.size(); --b; ok = ok && left.compare( b, tail.size(), tail ) == 0 && ( col == std::string::npos || col == b ); col = b; b += tail.size(); }
			SIM_CHECK( ok && left.size() > b && left[b] == '\n', "wrong-log", "a document is logged with a line '%s' instead of '%s%s'", escape( left.substr( 0, left.find( '\n' ) ) ).c_str(), escape( head ).c_str(), escape( tail ).c_str() );
			at += b + 1;
		}
		SIM_CHECK( at == text.size() && !failed, "wrong-log", "a document is logged with extra lines" );
	}
	const char* peeks[] = { "has_key", "has_value", "peek_str", "size and count", "try_get_child", "get_child", "try_get_query", "comparing", "copying", "has_any_key", "try_find_parent", "is_accessed", "is_array", "log_prop_node", "find_child", "get with a default" };
	const char* reads[] = { "get", "get_str", "get of a child", "get as a number", "get by query", "get_all", "get as a vector", "iterating", "try_get", "get_any", "select", "try_get of a variable", "get by index", "try_get_any" };
	// can be written: labels in groups only
	bool plain_doc( const Node& n, bool root = false ) { size_t e = 0; std::string v = n.val; zml_plain( v ); if ( v != n.val ) return false; for ( auto& k : n.kids ) { e += k.key.empty(); if ( k.key.empty() && !k.val.empty() && k.kids.size() ) return false; if ( !plain_doc( k ) ) return false; } return e == 0 || ( !root && e == n.kids.size() ); }
	void gen_unread( Rng& r, Plan& p )
	{
		int n = r.chance( 0.7 ) ? 1 : (int)r.range( 2, 3 ); p.cfg["style"] = r.below( 240 );
		for ( int i = 0; i < n; ++i ) {
			std::string s; int m = (int)r.range( 2, 14 ); const char* sets[] = { "ABCDEFG", "0123456hijklmnop", "{[}F}{}", "abcdefabca", "@@++", "QRS" };
			for ( int k = 0; k < m; ++k ) { int x = (int)r.below( 12 ); const char* t = sets[x < 2 ? 0 : x < 4 ? 1 : x < 6 ? 2 : x < 9 ? 3 : x < 11 ? 4 : 5]; s += t[r.below( strlen( t ) )]; }
			p.add( -1, "file", i, 0, 0, s );
		}
		if ( r.chance( 0.4 ) ) gen_faulty( r, p ); if ( r.chance( 0.4 ) ) p.cfg["nomem"] = r.range( 5, 300 );
		int nth = r.chance( 0.75 ) ? 0 : 2;
		for ( int t = nth ? 1 : 0; t <= nth; ++t ) {
			int m = (int)r.range( 3, nth ? 8 : 24 );
			for ( int i = 0; i < m; ++i ) {
				long fl = r.chance( i == 0 ? 0.05 : 0.3 ) * NOMEM; int k = i == 0 ? 0 : (int)r.below( 20 );
				if ( k == 0 ) p.add( t, "load", (long)r.below( n ), r.below( 6 ), fl | r.chance( 0.6 ) * EC );
				else if ( k < 9 ) p.add( t, "read", r.below( 1000 ), r.below( 14 ), fl );
				else if ( k < 14 ) p.add( t, "peek", r.below( 1000 ), r.below( 16 ), fl );
				else if ( k < 16 ) p.add( t, "report", r.below( 4 ), 0, fl );
				else if ( k < 18 ) p.add( t, "set", r.below( 1000 ), r.below( 5 ), 0, fmt( "w%d.%d", t, i ) );
				else if ( k < 19 ) p.add( t, "erase", r.below( 1000 ) );
				else p.add( t, r.chance( 0.5 ) ? "copy" : "reset", r.below( 1000 ), r.below( 2 ) );
			}
		}
	}
	void run_unread( const Plan& p, int )
	{
		set_mem_cap( 64 << 20 ); unsigned style = (unsigned)p.get( "style" ); std::map<int, VarDoc>* docs; { Quiet q; docs = new std::map<int, VarDoc>; }
		inc_flat = false; for ( auto dir : inc_dirs ) vfs_mkdir( std::string( dir ).substr( 0, strlen( dir ) - 1 ) );
		{
			Quiet q; std::map<int, std::string> files; for ( auto& o : p.ops ) if ( o.k == "file" ) files[(int)o.a] = o.s;
			for ( auto& f : files ) { long budget = 400; VarWriter w( files, style, f.first, &budget ); w.write(); if ( budget < 0 ) continue; vfs_put( inc_file( f.first, false ), w.d.text ); ( *docs )[f.first] = w.d; }
		}
		struct Own { xo::prop_node pn; Mark m; bool has = false; }; Own own[4];
		set_faults( fault_cfg( p ) ); faults_on( true ); double nm = pct( p.get( "nomem" ) );
		run_threads( p, [&]( const Op& o ) {
			if ( o.k == "file" || o.t < 0 || o.t > 3 ) return;
			auto& d = own[o.t]; double nomem = o.c & NOMEM ? nm : 0; std::string what; bool failed = false;
			if ( o.k == "load" ) {
				std::string f, why; VarDoc* v; { Quiet q; f = inc_file( (int)o.a, false ); auto it = docs->find( (int)o.a ); if ( it == docs->end() || it->second.bad ) return; v = &it->second; }
				xo::prop_node pn; std::vector<xo::path> inc; bool ok; long before = faults_fired();
				if ( o.b < 4 ) ok = load_inc( f, o.b, o.c & EC, nomem, pn, inc, why );
				else if ( o.b == 4 && !v->includes ) { pn = xo::parse_zml( v->text.c_str() ); ok = true; { Quiet q; what = "parsing"; } }
				else {
					FaultsOff off; Node n; { Quiet q; n = v->root; what = "building"; } pn = to_pn( n ); ok = true;
					if ( o.b == 5 && plain_doc( n, true ) ) { std::string file; { Quiet q; file = fmt( "/work/again%d.zml", o.t ); what = "saving and loading"; } xo::save_file( pn, xo::path( file ) ); pn = xo::load_file( xo::path( file ) ); }
				}
				Quiet q; nontrivial(); if ( !ok ) { SIM_CHECK( faults_fired() > before, "fails", "loading failed without a reason: %s", why.c_str() ); return; }
				d.m = mark( v->root ); d.has = true; std::swap( d.pn, pn ); check_marks( d.m, nullptr, d.pn, what.empty() ? "loading" : what ); probe( "loaded" ); return;
			}
			if ( !d.has ) return;
			Way w; Mark before; const xo::prop_node* at = &d.pn; const xo::prop_node* up = nullptr; Mark *to, *parent = nullptr; xo::string key, query; size_t idx = 0; bool named = false; std::string s;
			{
				Quiet q; std::vector<Way> all; Way x; ways( d.m, x, all ); w = all[o.a % all.size()]; before = d.m; to = &go( d.m, w, w.size() ); s = o.s;
				if ( !w.empty() ) { parent = &go( d.m, w, w.size() - 1 ); key = to->key; idx = w.back(); named = first( *parent, key ) == idx; }
				for ( size_t i = 0; i < w.size(); ++i ) { up = at; at = &at->at( w[i] ).second; query += fmt( i ? ".#%zu" : "#%zu", w[i] + 1 ); }
				what = o.k == "read" ? reads[o.b % 14] : o.k == "peek" ? peeks[o.b % 16] : o.k;
				if ( !up && ( o.k == "read" || o.k == "peek" ) ) return;
			}
			std::string read; bool got = false;
			auto all_kids = [&]( Mark& m ) { Quiet q; for ( auto& k : m.kids ) k.read = true; };
			if ( o.k == "read" ) {
				AllocFaults a( nomem ); const auto& node = *at; const auto& par = *up;
				try {
					switch ( o.b % 14 ) {
					case 0: to->read = true; read = node.get<xo::string>(); got = true; break;
					case 1: if ( named ) { to->read = true; read = par.get_str( key ); got = true; } break;
					case 2: if ( named ) { to->read = true; read = par.get<xo::string>( key ); got = true; } break;
					case 3: if ( named ) { to->read = true; try { par.get<int>( key, 7 ); } catch ( std::bad_alloc& ) { throw; } catch ( std::exception& ) { probe( "not_a_number" ); } } break;
					case 4: to->read = true; if ( auto* c = d.pn.try_get_query( query ) ) { read = c->get<xo::string>(); got = true; } break;
					case 5: { for ( auto& k : parent->kids ) if ( k.key == key ) k.read = true; auto all = par.get_all<xo::string>( key ); size_t i = 0; for ( auto& k : parent->kids ) if ( k.key == key ) { SIM_CHECK( i < all.size() && all[i] == k.val, "wrong", "get_all returned a wrong value" ); ++i; } SIM_CHECK( i == all.size(), "wrong", "get_all returned too many values" ); break; }
					case 6: { to->read = true; all_kids( *to ); auto v = node.get<std::vector<xo::string>>(); for ( size_t i = 0; i < to->kids.size(); ++i ) SIM_CHECK( i < v.size() && v[i] == to->kids[i].val, "wrong", "a vector has a wrong value" ); break; }
					case 7: to->read = true; all_kids( *to ); { size_t i = 0; for ( auto& [k, v] : node ) { SIM_CHECK( v.get_str() == to->kids[i].val && k == to->kids[i].key, "wrong", "iterating gives a wrong value" ); ++i; } } break;
					case 8: if ( named ) { to->read = true; if ( auto v = par.try_get<xo::string>( key ) ) { read = *v; got = true; } } break;
					case 9: if ( named ) { to->read = true; read = par.get_any<xo::string>( { "not there", key } ); got = true; } break;
					case 10: { parent->read = true; for ( auto& k : parent->kids ) if ( k.key == key ) k.read = true; size_t n = 0; for ( auto& c : par.select( key ) ) { c.second.get_str(); ++n; } size_t m = 0; for ( auto& k : parent->kids ) m += k.key == key; SIM_CHECK( n == m, "wrong", "select found %zu of %zu children", n, m ); break; }
					case 11: if ( named ) { to->read = true; xo::string v; SIM_CHECK( par.try_get( v, key ), "wrong", "a value was not found" ); read = v; got = true; } break;
					case 12: to->read = true; read = par.get<xo::string>( xo::index_t( idx ) ); got = true; break;
					default: if ( named ) { to->read = true; if ( auto v = par.try_get_any<xo::string>( { "not there", key } ) ) { read = *v; got = true; } }
					}
				}
				catch ( std::bad_alloc& ) { failed = true; }
				Quiet q; SIM_CHECK( !failed || nomem > 0, "memory", "%s ran out of memory", what.c_str() );
				if ( got && !failed ) SIM_CHECK( read == to->val, "wrong", "%s returned '%s' instead of '%s'", what.c_str(), read.c_str(), to->val.c_str() );
			}
			else if ( o.k == "peek" ) {
				AllocFaults a( nomem ); const auto& node = *at; const auto& par = *up;
				try {
					switch ( o.b % 16 ) {
					case 0: SIM_CHECK( par.has_key( key ), "wrong", "has_key" ); break;
					case 1: SIM_CHECK( node.has_value() == !to->val.empty(), "wrong", "has_value" ); par.has_value( key ); break;
					case 2: SIM_CHECK( node.peek_str() == to->val, "wrong", "peek_str" ); break;
					case 3: node.size(); node.count_layers(); par.count_children(); par.count_key( key ); node.empty(); break;
					case 4: par.try_get_child( key ); par.try_get_any_child( { "not there", key } ); par.try_get_child( "not there" ); break;
					case 5: par.get_child( key ); par.get_child( xo::index_t( idx ) ); par.get_any_child( { "not there", key } ); break;
					case 6: SIM_CHECK( d.pn.try_get_query( query ) == at, "wrong", "try_get_query( %s ) found another item", query.c_str() ); break;
					case 7: { auto c = node; SIM_CHECK( c == node, "wrong", "a copy is not the same" ); break; }
					case 8: { auto c = node; c.get_str(); for ( auto& k : c ) k.second.get_str(); break; }
					case 9: par.has_any_key( { "not there", key } ); break;
					case 10: { auto f = d.pn.try_find_parent( node ); SIM_CHECK( f.first == up && f.second == idx, "wrong", "try_find_parent found another item" ); break; }
					case 11: node.is_accessed(); node.count_unaccessed(); break;
					case 12: { bool arr = true; for ( auto& k : to->kids ) arr = arr && k.key.empty(); SIM_CHECK( node.is_array() == arr, "wrong", "is_array" ); break; }
					case 13: { MarkSink sink; try { xo::log_prop_node( node ); } catch ( std::bad_alloc& ) { failed = true; } Quiet q; check_log( *to, sink.text, failed ); break; }
					case 14: d.pn.try_find_child_recursively( key ); break;
					default: par.get<xo::string>( "not there", "x" ); par.try_get<xo::string>( "not there" );
					}
				}
				catch ( std::bad_alloc& ) { failed = true; }
				Quiet q; SIM_CHECK( !failed || nomem > 0, "memory", "%s ran out of memory", what.c_str() );
			}
			else if ( o.k == "report" ) {
				std::string want; { Quiet q; report( d.m, want ); }
				if ( nomem > 0 ) {
					std::string text, again = want; MarkSink sink; try { AllocFaults a( nomem ); if ( o.a % 2 ) { auto got = xo::to_str_unaccessed( d.pn ); Quiet q; text = got; } else { xo::log_unaccessed( d.pn, xo::log::level::info ); } } catch ( std::bad_alloc& ) { failed = true; }
					Quiet q; if ( o.a % 2 == 0 ) { text = sink.text; if ( failed ) again.resize( std::min( again.size(), text.size() ) ); } else if ( failed ) again = text;
					SIM_CHECK( text == again, "wrong-report", "the values not read are reported as '%s' instead of '%s'", escape( text ).c_str(), escape( want ).c_str() );
				}
				if ( o.a % 2 ) { auto got = xo::to_str_unaccessed( d.pn ); SIM_CHECK( got == want, "wrong-report", "the values not read are reported as '%s' instead of '%s'", escape( got ).c_str(), escape( want ).c_str() ); }
				else { auto l = o.a / 2 ? xo::log::level::warning : xo::log::level::critical; MarkSink sink; xo::log_unaccessed( d.pn, l ); Quiet q; SIM_CHECK( sink.text == want && ( want.empty() || sink.level == (int)l ), "wrong-report", "the values not read are logged as '%s' instead of '%s'", escape( sink.text ).c_str(), escape( want ).c_str() ); }
				SIM_CHECK( d.pn.count_unaccessed() == unread( d.m ), "wrong-count", "%zu values are not read instead of %zu", d.pn.count_unaccessed(), unread( d.m ) ); if ( !want.empty() ) probe( "reported" );
			}
			else if ( o.k == "set" ) {
				auto& node = const_cast<xo::prop_node&>( *at ); std::string k = key;
				if ( o.b == 0 ) { node.set( xo::string( s ) ); Quiet q; to->val = s; to->kids.clear(); to->read = false; }
				else if ( o.b == 1 ) { node.set( s, xo::string( s ) ); Quiet q; size_t i = first( *to, s ); if ( i == to->kids.size() ) { to->kids.push_back( {} ); to->kids[i].key = s; } to->kids[i].val = s; to->kids[i].read = false; to->kids[i].kids.clear(); }
				else if ( o.b == 2 ) { node.add_key_value( "n", xo::string( s ) ); Quiet q; Mark m; m.key = "n"; m.val = s; to->kids.push_back( m ); }
				else if ( o.b == 3 ) { node.set_query( "deep.er", xo::string( s ) ); Quiet q; for ( auto* part : { "deep", "er" } ) { size_t i = first( *to, part ); if ( i == to->kids.size() ) { to->kids.push_back( {} ); to->kids[i].key = part; } to = &to->kids[i]; } to->val = s; to->kids.clear(); to->read = false; }
				else { node.set_value( xo::string( s ) ); Quiet q; if ( to->val.empty() ) to->read = at->is_accessed(); to->val = s; }	// nobody can tell whether 'no value' was read
			}
			else if ( o.k == "erase" ) { if ( up && named && parent->val.empty() ) { const_cast<xo::prop_node*>( up )->erase( key ); Quiet q; parent->kids.erase( parent->kids.begin() + idx ); } }
			else if ( o.k == "copy" ) { xo::prop_node c = d.pn; { Quiet q; check_marks( d.m, nullptr, c, "copying" ); } d.pn.set_accessed_recursively( o.b ); if ( o.b ) d.pn = c; else d.pn = std::move( c ); }
			else if ( o.k == "reset" ) { at->set_accessed_recursively( o.b ); Quiet q; struct R { static void all( Mark& m, bool b ) { m.read = b; for ( auto& k : m.kids ) all( k, b ); } }; R::all( *to, o.b ); }
			else return;
			Quiet q; check_marks( d.m, failed ? &before : nullptr, d.pn, what ); probe( o.k.c_str() );
		} );
		faults_on( false );
		SIM_CHECK( open_fds() == 0, "fd-leak", "%d descriptors are still open", open_fds() );
	}
	Register r26( "C26.unread", gen_unread, run_unread, 1 );
}
