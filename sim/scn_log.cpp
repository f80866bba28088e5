// C01 delivery, C02 whole lines, C03 sink life cycle, C04 disk faults
#include <cstdarg>
#include <cstdio>
#include "scn.h"
#include "xo/system/log.h"
#include "xo/system/log_sink.h"
#include "xo/filesystem/path.h"
#include <iostream>
#include <sstream>
#include <memory>

using namespace sim;
namespace xl = xo::log;

namespace
{
	struct Msg { int t; int level; uint64_t s, e; std::string text; };
	struct Deliver { int sink; int t; int level; uint64_t at; std::string text; };
	struct Flush { int sink; int t; uint64_t at; };
	// one sink's life: intervals of registration and level
	struct Ev { int sink; uint64_t s, e; int kind; int val; };	// kind 0 add 1 remove 2 set level
	struct Hist { std::vector<Msg> msgs; std::vector<Deliver> del; std::vector<Flush> fl; std::vector<Ev> ev; } *H;

	struct rec_sink : public xl::sink
	{
		rec_sink( int id, xl::level l, xl::sink_mode m ) : xl::sink( l, {}, m ), id_( id ) {}
		void hande_log_message( xl::level l, const xo::string& msg ) override {
			{ Quiet q; H->del.push_back( { id_, sim::tid(), (int)l, sim::seq(), msg } ); }
			sim::point( "sink" );
		}
		void flush() override { { Quiet q; H->fl.push_back( { id_, sim::tid(), sim::seq() } ); } sim::point( "flush" ); }
		int id_;
	};

	void vlog( xl::level l, const char* f, ... ) { va_list v; va_start( v, f ); xl::log_vstring( l, f, v ); va_end( v ); }
	// what a message can hold besides its number
	std::string pad_of( long k )
	{
		static const char* pads[] = { "", " 100%", "%s%n%d", " a\tb", "\x01\xc3\xa9\xff", " \"q\" \\n", "{}", " two\nlines", "\r\n", " " };
		return k < 10 ? pads[k] : k < 20 ? std::string( k - 9, 'y' ) : std::string( k, 'z' );
	}
	long gen_pad( Rng& r ) { return r.chance( 0.5 ) ? 0 : r.chance( 0.6 ) ? (long)r.below( 20 ) : r.chance( 0.6 ) ? r.range( 20, 300 ) : r.range( 900, 1100 ); }
	// a value that logs a message of its own while it is converted to text
	struct Chatty { int t; long n; int level; bool inner = false; };
	bool chatty = false;
	std::string to_str( const Chatty& c )
	{
		if ( c.inner ) return ""; std::string txt, pad; uint64_t s; { Quiet q; txt = "c" + std::to_string( c.t ) + "." + std::to_string( c.n ); s = sim::seq(); }
		{ int t = c.t; long n = c.n; xl::message( (xl::level)c.level, "c", t, ".", Chatty{ t, n, c.level, true }, n, pad ); }	// the same kind of call as the outer one
		Quiet q; H->msgs.push_back( { sim::tid(), c.level, s, sim::seq(), txt } ); probe( "nested_message" ); return "";
	}
	// emit one message through one of the public entry points; returns the expected text
	std::string emit( int how, int level, int t, long n, long k = 0 )
	{
		std::string txt = "m" + std::to_string( t ) + "." + std::to_string( n ), pad = pad_of( k );
		auto l = (xl::level)level;
		if ( how == 0 ) { if ( chatty && n % 4 == 1 ) xl::message( l, "m", t, ".", Chatty{ t, n, level }, n, pad ); else if ( n % 2 ) xl::message( l, "m", t, ".", n, pad ); else xl::log_string( l, txt + pad ); }
		else if ( how == 1 ) {
			const char* p = pad.c_str();
			switch ( level ) {
			case 1: xl::trace( "m", t, ".", n, p ); break; case 2: xl::debug( "m", t, ".", n, p ); break; case 3: xl::info( "m", t, ".", n, p ); break;
			case 4: xl::warning( "m", t, ".", n, p ); break; case 5: xl::error( "m", t, ".", n, p ); break; case 6: xl::critical( "m", t, ".", n, p ); break;
			default: xl::message( l, txt, pad );
			}
		}
		else {
			if ( txt.size() + pad.size() > 1023 ) pad.resize( 1023 - txt.size() );	// formatted messages are limited to this size
			const char* p = pad.c_str();
			if ( n % 3 == 2 ) { vlog( l, "m%d.%ld%s", t, n, p ); return txt + pad; }
			switch ( level ) {
			case 1: xl::tracef( "m%d.%ld%s", t, n, p ); break; case 2: xl::debugf( "m%d.%ld%s", t, n, p ); break; case 3: xl::infof( "m%d.%ld%s", t, n, p ); break;
			case 4: xl::warningf( "m%d.%ld%s", t, n, p ); break; case 5: xl::errorf( "m%d.%ld%s", t, n, p ); break; case 6: xl::criticalf( "m%d.%ld%s", t, n, p ); break;
			default: xl::log_string( l, txt + pad );
			}
		}
		return txt + pad;
	}
	bool is_message( const std::string& s, int t, long n ) { auto e = "m" + std::to_string( t ) + "." + std::to_string( n ); return s.compare( 0, e.size(), e ) == 0 && !isdigit( s.c_str()[e.size()] ); }

	void gen_delivery( Rng& r, Plan& p )
	{
		int nsink = (int)( r.chance( 0.04 ) ? r.range( 5, 24 ) : r.range( 1, 4 ) ), nth = (int)r.range( 1, 3 );
		p.cfg["sinks"] = nsink; p.cfg["threads"] = nth;
		bool ctl = r.chance( 0.7 );
		for ( int i = 0; i < nsink; ++i ) {
			bool dyn = ctl && r.chance( 0.6 );
			p.cfg[fmt( "level%d", i )] = r.range( 0, 7 ) == 7 ? 7 : r.range( 1, 5 );
			p.cfg[fmt( "mode%d", i )] = r.chance( 0.25 );		// current_thread mode bound to the main thread
			p.cfg[fmt( "dyn%d", i )] = dyn;
			p.cfg[fmt( "reg%d", i )] = !dyn || r.chance( 0.5 );			// dynamic sinks may start unregistered
		}
		bool mainlog = r.chance( 0.5 );
		for ( int t = mainlog ? 0 : 1; t <= nth; ++t ) {
			int n = (int)r.range( 1, 5 );
			for ( int i = 0; i < n; ++i )
				if ( r.chance( 0.1 ) ) p.add( t, "test", r.range( 1, 6 ) );
				else p.add( t, "log", r.range( 1, 6 ), i, r.range( 0, 2 ) + 10 * gen_pad( r ) );
		}
		if ( ctl ) {
			int n = (int)r.range( 1, 6 );
			for ( int i = 0; i < n; ++i ) {
				int s = (int)r.below( nsink );
				if ( !p.get( fmt( "dyn%d", s ).c_str() ) ) continue;
				int k = (int)r.below( 6 );
				if ( k == 5 ) p.add( nth + 1, "log", r.range( 1, 6 ), i, r.range( 0, 2 ) );
				else if ( k == 4 ) p.add( nth + 1, "mode", s, r.chance( 0.5 ) );
				else p.add( nth + 1, k == 0 ? "add" : k == 1 ? "remove" : "level", s, r.chance( 0.15 ) ? 7 : r.range( 1, 6 ) );
			}
		}
	}

	void run_delivery( const Plan& p, int )
	{
		{ Quiet q; H = new Hist; chatty = true; }
		int ns = (int)p.get( "sinks", 1 );
		std::vector<std::unique_ptr<rec_sink>> sinks;
		for ( int i = 0; i < ns; ++i ) {
			sinks.push_back( std::make_unique<rec_sink>( i, (xl::level)p.get( fmt( "level%d", i ).c_str(), 3 ), p.get( fmt( "mode%d", i ).c_str() ) ? xl::sink_mode::current_thread : xl::sink_mode::all_threads ) );
			if ( !p.get( fmt( "reg%d", i ).c_str(), 1 ) ) xl::remove_sink( sinks.back().get() );
		}
		run_threads( p, [&]( const Op& o ) {
			if ( o.k == "log" ) {
				uint64_t s; { Quiet q; s = sim::seq(); }
				auto txt = emit( (int)( o.c % 10 ), (int)o.a, o.t, o.b, o.c / 10 );
				Quiet q; H->msgs.push_back( { sim::tid(), (int)o.a, s, sim::seq(), txt } );
			}
			else if ( o.k == "test" ) {
				uint64_t s; { Quiet q; s = sim::seq(); }
				bool r = xl::test_log_level( (xl::level)o.a );
				Quiet q; H->ev.push_back( { -1, s, sim::seq(), 10 + r, (int)o.a + 100 * sim::tid() } );
			}
			else {
				auto* sk = sinks[o.a % ns].get();
				uint64_t s; { Quiet q; s = sim::seq(); }
				if ( o.k == "add" ) xl::add_sink( sk ); else if ( o.k == "remove" ) xl::remove_sink( sk ); else if ( o.k == "level" ) sk->set_log_level( (xl::level)o.b );
				else if ( o.k == "mode" ) sk->set_sink_mode( o.b ? xl::sink_mode::current_thread : xl::sink_mode::all_threads );
				Quiet q; H->ev.push_back( { (int)( o.a % ns ), s, sim::seq(), o.k == "add" ? 0 : o.k == "remove" ? 1 : o.k == "level" ? 2 : 3, o.k == "mode" ? (int)o.b * ( 1 + sim::tid() ) : (int)o.b } );
			}
		} );
		// a final message when everything is quiet must follow the final configuration exactly
		Quiet q;
		// note: after set_log_level on an unregistered sink the sink counts as registered (documented by its implementation: level changes (re)register)
		auto reg_at = [&]( int sk, uint64_t s, uint64_t e ) -> int {	// 1 registered throughout, 0 not registered throughout, -1 unknown
			int st = (int)p.get( fmt( "reg%d", sk ).c_str(), 1 ), first = -2;
			for ( auto& v : H->ev ) if ( v.sink == sk && v.kind < 3 ) {
				int nst = v.kind == 0 ? 1 : v.kind == 1 ? 0 : ( st == 1 ? 1 : -1 );
				if ( v.e < s ) st = nst;
				else if ( v.s <= e ) { if ( nst != st ) first = -1; }
			}
			return first == -1 ? -1 : st;
		};
		auto lvl_at = [&]( int sk, uint64_t s, uint64_t e, int& lo, int& hi ) {
			int l = (int)p.get( fmt( "level%d", sk ).c_str(), 3 ); lo = hi = l;
			for ( auto& v : H->ev ) if ( v.sink == sk && v.kind == 2 ) {
				if ( v.e < s ) { lo = hi = v.val; }
				else if ( v.s <= e ) { lo = std::min( lo, v.val ); hi = std::max( hi, v.val ); }
			}
		};
		// does the sink's mode admit messages of this thread: 1 yes, 0 no, -1 the mode changed meanwhile
		auto admits = [&]( int sk, int t, uint64_t s, uint64_t e ) -> int {
			int st = p.get( fmt( "mode%d", sk ).c_str() ) ? t == 0 : 1; bool both = false;
			for ( auto& v : H->ev ) if ( v.sink == sk && v.kind == 3 ) {
				int nst = v.val == 0 || v.val == 1 + t;
				if ( v.e < s ) st = nst; else if ( v.s <= e && nst != st ) both = true;
			}
			return both ? -1 : st;
		};
		// whether the sink gets messages of this thread: 1 throughout, 0 never, -1 unknown
		auto takes = [&]( int sk, int t, uint64_t s, uint64_t e ) { int r = reg_at( sk, s, e ), a = admits( sk, t, s, e ); return r == 0 || a == 0 ? 0 : r == 1 && a == 1 ? 1 : -1; };
		long must = 0, mustnot = 0, may = 0;
		for ( auto& m : H->msgs )
			for ( int k = 0; k < ns; ++k ) {
				int n = 0; bool inside = true; bool same_level = true;
				for ( auto& d : H->del ) if ( d.sink == k && d.text == m.text ) { ++n; inside = inside && d.at > m.s && d.at < m.e && d.t == m.t; same_level = same_level && d.level == m.level; }
				int lo, hi; lvl_at( k, m.s, m.e, lo, hi );
				int reg = takes( k, m.t, m.s, m.e );
				SIM_CHECK( n <= 1, "duplicate-message", "message %s was delivered %d times to sink %d", m.text.c_str(), n, k );
				if ( n ) SIM_CHECK( inside, "misattributed-message", "message %s reached sink %d outside the logging call", m.text.c_str(), k );
				if ( n ) SIM_CHECK( same_level, "wrong-level", "message %s reached sink %d with another level", m.text.c_str(), k );
				if ( reg == 1 && m.level >= hi ) { ++must; SIM_CHECK( n == 1, "lost-message", "message %s (level %d) never reached sink %d, registered and accepting (level %d) during the whole call", m.text.c_str(), m.level, k, hi ); }
				else if ( reg == 0 || m.level < lo ) { ++mustnot; SIM_CHECK( n == 0, "unwanted-message", "message %s (level %d) reached sink %d, which did not accept it (%s, level %d)", m.text.c_str(), m.level, k, reg == 0 ? "not registered or other thread's sink" : "registered", lo ); }
				else ++may;
				// error and critical flush every registered sink before the call returns
				if ( m.level >= 5 && m.level <= 6 && reg_at( k, m.s, m.e ) == 1 ) {
					bool via_helper = false; for ( auto& o : p.ops ) if ( o.k == "log" && o.t == m.t && is_message( m.text, o.t, o.b ) && ( o.c % 10 == 1 || ( o.c % 10 == 2 && o.b % 3 != 2 ) ) ) via_helper = true;
					if ( via_helper ) { bool f = false; uint64_t dat = m.s; for ( auto& d : H->del ) if ( d.sink == k && d.text == m.text ) dat = d.at; for ( auto& x : H->fl ) if ( x.sink == k && x.t == m.t && x.at > dat && x.at < m.e ) f = true;
						SIM_CHECK( f, "missing-flush", "error/critical message %s returned without flushing sink %d afterwards", m.text.c_str(), k ); }
				}
			}
		for ( auto& d : H->del ) {
			bool known = false; for ( auto& m : H->msgs ) known = known || m.text == d.text;
			SIM_CHECK( reg_at( d.sink, d.at, d.at ) != 0, "after-removal", "sink %d received '%s' while it was not registered", d.sink, d.text.c_str() );
			SIM_CHECK( known, "corrupt-message", "sink %d received '%s', which nobody logged", d.sink, d.text.c_str() );
		}
		// order per thread and sink
		for ( int k = 0; k < ns; ++k )
			for ( size_t i = 0; i < H->del.size(); ++i ) for ( size_t j = i + 1; j < H->del.size(); ++j ) {
				auto& a = H->del[i]; auto& b = H->del[j];
				auto num = []( const std::string& x ) { return 2 * atol( x.c_str() + x.find( '.' ) + 1 ) + ( x[0] == 'm' ); }; if ( a.sink == k && b.sink == k && a.t == b.t ) SIM_CHECK( num( a.text ) < num( b.text ), "reordered-message", "sink %d saw %s before %s", k, a.text.c_str(), b.text.c_str() );
			}
		for ( auto& f : H->fl ) SIM_CHECK( reg_at( f.sink, f.at, f.at ) != 0, "after-removal", "sink %d was flushed while it was not registered", f.sink );
		for ( auto& v : H->ev ) if ( v.sink < 0 ) {
			bool all_reject = true, some_accept = false; int lv = v.val % 100, tt = v.val / 100;
			for ( int k = 0; k < ns; ++k ) { int lo, hi; lvl_at( k, v.s, v.e, lo, hi ); int reg = takes( k, tt, v.s, v.e ); if ( reg == 1 && lv >= hi ) some_accept = true; if ( !( reg == 0 || lv < lo ) ) all_reject = false; }
			if ( some_accept ) SIM_CHECK( v.kind == 11, "wrong-level-test", "test_log_level(%d) was false although a registered sink accepts that level", lv );
			if ( all_reject ) SIM_CHECK( v.kind == 10, "wrong-level-test", "test_log_level(%d) was true although no registered sink accepts that level", lv );
		}
		probe( "must_deliver", must ); probe( "must_not_deliver", mustnot ); probe( "may_deliver", may );
		sinks.clear();
	}
	Register r1( "C01.delivery", gen_delivery, run_delivery, 1 );

	// ------------------------------------------------------------------------------------------------ C02
	// a stream buffer that takes time per operation and records the bytes it is given
	struct slow_buf : public std::streambuf
	{
		std::string data; long syncs = 0; bool buffered = false; size_t flushed = 0;
		int_type overflow( int_type c ) override { sim::point( "sb" ); { Quiet q; data += (char)c; } sim::point( "sb" ); return c; }
		std::streamsize xsputn( const char* s, std::streamsize n ) override
		{
			// a slow device: takes the bytes in two parts
			std::streamsize h = n / 2;
			{ Quiet q; data.append( s, h ); }
			sim::point( "sb" );
			{ Quiet q; data.append( s + h, n - h ); }
			sim::point( "sb" );
			return n;
		}
		int sync() override { sim::point( "sync" ); Quiet q; flushed = data.size(); ++syncs; return 0; }
	};
	void gen_lines( Rng& r, Plan& p )
	{
		p.cfg["kind"] = r.below( 3 );	// 0 stream 1 file 2 console
		p.cfg["level"] = r.range( 1, 3 );
		p.cfg["f.wshort"] = r.chance( 0.3 ) ? r.range( 50, 400 ) : 0;
		p.cfg["second"] = r.chance( 0.3 );	// a second console sink on the same stream / a second sink elsewhere
		int nth = (int)r.range( 2, 3 );
		for ( int t = 1; t <= nth; ++t ) { int n = (int)r.range( 1, 4 ); for ( int i = 0; i < n; ++i ) p.add( t, "log", r.range( 1, 6 ), i, r.range( 1, 2 ) + 10 * ( r.chance( p.cfg["kind"] == 2 ? 0.4 : 0.2 ) ? r.chance( 0.1 ) ? r.range( 3, 30 ) : r.range( 1, 2 ) : 0 ), std::string( r.below( 30 ), (char)( 'a' + t ) ) ); }
		if ( r.chance( 0.3 ) ) { int n = (int)r.range( 1, 3 ); for ( int i = 0; i < n; ++i ) p.add( nth + 1, "flush" ); }
	}
	void run_lines( const Plan& p, int )
	{
		int kind = (int)p.get( "kind" ); auto lv = (xl::level)p.get( "level", 1 );
		slow_buf sb; std::ostream os( &sb ); auto* old = std::cout.rdbuf();
		if ( kind == 2 ) std::cout.rdbuf( &sb );
		set_faults( fault_cfg( p ) ); faults_on( true );
		std::vector<std::string> accepted;
		{
			std::unique_ptr<xl::sink> sk, sk2;
			if ( kind == 0 ) sk = std::make_unique<xl::stream_sink>( os, lv );
			else if ( kind == 1 ) sk = std::make_unique<xl::file_sink>( xo::path( "/work/logs/a.txt" ), lv );
			else { sk = std::make_unique<xl::console_sink>( lv ); }
			bool second = p.get( "second" ) != 0;
			if ( second ) { if ( kind == 2 ) sk2 = std::make_unique<xl::console_sink>( lv ); else sk2 = std::make_unique<xl::file_sink>( xo::path( "/work/logs/b.txt" ), lv ); }
			run_threads( p, [&]( const Op& o ) {
				if ( o.k == "flush" ) { xl::flush(); return; }
				std::string txt = "<" + std::to_string( o.t ) + "." + std::to_string( o.b ) + ":" + o.s + ">"; auto first = txt;
				for ( int k = 1; k <= o.c / 10; ++k ) txt += ( kind == 2 && ( o.b + k ) % 3 == 0 ? "\r\n<" : "\n<" ) + std::to_string( o.t ) + "." + std::to_string( o.b ) + "/" + std::to_string( k ) + ":" + o.s + ">";	// several lines
				auto l = (xl::level)o.a;
				if ( o.c % 10 == 1 ) { if ( o.a >= 5 ) xl::error( txt ); else xl::message( l, txt ); }
				else xl::log_string( l, txt );
				Quiet q; if ( o.a >= (long)lv ) { std::istringstream ls( txt ); for ( std::string x; std::getline( ls, x ); ) { if ( x.back() == '\r' ) x.pop_back(); accepted.push_back( x ); } }
			} );
		}
		faults_on( false );
		if ( kind == 2 ) std::cout.rdbuf( old );
		Quiet q;
		auto check = [&]( const std::string& name, const std::string& out, int copies ) {
			std::map<std::string, int> want; for ( auto& a : accepted ) want[a] += copies;
			std::map<int, long> last; size_t i = 0; std::string prev;
			SIM_CHECK( out.empty() || out.back() == '\n', "torn-line", "%s does not end with a complete line", name.c_str() );
			while ( i < out.size() ) {
				size_t j = out.find( '\n', i ); std::string line = out.substr( i, j - i ); i = j + 1;
				size_t b = line.find( '<' );
				SIM_CHECK( b != std::string::npos && line.back() == '>', "torn-line", "%s has the line '%s'", name.c_str(), escape( line ).c_str() );
				std::string body = line.substr( b ), prefix = line.substr( 0, b );
				SIM_CHECK( want.count( body ) && want[body] > 0, "torn-line", "%s has the line '%s', which is not one message that was logged (or is there twice)", name.c_str(), escape( line ).c_str() );
				want[body]--;
				if ( size_t sl = body.find( '/' ); sl != std::string::npos && sl < body.find( ':' ) ) {
					int k = atoi( body.c_str() + sl + 1 ); std::string before = body.substr( 0, sl ) + ( k > 1 ? "/" + std::to_string( k - 1 ) : "" ) + body.substr( body.find( ':' ) );
					SIM_CHECK( prev == before, "torn-message", "%s has '%s' right after '%s': the lines of one message are not together", name.c_str(), body.c_str(), prev.c_str() ); probe( "multi_line" );
				}
				prev = body; if ( kind != 2 && b == 0 && body.find( '/' ) < body.find( ':' ) ) continue;	// only the console repeats the prefix
				SIM_CHECK( prefix.size() == 9 && isdigit( prefix[0] ) && prefix[2] == ':' && prefix[5] == ':' && isdigit( prefix[7] ) && prefix[8] == ' ', "torn-line", "%s has the line '%s' with a damaged time stamp", name.c_str(), escape( line ).c_str() );
				if ( copies == 1 ) { int t = atoi( body.c_str() + 1 ); long n = atol( body.c_str() + body.find( '.' ) + 1 ); SIM_CHECK( !last.count( t ) || last[t] <= n, "reordered-message", "%s has messages of one thread out of order", name.c_str() ); last[t] = n; }
			}
			for ( auto& w : want ) SIM_CHECK( w.second == 0, "lost-message", "%s misses the message '%s'", name.c_str(), w.first.c_str() );
		};
		bool second = p.get( "second" ) != 0;
		if ( kind == 1 ) check( "the log file", vfs_read( "/work/logs/a.txt" ), 1 ); else check( kind == 0 ? "the stream" : "the console", sb.data, kind == 2 && second ? 2 : 1 );
		if ( second && kind != 2 ) check( "the second log file", vfs_read( "/work/logs/b.txt" ), 1 );
	}
	Register r2( "C02.lines", gen_lines, run_lines, 1 );

	// ------------------------------------------------------------------------------------------------ C03
	void gen_life( Rng& r, Plan& p )
	{
		int nth = (int)r.range( 1, 3 );
		p.cfg["stable_level"] = r.range( 1, 4 );
		for ( int t = 1; t <= nth; ++t ) { int n = (int)r.range( 2, 6 ); for ( int i = 0; i < n; ++i ) p.add( t, "log", r.range( 1, 6 ), i, r.range( 0, 2 ) ); }
		int nc = (int)r.range( 1, 2 );
		for ( int c = 0; c < nc; ++c ) {
			int n = (int)r.range( 1, 4 );
			for ( int i = 0; i < n; ++i ) {
				p.add( nth + 1 + c, "new", r.below( 3 ), r.range( 1, 4 ), c * 10 + i );
				if ( r.chance( 0.4 ) ) p.add( nth + 1 + c, "level", r.range( 1, 7 ) );
				if ( r.chance( 0.3 ) ) p.add( nth + 1 + c, "log", r.range( 3, 6 ), 100 + i, 1 );
				p.add( nth + 1 + c, "del" );
			}
		}
	}
	void run_life( const Plan& p, int )
	{
		{ Quiet q; H = new Hist; }
		slow_buf con; auto* old = std::cout.rdbuf( &con );
		auto stable = std::make_unique<rec_sink>( 0, (xl::level)p.get( "stable_level", 1 ), xl::sink_mode::all_threads );
		struct Own { std::unique_ptr<xl::sink> s; std::unique_ptr<slow_buf> b; std::unique_ptr<std::ostream> o; int kind; int level; int id; };
		std::map<int, Own> own; for ( auto& o : p.ops ) own[o.t];
		struct Out { std::string text; int level; uint64_t made, born, dies; };	// construction began, ended; destruction began
		std::vector<Out> outs;
		run_threads( p, [&]( const Op& o ) {
			Own& w = own[o.t];
			if ( o.k == "log" ) {
				uint64_t s; { Quiet q; s = sim::seq(); }
				auto txt = emit( (int)o.c, (int)o.a, o.t, o.b );
				Quiet q; H->msgs.push_back( { sim::tid(), (int)o.a, s, sim::seq(), txt } );
			}
			else if ( o.k == "new" && !w.s ) {
				uint64_t made; { Quiet q; made = sim::seq(); }
				w.kind = (int)o.a; w.level = (int)o.b; w.id = (int)o.c;
				if ( o.a == 0 ) { w.b = std::make_unique<slow_buf>(); w.o = std::make_unique<std::ostream>( w.b.get() ); w.s = std::make_unique<xl::stream_sink>( *w.o, (xl::level)o.b ); }
				else if ( o.a == 1 ) w.s = std::make_unique<xl::file_sink>( xo::path( "/work/l" + std::to_string( o.c ) + ".txt" ), (xl::level)o.b );
				else w.s = std::make_unique<xl::console_sink>( (xl::level)o.b );
				Quiet q; outs.push_back( { "", w.level, made, sim::seq(), 0 } ); w.id = (int)outs.size() - 1 + 1000 * w.id;
			}
			else if ( o.k == "level" && w.s ) { w.s->set_log_level( (xl::level)o.a ); w.level = std::max( w.level, (int)o.a ); }
			else if ( o.k == "del" && w.s ) {
				{ Quiet q; outs[w.id % 1000].dies = sim::seq(); }
				w.s.reset();
				Quiet q; auto& u = outs[w.id % 1000];
				u.level = w.level;
				if ( w.kind == 0 ) { u.text = w.b->data; } else if ( w.kind == 1 ) u.text = vfs_read( "/work/l" + std::to_string( w.id / 1000 ) + ".txt" ); else u.level = 99;
				size_t len = u.text.size(); (void)len;
				w.o.reset(); w.b.reset();
			}
		} );
		stable.reset();
		std::cout.rdbuf( old );
		Quiet q;
		for ( auto& m : H->msgs ) {
			int n = 0; for ( auto& d : H->del ) if ( d.text == m.text ) ++n;
			int want = m.level >= p.get( "stable_level", 1 );
			SIM_CHECK( n == want, n < want ? "lost-message" : "duplicate-message", "message %s reached the permanent sink %d times instead of %d while other sinks came and went", m.text.c_str(), n, want );
			for ( auto& u : outs ) if ( u.level != 99 && u.dies ) {
				std::string key = " " + m.text + "\n"; size_t c = 0, i = 0; while ( ( i = u.text.find( key, i ) ) != std::string::npos ) { ++c; i += key.size(); }
				SIM_CHECK( c <= 1, "duplicate-message", "message %s was written %zu times to one sink", m.text.c_str(), c );
				if ( u.born < m.s && m.e < u.dies && m.level >= u.level ) { SIM_CHECK( c == 1, "lost-message", "message %s is missing from a sink that existed and accepted it during the whole call", m.text.c_str() ); probe( "covered_by_short_lived_sink" ); }
				if ( m.e < u.made && u.text.find( key ) != std::string::npos ) SIM_CHECK( false, "unwanted-message", "message %s was written to a sink created later", m.text.c_str() );
			}
		}
	}
	Register r3( "C03.lifecycle", gen_life, run_life, 1 );

	// ------------------------------------------------------------------------------------------------ C04
	void gen_faults( Rng& r, Plan& p )
	{
		p.cfg["deep"] = r.range( 0, 2 );
		if ( r.chance( 0.8 ) ) {
			auto f = [&]( const char* k, double pr, int hi ) { if ( r.chance( pr ) ) p.cfg[k] = r.range( 20, hi ); };
			f( "f.open", 0.2, 900 ); f( "f.write", 0.4, 400 ); f( "f.wshort", 0.4, 600 ); f( "f.mkdir", 0.2, 900 ); f( "f.close", 0.2, 900 ); f( "f.eintr", 0.2, 300 ); f( "f.stat", 0.15, 500 );
			if ( r.chance( 0.3 ) ) p.cfg["f.diskcap"] = r.range( 0, 200 );
		}
		p.cfg["crash"] = r.chance( 0.4 ) ? r.range( 10, 150 ) : 0;
		p.cfg["level"] = r.range( 1, 4 );
		int nth = (int)r.range( 0, 2 );
		for ( int t = 0; t <= nth; ++t ) { int n = (int)r.range( 1, 6 ); for ( int i = 0; i < n; ++i ) p.add( t, "log", r.range( 1, 6 ), i, r.range( 1, 2 ), std::string( r.chance( 0.1 ) ? r.range( 500, 1000 ) : r.below( 40 ), 'x' ) ); }
		// other sinks come and go, change their level or are flushed meanwhile
		if ( r.chance( 0.5 ) ) { int n = (int)r.range( 1, 5 ); for ( int i = 0; i < n; ++i ) p.add( nth + 1, "other", r.below( 3 ), r.range( 1, 7 ) ); }
	}
	void run_faults( const Plan& p, int phase )
	{
		std::string file = p.get( "deep" ) == 0 ? "/work/log.txt" : p.get( "deep" ) == 1 ? "/work/d/log.txt" : "/work/d/e/log.txt";
		if ( phase > 0 ) {
			Quiet q;
			// the process died: everything acknowledged by error()/critical() before must be in the file
			std::string data = vfs_read( file );
			for ( auto& n : notes() ) { SIM_CHECK( data.find( n ) != std::string::npos, "lost-after-crash", "message '%s' was acknowledged by an error/critical call but is not in the log file after the process died", n.substr( 0, 60 ).c_str() ); probe( "checked_after_crash" ); }
			return;
		}
		{ Quiet q; H = new Hist; }
		set_faults( fault_cfg( p ) );
		bool anyfault = false; for ( auto& c : p.cfg ) if ( c.first.rfind( "f.", 0 ) == 0 ) anyfault = true;
		auto first = std::make_unique<rec_sink>( 0, xl::level::trace, xl::sink_mode::all_threads );
		faults_on( true );
		std::unique_ptr<xl::file_sink> fsk;
		try { fsk = std::make_unique<xl::file_sink>( xo::path( file ), (xl::level)p.get( "level", 1 ) ); }
		catch ( std::exception& e ) { fail( "throws", "creating a file sink threw: %s", e.what() ); }
		auto last = std::make_unique<rec_sink>( 1, xl::level::trace, xl::sink_mode::all_threads );
		run_threads( p, [&]( const Op& o ) {
			CrashArmed c( pct( p.get( "crash" ) ) );
			if ( o.k == "other" ) {
				try {
					if ( o.a == 0 ) xl::flush();
					else { slow_buf ob; std::ostream os( &ob ); xl::stream_sink other( os, xl::level::never ); if ( o.a == 2 ) other.set_log_level( (xl::level)o.b ); }
				}
				catch ( std::exception& e ) { fail( "throws", "adding, removing or flushing sinks threw: %s", e.what() ); }
				return;
			}
			std::string txt = "<" + std::to_string( o.t ) + "." + std::to_string( o.b ) + ":" + o.s + ">";
			try {
				if ( o.c == 1 || o.a < 5 ) { switch ( o.a ) { case 5: xl::error( txt ); break; case 6: xl::critical( txt ); break; default: xl::message( (xl::level)o.a, txt ); } }
				else { if ( o.a == 5 ) xl::errorf( "%s", txt.c_str() ); else xl::criticalf( "%s", txt.c_str() ); }
			}
			catch ( std::exception& e ) { fail( "throws", "logging threw: %s", e.what() ); }
			Quiet q; H->msgs.push_back( { sim::tid(), (int)o.a, 0, 0, txt } );
			if ( !anyfault && o.a >= 5 && o.a >= p.get( "level", 1 ) ) {
				note( txt );
				SIM_CHECK( vfs_read( file ).find( txt ) != std::string::npos, "not-in-file", "message '%s' of an error or critical call that returned is not in the log file", txt.substr( 0, 60 ).c_str() ); probe( "error_in_file" );
			}
		} );
		try { fsk.reset(); } catch ( std::exception& e ) { fail( "throws", "destroying a file sink threw: %s", e.what() ); }
		faults_on( false );
		Quiet q;
		for ( auto& m : H->msgs ) for ( int k = 0; k < 2; ++k ) { int n = 0; for ( auto& d : H->del ) if ( d.sink == k && d.text == m.text ) ++n; SIM_CHECK( n == 1, "lost-message", "message '%s' reached a healthy sink %d times while the file sink's disk was failing", m.text.substr( 0, 60 ).c_str(), n ); }
		std::string data = vfs_read( file );
		std::map<std::string, int> want; for ( auto& m : H->msgs ) if ( m.level >= p.get( "level", 1 ) ) want[m.text]++;
		size_t i = 0; long bad = 0, good = 0;
		while ( i < data.size() ) {
			size_t j = data.find( '\n', i ); if ( j == std::string::npos ) j = data.size(); std::string line = data.substr( i, j - i ); i = j + 1;
			size_t b = line.find( '<' ); std::string body = b == std::string::npos ? "" : line.substr( b );
			if ( b == 9 && want.count( body ) ) { SIM_CHECK( want[body]-- > 0, "duplicate-message", "the log file holds '%s' twice", body.substr( 0, 60 ).c_str() ); ++good; } else ++bad;
		}
		long hard = fault_count( "write_eio" ) + fault_count( "disk_full" ) + fault_count( "write_eintr" );
		SIM_CHECK( bad <= hard, "corrupt-log", "the log file has %ld damaged lines but only %ld writes failed", bad, hard );
		if ( hard == 0 && !fault_count( "open_eacces" ) && !fault_count( "mkdir_error" ) && !fault_count( "open_enospc" ) && !fault_count( "stat_eio" ) )
			for ( auto& w : want ) SIM_CHECK( w.second == 0, "lost-message", "message '%s' is missing from the log file although no file operation failed", w.first.substr( 0, 60 ).c_str() );
		probe( "lines_ok", good ); probe( "lines_damaged", bad );
	}
	Register r4( "C04.diskfault", gen_faults, run_faults, 1 );
}
