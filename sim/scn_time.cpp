// C17 timers, C20 profiler
#include <cstdarg>
#include <cstdio>
#include <cmath>
#include <cstring>
#include <memory>
#include "scn.h"
#include "xo/time/timer.h"
#include "xo/time/stopwatch.h"
#include "xo/time/interval_checker.h"
#include "xo/container/prop_node.h"
#include "xo/string/string_tools.h"
#include "xo/string/string_cast.h"
#include "xo/system/profiler.h"
#include "xo/system/benchmark_tools.h"
#include "xo/system/log_sink.h"

using namespace sim;

namespace
{
	constexpr long NS = 1, MS = 1000000, SEC = 1000000000;
	struct Span { int64_t lo = 0, hi = 0; };
	int64_t now() { Quiet q; return mono_ns(); }
	long some_ns( Rng& r ) { switch ( r.below( 6 ) ) { case 0: return 0; case 1: return r.range( 1, 999 ); case 2: return r.range( 1, 999 ) * 1000; case 3: return r.range( 1, 999 ) * MS; case 4: return r.range( 1, 4000 ) * SEC; default: return r.range( 1, 2000000 ) * SEC + r.range( 0, SEC ); } }
	void gen( Rng& r, Plan& p )
	{
		p.cfg["tick"] = r.chance( 0.5 ) ? 0 : r.range( 1, 100000 ); if ( r.chance( 0.3 ) ) p.cfg["nomem"] = r.range( 30, 400 );
		int nth = r.chance( 0.7 ) ? 1 : (int)r.range( 2, 3 ); bool shared = p.cfg["shared"] = nth > 1 && r.chance( 0.3 );
		for ( int t = 1; t <= nth; ++t ) {
			int n = (int)( r.chance( 0.04 ) ? r.range( 40, 200 ) : r.range( 3, 16 ) );
			for ( int i = 0; i < n; ++i ) {
				long a = (long)r.below( 3 );
				switch ( r.below( shared ? 8 : 20 ) ) {
				case 0: case 1: case 2: p.add( t, "advance", some_ns( r ) ); break;
				case 3: p.add( t, "jump", r.pick<long>( { -1, 1 } ) * some_ns( r ) ); break;
				case 4: case 5: case 6: p.add( t, "read", a ); break;
				case 7: p.add( t, "ticks", a ); break;
				case 8: p.add( t, "pause", a ); break;
				case 9: case 10: p.add( t, "resume", a ); break;
				case 11: p.add( t, "restart", a ); break;
				case 12: p.add( t, "set", a, some_ns( r ) ); break;
				case 13: p.add( t, "make", a, r.below( 2 ) ); break;
				case 14: p.add( t, "copy", a, r.below( 3 ) ); break;
				case 15: p.add( t, "scoped", a, some_ns( r ) ); break;
				case 16: case 17: p.add( t, "split", r.below( 4 ) ); break;
				case 18: p.add( t, r.pick<const char*>( { "sw_restart", "sw_report", "sw_report", "sw_clear", "sw_copy" } ) ); break;
				default: if ( r.chance( 0.35 ) ) p.add( t, "scope", r.below( 12 ), some_ns( r ) ); else p.add( t, "interval", r.below( 2 ), some_ns( r ) );
				}
			}
			p.add( t, "read", 0 ); if ( !shared ) p.add( t, "sw_report" );
		}
	}
	struct ScopeSink : public xo::log::sink
	{
		std::vector<std::string> text; int level = 0;
		ScopeSink() : xo::log::sink( unregistered(), xo::log::level::trace, {}, xo::log::sink_mode::current_thread ) { xo::log::add_sink( this ); }
		~ScopeSink() { xo::log::remove_sink( this ); }
		void hande_log_message( xo::log::level l, const xo::string& msg ) override { Quiet q; level = (int)l; text.push_back( msg ); }
	};
	struct Tm { xo::timer t; bool running; Span e; Tm( bool s ) : t( s ) { running = s; } };	// e: epoch when running, elapsed time when paused
	struct World { std::unique_ptr<Tm> t[3]; xo::stopwatch sw; std::vector<std::string> names; std::vector<Span> times; std::vector<int64_t> shown; size_t cur = 0; Span last; std::unique_ptr<xo::interval_checker> ic[2]; int64_t ic_len[2], ic_prev[2]; xo::timer ic_timer; Span ic_epoch; };
	// the time shown by a timer that was read between a and b
	Span shown( const Tm& t, int64_t a, int64_t b ) { if ( !t.running ) return t.e; return { a - t.e.hi, b - t.e.lo }; }
	void check( const char* what, const Tm& t, int64_t v, int64_t a, int64_t b ) { Span s = shown( t, a, b ); SIM_CHECK( v >= s.lo && v <= s.hi, "wrong-time", "%s returned %ld ns instead of %ld to %ld ns", what, (long)v, (long)s.lo, (long)s.hi ); }
	// a time that was counted until a moment between a and b, from the moment e: the two must fit, so that no time gets lost between them
	Span next( const char* what, Span e, int64_t v, int64_t a, int64_t b ) { Span n{ std::max( a, e.lo + v ), std::min( b, e.hi + v ) }; SIM_CHECK( n.lo <= n.hi, "lost-time", "%s: %ld ns were lost or counted twice", what, (long)( n.lo - n.hi ) ); return n; }
	double parse_time( const std::string& s, double& tol ) { if ( s.find( ':' ) == std::string::npos ) { tol = 0.00051; return strtod( s.c_str(), nullptr ); } double v = 0; size_t i = 0; while ( true ) { size_t e = s.find( ':', i ); v = v * 60 + strtod( s.substr( i, e - i ).c_str(), nullptr ); if ( e == std::string::npos ) break; i = e + 1; } tol = 1; return v; }
	void run( const Plan& p, int )
	{
		set_clock_tick( p.get( "tick" ) ); std::vector<World>* ws; { Quiet q; ws = new std::vector<World>( 4 ); }
		for ( auto& w : *ws ) { for ( int i = 0; i < 3; ++i ) { int64_t a = now(); w.t[i] = std::make_unique<Tm>( i < 2 ); int64_t b = now(); if ( i < 2 ) w.t[i]->e = { a, b }; } int64_t a = now(); w.sw.restart(); w.ic_timer.restart(); int64_t b = now(); w.last = { a, b }; w.ic_epoch = { a, b }; for ( int i = 0; i < 2; ++i ) { w.ic_len[i] = i ? SEC : 1000; w.ic_prev[i] = 0; w.ic[i] = std::make_unique<xo::interval_checker>( xo::time( w.ic_len[i] ) ); } }
		faults_on( true ); bool shared = p.get( "shared" ); double nm = pct( p.get( "nomem" ) );
		run_threads( p, [&]( const Op& o ) {
			World& w = ( *ws )[shared ? 1 : o.t]; auto& t = w.t[o.a >= 0 && o.a < 3 ? o.a : 0]; int64_t a = now();
			if ( o.k == "advance" ) { Quiet q; advance( o.a ); }
			else if ( o.k == "jump" ) { Quiet q; jump_realtime( o.a ); probe( "clock_jump" ); }
			else if ( o.k == "read" ) { auto v = t->t().nanoseconds(); check( "timer", *t, v, a, now() ); SIM_CHECK( t->t.is_running() == t->running && t->t.is_paused() != t->running, "wrong-state", "timer says it is %s", t->running ? "paused" : "running" ); probe( t->running ? "running" : "paused" ); }
			else if ( o.k == "ticks" ) { auto v = t->t.tick_count(); check( "tick_count", *t, v, a, now() ); }
			else if ( o.k == "pause" ) { auto v = t->t.pause().nanoseconds(); int64_t b = now(); check( "pause", *t, v, a, b ); if ( t->running ) { t->running = false; t->e = { v, v }; } }
			else if ( o.k == "resume" ) { t->t.resume(); int64_t b = now(); if ( !t->running ) { t->running = true; t->e = { a - t->e.hi, b - t->e.lo }; } else probe( "resumed_twice" ); }
			else if ( o.k == "restart" ) { auto v = t->t.restart().nanoseconds(); int64_t b = now(); check( "restart", *t, v, a, b ); t->e = t->running ? next( "restart", t->e, v, a, b ) : Span{ a, b }; t->running = true; }
			else if ( o.k == "set" ) { t->t.set( xo::time( o.b ) ); int64_t b = now(); if ( t->running ) t->e = { a - o.b, b - o.b }; else t->e = { o.b, o.b }; }
			else if ( o.k == "make" ) { t = std::make_unique<Tm>( o.b != 0 ); if ( o.b ) t->e = { a, now() }; }
			else if ( o.k == "copy" ) { auto& s = w.t[o.b % 3]; t->t = s->t; t->running = s->running; t->e = s->e; }
			else if ( o.k == "scoped" ) {
				bool was = t->running; Span e = t->e; { xo::scoped_timer_starter st( t->t ); int64_t b = now(); if ( !was ) e = { a - e.hi, b - e.lo }; SIM_CHECK( t->t.is_running(), "wrong-state", "a scoped starter did not start the timer" ); { Quiet q; advance( o.b ); } a = now(); }
				int64_t b = now(); t->running = false; t->e = { a - e.hi, b - e.lo };
			}
			else if ( o.k == "split" ) {
				char name[8]; snprintf( name, 8, "s%ld", w.cur < w.times.size() ? 0 : o.a ); bool oom = false;
				{ AllocFaults f( nm ); try { w.sw.split( name ); } catch ( std::bad_alloc& ) { oom = true; } }
				Quiet q; int64_t b = mono_ns(), got = 0; if ( !oom && w.cur < w.sw.split_times().size() ) got = w.sw.split_times()[w.cur].nanoseconds() - ( w.cur < w.shown.size() ? w.shown[w.cur] : 0 ); SIM_CHECK( w.sw.split_times().size() == w.sw.split_names().size(), "wrong-size", "the stopwatch has %zu times and %zu names", w.sw.split_times().size(), w.sw.split_names().size() );
				if ( oom ) probe( "split_without_memory" );
				else { Span d{ a - w.last.hi, b - w.last.lo }; if ( w.cur >= w.times.size() ) { w.times.push_back( d ); w.names.push_back( name ); } else { w.times[w.cur].lo += d.lo; w.times[w.cur].hi += d.hi; probe( "second_lap" ); } ++w.cur; w.last = next( "split", w.last, got, a, b ); }
				SIM_CHECK( w.sw.size() == w.times.size(), "wrong-size", "the stopwatch has %zu splits instead of %zu", w.sw.size(), w.times.size() );
				for ( size_t i = 0; i < w.times.size(); ++i ) { long v = (long)w.sw.split_times()[i].nanoseconds(); SIM_CHECK( v >= w.times[i].lo && v <= w.times[i].hi, "wrong-time", "split %zu took %ld ns instead of %ld to %ld ns", i, v, (long)w.times[i].lo, (long)w.times[i].hi ); SIM_CHECK( w.sw.split_names()[i] == w.names[i], "wrong-name", "split %zu is called %s", i, w.sw.split_names()[i].c_str() ); }
				w.shown.clear(); for ( auto& x : w.sw.split_times() ) w.shown.push_back( x.nanoseconds() );
			}
			else if ( o.k == "sw_restart" ) { w.sw.restart(); w.last = { a, now() }; w.cur = 0; }
			else if ( o.k == "sw_clear" ) { w.sw.clear(); w.last = { a, now() }; w.cur = 0; Quiet q; w.times.clear(); w.names.clear(); w.shown.clear(); }
			else if ( o.k == "sw_copy" ) { xo::stopwatch c = w.sw; w.sw = c; }
			else if ( o.k == "sw_report" ) {
				int before = xo::to_str_precision(); bool oom = false; std::unique_ptr<xo::prop_node> pn;
				{ AllocFaults f( nm / 4 ); try { pn = std::make_unique<xo::prop_node>( w.sw.get_report( (int)o.b + 6 ) ); } catch ( std::bad_alloc& ) { oom = true; } }
				SIM_CHECK( xo::to_str_precision() == before, "precision", "a stopwatch report changed the number of digits of this thread from %d to %d", before, xo::to_str_precision() );
				if ( oom ) { probe( "report_without_memory" ); return; }
				Quiet q; SIM_CHECK( pn->size() == w.times.size() + 1, "wrong-size", "the report has %zu lines instead of %zu", pn->size(), w.times.size() + 1 );
				double lo = 0, hi = 0, tol; size_t i = 0;
				for ( auto& c : *pn ) {
					double v = parse_time( c.second.get_str(), tol ); bool tot = i == w.times.size();
					double l = tot ? lo : w.times[i].lo * 1e-9, h = tot ? hi : w.times[i].hi * 1e-9; lo += l; hi += h;
					SIM_CHECK( c.first == ( tot ? "TOTAL" : w.names[i].c_str() ), "wrong-name", "line %zu of the report is called %s", i, c.first.c_str() );
					SIM_CHECK( v >= l - tol && v <= h + tol, "wrong-time", "the report says %s = %s instead of %.6f to %.6f s", c.first.c_str(), c.second.get_str().c_str(), l, h ); ++i;
				}
				probe( "report" );
			}
			else if ( o.k == "scope" ) {	// logs its time when it is left, also by an exception
				const char* names[] = { "load", "a", "step 100%", "x{}y" }; const char* name = names[o.a % 4]; auto l = o.a & 1 ? xo::log::level::warning : xo::log::level::info; int64_t c, d, e; ScopeSink sink;
				try { c = now(); xo::scope_timer timer( name, l ); d = now(); { Quiet q; advance( o.b ); } e = now(); if ( o.a >= 8 ) throw std::runtime_error( "left" ); }
				catch ( std::runtime_error& ) { probe( "left_by_exception" ); }
				int64_t f = now(); Quiet q; SIM_CHECK( sink.text.size() == 1 && sink.level == (int)l, "wrong-message", "a scope timer logged %zu messages", sink.text.size() );
				std::string head = std::string( name ) + " took ", s = sink.text[0]; bool ok = s.compare( 0, head.size(), head ) == 0 && s.size() > head.size() + 2 && s.substr( s.size() - 2 ) == "ms"; double v = ok ? strtod( s.c_str() + head.size(), nullptr ) : -1;
				SIM_CHECK( ok && v >= ( e - d ) * 1e-6 - 0.0051 && v <= ( f - c ) * 1e-6 + 0.0051, "wrong-message", "a scope of %g to %g ms is logged as '%s'", ( e - d ) * 1e-6, ( f - c ) * 1e-6, s.c_str() );
			}
			else if ( o.k == "interval" ) {
				{ Quiet q; advance( o.b ); } int k = (int)o.a; xo::time v = w.ic_timer(); bool due = w.ic[k]->check( v );
				Quiet q; int64_t b = mono_ns(); long n = (long)v.nanoseconds(); SIM_CHECK( n >= a + o.b - w.ic_epoch.hi && n <= b - w.ic_epoch.lo, "wrong-time", "timer returned %ld ns", n );
				SIM_CHECK( due == ( n - w.ic_prev[k] >= w.ic_len[k] ), "interval", "an interval of %ld ns is %s after %ld ns", (long)w.ic_len[k], due ? "over" : "not over", (long)( n - w.ic_prev[k] ) ); if ( due ) w.ic_prev[k] = n; probe( due ? "interval_due" : "interval_not_due" );
			}
		} );
		faults_on( false );
	}
	Register r17( "C17.timers", gen, run, 1 );

	// ---- C20 ----
	const char* labels[] = { "alpha", "beta", "gamma", "delta" };
	void gen20( Rng& r, Plan& p )
	{
		p.cfg["tick"] = r.chance( 0.6 ) ? 0 : r.range( 1, 30 ); if ( r.chance( 0.25 ) ) p.cfg["nomem"] = r.range( 20, 300 );
		int nth = r.chance( 0.8 ) ? 1 : 2;
		for ( int t = 1; t <= nth; ++t ) {
			int sessions = r.chance( 0.8 ) ? 1 : 2;
			for ( int s = 0; s < sessions; ++s ) {
				if ( r.chance( 0.15 ) ) { p.add( t, "begin", r.below( 4 ) ); p.add( t, "end" ); }	// not enabled
				p.add( t, "start", r.below( 2 ) ); int depth = 0, n = (int)( nth == 1 && r.chance( 0.04 ) ? r.range( 60, 300 ) : r.range( 2, nth > 1 ? 10 : 30 ) );
				for ( int i = 0; i < n; ++i ) {
					int k = (int)r.below( 10 );
					if ( k < 4 ) { p.add( t, "begin", r.below( 4 ), r.below( 3 ) ); ++depth; }
					else if ( k < 7 && depth ) { p.add( t, "end" ); --depth; }
					else if ( k == 7 ) p.add( t, "jump", r.pick<long>( { -1, 1 } ) * some_ns( r ) );
					else p.add( t, "work", r.chance( 0.8 ) ? r.range( 0, 5000 ) * MS : r.range( 0, 999 ) );
				}
				while ( depth-- ) { p.add( t, "end" ); if ( r.chance( 0.3 ) ) p.add( t, "work", r.range( 0, 500 ) * MS ); }
				p.add( t, "report", r.below( 3 ), r.below( 2 ) );
			}
		}
	}
	struct Sec { std::string name; int parent; Span total, open; long count = 0; };
	struct Prof {
		xo::profiler p; std::vector<std::unique_ptr<xo::scoped_profiler_section>> scopes; std::vector<Sec> s; std::vector<int> stack; bool on = false;
	};
	double field( const char*& c ) { while ( *c == ' ' || *c == '%' || *c == '(' || *c == ')' || *c == '~' || *c == 'm' || *c == 's' || *c == 'n' ) ++c; char* e; double v = strtod( c, &e ); c = e; return v; }
	void check_section( Prof& w, const std::string& key, const xo::prop_node& pn, int i, double min_perc, bool tag, Span excl_all )
	{
		auto& s = w.s[i]; auto& root = w.s[0]; std::string k = key; if ( tag ) { SIM_CHECK( k.size() > 2 && k[0] == '@', "wrong-name", "section %s has no log level", k.c_str() ); k = k.substr( 2 ); }
		SIM_CHECK( k == s.name, "wrong-name", "section %s is called %s", s.name.c_str(), k.c_str() );
		Span ex = s.total; for ( auto& c : w.s ) if ( &c != &root && c.parent == i ) { ex.lo -= c.total.hi; ex.hi -= c.total.lo; }
		const char* c = pn.get_str().c_str(); double ms = field( c ), perc = field( c ), exp = field( c ); double cnt = field( c );
		SIM_CHECK( ms >= s.total.lo * 1e-6 - 0.51 && ms <= s.total.hi * 1e-6 + 0.51, "wrong-time", "section %s took %.0f ms instead of %.3f to %.3f", k.c_str(), ms, s.total.lo * 1e-6, s.total.hi * 1e-6 );
		SIM_CHECK( cnt == s.count, "wrong-count", "section %s was entered %.0f times instead of %ld", k.c_str(), cnt, s.count );
		double avg = field( c ), al = std::min( 999999.0, 1.0 * ex.lo / s.count ), ah = std::min( 999999.0, 1.0 * ex.hi / s.count ); SIM_CHECK( avg >= al - 0.51 && avg <= ah + 0.51, "wrong-average", "section %s itself took %.0f ns on average instead of %.1f to %.1f", k.c_str(), avg, al, ah );
		if ( root.total.lo > 0 ) {
			double l = 100.0 * s.total.lo / root.total.hi, h = 100.0 * s.total.hi / root.total.lo; SIM_CHECK( perc >= l - 0.006 && perc <= h + 0.006, "wrong-share", "section %s took %.2f%% of the time instead of %.4f to %.4f", k.c_str(), perc, l, h );
			l = std::min( 100.0 * ex.lo / root.total.hi, 100.0 * ex.lo / root.total.lo ); h = std::max( 100.0 * ex.hi / root.total.hi, 100.0 * ex.hi / root.total.lo ); auto lev = []( double x ) { return x < 1 ? '2' : x < 5 ? '3' : x < 15 ? '4' : '5'; }; if ( tag ) SIM_CHECK( key[1] >= lev( l - 1e-6 ) && key[1] <= lev( h + 1e-6 ), "wrong-level", "section %s with %.4f to %.4f%% of the time has log level %c", k.c_str(), l, h, key[1] );
			SIM_CHECK( exp >= l - 0.006 && exp <= h + 0.006, "wrong-share", "section %s itself took %.2f%% of the time instead of %.4f to %.4f", k.c_str(), exp, l, h );
			// children
			double pl = 100.0 * s.total.lo / root.total.hi, ph = 100.0 * s.total.hi / root.total.lo; std::vector<int> ch; for ( size_t j = 1; j < w.s.size(); ++j ) if ( w.s[j].parent == i ) ch.push_back( (int)j );
			if ( ph < min_perc ) SIM_CHECK( pn.size() == 0, "wrong-report", "section %s shows sections below %.1f%%", k.c_str(), min_perc );
			else if ( pl >= min_perc ) {
				SIM_CHECK( pn.size() == ch.size(), "wrong-report", "section %s has %zu sections in the report instead of %zu", k.c_str(), pn.size(), ch.size() ); double prev = 1e300;
				for ( auto& kv : pn ) {
					std::string n = tag ? kv.first.substr( std::min<size_t>( 2, kv.first.size() ) ) : std::string( kv.first ); int f = -1; for ( int j : ch ) if ( w.s[j].name == n ) f = j;
					SIM_CHECK( f >= 0, "wrong-report", "section %s is reported inside %s", n.c_str(), k.c_str() );
					SIM_CHECK( w.s[f].total.lo <= prev, "wrong-order", "section %s is reported after a shorter one", n.c_str() ); prev = (double)w.s[f].total.hi; check_section( w, kv.first, kv.second, f, min_perc, tag, ex );
				}
			}
		}
	}
	void run20( const Plan& p, int )
	{
		set_clock_tick( p.get( "tick" ) ); std::vector<Prof>* ws; { Quiet q; ws = new std::vector<Prof>( 3 ); } faults_on( true ); double nm = pct( p.get( "nomem" ) );
		run_threads( p, [&]( const Op& o ) {
			Prof& w = ( *ws )[o.t]; int64_t a = now();
			if ( o.k == "start" ) { if ( w.on ) return; w.p.start( o.a ? "TOTAL" : "main" ); int64_t b = now(); Quiet q; w.s.clear(); w.s.push_back( { o.a ? "TOTAL" : "main", -1, {}, { a, b } } ); w.stack = { 0 }; w.on = true; SIM_CHECK( w.p.enabled(), "wrong-state", "the profiler is not enabled" ); }
			else if ( o.k == "begin" ) {
				std::unique_ptr<xo::scoped_profiler_section> s; bool oom = false; void* mem; { Quiet q; mem = operator new( sizeof( xo::scoped_profiler_section ) ); }
				{ AllocFaults f( nm ); try { s.reset( new ( mem ) xo::scoped_profiler_section( labels[o.a % 4], w.p ) ); } catch ( std::bad_alloc& ) { oom = true; } }
				int64_t b = now(); Quiet q;
				if ( oom ) { operator delete( mem ); probe( "section_without_memory" ); w.scopes.push_back( nullptr ); if ( w.on ) w.stack.push_back( -1 ); return; }
				w.scopes.push_back( std::move( s ) ); if ( !w.on ) return;
				int par = -1; for ( int j : w.stack ) if ( j >= 0 ) par = j; int f = -1; for ( size_t j = 1; j < w.s.size(); ++j ) if ( w.s[j].parent == par && w.s[j].name == labels[o.a % 4] ) f = (int)j;
				if ( f < 0 ) { f = (int)w.s.size(); w.s.push_back( { labels[o.a % 4], par } ); } else probe( "section_again" ); w.s[f].open = { a, b }; w.stack.push_back( f ); probe( "sections" );
			}
			else if ( o.k == "end" ) {
				if ( w.scopes.empty() ) return; if ( w.scopes.back() ) { w.scopes.back()->~scoped_profiler_section(); } int64_t b = now(); Quiet q; operator delete( (void*)w.scopes.back().release() ); w.scopes.pop_back();
				if ( !w.on || w.stack.size() < 2 ) return; int f = w.stack.back(); w.stack.pop_back(); if ( f < 0 ) return; auto& s = w.s[f]; s.total.lo += a - s.open.hi; s.total.hi += b - s.open.lo; s.count++;
			}
			else if ( o.k == "work" ) { Quiet q; advance( o.a ); }
			else if ( o.k == "jump" ) { Quiet q; jump_realtime( o.a ); probe( "clock_jump" ); }
			else if ( o.k == "report" ) {
				if ( !w.on || w.stack.size() != 1 ) return; double minp = o.a == 0 ? 0.5 : o.a == 1 ? 0 : 10; auto pn = w.p.report( minp, o.b != 0 ); int64_t b = now();
				auto pn2 = w.p.report( minp, o.b != 0 ); SIM_CHECK( pn == pn2, "wrong-report", "two reports of the same session differ" ); SIM_CHECK( !w.p.enabled(), "wrong-state", "the profiler is enabled after a report" );
				Quiet q; auto& s = w.s[0]; s.total = { a - s.open.hi, b - s.open.lo }; s.count = 1; w.on = false;
				SIM_CHECK( pn.size() == 1, "wrong-report", "the report has %zu roots", pn.size() ); check_section( w, pn.begin()->first, pn.begin()->second, 0, minp, o.b != 0, {} ); probe( "report" );
			}
		} );
		faults_on( false );
	}
	Register r20( "C20.profiler", gen20, run20, 1 );
}
