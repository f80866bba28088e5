// C18 test runner
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <atomic>
#include <mutex>
#include <memory>
#include <stdexcept>
#include "scn.h"
#include "xo/system/test_case.h"
#include "xo/system/log.h"
#include "xo/system/log_sink.h"

using namespace sim;

namespace
{
	enum { PLAIN, THROWS, DERIVED, CHECK_THROWS, MESSAGE, SLEEPS, NKIND, NON_STD, EMPTY_WHAT };
	struct Line { int level; std::string text; };
	std::vector<Line>* lines;
	struct rec_sink : public xo::log::sink {
		rec_sink() : xo::log::sink( xo::log::level::trace, {} ) {}
		void hande_log_message( xo::log::level l, const xo::string& msg ) override { { Quiet q; lines->push_back( { (int)l, msg } ); } sim::point( "sink" ); }
	};
	struct Test { std::string name; long pass, fails, kind; int runs = 0; bool done = false; };
	std::mutex* shared_mutex; long shared_count;
	struct my_error : public std::exception { std::string s; my_error( std::string t ) : s( t ) {} const char* what() const noexcept override { return s.c_str(); } };
	bool throw_inner() { throw std::runtime_error( "inner" ); }
	void body( Test& t, xo::test::test_case& XO_ACTIVE_TEST_CASE )
	{
		{ Quiet q; ++t.runs; }
		long p = t.pass, f = t.fails;
		while ( p + f > 0 ) {
			if ( ( ( p + f ) % 2 && p ) || !f ) { --p; XO_CHECK( t.pass >= 0 ); }
			else { --f; if ( t.kind == MESSAGE ) { XO_CHECK_MESSAGE( t.pass < 0, "number " + std::to_string( f ) ); } else if ( t.kind == CHECK_THROWS ) { XO_CHECK( throw_inner() ); } else { XO_CHECK( t.pass < 0 ); } }
			{ auto l = std::scoped_lock( *shared_mutex ); ++shared_count; }
			if ( t.kind == SLEEPS ) std::this_thread::sleep_for( std::chrono::milliseconds( 1 ) );
		}
		xo::log::trace( "inside ", t.name );
		{ Quiet q; t.done = true; }
		if ( t.kind == THROWS ) throw std::runtime_error( "boom " + t.name );
		if ( t.kind == DERIVED ) throw my_error( "bang " + t.name );
		if ( t.kind == NON_STD ) throw 42;
		if ( t.kind == EMPTY_WHAT ) throw my_error( "" );
	}
	void gen( Rng& r, Plan& p )
	{
		int n = (int)r.range( 0, 9 ); p.cfg["async"] = r.chance( 0.8 ); if ( r.chance( 0.35 ) ) p.cfg["nothread"] = r.range( 50, 1000 ); p.cfg["quiet"] = r.chance( 0.15 );
		bool good = r.chance( 0.3 );
		for ( int i = 0; i < n; ++i ) { long k = r.chance( 0.5 ) ? PLAIN : (long)r.below( NKIND ); if ( good && ( k == THROWS || k == DERIVED ) ) k = PLAIN; p.add( -1, "test", r.chance( 0.04 ) ? r.range( 6, 200 ) : r.range( 0, 5 ), good || r.chance( 0.6 ) ? 0 : r.chance( 0.06 ) ? r.range( 5, 40 ) : r.range( 1, 4 ), k ); }
		if ( r.chance( 0.3 ) ) for ( int i = 0; i < 3; ++i ) p.add( 1, "log" );
	}
	int count( const std::string& a, const std::string& b ) { int n = 0; for ( auto& l : *lines ) if ( l.text.find( a ) != std::string::npos && l.text.find( b ) != std::string::npos ) ++n; return n; }
	bool has_number( const std::string& s, long v ) { for ( size_t i = 0; i < s.size(); ) { if ( isdigit( (unsigned char)s[i] ) ) { size_t e = i; while ( e < s.size() && isdigit( (unsigned char)s[e] ) ) ++e; if ( strtol( s.c_str() + i, nullptr, 10 ) == v && ( i == 0 || !isalpha( (unsigned char)s[i - 1] ) ) ) return true; i = e; } else ++i; } return false; }
	void run( const Plan& p, int )
	{
		std::vector<std::unique_ptr<Test>>* ts;
		{ Quiet q; lines = new std::vector<Line>; ts = new std::vector<std::unique_ptr<Test>>; shared_mutex = new std::mutex; shared_count = 0; int i = 0; for ( auto& o : p.ops ) if ( o.t < 0 ) { ts->push_back( std::make_unique<Test>( Test{ "tst" + std::string( 1, char( 'A' + i++ ) ) + "x", o.a, o.b, o.c } ) ); } }
		for ( auto& t : *ts ) { Test* x = t.get(); xo::test::add_test_case( x->name, [x]( xo::test::test_case& tc ) { body( *x, tc ); } ); }
		std::unique_ptr<rec_sink> sink; if ( !p.get( "quiet" ) ) sink = std::make_unique<rec_sink>();
				std::thread logger; bool log_ops = false; for ( auto& o : p.ops ) if ( o.t == 1 ) log_ops = true;
		if ( log_ops ) logger = std::thread( [] { for ( int i = 0; i < 3; ++i ) xo::log::info( "noise" ); } );
		set_thread_fail( pct( p.get( "nothread" ) ) );
		int failed = -1; std::string threw; long before = faults_fired();
		try { failed = p.get( "async" ) ? xo::test::run_tests_async() : xo::test::run_tests(); }
		catch ( std::exception& e ) { Quiet q; threw = std::string( "std::exception: " ) + e.what(); }
		catch ( int ) { Quiet q; threw = "something that is not a std::exception"; }
		set_thread_fail( 0 ); if ( faults_fired() > before ) probe( "no_thread" );
		if ( logger.joinable() ) logger.join();
		sink.reset();
		Quiet q;
		std::string ex; for ( auto& t : *ts ) if ( t->kind == NON_STD ) ex = " (" + t->name + " throws an int)";
		SIM_CHECK( threw.empty(), "run-ended", "a test ended the whole test run with %s%s", threw.c_str(), ex.c_str() );
		long want = 0, passed = 0, all = 0;
		for ( auto& t : *ts ) {
			SIM_CHECK( t->runs == 1 && t->done, "not-run", "test %s was run %d times%s", t->name.c_str(), t->runs, t->done ? "" : " and not completed" );
			bool bad = t->fails || t->kind == THROWS || t->kind == DERIVED || t->kind == NON_STD || t->kind == EMPTY_WHAT; want += bad; passed += t->pass; all += t->pass + t->fails;
		}
		std::string ew; for ( auto& t : *ts ) if ( t->kind == EMPTY_WHAT ) ew = " (" + t->name + " throws an exception without a message)";
		SIM_CHECK( failed == want, "wrong-result", "%d tests are reported as failed instead of %ld%s", failed, want, ew.c_str() );
		SIM_CHECK( shared_count == all, "not-run", "%ld checks ran instead of %ld", shared_count, all );
		if ( p.get( "quiet" ) ) return;
		for ( auto& t : *ts ) {
			auto& n = t->name; long checks = t->pass + t->fails; bool thrown = t->kind == THROWS || t->kind == DERIVED;
			SIM_CHECK( count( n, "inside" ) == 1, "lost-message", "the message of test %s was logged %d times", n.c_str(), count( n, "inside" ) );
			int each = 0, sum = 0; for ( auto& l : *lines ) if ( l.level >= 5 && l.text.find( n ) != std::string::npos ) { if ( l.text.find( " of " ) != std::string::npos ) ++sum; else if ( l.level == 5 ) ++each; }
			SIM_CHECK( each == t->fails, "wrong-report", "%d failed checks of test %s are reported instead of %ld", each, n.c_str(), t->fails );
			if ( thrown ) { SIM_CHECK( count( n, t->kind == THROWS ? "boom" : "bang" ) == 1, "wrong-report", "the exception of test %s is reported %d times", n.c_str(), count( n, t->kind == THROWS ? "boom" : "bang" ) ); continue; }
			if ( !t->fails ) {
				int c = 0; for ( auto& l : *lines ) if ( l.text.find( n ) != std::string::npos && ( l.level == 3 || l.level == 4 ) && l.text.find( "TRYING" ) == std::string::npos ) { ++c; if ( t->pass ) SIM_CHECK( has_number( l.text, t->pass ), "wrong-report", "test %s with %ld checks is reported as '%s'", n.c_str(), t->pass, l.text.c_str() ); else SIM_CHECK( l.level == 4, "wrong-report", "the empty test %s is reported as '%s'", n.c_str(), l.text.c_str() ); }
				SIM_CHECK( c == 1, "wrong-report", "the result of test %s is reported %d times", n.c_str(), c );
			}
			else if ( checks > 1 ) { SIM_CHECK( sum == 1, "wrong-report", "the failure of test %s is reported %d times", n.c_str(), sum ); for ( auto& l : *lines ) if ( l.text.find( n ) != std::string::npos && l.text.find( " of " ) != std::string::npos ) SIM_CHECK( has_number( l.text, t->fails ) && has_number( l.text, checks ), "wrong-report", "test %s failed %ld of %ld checks, but is reported as '%s'", n.c_str(), t->fails, checks, l.text.c_str() ); }
		}
		int total = 0; for ( auto& l : *lines ) {
			bool named = l.text == "noise"; for ( auto& t : *ts ) if ( l.text.find( t->name ) != std::string::npos ) named = true; if ( named ) continue;
			++total; SIM_CHECK( has_number( l.text, (long)ts->size() ) && has_number( l.text, want ? want : passed ) && ( l.level >= 5 ) == ( want > 0 ), "wrong-report", "%ld of %zu tests failed with %ld passed checks, but the result is '%s'", want, ts->size(), passed, l.text.c_str() );
		}
		SIM_CHECK( total == 1, "wrong-report", "the result of all tests is reported %d times", total );
		probe( want ? "some_failed" : "all_clear" );
	}
	Register r18( "C18.tests", gen, run, 1 );
}
