// C05/C06 file_resource_cache, C07 memoize_thread_safe, C08 stop_token and interruptible
#include <cstdarg>
#include <cstdio>
#include "scn.h"
#include "xo/utility/file_resource_cache.h"
#include "xo/utility/memoize.h"
#include "xo/thread/stop_token.h"
#include "xo/thread/interruptible.h"
#include "xo/filesystem/filesystem.h"
#include "xo/filesystem/path.h"
#include <chrono>
#include <memory>
#include <mutex>

using namespace sim;

namespace
{
	// ------------------------------------------------------------------------------------------------ C05, C06
	struct Res { int path = -1; int version = -1; int scratch = 0; std::string pad; };
	struct Wr { int path, version; int64_t at; uint64_t seq; bool gone; };
	struct Get { int path, version; int64_t s; uint64_t q0, q1; bool threw; std::string err; };
	struct CH { std::vector<Wr> w; std::vector<Get> g; std::map<int, int> loads, okloads, cur; int next_mtime = 1000; } *C;
	std::string cpath( int i ) { return "/work/res" + std::to_string( i ) + ".txt"; }

	void put_version( int path )
	{
		Quiet q;
		int v = (int)C->w.size();
		vfs_put( cpath( path ), "R" + std::to_string( path ) + ":" + std::to_string( v ) + ":" + std::string( 40, char( 'a' + v % 26 ) ) + ";" );
		vfs_set_mtime( cpath( path ), C->next_mtime += ( v % 3 == 2 ? -500 - v : 700 ) );	// always another time, not always a later one
		C->w.push_back( { path, v, mono_ns(), sim::seq(), false } ); C->cur[path] = v;
	}
	void gen_cache( Rng& r, Plan& p, bool faults )
	{
		bool many = r.chance( 0.05 ); int np = (int)( many ? r.range( 3, 60 ) : r.range( 1, 2 ) ), nth = (int)r.range( 1, many ? 1 : 3 );	// many: more files than a cache of a fixed size would hold
		p.cfg["paths"] = np; p.cfg["slow"] = r.chance( 0.5 ) ? r.range( 1, 5000 ) : 0;	// loading takes this many ms
		if ( faults ) {
			p.cfg["loadfail"] = r.chance( 0.6 ) ? r.range( 100, 700 ) : 0;
			if ( r.chance( 0.4 ) ) p.cfg["f.stat"] = r.range( 50, 500 );
			if ( r.chance( 0.4 ) ) p.cfg["f.open"] = r.range( 50, 500 );
			if ( r.chance( 0.2 ) ) p.cfg["alloc"] = r.range( 5, 60 );
			if ( r.chance( 0.3 ) ) p.cfg["odd"] = 1;	// throw something that is not a std::exception
		}
		for ( int t = 1; t <= nth; ++t ) {
			if ( many ) for ( int k = 0; k < 2; ++k ) for ( int i = 0; i < np; ++i ) p.add( t, "get", i );
			int n = (int)r.range( 2, 5 );
			for ( int i = 0; i < n; ++i ) {
				if ( r.chance( 0.5 ) ) p.add( t, "sleep", r.pick<long>( { 1, 500, 1500, 2900, 3500, 4500, 8000 } ) );
				p.add( t, "get", r.below( np ) );
			}
		}
		int n = (int)r.range( 1, 5 );
		for ( int i = 0; i < n; ++i ) {
			if ( r.chance( 0.6 ) ) p.add( nth + 1, "sleep", r.pick<long>( { 1, 900, 2500, 3200, 5000, 9000 } ) );
			if ( r.chance( 0.25 ) ) p.add( nth + 1, "jump", r.pick<long>( { -86400, -3600, -60, -5, 5, 3600 } ) );
			if ( faults && r.chance( 0.2 ) ) p.add( nth + 1, "remove", r.below( np ) );
			else p.add( nth + 1, "write", r.below( np ) );
		}
	}
	void run_cache( const Plan& p, bool faults )
	{
		{ Quiet q; C = new CH; }
		int np = (int)p.get( "paths", 1 ); int64_t slow = p.get( "slow" );
		for ( int i = 0; i < np; ++i ) put_version( i );
		using cache_t = xo::file_resource_cache<Res, xo::path>;
		struct odd_error {}; bool calm = false;
		auto cache = std::make_unique<cache_t>( [&]( const xo::path& f ) -> Res* {
			if ( faults && !calm && sim::fault( "load_error", pct( p.get( "loadfail" ) ) ) ) { if ( p.get( "odd" ) ) throw odd_error(); throw std::runtime_error( "bad file" ); }
			if ( slow ) std::this_thread::sleep_for( std::chrono::milliseconds( slow ) );
			auto s = xo::load_string( f );
			auto res = std::make_unique<Res>();
			Quiet q;
			int a = -1, b = -1; char c = 0;
			if ( sscanf( s.c_str(), "R%d:%d:%c", &a, &b, &c ) != 3 || s.back() != ';' ) fail( "harness", "loader read '%s'", s.c_str() );
			res->path = a; res->version = b; C->okloads[a]++;
			return res.release();
		} );
		set_faults( fault_cfg( p ) ); if ( faults ) faults_on( true );
		auto do_get = [&]( int path ) {
			Get g; g.path = path; g.threw = false; g.version = -1;
			{ Quiet q; g.s = mono_ns(); g.q0 = sim::seq(); }
			xo::path key( cpath( path ) );
			try {
				AllocFaults af( faults && !calm ? pct( p.get( "alloc" ) ) : 0 );
				auto r = ( *cache )( key );
				SIM_CHECK( r != nullptr, "null-resource", "the cache returned a null pointer" );
				SIM_CHECK( r->path == path, "wrong-resource", "asked for %s, got the contents of %s", cpath( path ).c_str(), cpath( r->path ).c_str() );
				SIM_CHECK( r->scratch == 0, "shared-resource", "the returned resource is shared with another caller" );
				r->scratch = 1; g.version = r->version;
			}
			catch ( std::exception& e ) { g.threw = true; Quiet q; g.err = e.what(); }
			catch ( odd_error& ) { g.threw = true; }
			Quiet q; g.q1 = sim::seq(); C->g.push_back( g );
		};
		run_threads( p, [&]( const Op& o ) {
			if ( o.k == "get" ) do_get( (int)( o.a % np ) );
			else if ( o.k == "sleep" ) std::this_thread::sleep_for( std::chrono::milliseconds( o.a ) );
			else if ( o.k == "jump" ) { Quiet q; jump_realtime( o.a * 1000000000ll ); }
			else if ( o.k == "write" ) { sim::point( "write" ); put_version( (int)( o.a % np ) ); }
			else if ( o.k == "remove" ) { sim::point( "remove" ); Quiet q; int pa = (int)( o.a % np ); vfs_remove( cpath( pa ) ); C->w.push_back( { pa, (int)C->w.size(), mono_ns(), sim::seq(), true } ); C->cur[pa] = -1; }
		} );
		faults_on( false );
		bool any_fault = faults_fired() > 0;
		size_t during = C->g.size();
		// faults have stopped: what is there must come back, once the check interval has passed
		for ( int i = 0; i < np; ++i ) if ( C->cur[i] < 0 ) put_version( i );
		{ Quiet q; advance( 5000000000ll ); }
		calm = true;
		for ( int i = 0; i < np; ++i ) {
			do_get( i );
			auto& g = C->g.back();
			SIM_CHECK( !g.threw, "no-recovery", "%s cannot be loaded although all faults have stopped: %s", cpath( i ).c_str(), g.err.c_str() );
			SIM_CHECK( g.version == C->cur[i], "stale-resource", "more than 3 s after the last change and all faults, the cache returns version %d of %s instead of %d", g.version, cpath( i ).c_str(), C->cur[i] );
		}
		Quiet q;
		for ( size_t k = 0; k < during; ++k ) {
			auto& g = C->g[k];
			if ( g.threw ) { SIM_CHECK( any_fault || std::any_of( C->w.begin(), C->w.end(), []( const Wr& w ) { return w.gone; } ), "throws", "loading %s failed without any fault: %s", cpath( g.path ).c_str(), g.err.c_str() ); probe( "get_failed" ); continue; }
			const Wr* w = nullptr; const Wr* next = nullptr;
			for ( auto& x : C->w ) if ( x.path == g.path ) { if ( x.version == g.version ) w = &x; else if ( w && !next ) next = &x; }
			SIM_CHECK( w, "wrong-resource", "version %d was never in %s", g.version, cpath( g.path ).c_str() );
			SIM_CHECK( w->seq < g.q1, "wrong-resource", "version %d was returned before it was written", g.version );
			bool failed_near = false;
			for ( auto& f : C->g ) if ( &f != &g && f.path == g.path && f.threw ) failed_near = failed_near || f.q0 < g.q1;
			if ( next && !failed_near ) {
				SIM_CHECK( next->at >= g.s - 4000000000ll, "stale-resource", "version %d of %s was returned %.1f s after it had been replaced", g.version, cpath( g.path ).c_str(), ( g.s - next->at ) * 1e-9 );
				if ( next->at < g.s ) probe( "stale_within_interval" );
			}
			for ( auto& o : C->g ) if ( o.path == g.path && !o.threw && o.q1 < g.q0 )
				SIM_CHECK( o.version <= g.version, "went-back", "version %d of %s was returned after version %d", g.version, cpath( g.path ).c_str(), o.version );
		}
		for ( int i = 0; i < np; ++i ) {
			int versions = 0; for ( auto& x : C->w ) if ( x.path == i && !x.gone ) ++versions;
			if ( !any_fault ) SIM_CHECK( C->okloads[i] <= versions, "loaded-again", "%s was loaded %d times although it only had %d versions", cpath( i ).c_str(), C->okloads[i], versions );
			if ( C->okloads[i] > 1 ) probe( "reloads", C->okloads[i] - 1 );
		}
	}
	void gen_c05( Rng& r, Plan& p ) { gen_cache( r, p, false ); }
	void gen_c06( Rng& r, Plan& p ) { gen_cache( r, p, true ); }
	void run_c05( const Plan& p, int ) { run_cache( p, false ); }
	void run_c06( const Plan& p, int ) { run_cache( p, true ); }
	Register r5( "C05.cache", gen_c05, run_c05 );
	Register r6( "C06.cachefault", gen_c06, run_c06 );

	// ------------------------------------------------------------------------------------------------ C07
	void gen_memo( Rng& r, Plan& p )
	{
		bool plain = r.chance( 0.15 ), many = r.chance( 0.04 ); int keys = (int)( many ? r.range( 20, 300 ) : r.range( 1, 4 ) ), nth = plain || many ? 1 : (int)r.range( 2, 3 );
		p.cfg["keys"] = keys; if ( plain ) p.cfg["plain"] = 1;
		if ( r.chance( 0.5 ) ) p.cfg["fail"] = r.range( 100, 600 );
		if ( r.chance( 0.2 ) ) p.cfg["odd"] = 1;
		if ( r.chance( 0.2 ) ) p.cfg["alloc"] = r.range( 5, 80 );
		for ( int t = 1; t <= nth; ++t ) { int n = (int)r.range( 1, plain ? 12 : 5 ); if ( many ) for ( int k = 0; k < 2; ++k ) for ( int i = 0; i < keys; ++i ) p.add( t, "call", i, k ); for ( int i = 0; i < n; ++i ) if ( plain && r.chance( 0.25 ) ) p.add( t, "sum", r.below( 12 ) ); else if ( r.chance( 0.12 ) ) p.add( t, "size" ); else p.add( t, "call", r.below( keys ), r.below( 2 ) ); }
	}
	// memoize without threads: the same function for any number of arguments, also when it calls itself
	void run_plain( const Plan& p )
	{
		std::map<std::pair<int, std::string>, const std::string*>* K; std::map<int, const long*>* M; { Quiet q; K = new std::map<std::pair<int, std::string>, const std::string*>; M = new std::map<int, const long*>; }
		bool calm = false, alloc = p.get( "alloc" ) != 0; int runs = 0, sums = 0; struct odd_error {};
		const char* names[] = { "a", "second-argument-that-is-longer-than-a-small-string" };
		auto value = []( int k, const std::string& s ) { return "value-of-a-key-" + std::to_string( k * 7 ) + s + "-long-enough-to-be-on-the-heap"; };
		auto fails = [&] { if ( calm || !sim::fault( "func_throws", pct( p.get( "fail" ) ) ) ) return; probe( "plain_failed" ); if ( p.get( "odd" ) ) throw odd_error(); throw std::runtime_error( "no value" ); };
		xo::memoize<std::string( int, const std::string& )> memo( [&]( int k, const std::string& s ) { fails(); Quiet q; ++runs; SIM_CHECK( alloc || !K->count( { k, s } ), "computed-twice", "key %d is computed again although it is already known", k ); return value( k, s ); } );
		xo::memoize<long( int )>* self = nullptr;	// the sum of 0 to k, each from the one before
		xo::memoize<long( int )> sum( [&]( int k ) -> long { fails(); if ( k == 0 ) return 0; long v = k + ( *self )( k - 1 ); fails(); Quiet q; ++sums; SIM_CHECK( alloc || !M->count( k ), "computed-twice", "sum %d is computed again although it is already known", k ); return v; } );
		self = &sum; faults_on( true );
		auto call = [&]( int k, const std::string& s ) -> bool {
			int before = runs;
			try {
				AllocFaults af( calm ? 0 : pct( p.get( "alloc" ) ) ); const std::string& v = memo( k, s ); Quiet q; SIM_CHECK( v == value( k, s ), "wrong-value", "key %d gives '%s'", k, v.c_str() );
				auto& e = ( *K )[{ k, s }]; SIM_CHECK( !e || ( e == &v && runs == before ), e == &v ? "computed-twice" : "moved-value", "key %d is returned at two addresses or computed again", k ); e = &v; return true;
			}
			catch ( std::exception& ) {} catch ( odd_error& ) {}
			Quiet q; SIM_CHECK( ( alloc && !calm ) || !K->count( { k, s } ), "lost", "key %d fails although it is already known", k ); return false;
		};
		auto add = [&]( int k ) -> bool {
			try {
				AllocFaults af( calm ? 0 : pct( p.get( "alloc" ) ) ); const long& v = sum( k ); Quiet q; SIM_CHECK( v == k * ( k + 1l ) / 2, "wrong-value", "the sum of %d is %ld", k, v );
				auto& e = ( *M )[k]; SIM_CHECK( !e || e == &v, "moved-value", "sum %d is returned at two addresses", k ); e = &v; return true;
			}
			catch ( std::exception& ) {} catch ( odd_error& ) {}
			Quiet q; SIM_CHECK( ( alloc && !calm ) || !M->count( k ), "lost", "sum %d fails although it is already known", k ); return false;
		};
		int last = -1; std::set<std::pair<int, std::string>> all;
		run_threads( p, [&]( const Op& o ) {
			if ( o.k == "call" ) { std::string s; { Quiet q; s = names[o.b % 2]; all.insert( { (int)o.a, s } ); } call( (int)o.a, s ); }
			else if ( o.k == "sum" ) { last = std::max( last, (int)o.a ); add( (int)o.a ); }
			else { size_t n = memo.size(); Quiet q; SIM_CHECK( alloc ? n >= K->size() && n <= all.size() : n == K->size(), "wrong-size", "size() is %zu after %zu keys were computed", n, K->size() ); }
		} );
		calm = true; alloc = false;
		{ FaultsOff fo; for ( auto& k : all ) { bool known = K->count( k ); int before = runs; SIM_CHECK( call( k.first, k.second ), "no-recovery", "key %d still fails after the function recovered", k.first ); SIM_CHECK( !known || runs == before, "computed-twice", "key %d is computed again although it is already known", k.first ); }
		if ( last >= 0 ) { SIM_CHECK( add( last ), "no-recovery", "sum %d still fails after the function recovered", last ); SIM_CHECK( sum.size() == size_t( last + 1 ), "wrong-size", "%zu sums are known instead of %d", sum.size(), last + 1 ); probe( "plain_recursion" ); } }
		SIM_CHECK( memo.size() == all.size(), "wrong-size", "size() is %zu after %zu keys were computed", memo.size(), all.size() );
		for ( auto& k : *K ) { Quiet q; SIM_CHECK( *k.second == value( k.first.first, k.first.second ), "moved-value", "an earlier reference to key %d no longer holds its value", k.first.first ); }
		probe( "plain" );
	}
	void run_memo( const Plan& p, int )
	{
		if ( p.get( "plain" ) ) return run_plain( p );
		struct Key { int running = 0, done = 0, failed = 0; const std::string* ref = nullptr; };
		struct Call { int key; uint64_t s, e; bool ok; };
		struct Size { uint64_t s, e; size_t n; };
		std::map<std::pair<int, std::string>, Key>* K; std::vector<Call>* calls; std::vector<Size>* sizes; std::vector<std::pair<uint64_t, int>>* done_at;
		{ Quiet q; K = new std::map<std::pair<int, std::string>, Key>; calls = new std::vector<Call>; sizes = new std::vector<Size>; done_at = new std::vector<std::pair<uint64_t, int>>; }
		struct odd_error {};
		bool calm = false, alloc = p.get( "alloc" ) != 0;	// when memory runs out after a value was computed, it may be computed again
		faults_on( true );
		auto value = []( int k, const std::string& s ) { return "value-of-a-key-" + std::to_string( k * 7 ) + s + "-long-enough-to-be-on-the-heap"; };
		auto memo = std::make_unique<xo::memoize_thread_safe<std::string( int, std::string )>>( [&]( int k, std::string s ) -> std::string {
			Key* e; { Quiet q; e = &( *K )[{ k, s }]; SIM_CHECK( e->running == 0, "computed-twice", "two threads compute key %d at the same time", k ); SIM_CHECK( e->done == 0 || ( alloc && !e->ref ), "computed-twice", "key %d is computed again although it is already known", k ); e->running++; }
			sim::point( "func" );
			if ( !calm && sim::fault( "func_throws", pct( p.get( "fail" ) ) ) ) {
				{ Quiet q; e->running--; e->failed++; }
				if ( p.get( "odd" ) ) throw odd_error();
				throw std::runtime_error( "no value" );
			}
			sim::point( "func" );
			std::string r;
			{ Quiet q; r = value( k, s ); e->running--; e->done++; done_at->push_back( { sim::seq(), k } ); }
			return r;
		} );
		auto call = [&]( int k, const std::string& s ) {
			Call c; c.key = k; c.ok = false; { Quiet q; c.s = sim::seq(); }
			try {
				AllocFaults af( calm ? 0 : pct( p.get( "alloc" ) ) );
				const std::string& v = ( *memo )( k, s );
				Quiet q;
				SIM_CHECK( v == value( k, s ), "wrong-value", "key %d gives '%s'", k, v.c_str() );
				auto& e = ( *K )[{ k, s }];
				SIM_CHECK( !e.ref || e.ref == &v, "moved-value", "key %d is returned at two addresses", k );
				e.ref = &v; c.ok = true;
			}
			catch ( std::exception& e ) { }
			catch ( odd_error& ) { }
			Quiet q; c.e = sim::seq(); calls->push_back( c );
		};
		const char* names[] = { "a", "second-argument-that-is-longer-than-a-small-string" };
		run_threads( p, [&]( const Op& o ) {
			if ( o.k == "call" ) call( (int)o.a, names[o.b % 2] );
			else { Size z; { Quiet q; z.s = sim::seq(); } z.n = memo->size(); Quiet q; z.e = sim::seq(); sizes->push_back( z ); }
		} );
		calm = true;
		// every key works once the function stops failing, and references handed out earlier still hold
		std::set<std::pair<int, std::string>> all;
		{ Quiet q; for ( auto& o : p.ops ) if ( o.k == "call" ) all.insert( { (int)o.a, names[o.b % 2] } ); }
		for ( auto& k : all ) { call( k.first, k.second ); SIM_CHECK( calls->back().ok, "no-recovery", "key %d still fails after the function recovered", k.first ); }
		for ( auto& k : *K ) { Quiet q; SIM_CHECK( !k.second.ref || *k.second.ref == value( k.first.first, k.first.second ), "moved-value", "an earlier reference to key %d no longer holds its value", k.first.first ); }
		SIM_CHECK( memo->size() == all.size(), "wrong-size", "size() is %zu after %zu keys were computed", memo->size(), all.size() );
		Quiet q;
		for ( auto& z : *sizes ) {
			size_t lo = 0, hi = 0; std::set<int> seen;
			for ( auto& d : *done_at ) { if ( d.first < z.e ) ++hi; }
			(void)lo; SIM_CHECK( z.n <= hi, "wrong-size", "size() was %zu when only %zu keys had been computed", z.n, hi );
		}
	}
	Register r7( "C07.memoize", gen_memo, run_memo );

	// ------------------------------------------------------------------------------------------------ C08
	struct my_task : public xo::interruptible { int id = 0; };
	void gen_stop( Rng& r, Plan& p )
	{
		int ns = (int)r.range( 1, 2 ), nw = (int)r.range( 1, 3 ), nc = (int)r.range( 1, 2 );
		p.cfg["sources"] = ns; p.cfg["drop"] = r.chance( 0.5 );	// the source object is destroyed while tokens live on
		p.cfg["late"] = r.chance( 0.4 );	// tokens are only taken when they are needed
		p.cfg["copysrc"] = r.chance( 0.4 );	// requests go through a copy of the source
		for ( int t = 1; t <= nw; ++t ) { p.add( t, r.chance( 0.5 ) ? "wait" : "poll", r.below( ns ), r.range( 1, 6 ), r.below( 2 ) ); if ( r.chance( 0.5 ) ) p.add( t, "poll", r.below( ns ), r.range( 1, 4 ), r.below( 2 ) ); }
		for ( int t = 0; t < nc; ++t ) for ( int i = 0; i < ns; ++i ) if ( t == 0 || r.chance( 0.5 ) ) { if ( r.chance( 0.5 ) ) p.add( nw + 1 + t, "spin", r.range( 1, 5 ) ); p.add( nw + 1 + t, r.chance( 0.5 ) ? "stop" : "interrupt", i ); p.add( nw + 1 + t, r.chance( 0.5 ) ? "interrupt" : "stop", i ); p.add( nw + 1 + t, "stop", i ); p.add( nw + 1 + t, "interrupt", i ); }
	}
	void run_stop( const Plan& p, int )
	{
		int ns = (int)p.get( "sources", 1 );
		struct Q { int key; uint64_t s, e; bool r; }; struct R { int key; uint64_t s, e; };
		std::vector<Q>* qs; std::vector<R>* rs; { Quiet q; qs = new std::vector<Q>; rs = new std::vector<R>; }
		std::vector<std::shared_ptr<xo::stop_source>> src; std::vector<std::shared_ptr<my_task>> task; std::vector<xo::stop_token> tok;
		for ( int i = 0; i < ns; ++i ) { src.push_back( std::make_shared<xo::stop_source>() ); task.push_back( std::make_shared<my_task>() ); tok.push_back( p.get( "late" ) ? xo::stop_token() : src[i]->get_token() ); }
		auto token = [&]( int i ) { return p.get( "late" ) ? src[i]->get_token() : tok[i]; };
		xo::stop_token none; SIM_CHECK( !none.stop_possible() && !none.stop_requested(), "empty-token", "a default token can be stopped" );
		for ( auto& x : src ) SIM_CHECK( x->stop_possible() && !x->stop_requested(), "stop-invented", "a new source says that it cannot be stopped or has been stopped" );
		bool asked[4] = {};	// sources that some op will stop
		bool reported[2] = {};	// request_stop() said that it stopped it
		for ( auto& o : p.ops ) { if ( o.k == "stop" ) asked[o.a % ns] = true; if ( o.k == "interrupt" ) asked[2 + o.a % ns] = true; }
		auto query = [&]( int i, bool intr, const xo::stop_token& t, int way = 0 ) {	// way: through which kind of copy
			Q x; x.key = intr ? 2 + i : i; { Quiet q; x.s = sim::seq(); }
			if ( intr ) {
				my_task other; if ( way == 3 ) other.interrupt();
				if ( way == 1 ) { my_task copy = *task[i]; x.r = copy.test_interrupt_flag(); }
				else if ( way == 2 || way == 3 ) { other = *task[i]; x.r = other.test_interrupt_flag(); }
				else if ( way == 4 ) { my_task copy = *task[i]; copy.interrupt(); SIM_CHECK( copy.test_interrupt_flag(), "stop-lost", "an interrupted copy does not say so" ); x.r = task[i]->test_interrupt_flag(); }
				else x.r = task[i]->test_interrupt_flag();
			}
			else {
				xo::stop_token other = t; xo::stop_source fresh; xo::stop_token first = fresh.get_token();
				if ( way == 1 ) { other = first; SIM_CHECK( !other.stop_requested(), "stop-invented", "a token of a new source says it was stopped" ); other = t; x.r = other.stop_requested(); }
				else if ( way == 2 ) { xo::stop_token moved = std::move( other ); x.r = moved.stop_requested(); SIM_CHECK( moved.stop_possible(), "empty-token", "a moved token cannot be stopped" ); }
				else if ( way == 3 ) { fresh.request_stop(); SIM_CHECK( first.stop_requested() && fresh.get_token().stop_requested(), "stop-lost", "a source that was stopped at once does not say so" ); fresh = *src[i]; SIM_CHECK( first.stop_requested(), "stop-lost", "a seen request is gone after its source was assigned another one" ); x.r = fresh.get_token().stop_requested(); }
				else if ( way == 4 ) { fresh = *src[i]; x.r = fresh.stop_requested(); SIM_CHECK( !first.stop_requested(), "stop-invented", "a token shows the requests of a source that was assigned to its own" ); }
				else x.r = t.stop_requested();
			}
			Quiet q; x.e = sim::seq(); qs->push_back( x ); return x.r;
		};
		run_threads( p, [&]( const Op& o ) {
			int i = (int)( o.a % ns ); bool intr = o.c != 0;
			if ( o.k == "wait" ) {
				if ( !asked[intr ? 2 + i : i] ) return;
				xo::stop_token mine = token( i );
				while ( !query( i, intr, mine ) ) std::this_thread::yield();
			}
			else if ( o.k == "poll" ) { xo::stop_token mine = token( i ); for ( long k = 0; k < o.b; ++k ) { query( i, intr, mine, (int)( ( o.b + k ) % 5 ) ); sim::point( "poll" ); } SIM_CHECK( mine.stop_possible(), "empty-token", "a token of a source says it cannot be stopped" ); }
			else if ( o.k == "spin" ) { for ( long k = 0; k < o.a; ++k ) sim::point( "spin" ); }
			else {
				R x; x.key = o.k == "stop" ? i : 2 + i; { Quiet q; x.s = sim::seq(); }
				if ( o.k == "stop" ) { bool r; if ( p.get( "copysrc" ) ) { xo::stop_source copy = *src[i]; r = copy.request_stop(); } else r = src[i]->request_stop(); if ( r ) { Quiet q; reported[i] = true; } SIM_CHECK( src[i]->stop_requested(), "stop-lost", "stop_requested() is false right after request_stop()" ); }
				else task[i]->interrupt();
				Quiet q; x.e = sim::seq(); rs->push_back( x );
			}
		} );
		for ( int i = 0; i < ns; ++i ) SIM_CHECK( reported[i] == asked[i], "stop-lost", "no call of request_stop() says that it stopped source %d", i );
		if ( p.get( "late" ) ) for ( int i = 0; i < ns; ++i ) tok[i] = src[i]->get_token();
		if ( p.get( "drop" ) ) src.clear();
		for ( int i = 0; i < ns; ++i ) SIM_CHECK( tok[i].stop_requested() == asked[i], "stop-lost", "token %d says %d after all threads ended", i, (int)tok[i].stop_requested() );
		Quiet q;
		for ( auto& x : *qs ) {
			bool must = false, may = false;
			for ( auto& r : *rs ) if ( r.key == x.key ) { if ( r.e < x.s ) must = true; if ( r.s < x.e ) may = true; }
			for ( auto& y : *qs ) if ( y.key == x.key && y.r && y.e < x.s ) must = true;	// never taken back
			SIM_CHECK( !must || x.r, "stop-lost", "a %s request that was complete (or already seen) is not seen", x.key < 2 ? "stop" : "interrupt" );
			SIM_CHECK( may || !x.r, "stop-invented", "a %s is seen that nobody requested", x.key < 2 ? "stop" : "interrupt" );
			if ( must ) probe( "seen_after" ); if ( !may ) probe( "asked_before" );
		}
	}
	Register r8( "C08.stop", gen_stop, run_stop );
}
