// helpers shared by the scenario files (this header is compiled into instrumented code)
#pragma once
#include "rt.h"
#include <thread>
#include <vector>
#include <string>
#include <functional>
#include <algorithm>
#include <exception>
#include <set>
#include <map>

namespace sim
{
	// execute the ops of a plan: ops with t==0 on the main thread, others on one thread each
	template< class F > void run_threads( const Plan& p, F f )
	{
		int n = 0;
		for ( auto& o : p.ops ) if ( o.t > n ) n = o.t;
		std::vector<std::thread> th;
		th.reserve( n );
		for ( int i = 1; i <= n; ++i )
			th.emplace_back( [&p, &f, i] { for ( auto& o : p.ops ) if ( o.t == i ) f( o ); } );
		for ( auto& o : p.ops ) if ( o.t == 0 ) f( o );
		for ( auto& t : th ) t.join();
	}
	inline std::string fmt( const char* f, ... ) __attribute__( ( format( printf, 1, 2 ) ) );
	inline std::string fmt( const char* f, ... ) { char b[2048]; va_list va; va_start( va, f ); vsnprintf( b, sizeof b, f, va ); va_end( va ); return b; }
	inline double pct( long v ) { return v / 1000.0; }	// cfg probabilities are stored in per mille
	inline FaultCfg fault_cfg( const Plan& p )
	{
		FaultCfg f;
		f.open_err = pct( p.get( "f.open" ) ); f.read_err = pct( p.get( "f.read" ) ); f.write_err = pct( p.get( "f.write" ) ); f.read_short = pct( p.get( "f.rshort" ) ); f.write_short = pct( p.get( "f.wshort" ) );
		f.eintr = pct( p.get( "f.eintr" ) ); f.close_err = pct( p.get( "f.close" ) ); f.mkdir_err = pct( p.get( "f.mkdir" ) ); f.stat_err = pct( p.get( "f.stat" ) ); f.readdir_shuffle = pct( p.get( "f.shuffle" ) );
		f.dtype_unknown = pct( p.get( "f.dtype" ) ); f.readdir_err = pct( p.get( "f.readdir" ) ); f.rename_err = pct( p.get( "f.rename" ) ); f.opendir_err = pct( p.get( "f.opendir" ) ); f.chmod_err = pct( p.get( "f.chmod" ) );
		f.readlink_err = pct( p.get( "f.readlink" ) ); f.host_err = pct( p.get( "f.host" ) ); f.cwd_err = pct( p.get( "f.cwd" ) ); f.sleep_intr = pct( p.get( "f.sleep" ) );
		f.disk_cap = p.get( "f.diskcap", -1 );
		return f;
	}
}
