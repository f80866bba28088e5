// xosim driver: runs seeds, replays and minimises. One forked process per run.
#include "rt.h"
#include "rt_int.h"
#include <ucontext.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <iomanip>
#include <locale>
#include <stdexcept>
#include <iostream>
#include <set>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <time.h>

using namespace sim;
typedef std::vector<std::vector<std::pair<uint32_t, uint16_t>>> RepV;

struct ChoiceRec { std::string tag; uint32_t occ; uint16_t val; };
struct Run { std::string scenario, cls, detail; uint64_t seed = 0, hash = 0; Plan plan; std::vector<ChoiceRec> choices; };
struct Outcome { std::string cls, detail; uint64_t hash = 0, sched = 0; bool error = false; std::vector<ChoiceRec> choices; };

static double now() { timespec ts; clock_gettime( CLOCK_MONOTONIC, &ts ); return ts.tv_sec + ts.tv_nsec * 1e-9; }
static const Scenario* find_scn( const std::string& n ) { for ( auto& s : scenarios() ) if ( n == s.name ) return &s; return nullptr; }
static uint64_t hstr( const std::string& s ) { uint64_t h = 1469598103934665603ull; for ( unsigned char c : s ) h = ( h ^ c ) * 1099511628211ull; return h; }
static uint64_t seed_of( uint64_t base, const std::string& scn, uint64_t i ) { return Rng::mix( base * 1000003 + hstr( scn ) + i * 0x9e3779b97f4a7c15ull ); }

static const Scenario* child_sc; static const Plan* child_plan; static const RunCfg* child_rc;
static void child_main()
{
	rt_begin( *child_rc );
	child_sc->run( *child_plan, child_rc->phase );
	rt_finish();
	_exit( 9 );
}
static void child( const Scenario& sc, const Plan& plan, const RunCfg& rc )
{
	int n = open( "/dev/null", O_RDWR );
	if ( !rc.verbose ) { dup2( n, 1 ); dup2( n, 2 ); }
	child_sc = &sc; child_plan = &plan; child_rc = &rc;
	static ucontext_t run, back;
	getcontext( &run ); run.uc_stack.ss_sp = rt_stack( 0 ); run.uc_stack.ss_size = STACK_SZ; run.uc_link = nullptr;
	makecontext( &run, child_main, 0 );
	swapcontext( &back, &run );
}

// returns false on an infrastructure error
static bool execute( const Scenario& sc, const Plan& plan, uint64_t seed, const std::vector<ChoiceRec>* replay, bool verbose )
{
	SH->status = 0; SH->nontrivial = 0; SH->cls[0] = SH->detail[0] = 0; SH->hash = 1469598103934665603ull; SH->schedhash = hstr( sc.name );
	SH->steps = SH->switches = SH->points = SH->ioops = 0; SH->simtime = 0; SH->maxthreads = 1; SH->nchoices = SH->choices_dropped = 0; SH->ntags = 0; SH->nfaults = SH->nprobes = 0; SH->peak_bytes = 0; SH->notes_len = SH->vfs_len = SH->trace_len = 0;
	RepV rep; std::vector<std::string> tags;
	if ( replay ) for ( auto& c : *replay ) {
		size_t i = 0; while ( i < tags.size() && tags[i] != c.tag ) ++i;
		if ( i == tags.size() ) { tags.push_back( c.tag ); rep.emplace_back(); }
		rep[i].push_back( { c.occ, c.val } );
	}
	for ( auto& r : rep ) std::sort( r.begin(), r.end() );
	for ( int phase = 0; phase < 4; ++phase ) {
		SH->status = 0;
		RunCfg rc{ seed, replay != nullptr, verbose, phase, &rep, &tags };
		fflush( stdout ); fflush( stderr );
		pid_t pid = fork();
		if ( pid < 0 ) return false;
		if ( pid == 0 ) { child( sc, plan, rc ); _exit( 9 ); }
		int st = 0;
		while ( waitpid( pid, &st, 0 ) < 0 ) if ( errno != EINTR ) return false;
		if ( WIFSIGNALED( st ) && SH->status == 0 ) {
			SH->status = 2; strcpy( SH->cls, WTERMSIG( st ) == SIGKILL ? "killed" : "crash" );
			snprintf( SH->detail, sizeof SH->detail, "process ended by signal %d", WTERMSIG( st ) );
			if ( WTERMSIG( st ) == SIGKILL ) return false;
		}
		else if ( SH->status == 0 ) { SH->status = 2; strcpy( SH->cls, "exit" ); snprintf( SH->detail, sizeof SH->detail, "process called exit(%d) in the middle of a run", WEXITSTATUS( st ) ); }
		if ( SH->status != 3 ) break;
	}
	return true;
}
static Outcome outcome()
{
	Outcome o; o.hash = SH->hash; o.sched = SH->schedhash;
	if ( SH->status == 2 ) { o.cls = SH->cls; o.detail = SH->detail; }
	for ( uint32_t i = 0; i < SH->nchoices; ++i ) o.choices.push_back( { SH->tags[SH->choices[i].tag], SH->choices[i].occ, SH->choices[i].val } );
	return o;
}

// ---------------------------------------------------------------- replay files
static std::string unesc( const std::string& s )
{
	std::string r;
	for ( size_t i = 0; i < s.size(); ++i ) {
		if ( s[i] != '\\' ) { r += s[i]; continue; }
		++i; if ( i >= s.size() ) break;
		if ( s[i] == 'x' ) { r += (char)strtol( s.substr( i + 1, 2 ).c_str(), nullptr, 16 ); i += 2; } else r += s[i];
	}
	return r;
}
static void write_run( const std::string& file, const Run& r )
{
	std::ofstream o( file );
	o << "xosim-replay 1\nscenario " << r.scenario << "\nseed " << r.seed << "\nclass " << r.cls << "\nhash " << std::hex << r.hash << std::dec << "\ndetail " << escape( r.detail ) << "\n";
	for ( auto& c : r.plan.cfg ) o << "cfg " << c.first << " " << c.second << "\n";
	for ( auto& p : r.plan.ops ) o << "op " << p.t << " " << p.k << " " << p.a << " " << p.b << " " << p.c << " \"" << escape( p.s ) << "\"\n";
	for ( auto& c : r.choices ) o << "choice " << c.tag << " " << c.occ << " " << c.val << "\n";
}
static bool read_run( const std::string& file, Run& r )
{
	std::ifstream i( file ); std::string line; if ( !std::getline( i, line ) || line.rfind( "xosim-replay", 0 ) != 0 ) return false;
	while ( std::getline( i, line ) ) {
		std::istringstream s( line ); std::string k; s >> k;
		if ( k == "scenario" ) s >> r.scenario;
		else if ( k == "seed" ) s >> r.seed;
		else if ( k == "class" ) s >> r.cls;
		else if ( k == "hash" ) s >> std::hex >> r.hash >> std::dec;
		else if ( k == "detail" ) { if ( line.size() > 7 ) r.detail = unesc( line.substr( 7 ) ); }
		else if ( k == "cfg" ) { std::string n; long v; s >> n >> v; r.plan.cfg[n] = v; }
		else if ( k == "op" ) { Op o; s >> o.t >> o.k >> o.a >> o.b >> o.c; auto q = line.find( '"' ); if ( q != std::string::npos ) o.s = unesc( line.substr( q + 1, line.size() - q - 2 ) ); r.plan.ops.push_back( o ); }
		else if ( k == "choice" ) { ChoiceRec c; s >> c.tag >> c.occ >> c.val; r.choices.push_back( c ); }
	}
	return true;
}
static std::string jstr( const std::string& s ) { std::string r = "\""; char b[8]; for ( unsigned char c : s ) { if ( c == '"' || c == '\\' ) { r += '\\'; r += c; } else if ( c < 32 || c > 126 ) { snprintf( b, sizeof b, "\\u%04x", c ); r += b; } else r += c; } return r + "\""; }

// ---------------------------------------------------------------- shrinking
static Outcome try_run( const Run& r, const std::vector<ChoiceRec>& ch )
{
	Outcome o; auto* sc = find_scn( r.scenario );
	if ( !execute( *sc, r.plan, r.seed, &ch, false ) ) { o.error = true; return o; }
	return outcome();
}
static int shrink( const std::string& in, const std::string& out, double budget )
{
	Run r; if ( !read_run( in, r ) || !find_scn( r.scenario ) ) return 3;
	double t0 = now(); std::string cls = r.cls;
	auto ok = [&]( const Run& x, Outcome& o ) { o = try_run( x, x.choices ); return !o.error && o.cls == cls; };
	Outcome o; if ( !ok( r, o ) ) { printf( "{\"ok\":false,\"reason\":\"does not reproduce\",\"class\":%s}\n", jstr( o.cls ).c_str() ); return 1; }
	int attempts = 0; bool progress = true;
	size_t ops0 = r.plan.ops.size(), ch0 = r.choices.size();
	while ( progress && now() - t0 < budget ) {
		progress = false;
		// drop choices, big blocks first
		for ( size_t blk = std::max<size_t>( 1, r.choices.size() / 2 ); blk >= 1; blk /= 2 ) {
			for ( size_t i = 0; i < r.choices.size() && now() - t0 < budget; ) {
				Run x = r; x.choices.erase( x.choices.begin() + i, x.choices.begin() + std::min( x.choices.size(), i + blk ) );
				++attempts;
				if ( ok( x, o ) ) { r = x; progress = true; } else i += blk;
			}
			if ( blk == 1 ) break;
		}
		for ( size_t blk = std::max<size_t>( 1, r.plan.ops.size() / 2 ); blk >= 1; blk /= 2 ) {
			for ( size_t i = 0; i < r.plan.ops.size() && now() - t0 < budget; ) {
				Run x = r; x.plan.ops.erase( x.plan.ops.begin() + i, x.plan.ops.begin() + std::min( x.plan.ops.size(), i + blk ) );
				++attempts;
				if ( ok( x, o ) ) { r = x; progress = true; } else i += blk;
			}
			if ( blk == 1 ) break;
		}
		// smaller numbers
		for ( size_t i = 0; i < r.plan.ops.size() && now() - t0 < budget; ++i )
			for ( long Op::*f : { &Op::a, &Op::b, &Op::c } )
				for ( int k = 0; k < 4 && r.plan.ops[i].*f != 0 && now() - t0 < budget; ++k ) {
					Run x = r; long v = r.plan.ops[i].*f; v = k == 0 ? 0 : k == 1 ? v / 2 : k == 2 ? v - ( v > 0 ? 1 : -1 ) : v & ( v - 1 ); if ( v == r.plan.ops[i].*f ) continue;
					x.plan.ops[i].*f = v; ++attempts;
					if ( ok( x, o ) ) { r = x; progress = true; k = -1; }
				}
		// simpler strings
		for ( size_t i = 0; i < r.plan.ops.size() && now() - t0 < budget; ++i )
			for ( size_t len = r.plan.ops[i].s.size() / 2; len >= 1 && now() - t0 < budget; len /= 2 )
				for ( size_t p = 0; p + len <= r.plan.ops[i].s.size() && now() - t0 < budget; ) {
					Run x = r; x.plan.ops[i].s.erase( p, len ); ++attempts;
					if ( ok( x, o ) ) { r = x; progress = true; } else p += len;
				}
	}
	// final: only the choices that actually took effect, and the hash of this very file
	if ( !ok( r, o ) ) return 3;
	Run y = r; y.choices = o.choices; Outcome o2;
	if ( ok( y, o2 ) ) { r = y; o = o2; }
	r.hash = o.hash; r.detail = o.detail; r.cls = o.cls;
	write_run( out, r );
	printf( "{\"ok\":true,\"attempts\":%d,\"ops\":[%zu,%zu],\"choices\":[%zu,%zu],\"class\":%s,\"detail\":%s,\"hash\":\"%llx\"}\n", attempts, ops0, r.plan.ops.size(), ch0, r.choices.size(), jstr( r.cls ).c_str(), jstr( r.detail ).c_str(), (unsigned long long)r.hash );
	return 0;
}

// ---------------------------------------------------------------- exploring
static int explore( int argc, char** argv )
{
	std::string outdir = ".", only; uint64_t base = 1, first = 0, step = 1, count = 100; double tmax = 1e9; int maxviol = 6; bool hashes = false;
	for ( int i = 2; i + 1 < argc; i += 2 ) {
		std::string k = argv[i]; const char* v = argv[i + 1];
		if ( k == "--base" ) base = strtoull( v, 0, 10 ); else if ( k == "--first" ) first = strtoull( v, 0, 10 ); else if ( k == "--step" ) step = strtoull( v, 0, 10 );
		else if ( k == "--count" ) count = strtoull( v, 0, 10 ); else if ( k == "--tmax" ) tmax = atof( v ); else if ( k == "--out" ) outdir = v; else if ( k == "--scn" ) only = v; else if ( k == "--hashes" ) hashes = atoi( v ); else if ( k == "--maxviol" ) maxviol = atoi( v );
	}
	std::vector<const Scenario*> pool;
	for ( auto& s : scenarios() ) if ( only.empty() || only == s.name || std::string( s.name ).rfind( only + ".", 0 ) == 0 ) for ( int w = 0; w < s.weight; ++w ) pool.push_back( &s );
	if ( pool.empty() ) return 3;
	std::sort( pool.begin(), pool.end(), []( auto* a, auto* b ) { return std::string( a->name ) < b->name; } );
	std::map<std::string, long> faults, probes, per_scn; std::map<std::string, std::map<std::string, int>> viol;
	std::map<std::string, long> fault_runs;
	std::set<uint64_t> distinct; uint64_t runs = 0, nontriv = 0, steps = 0, points = 0, switches = 0, ioops = 0, restarts = 0, dropped = 0; int64_t simtime = 0; int maxthr = 1; size_t peak = 0; uint64_t total_choices = 0;
	std::ofstream samples, hf; std::ofstream vf( outdir + "/viol." + std::to_string( first ) );
	if ( hashes ) hf.open( outdir + "/hashes." + std::to_string( first ) );
	double t0 = now(); int nv = 0, nsample = 0; std::ostringstream sample_json;
	for ( uint64_t i = first; i < count; i += step ) {
		if ( now() - t0 > tmax ) break;
		const Scenario& sc = *pool[i % pool.size()];
		uint64_t seed = seed_of( base, sc.name, i );
		Plan plan; { Rng g( seed ); sc.gen( g, plan ); }
		static const char* dump_at = getenv( "XOSIM_DUMP" ); bool dump = dump_at && i == strtoull( dump_at, 0, 10 );	// the event log of one run, to compare it between workers
		if ( !execute( sc, plan, seed, nullptr, dump ) ) { fprintf( stderr, "xosim: run infrastructure error\n" ); return 3; }
		if ( dump ) { std::ofstream d( outdir + "/trace." + std::to_string( i ) ); d.write( SH->trace, SH->trace_len ); d << "steps " << SH->steps << " points " << SH->points << " simtime " << SH->simtime << "\n"; }
		++runs; per_scn[sc.name]++; steps += SH->steps; points += SH->points; switches += SH->switches; ioops += SH->ioops; simtime += SH->simtime; maxthr = std::max( maxthr, SH->maxthreads ); peak = std::max( peak, SH->peak_bytes ); total_choices += SH->nchoices; dropped += SH->choices_dropped;
		if ( SH->phase > 0 ) ++restarts;
		for ( int k = 0; k < SH->nfaults; ++k ) { faults[SH->faults[k].name] += SH->faults[k].n; fault_runs[SH->faults[k].name]++; }
		for ( int k = 0; k < SH->nprobes; ++k ) probes[SH->probes[k].name] += SH->probes[k].n;
		bool nt = SH->nchoices > 0 || SH->nfaults > 0 || SH->nontrivial;
		if ( nt ) { ++nontriv; uint64_t h = SH->schedhash; for ( auto& o : plan.ops ) h = Rng::mix( h ^ hstr( o.k + o.s ) ^ ( o.t * 131 + o.a * 7 + o.b * 31 + o.c ) ); for ( auto& c : plan.cfg ) h = Rng::mix( h ^ hstr( c.first ) ^ (uint64_t)c.second ); distinct.insert( h ); }
		if ( hashes ) hf << i << " " << sc.name << " " << std::hex << SH->hash << std::dec << " " << SH->status << " " << SH->cls << "\n";
		if ( nt && nsample < 2 && ( SH->nchoices > 0 || nsample > 0 ) && SH->status != 2 ) {
			std::ostringstream s; s << ( nsample ? "," : "" ) << "{\"scenario\":" << jstr( sc.name ) << ",\"seed\":\"" << seed << "\",\"ops\":[";
			size_t k = 0; for ( auto& o : plan.ops ) { if ( k++ >= 12 ) break; s << ( k > 1 ? "," : "" ) << jstr( "t" + std::to_string( o.t ) + " " + o.k + " " + std::to_string( o.a ) + " " + std::to_string( o.b ) + " " + std::to_string( o.c ) + ( o.s.empty() ? "" : " '" + escape( o.s.substr( 0, 60 ) ) + "'" ) ); }
			s << "],\"choices\":["; for ( uint32_t c = 0; c < SH->nchoices && c < 12; ++c ) s << ( c ? "," : "" ) << jstr( std::string( SH->tags[SH->choices[c].tag] ) + "@" + std::to_string( SH->choices[c].occ ) + "=" + std::to_string( SH->choices[c].val ) );
			s << "],\"n_choices\":" << SH->nchoices << ",\"steps\":" << SH->steps << ",\"outcome\":\"held\"}"; sample_json << s.str(); ++nsample;
		}
		if ( SH->status == 2 ) {
			int& c = viol[sc.name][SH->cls]; ++c;
			if ( c <= 3 && nv < maxviol * 4 ) {
				Outcome o = outcome(); Run r; r.scenario = sc.name; r.seed = seed; r.cls = o.cls; r.detail = o.detail; r.hash = o.hash; r.plan = plan; r.choices = o.choices;
				std::string f = outdir + "/v" + std::to_string( i ) + ".replay"; write_run( f, r );
				vf << "{\"file\":" << jstr( f ) << ",\"scenario\":" << jstr( sc.name ) << ",\"class\":" << jstr( r.cls ) << ",\"detail\":" << jstr( r.detail ) << ",\"seed\":\"" << seed << "\",\"index\":" << i << ",\"dropped\":" << SH->choices_dropped << "}\n"; vf.flush();
				++nv;
			}
			if ( nv >= maxviol * 4 ) break;
		}
	}
	std::ofstream o( outdir + "/sum." + std::to_string( first ) );
	o << "{\"runs\":" << runs << ",\"nontrivial\":" << nontriv << ",\"steps\":" << steps << ",\"points\":" << points << ",\"switches\":" << switches << ",\"ioops\":" << ioops << ",\"restarts\":" << restarts << ",\"choices\":" << total_choices << ",\"choices_dropped\":" << dropped << ",\"simtime_ns\":" << simtime << ",\"max_threads\":" << maxthr << ",\"peak_heap\":" << peak << ",\"wall\":" << now() - t0;
	auto dump = [&]( const char* n, std::map<std::string, long>& m ) { o << ",\"" << n << "\":{"; bool f = true; for ( auto& kv : m ) { o << ( f ? "" : "," ) << jstr( kv.first ) << ":" << kv.second; f = false; } o << "}"; };
	dump( "faults", faults ); dump( "fault_runs", fault_runs ); dump( "probes", probes ); dump( "scenarios", per_scn );
	o << ",\"samples\":[" << sample_json.str() << "],\"distinct\":["; bool f = true; for ( auto h : distinct ) { o << ( f ? "" : "," ) << "\"" << std::hex << h << std::dec << "\""; f = false; } o << "]}\n";
	return 0;
}

// The library fills per-locale caches on first use. Fill them before the first run, so that no run depends on how many came before it in this process.
static void warm_up()
{
	auto& ct = std::use_facet<std::ctype<char>>( std::locale::classic() );	// the library fills these tables of equal values without a lock
	for ( int c = 0; c < 256; ++c ) { (void)ct.narrow( (char)c, c == 'a' ? 'b' : 'a' ); (void)ct.widen( (char)c ); }
	for ( int i = 0; i < 2; ++i ) {
		std::ostringstream o; std::tm tm = {}; time_t t = 0; localtime_r( &t, &tm );
		o << std::boolalpha << true << 1 << 2u << 3l << 4ul << 5ll << 6ull << 1.5f << 2.5 << 3.5L << std::hex << 7 << (void*)&o << std::put_time( &tm, "%H:%M:%S %Y-%m-%d" ) << std::setw( 3 ) << std::left << 'c' << "s" << std::endl;
		std::istringstream s( "1 2 3 4 5 1.5 2.5 1 word 7" ); bool b; int a; unsigned c; long d; unsigned long e; float f; double g; long long h; std::string w; s >> a >> c >> d >> e >> h >> f >> g >> b >> w >> a;
		std::stringbuf sb; std::ifstream in( "/dev/null" ); std::ofstream x( "/dev/null" ); x << 1 << std::endl; std::string l; std::getline( in, l );
		try { throw std::runtime_error( "x" ); } catch ( std::exception& ) {}
		volatile double v = strtod( "1.25", nullptr ); (void)v; char buf[64]; snprintf( buf, sizeof buf, "%g %s %d", 1.25, "x", 3 );
	}
}

int main( int argc, char** argv )
{
	SH = (Shared*)mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
	if ( SH == MAP_FAILED ) return 3;
	setenv( "TZ", "SIM-5:45SUM-6:45,M3.5.0,M10.5.0/3", 1 ); tzset(); setenv( "HOME", "/home/sim", 1 ); setenv( "TMP", "/tmp", 1 ); setenv( "LC_ALL", "C", 1 );
	warm_up();
	struct rlimit rl{ 0, 0 }; setrlimit( RLIMIT_CORE, &rl );
	std::string mode = argc > 1 ? argv[1] : "";
	// one CPU per worker: baton passing between parked threads is cheapest when nothing migrates
	if ( const char* c = getenv( "XOSIM_CPU" ) ) { cpu_set_t cs; CPU_ZERO( &cs ); cpu_set_t cur; if ( sched_getaffinity( 0, sizeof cur, &cur ) == 0 ) { int want = atoi( c ), n = CPU_COUNT( &cur ); if ( n > 0 ) { want %= n; for ( int i = 0; i < CPU_SETSIZE; ++i ) if ( CPU_ISSET( i, &cur ) && want-- == 0 ) { CPU_SET( i, &cs ); sched_setaffinity( 0, sizeof cs, &cs ); break; } } } }
	if ( mode == "list" ) { for ( auto& s : scenarios() ) printf( "%s %d\n", s.name, s.weight ); return 0; }
	if ( mode == "explore" ) return explore( argc, argv );
	if ( mode == "shrink" && argc >= 4 ) return shrink( argv[2], argv[3], argc > 4 ? atof( argv[4] ) : 20 );
	if ( mode == "replay" && argc >= 3 ) {
		Run r; if ( !read_run( argv[2], r ) ) { fprintf( stderr, "bad replay file\n" ); return 3; }
		auto* sc = find_scn( r.scenario ); if ( !sc ) { fprintf( stderr, "unknown scenario\n" ); return 3; }
		bool verbose = argc > 3 && !strcmp( argv[3], "-v" );
		if ( !execute( *sc, r.plan, r.seed, &r.choices, verbose ) ) return 3;
		Outcome o = outcome();
		if ( verbose ) fwrite( SH->trace, 1, SH->trace_len, stdout );
		printf( "{\"class\":%s,\"detail\":%s,\"hash\":\"%llx\",\"expected_hash\":\"%llx\",\"same\":%s}\n", jstr( o.cls ).c_str(), jstr( o.detail ).c_str(), (unsigned long long)o.hash, (unsigned long long)r.hash, o.hash == r.hash && o.cls == r.cls ? "true" : "false" );
		return o.cls.empty() ? 0 : 1;
	}
	if ( mode == "seed" && argc >= 4 ) {	// run one index of one scenario from its PRNG: seed SCN INDEX BASE [-v]
		auto* sc = find_scn( argv[2] ); if ( !sc ) return 3;
		uint64_t seed = argv[3][0] == '=' ? strtoull( argv[3] + 1, 0, 10 ) : seed_of( argc > 4 ? strtoull( argv[4], 0, 10 ) : 1, sc->name, strtoull( argv[3], 0, 10 ) );
		Plan plan; { Rng g( seed ); sc->gen( g, plan ); }
		bool verbose = argc > 5 && !strcmp( argv[5], "-v" );
		if ( !execute( *sc, plan, seed, nullptr, verbose ) ) return 3;
		Outcome o = outcome();
		if ( verbose ) { for ( auto& p : plan.ops ) printf( "op t%d %s %ld %ld %ld %s\n", p.t, p.k.c_str(), p.a, p.b, p.c, escape( p.s ).c_str() ); fwrite( SH->trace, 1, SH->trace_len, stdout ); }
		printf( "{\"seed\":\"%llu\",\"class\":%s,\"detail\":%s,\"hash\":\"%llx\",\"steps\":%llu,\"choices\":%u}\n", (unsigned long long)seed, jstr( o.cls ).c_str(), jstr( o.detail ).c_str(), (unsigned long long)o.hash, (unsigned long long)SH->steps, SH->nchoices );
		return o.cls.empty() ? 0 : 1;
	}
	fprintf( stderr, "usage: list | explore ... | shrink IN OUT [s] | replay FILE [-v] | seed SCN INDEX BASE [-v]\n" );
	return 3;
}
