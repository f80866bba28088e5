// xosim runtime: decision stream, scheduler, happens-before race detector, heap checker, clocks.
// This translation unit is NOT instrumented. The code under test is compiled with -fsanitize=thread
// and linked against the __tsan_* entry points below instead of the real ThreadSanitizer runtime, so
// every memory access, atomic operation and function entry of the code under test reaches this file.
#include "rt.h"
#include "rt_int.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <cmath>
#include <new>
#include <exception>
#include <typeinfo>
#include <unordered_map>
#include <algorithm>
#include <cxxabi.h>
#include <dlfcn.h>
#include <pthread.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <linux/futex.h>
#include <sys/syscall.h>

extern "C" { int rt_active = 0; extern char _end[]; }

namespace sim
{
	Shared* SH = nullptr;

	constexpr int MAXT = 16;
	enum State { FREE, RUN, BLOCKED, DONE };
	struct VC { uint32_t c[MAXT]; void join( const VC& o ) { for ( int i = 0; i < MAXT; ++i ) if ( o.c[i] > c[i] ) c[i] = o.c[i]; } };

	struct Thread {
		int id; State st; int word; VC vc;
		int bkind; uintptr_t baddr; int64_t deadline; bool timed_out; unsigned fmask;
		uint32_t pcount; int joiner; bool detached, joined;
		void* ( *fn )( void* ); void* arg; void* ret;
		uintptr_t stk_lo, stk_hi; uint64_t stalled_until;
		long alloc_nth; bool alloc_fired; double alloc_p; double crash_p;
	};

	struct SyncObj { VC rel, rrel; int owner, rec, readers; uint8_t rd[MAXT]; };

	struct Tls { int in_rt; int quiet; int id; };
	static __thread Tls tls __attribute__( ( tls_model( "initial-exec" ) ) );

	static struct Global {
		Thread th[MAXT];
		int nth, cur, nalive, nrun;
		bool multi;
		RunCfg rc;
		Rng rng{ 1 };
		double budget, mean, w_shared, w_sync, w_priv, stall_p, timed_p;
		uint64_t since_switch, fair, step_cap;
		int64_t mono, real_off, tick;
		size_t mem_cap;
		bool race_on;
		int thread_limit;
		uint64_t seqno;
		std::unordered_map<uintptr_t, SyncObj*>* sync;
		std::unordered_map<std::string, int>* tagidx;
		uint32_t occ[MAXTAG];
		std::vector<std::vector<std::pair<uint32_t, uint16_t>>>* rep;	// by our tag index
		size_t repcur[MAXTAG];
		VC fence;
		int stag[MAXT];
		double thread_fail_p;
	} G;

	static void save_times();

	// ------------------------------------------------------------------ hashing, tracing, verdicts
	static inline void hmix( uint64_t& h, uint64_t v ) { h = ( h ^ v ) * 0x100000001b3ull; h ^= h >> 29; }
	void hash_u64( uint64_t v ) { hmix( SH->hash, v ); }
	void hash_bytes( const void* p, size_t n ) { auto* b = (const unsigned char*)p; uint64_t h = SH->hash; for ( size_t i = 0; i < n; ++i ) h = ( h ^ b[i] ) * 0x100000001b3ull; SH->hash = h ^ ( h >> 31 ); }

	static void vtrace( const char* fmt, va_list va )
	{
		if ( !G.rc.verbose ) return;
		char buf[1024];
		int n = vsnprintf( buf, sizeof buf, fmt, va );
		if ( n > (int)sizeof( buf ) - 1 ) n = sizeof( buf ) - 1;
		if ( SH->trace_len + n + 32 < sizeof( SH->trace ) ) {
			SH->trace_len += snprintf( SH->trace + SH->trace_len, 40, "[t%d %lld.%06lld] ", G.cur, (long long)( G.mono / 1000000000 ), (long long)( G.mono / 1000 % 1000000 ) );
			memcpy( SH->trace + SH->trace_len, buf, n ); SH->trace_len += n;
			SH->trace[SH->trace_len++] = '\n';
		}
	}
	void trace( const char* fmt, ... ) { if ( !G.rc.verbose ) return; va_list va; va_start( va, fmt ); vtrace( fmt, va ); va_end( va ); }

	void log( const char* fmt, ... )
	{
		Enter e;
		char buf[1024];
		va_list va; va_start( va, fmt ); vsnprintf( buf, sizeof buf, fmt, va ); va_end( va );
		hash_bytes( buf, strlen( buf ) );
		trace( "log: %s", buf );
	}

	[[noreturn]] static void die( int status ) { save_times(); SH->status = status; _exit( 0 ); }

	[[noreturn]] void fail( const char* cls, const char* fmt, ... )
	{
		tls.in_rt++;
		snprintf( SH->cls, sizeof SH->cls, "%s", cls );
		va_list va; va_start( va, fmt ); vsnprintf( SH->detail, sizeof SH->detail, fmt, va ); va_end( va );
		hash_bytes( cls, strlen( cls ) );
		trace( "VIOLATION %s: %s", SH->cls, SH->detail );
		die( 2 );
	}

	static void counter( Counter* c, int& n, const char* name, long d )
	{
		for ( int i = 0; i < n; ++i ) if ( !strncmp( c[i].name, name, sizeof( c[i].name ) - 1 ) ) { c[i].n += d; return; }
		if ( n < MAXCNT ) { snprintf( c[n].name, sizeof c[n].name, "%s", name ); c[n].n = d; ++n; }
	}
	void probe( const char* name, long n ) { Enter e; if ( SH ) counter( SH->probes, SH->nprobes, name, n ); }
	void set_stat( const char* name, long v ) { probe( name, v ); }
	void nontrivial() { SH->nontrivial = 1; }
	void count_fault( const char* k ) { counter( SH->faults, SH->nfaults, k, 1 ); }
	long fault_count( const char* k ) { for ( int i = 0; i < SH->nfaults; ++i ) if ( !strcmp( SH->faults[i].name, k ) ) return SH->faults[i].n; return 0; }
	long faults_fired() { long n = 0; for ( int i = 0; i < SH->nfaults; ++i ) n += SH->faults[i].n; return n; }

	// ------------------------------------------------------------------ decision stream
	static int tag_index( const char* tag )
	{
		auto it = G.tagidx->find( tag );
		if ( it != G.tagidx->end() ) return it->second;
		int i = SH->ntags;
		if ( i >= MAXTAG ) fail( "internal", "too many tags" );
		snprintf( SH->tags[i], sizeof SH->tags[i], "%s", tag );
		SH->ntags++;
		( *G.tagidx )[tag] = i;
		G.occ[i] = 0; G.repcur[i] = 0;
		if ( (int)G.rep->size() <= i ) G.rep->resize( i + 1 );
		if ( G.rc.replay )
			for ( size_t k = 0; k < G.rc.rep_tags->size(); ++k )
				if ( ( *G.rc.rep_tags )[k] == SH->tags[i] ) ( *G.rep )[i] = ( *G.rc.rep )[k];
		return i;
	}
	static inline unsigned replay_value( int ti, uint32_t occ )
	{
		auto& v = ( *G.rep )[ti]; auto& cur = G.repcur[ti];
		while ( cur < v.size() && v[cur].first < occ ) ++cur;
		return cur < v.size() && v[cur].first == occ ? v[cur].second : 0;
	}
	static void record( int ti, uint32_t occ, unsigned val )
	{
		if ( !val ) return;
		if ( SH->nchoices < MAXCH ) SH->choices[SH->nchoices++] = Choice{ (uint16_t)ti, (uint16_t)val, occ };
		else SH->choices_dropped++;
		hmix( SH->schedhash, ( (uint64_t)ti << 48 ) ^ ( (uint64_t)val << 32 ) ^ occ );
		hmix( SH->hash, ( (uint64_t)ti << 48 ) ^ ( (uint64_t)val << 32 ) ^ occ );
	}
	static std::string ptag( const char* t ) { return G.rc.phase ? "p" + std::to_string( G.rc.phase ) + "." + t : std::string( t ); }

	unsigned choose( const char* tag, unsigned n, double p )
	{
		if ( !rt_active || n < 2 ) return 0;
		Enter e;
		int ti = tag_index( ptag( tag ).c_str() );
		uint32_t occ = ++G.occ[ti];
		unsigned v = 0;
		if ( G.rc.replay ) { v = replay_value( ti, occ ); if ( v >= n ) v = 0; }
		else if ( p > 0 && G.rng.unit() < p ) v = 1 + (unsigned)G.rng.below( n - 1 );
		record( ti, occ, v );
		return v;
	}
	unsigned choose_uniform( const char* tag, unsigned n ) { return choose( tag, n, n < 2 ? 0 : 1.0 - 1.0 / n ); }
	bool replaying() { return G.rc.replay; }

	// ------------------------------------------------------------------ scheduler
	static inline long rsys( long n, long a, long b, long c, long d )
	{
		long r; register long r10 __asm__( "r10" ) = d; register long r8 __asm__( "r8" ) = 0; register long r9 __asm__( "r9" ) = 0;
		__asm__ volatile( "syscall" : "=a"( r ) : "a"( n ), "D"( a ), "S"( b ), "d"( c ), "r"( r10 ), "r"( r8 ), "r"( r9 ) : "rcx", "r11", "memory" );
		return r;
	}
	static void wait_turn( Thread* t )
	{
		while ( !__atomic_load_n( &t->word, __ATOMIC_ACQUIRE ) ) rsys( SYS_futex, (long)&t->word, FUTEX_WAIT_PRIVATE, 0, 0 );
		__atomic_store_n( &t->word, 0, __ATOMIC_RELAXED );
	}
	static void hand_to( Thread* t )
	{
		SH->switches++;
		G.cur = t->id; G.since_switch = 0;
		hmix( SH->hash, 0x5157ull * 131 + t->id );
		__atomic_store_n( &t->word, 1, __ATOMIC_RELEASE );
		rsys( SYS_futex, (long)&t->word, FUTEX_WAKE_PRIVATE, 1, 0 );
	}
	static inline Thread& me() { return G.th[tls.id]; }

	static void wake_expired()
	{
		for ( int i = 0; i < G.nth; ++i )
			if ( G.th[i].st == BLOCKED && G.th[i].deadline >= 0 && G.th[i].deadline <= G.mono ) {
				G.th[i].st = RUN; G.th[i].timed_out = true; G.nrun++;
			}
	}
	static void move_clock( int64_t ns ) { if ( ns > 0 ) { G.mono += ns; SH->simtime += ns; wake_expired(); } }

	static Thread* next_cyclic( int from ) { for ( int k = 1; k <= G.nth; ++k ) { auto* t = &G.th[( from + k ) % G.nth]; if ( t->st == RUN ) return t; } return nullptr; }

	static std::string blocked_report()
	{
		std::string s;
		static const char* kinds[] = { "?", "mutex", "rwlock-read", "rwlock-write", "condition", "join", "futex", "sleep", "once", "static-init", "yield" };
		for ( int i = 0; i < G.nth; ++i ) if ( G.th[i].st == BLOCKED ) s += " t" + std::to_string( i ) + ":" + kinds[G.th[i].bkind];
		return s;
	}

	// choose who runs next when the current thread cannot continue
	static Thread* pick_forced()
	{
		if ( G.nrun == 0 ) {
			Thread* best = nullptr;
			for ( int i = 0; i < G.nth; ++i ) if ( G.th[i].st == BLOCKED && G.th[i].deadline >= 0 && ( !best || G.th[i].deadline < best->deadline ) ) best = &G.th[i];
			if ( !best ) fail( "deadlock", "no thread can run:%s", blocked_report().c_str() );
			move_clock( best->deadline - G.mono );
		}
		Thread* def = next_cyclic( tls.id );
		int from = tls.id;
		char tag[16]; snprintf( tag, sizeof tag, "b%d", from );
		int ti = tag_index( ptag( tag ).c_str() );
		uint32_t occ = ++G.occ[ti];
		Thread* res = def;
		if ( G.rc.replay ) {
			unsigned v = replay_value( ti, occ );
			if ( v && (int)v <= G.nth ) {
				Thread* t = &G.th[v - 1];
				if ( t->st == BLOCKED && t->deadline >= 0 ) { move_clock( t->deadline - G.mono ); }
				if ( t->st == RUN ) res = t;
			}
		}
		else {
			Thread* c[MAXT]; int n = 0;
			for ( int i = 0; i < G.nth; ++i ) if ( G.th[i].st == RUN && G.th[i].stalled_until <= SH->points ) c[n++] = &G.th[i];
			if ( !n ) for ( int i = 0; i < G.nth; ++i ) if ( G.th[i].st == RUN ) c[n++] = &G.th[i];
			if ( G.timed_p > 0 && G.rng.unit() < G.timed_p ) {
				Thread* tm[MAXT]; int m = 0;
				for ( int i = 0; i < G.nth; ++i ) if ( G.th[i].st == BLOCKED && G.th[i].deadline >= 0 ) tm[m++] = &G.th[i];
				if ( m ) { Thread* t = tm[G.rng.below( m )]; move_clock( t->deadline - G.mono ); c[0] = t; n = 1; }
			}
			res = c[G.rng.below( n )];
		}
		if ( res != def ) record( ti, occ, res->id + 1 );
		return res;
	}

	static bool block( int kind, const void* addr, int64_t deadline )
	{
		Thread& t = me();
		if ( deadline >= 0 && deadline <= G.mono ) return true;
		t.st = BLOCKED; t.bkind = kind; t.baddr = (uintptr_t)addr; t.deadline = deadline; t.timed_out = false; G.nrun--;
		Thread* n = pick_forced();
		if ( n != &t ) { hand_to( n ); wait_turn( &t ); }
		return t.timed_out;
	}
	static int wake_all( const void* addr, int kind_lo, int kind_hi )
	{
		int n = 0;
		for ( int i = 0; i < G.nth; ++i )
			if ( G.th[i].st == BLOCKED && G.th[i].baddr == (uintptr_t)addr && G.th[i].bkind >= kind_lo && G.th[i].bkind <= kind_hi ) { G.th[i].st = RUN; G.nrun++; ++n; }
		return n;
	}

	static void switch_to( Thread* n ) { Thread& t = me(); if ( n == &t ) return; hand_to( n ); wait_turn( &t ); }

	static void sched_slow( Thread& t, double w )
	{
		if ( G.rc.replay ) {
			unsigned v = replay_value( G.stag[t.id], t.pcount );
			if ( v ) {
				record( G.stag[t.id], t.pcount, v );
				Thread* n = v <= (unsigned)G.nth ? &G.th[v - 1] : nullptr;
				if ( n && n->st == RUN && n != &t ) { trace( "preempt -> t%d", n->id ); switch_to( n ); return; }
			}
		}
		else {
			G.budget -= w;
			if ( G.budget <= 0 ) {
				G.budget = -std::log( 1.0 - G.rng.unit() ) * G.mean + 1;
				Thread* c[MAXT]; int n = 0;
				for ( int i = 0; i < G.nth; ++i ) if ( i != t.id && G.th[i].st == RUN && G.th[i].stalled_until <= SH->points ) c[n++] = &G.th[i];
				if ( n ) {
					Thread* x = c[G.rng.below( n )];
					if ( G.stall_p > 0 && G.rng.unit() < G.stall_p ) t.stalled_until = SH->points + G.rng.below( 6000 );
					record( G.stag[t.id], t.pcount, x->id + 1 );
					switch_to( x );
					return;
				}
			}
		}
		if ( G.since_switch > G.fair ) { Thread* n = next_cyclic( t.id ); if ( n && n != &t ) switch_to( n ); else G.since_switch = 0; }
	}
	static inline void sched_point( double w )
	{
		if ( tls.quiet ) return;
		if ( !G.multi ) return;
		Thread& t = me();
		t.pcount++; SH->points++; G.since_switch++;
		if ( G.nrun < 2 ) return;
		sched_slow( t, w );
	}

	void point( const char* ) { if ( !rt_active ) return; Enter e; sched_point( G.w_sync * 2 ); }
	void yield_other() { rt_yield(); }
	int tid() { return tls.id; }
	uint64_t seq() { return ++G.seqno; }
	int threads_alive() { return G.nalive; }
	int this_thread_count() { return G.nth; }
	void expect_thread_limit( int n ) { G.thread_limit = n; }
	void set_thread_fail( double p ) { G.thread_fail_p = p; }
	void set_race_detection( bool on ) { G.race_on = on; }
	Quiet::Quiet() { tls.quiet++; }
	Quiet::~Quiet() { tls.quiet--; }

	// ------------------------------------------------------------------ happens-before
	static SyncObj& so( const void* a )
	{
		auto*& p = ( *G.sync )[(uintptr_t)a];
		if ( !p ) { p = (SyncObj*)calloc( 1, sizeof( SyncObj ) ); p->owner = -1; }
		return *p;
	}
	static inline void acquire( const VC& v ) { me().vc.join( v ); }
	static inline void tick() { me().vc.c[tls.id]++; }

	// ------------------------------------------------------------------ race detector
	struct Cell { uint32_t clk; uint8_t tid, mask, flags, used; };
	struct Gran { uintptr_t key; uint32_t rr; uint32_t pad; Cell c[6]; void* pc[6]; };
	constexpr size_t NGRAN = 1 << 17;
	static Gran* grans[2]; static size_t ngrans[2];
	enum { F_WRITE = 1, F_ATOMIC = 2 };

	// Simulated heap, simulated stacks and the program image lie at the same addresses in every process; libraries, thread-local blocks
	// and what the driver allocated before the run do not. The two kinds have separate tables and only the first kind influences the
	// scheduler, so that a run does not depend on address space randomisation.
	static inline bool fixed_address( uintptr_t a ) { return a < (uintptr_t)_end || ( a >= 0x10000000000ull && a < 0x11000000000ull ) || ( a >= 0x30000000000ull && a < 0x31000000000ull ); }

	static Gran* gran_for( uintptr_t k, bool fixed, bool add = true )
	{
		Gran* gran = grans[fixed]; size_t& ngran = ngrans[fixed];
		size_t h = ( k * 0x9e3779b97f4a7c15ull ) >> 47;
		for ( size_t i = 0; i < 64; ++i ) {
			Gran* g = &gran[( h + i ) & ( NGRAN - 1 )];
			if ( g->key == k ) return g;
			if ( g->key == 0 ) { if ( !add || ngran > NGRAN * 3 / 4 ) return nullptr; g->key = k; ++ngran; return g; }
		}
		return nullptr;
	}

	[[noreturn]] static void race( uintptr_t a, size_t n, int flags, void* pc, Cell& c, void* opc )
	{
		fail( "data-race", "%s of %zu bytes by t%d at pc=%p conflicts with unordered %s by t%d at pc=%p (address %s)",
			flags & F_WRITE ? "write" : "read", n, tls.id, pc, c.flags & F_WRITE ? "write" : "read", c.tid, opc,
			a >= 0x10000000000ull && a < 0x11000000000ull ? "heap" : "static/stack" );
	}

	static bool race_check( uintptr_t a, size_t n, int flags, void* pc )
	{
		bool shared = false;
		Thread& t = me();
		const bool fixed = fixed_address( a );
		bool own_stack = a >= t.stk_lo && a < t.stk_hi;
		uintptr_t end = a + n;
		while ( a < end ) {
			uintptr_t k = a >> 3;
			unsigned lo = a & 7, hi = end - ( k << 3 ) >= 8 ? 8 : (unsigned)( end - ( k << 3 ) );
			uint8_t mask = (uint8_t)( ( ( 1u << hi ) - 1 ) & ~( ( 1u << lo ) - 1 ) );
			Gran* g = gran_for( k, fixed );
			if ( g ) {
				int slot = -1;
				for ( int i = 0; i < 6; ++i ) {
					Cell& c = g->c[i];
					if ( !c.used ) { if ( slot < 0 ) slot = i; continue; }
					if ( c.tid == t.id ) { if ( c.mask == mask && c.flags == flags ) slot = i; continue; }
					if ( own_stack && G.th[c.tid].st == DONE ) { c.used = 0; continue; }
					shared = true;
					if ( ( c.mask & mask ) && ( ( c.flags | flags ) & F_WRITE ) && !( c.flags & flags & F_ATOMIC ) && c.clk > t.vc.c[c.tid] && G.race_on )
						race( a, n, flags, pc, c, g->pc[i] );
				}
				if ( slot < 0 ) slot = g->rr++ % 6;
				g->c[slot] = Cell{ t.vc.c[t.id], (uint8_t)t.id, mask, (uint8_t)flags, 1 };
				g->pc[slot] = pc;
			}
			a = ( k + 1 ) << 3;
		}
		return shared && fixed;
	}

	// memory handed out again by an allocator we do not see: what happened to it before does not matter
	static void race_forget( uintptr_t a, size_t n )
	{
		for ( uintptr_t k = a >> 3; k <= ( a + n ) >> 3; ++k ) if ( Gran* g = gran_for( k, fixed_address( a ), false ) ) for ( auto& c : g->c ) c.used = 0;
	}

	// ------------------------------------------------------------------ heap
	constexpr uintptr_t ARENA = 0x10000000000ull; constexpr size_t ARENA_SZ = 1ull << 30;
	static uint8_t* hshadow; static uintptr_t hbrk; static size_t hlive, hblocks, htotal;
	struct Hdr { uint64_t size; uint32_t magic; uint32_t off; };

	static inline void heap_check( uintptr_t a, size_t n, int flags, void* pc )
	{
		if ( a - ARENA >= ARENA_SZ ) return;
		uintptr_t end = a + n;
		for ( uintptr_t g = a & ~7ull; g < end; g += 8 ) {
			uint8_t v = hshadow[( g - ARENA ) >> 3];
			if ( v == 8 ) continue;
			unsigned need = end - g >= 8 ? 8 : (unsigned)( end - g );
			if ( v == 0xFD ) fail( "use-after-free", "%s of %zu bytes by t%d at pc=%p touches freed heap memory", flags & F_WRITE ? "write" : "read", n, tls.id, pc );
			if ( need > v ) fail( "heap-overflow", "%s of %zu bytes by t%d at pc=%p is outside any live heap block", flags & F_WRITE ? "write" : "read", n, tls.id, pc );
		}
	}
	bool is_freed( const void* p ) { auto a = (uintptr_t)p; return a - ARENA < ARENA_SZ && hshadow[( a - ARENA ) >> 3] == 0xFD; }
	size_t live_bytes() { return hlive; }
	size_t live_blocks() { return hblocks; }
	size_t total_allocs() { return htotal; }
	void set_mem_cap( size_t b ) { G.mem_cap = b; }
	void set_step_cap( uint64_t s ) { G.step_cap = s; }

	static void* arena_alloc( size_t n, size_t al )
	{
		if ( al < 16 ) al = 16;
		if ( n > G.mem_cap || hlive + n > G.mem_cap ) {
			if ( n > ( 1ull << 40 ) ) return nullptr;	// absurd request: bad_alloc, as a real allocator would
			fail( "memory-cap", "more than %zu bytes of live heap (request of %zu)", G.mem_cap, n );
		}
		uintptr_t u = ( hbrk + sizeof( Hdr ) + al - 1 ) & ~( al - 1 );
		uintptr_t e = u + ( ( n + 7 ) & ~7ull ) + 16;
		if ( e > ARENA + ARENA_SZ ) fail( "memory-cap", "simulated heap exhausted (%zu live)", hlive );
		hbrk = e;
		Hdr* h = (Hdr*)( u - sizeof( Hdr ) ); h->size = n; h->magic = 0xA110C8ED; h->off = 0;
		memset( &hshadow[( u - ARENA ) >> 3], 8, n >> 3 );
		if ( n & 7 ) hshadow[( u + ( n & ~7ull ) - ARENA ) >> 3] = n & 7;
		memset( (void*)u, 0xCD, n < 4096 ? n : 4096 );
		hlive += n; hblocks++; htotal++;
		if ( hlive > SH->peak_bytes ) SH->peak_bytes = hlive;
		return (void*)u;
	}
	static void arena_free( void* p )
	{
		uintptr_t u = (uintptr_t)p;
		Hdr* h = (Hdr*)( u - sizeof( Hdr ) );
		if ( h->magic == 0xDEADF4EE ) fail( "double-free", "heap block of %zu bytes freed twice (t%d)", (size_t)h->size, tls.id );
		if ( h->magic != 0xA110C8ED ) fail( "bad-free", "free of a pointer that is not the start of a heap block (t%d)", tls.id );
		h->magic = 0xDEADF4EE;
		size_t n = h->size;
		memset( &hshadow[( u - ARENA ) >> 3], 0xFD, ( n + 7 ) >> 3 );
		if ( n >= 65536 ) { uintptr_t a = ( u + 4095 ) & ~4095ull, b = ( u + n ) & ~4095ull; if ( b > a ) madvise( (void*)a, b - a, MADV_DONTNEED ); }
		else memset( p, 0xDD, n );
		hlive -= n; hblocks--;
	}
	void alloc_fail_nth( long n ) { me().alloc_nth = n; me().alloc_fired = false; }
	bool alloc_fault_fired() { bool r = me().alloc_fired; me().alloc_fired = false; return r; }
	AllocFaults::AllocFaults( double p ) { me().alloc_p = p; }
	AllocFaults::~AllocFaults() { me().alloc_p = 0; }

	static void* do_new( size_t n, size_t al, bool nothrow )
	{
		if ( !rt_active || tls.in_rt ) {
			void* p = al > 16 ? aligned_alloc( al, ( n + al - 1 ) / al * al ) : malloc( n ? n : 1 );
			if ( !p ) { if ( nothrow ) return nullptr; throw std::bad_alloc(); }
			return p;
		}
		void* p = nullptr; bool fault_now = false;
		{
			Enter e;
			Thread& t = me();
			if ( !tls.quiet ) {
				if ( t.alloc_nth > 0 && --t.alloc_nth == 0 ) fault_now = true;
				else if ( t.alloc_p > 0 && choose( "alloc", 2, t.alloc_p ) ) fault_now = true;
				if ( fault_now ) { t.alloc_fired = true; count_fault( "alloc_failure" ); trace( "allocation of %zu bytes fails", n ); }
			}
			if ( !fault_now ) p = arena_alloc( n, al );
			hmix( SH->hash, n );
		}
		if ( !p ) { if ( nothrow ) return nullptr; throw std::bad_alloc(); }
		return p;
	}
	static void do_delete( void* p, void* pc )
	{
		if ( !p ) return;
		if ( (uintptr_t)p - ARENA < ARENA_SZ ) {
			if ( !rt_active ) return;
			Enter e;
			if ( G.multi && !tls.quiet && tls.in_rt == 1 ) {
				Hdr* h = (Hdr*)( (uintptr_t)p - sizeof( Hdr ) );
				if ( h->magic == 0xA110C8ED && h->size && h->size <= 4096 && (uintptr_t)pc < 0x10000000 ) race_check( (uintptr_t)p, h->size, F_WRITE, pc );
			}
			arena_free( p );
		}
		else free( p );
	}

	// ------------------------------------------------------------------ access hook
	[[noreturn]] static void step_cap_hit() { fail( "hang", "run exceeded %llu steps without finishing:%s", (unsigned long long)G.step_cap, blocked_report().c_str() ); }

	static inline void on_access( uintptr_t a, size_t n, int flags, void* pc )
	{
		if ( !rt_active || tls.in_rt || tls.quiet ) return;
		tls.in_rt = 1;
		if ( ++SH->steps > G.step_cap ) step_cap_hit();
		heap_check( a, n, flags, pc );
		if ( G.multi ) {
			bool shared = race_check( a, n, flags, pc );
			sched_point( shared ? G.w_shared : G.w_priv );
		}
		tls.in_rt = 0;
	}
	// ranges: heap check, race check, one schedule point
	static inline void on_range( uintptr_t a, size_t n, int flags, void* pc )
	{
		if ( !rt_active || tls.in_rt || tls.quiet || !n ) return;
		tls.in_rt = 1;
		if ( ++SH->steps > G.step_cap ) step_cap_hit();
		heap_check( a, n, flags, pc );
		if ( G.multi ) {
			bool shared = race_check( a, n > 4096 ? 4096 : n, flags, pc );
			sched_point( shared ? G.w_shared : G.w_priv );
		}
		tls.in_rt = 0;
	}

	// ------------------------------------------------------------------ clocks
	int64_t mono_ns() { return G.mono; }
	int64_t real_ns() { return G.mono + G.real_off; }
	void advance( int64_t ns ) { Enter e; trace( "clock +%lld ns", (long long)ns ); move_clock( ns ); hash_u64( ns ); }
	void jump_realtime( int64_t ns ) { Enter e; G.real_off += ns; count_fault( "wall_clock_jump" ); hash_u64( ns ); trace( "wall clock jumps %lld ns", (long long)ns ); }
	void set_clock_tick( int64_t ns ) { G.tick = ns; }
	static void save_times() { SH->mono = G.mono; SH->real = G.mono + G.real_off; }

	// ------------------------------------------------------------------ crash and restart
	CrashArmed::CrashArmed( double p ) { me().crash_p = p; }
	CrashArmed::~CrashArmed() { me().crash_p = 0; }
	void note( const std::string& s )
	{
		Enter e;
		if ( SH->notes_len + s.size() + 1 > sizeof SH->notes ) fail( "internal", "note buffer full" );
		memcpy( SH->notes + SH->notes_len, s.data(), s.size() ); SH->notes_len += s.size();
		SH->notes[SH->notes_len++] = 0;
	}
	std::vector<std::string> notes()
	{
		std::vector<std::string> r; size_t i = 0;
		while ( i < SH->notes_len ) { r.emplace_back( SH->notes + i ); i += r.back().size() + 1; }
		return r;
	}
	bool crashed_before() { return G.rc.phase > 0; }

	void add_scenario( const Scenario& s ) { const_cast<std::vector<Scenario>&>( scenarios() ).push_back( s ); }
	const std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }

	// ------------------------------------------------------------------ run control
	static void on_signal( int sig, siginfo_t* si, void* )
	{
		tls.in_rt++;
		if ( SH->status == 0 ) {
			const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : "signal";
			if ( sig == SIGPROF ) { strcpy( SH->cls, "hang" ); snprintf( SH->detail, sizeof SH->detail, "no progress within the CPU time limit" ); }
			else { strcpy( SH->cls, "crash" ); snprintf( SH->detail, sizeof SH->detail, "%s in thread t%d (address %s)", n, tls.id, (uintptr_t)si->si_addr < 65536 ? "near null" : "wild, or stack exhausted" ); }
			save_times();
			SH->status = 2;
		}
		_exit( 0 );
	}
	static void on_terminate()
	{
		tls.in_rt++;
		std::string what = "std::terminate without an active exception";
		if ( auto ep = std::current_exception() ) {
			try { std::rethrow_exception( ep ); }
			catch ( std::exception& e ) { what = std::string( "uncaught exception: " ) + e.what(); }
			catch ( ... ) { what = "uncaught exception of unknown type"; }
		}
		fail( "terminate", "%s", what.c_str() );
	}

	static void setup_altstack() { stack_t ss{}; ss.ss_size = 65536; ss.ss_sp = mmap( nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 ); sigaltstack( &ss, nullptr ); }

	static pthread_key_t exit_key; static bool key_made;
	static void thread_exit_hook( void* );

	// every simulated thread has a zeroed stack of its own at a fixed address: what uninitialised locals contain, and which
	// addresses are shared, must not depend on the process
	constexpr uintptr_t STACKS = 0x30000000000ull;
	void* rt_stack( int id )
	{
		auto lo = STACKS + (uintptr_t)id * 2 * STACK_SZ + STACK_SZ;
		if ( mmap( (void*)lo, STACK_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0 ) != (void*)lo ) { fprintf( stderr, "xosim: cannot map a stack\n" ); _exit( 3 ); }
		return (void*)lo;
	}
	static void set_stack_range( Thread& t ) { t.stk_lo = STACKS + (uintptr_t)t.id * 2 * STACK_SZ + STACK_SZ; t.stk_hi = t.stk_lo + STACK_SZ; }

	void rt_begin( const RunCfg& rc )
	{
		tls.in_rt = 1; tls.id = 0; tls.quiet = 0;
		G.rc = rc;
		G.rng = Rng( Rng::mix( rc.seed * 2654435761ull + 77 + rc.phase ) );
		G.sync = new std::unordered_map<uintptr_t, SyncObj*>;
		G.tagidx = new std::unordered_map<std::string, int>;
		G.rep = new std::vector<std::vector<std::pair<uint32_t, uint16_t>>>;
		memset( G.th, 0, sizeof G.th );
		G.nth = 1; G.cur = 0; G.nalive = 1; G.nrun = 1; G.multi = false;
		G.th[0].st = RUN; G.th[0].vc.c[0] = 1; G.th[0].joiner = -1;
		if ( rc.phase == 0 ) SH->ntags = 0;
		for ( int i = 0; i < SH->ntags; ++i ) { ( *G.tagidx )[SH->tags[i]] = i; }
		if ( rc.phase > 0 ) {	// continue the tag table; occurrence counters of this phase's tags start at zero
			G.rep->resize( SH->ntags );
		}
		for ( int i = 0; i < MAXT; ++i ) { char b[8]; snprintf( b, sizeof b, "s%d", i ); G.stag[i] = tag_index( ptag( b ).c_str() ); }
		auto& r = G.rng;
		G.mean = r.pick( { 60.0, 250.0, 1000.0, 4000.0, 20000.0 } );
		G.w_priv = 1; G.w_shared = r.pick( { 5.0, 25.0, 100.0 } ); G.w_sync = r.pick( { 20.0, 60.0, 150.0 } );
		G.stall_p = r.pick( { 0.0, 0.25, 0.7 } ); G.timed_p = r.pick( { 0.0, 0.05, 0.2 } );
		G.budget = -std::log( 1.0 - r.unit() ) * G.mean + 1;
		G.since_switch = 0; G.fair = 20000; G.step_cap = 30000000;
		if ( rc.phase == 0 ) { G.mono = 1000000000ll * 5000; G.real_off = 1700000000ll * 1000000000ll - G.mono; }
		else { G.mono = SH->mono; G.real_off = SH->real - SH->mono; }
		G.tick = 1000; G.mem_cap = 256u << 20; G.race_on = true; G.thread_limit = -1; G.seqno = 0; G.thread_fail_p = 0;
		SH->phase = rc.phase;
		for ( auto*& gran : grans ) if ( !gran ) gran = (Gran*)mmap( nullptr, NGRAN * sizeof( Gran ), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
		if ( !hshadow ) {
			hshadow = (uint8_t*)mmap( nullptr, ARENA_SZ / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
			void* p = mmap( (void*)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0 );
			if ( p != (void*)ARENA ) { fprintf( stderr, "xosim: cannot map the arena\n" ); _exit( 3 ); }
			hbrk = ARENA + 64;
		}
		if ( !key_made ) { pthread_key_create( &exit_key, thread_exit_hook ); key_made = true; }
		set_stack_range( G.th[0] );
		vfs_reset();
		if ( rc.phase > 0 ) vfs_restore( SH->vfs, SH->vfs_len );
		setup_altstack();
		struct sigaction sa{}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_RESETHAND;
		for ( int s : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPROF } ) sigaction( s, &sa, nullptr );
		struct itimerval tv{}; tv.it_value.tv_sec = 60; setitimer( ITIMER_PROF, &tv, nullptr );
		std::set_terminate( on_terminate );
		rt_active = 1;
		tls.in_rt = 0;
	}
	void rt_finish()
	{
		tls.in_rt = 1;
		if ( tls.id != 0 ) fail( "internal", "finish on thread %d", tls.id );
		trace( "end: %llu steps, %llu allocations, %llu live", (unsigned long long)SH->steps, (unsigned long long)htotal, (unsigned long long)hlive );
		hash_u64( SH->steps ); hash_u64( G.mono ); hash_u64( htotal ); hash_u64( hlive );
		die( 1 );
	}

	static void thread_exit_hook( void* p )
	{
		tls.in_rt++;
		Thread& t = *(Thread*)p;
		trace( "thread t%d ends", t.id );
		tick();
		t.st = DONE; G.nalive--; G.nrun--;
		wake_all( &t, 5, 5 );
		Thread* n = pick_forced();
		hand_to( n );
	}
	static void* thread_main( void* a )
	{
		Thread& t = *(Thread*)a;
		tls.in_rt = 1; tls.id = t.id;
		wait_turn( &t );
		set_stack_range( t );
		setup_altstack();
		pthread_setspecific( exit_key, &t );
		trace( "thread t%d starts", t.id );
		tls.in_rt = 0;
		void* r = t.fn( t.arg );
		t.ret = r;
		return r;
	}
}

using namespace sim;

extern "C"
{
	void rt_enter( void ) { tls.in_rt++; }
	void rt_leave( void ) { tls.in_rt--; }
	int rt_on( void ) { return rt_active && !tls.in_rt; }
	int rt_tid( void ) { return tls.id; }
	void* rt_real( const char* name ) { void* p = dlsym( RTLD_NEXT, name ); if ( !p ) { fprintf( stderr, "xosim: no symbol %s\n", name ); _exit( 3 ); } return p; }
	void rt_forget( const void* p, size_t n ) {
		if ( !G.multi || tls.id != G.cur ) return;
		if ( tls.in_rt ) race_forget( (uintptr_t)p, n ); // memory of the driver that library code gets to see, such as directory entries
		else { Enter e; race_forget( (uintptr_t)p, n ); }
	}
	void rt_range( const void* p, size_t n, int w, void* pc ) { on_range( (uintptr_t)p, n, w ? F_WRITE : 0, pc ); }

	void rt_io_point( const char* why )
	{
		// called inside Enter
		if ( tls.quiet ) return;
		SH->ioops++;
		if ( ++SH->steps > G.step_cap ) step_cap_hit();
		move_clock( G.tick );
		sched_point( G.w_sync );
		if ( me().crash_p > 0 && choose( "crash", 2, me().crash_p ) ) {
			count_fault( "process_crash" );
			trace( "process crash at %s", why );
			hash_u64( 0xC4A54 );
			std::string s; vfs_serialize( s );
			if ( s.size() > sizeof SH->vfs ) fail( "internal", "vfs snapshot too large" );
			memcpy( SH->vfs, s.data(), s.size() ); SH->vfs_len = s.size();
			die( 3 );
		}
	}

	// ---------------------------------------------------------------- threads
	int rt_thread_create( unsigned long* out, void* ( *fn )( void* ), void* arg )
	{
		Enter e;
		sched_point( G.w_sync );
		if ( G.thread_limit >= 0 && G.nalive - 1 >= G.thread_limit ) { count_fault( "thread_create_eagain" ); return EAGAIN; }
		if ( G.thread_fail_p > 0 && choose( "f:thread", 2, G.thread_fail_p ) ) { count_fault( "thread_create_eagain" ); return EAGAIN; }
		if ( G.nth >= MAXT ) {
			// recycle is not supported: behave as if out of threads
			probe( "sim_thread_limit" );
			return EAGAIN;
		}
		int id = G.nth;
		Thread& t = G.th[id];
		memset( &t, 0, sizeof t );
		t.id = id; t.fn = fn; t.arg = arg; t.joiner = -1;
		t.vc = me().vc; t.vc.c[id] = 1; tick();
		pthread_attr_t at; pthread_attr_init( &at ); pthread_attr_setstack( &at, rt_stack( id ), STACK_SZ ); pthread_attr_setdetachstate( &at, PTHREAD_CREATE_DETACHED );
		static auto real = (int ( * )( pthread_t*, const pthread_attr_t*, void* ( * )( void* ), void* ))rt_real( "pthread_create" );
		pthread_t pt;
		int r = real( &pt, &at, thread_main, &t );
		pthread_attr_destroy( &at );
		if ( r ) fail( "internal", "real pthread_create failed: %d", r );
		t.st = RUN;
		G.nth++; G.nalive++; G.nrun++; G.multi = true;
		if ( G.nalive > SH->maxthreads ) SH->maxthreads = G.nalive;
		*out = id + 1;
		trace( "creates t%d", id );
		hash_u64( 0x7C + id );
		sched_point( G.w_sync );
		return 0;
	}
	int rt_thread_join( unsigned long th, void** ret )
	{
		Enter e;
		sched_point( G.w_sync );
		int id = (int)th - 1;
		if ( id < 0 || id >= G.nth ) return ESRCH;
		Thread& t = G.th[id];
		if ( id == tls.id ) return EDEADLK;
		while ( t.st != DONE ) block( 5, &t, -1 );
		acquire( t.vc );
		t.joined = true;
		if ( ret ) *ret = t.ret;
		return 0;
	}
	int rt_thread_detach( unsigned long ) { return 0; }
	unsigned long rt_thread_self( void ) { return (unsigned long)tls.id + 1; }

	// ---------------------------------------------------------------- mutex
	static inline void sync_addr_check( void* m ) { heap_check( (uintptr_t)m, 1, F_WRITE, __builtin_return_address( 0 ) ); }
	int rt_mutex_lock( void* m, int recursive, int try_only, int64_t deadline )
	{
		Enter e;
		if ( tls.quiet ) return 0;
		sync_addr_check( m );
		sched_point( G.w_sync );
		sync_addr_check( m );
		SyncObj& s = so( m );
		if ( s.owner == tls.id && recursive ) { s.rec++; return 0; }
		while ( s.owner >= 0 ) {
			if ( try_only ) return EBUSY;
			if ( s.owner == tls.id && deadline < 0 ) fail( "deadlock", "t%d locks a mutex it already holds", tls.id );
			if ( block( 1, m, deadline ) && s.owner >= 0 ) return ETIMEDOUT;
		}
		s.owner = tls.id; s.rec = 1;
		acquire( s.rel );
		return 0;
	}
	int rt_mutex_unlock( void* m )
	{
		Enter e;
		if ( tls.quiet ) return 0;
		sync_addr_check( m );
		SyncObj& s = so( m );
		if ( s.owner != tls.id ) fail( "lock-misuse", "t%d unlocks a mutex it does not hold", tls.id );
		if ( --s.rec == 0 ) {
			s.owner = -1;
			s.rel.join( me().vc ); tick();
			wake_all( m, 1, 1 );
		}
		sched_point( G.w_sync );
		return 0;
	}
	int rt_rw_lock( void* m, int write, int try_only, int64_t deadline )
	{
		Enter e;
		if ( tls.quiet ) return 0;
		sync_addr_check( m );
		sched_point( G.w_sync );
		sync_addr_check( m );
		SyncObj& s = so( m );
		if ( write ) {
			while ( s.owner >= 0 || s.readers > 0 ) {
				if ( try_only ) return EBUSY;
				if ( deadline < 0 && ( s.owner == tls.id || s.rd[tls.id] ) ) fail( "deadlock", "t%d takes an exclusive lock on a shared_mutex it already holds", tls.id );
				if ( block( 3, m, deadline ) && ( s.owner >= 0 || s.readers > 0 ) ) return ETIMEDOUT;
			}
			s.owner = tls.id; acquire( s.rel ); acquire( s.rrel );
		}
		else {
			while ( s.owner >= 0 ) {
				if ( try_only ) return EBUSY;
				if ( deadline < 0 && s.owner == tls.id ) fail( "deadlock", "t%d takes a shared lock on a shared_mutex it holds exclusively", tls.id );
				if ( block( 2, m, deadline ) && s.owner >= 0 ) return ETIMEDOUT;
			}
			s.readers++; s.rd[tls.id]++; acquire( s.rel );
		}
		return 0;
	}
	int rt_rw_unlock( void* m )
	{
		Enter e;
		if ( tls.quiet ) return 0;
		sync_addr_check( m );
		SyncObj& s = so( m );
		if ( s.owner == tls.id ) { s.owner = -1; s.rel.join( me().vc ); s.rrel.join( me().vc ); }
		else if ( s.rd[tls.id] ) { s.rd[tls.id]--; s.readers--; s.rrel.join( me().vc ); }
		else fail( "lock-misuse", "t%d unlocks a shared_mutex it does not hold", tls.id );
		tick();
		wake_all( m, 2, 3 );
		sched_point( G.w_sync );
		return 0;
	}
	int rt_cond_wait( void* c, void* m, int64_t deadline )
	{
		Enter e;
		SyncObj& s = so( m );
		int rec = s.rec;
		if ( s.owner != tls.id ) fail( "lock-misuse", "condition wait without holding the mutex" );
		s.owner = -1; s.rel.join( me().vc ); tick(); wake_all( m, 1, 1 );
		bool to = false;
		if ( choose( "spurious_wakeup", 2, 0.03 ) ) { count_fault( "spurious_wakeup" ); sched_point( G.w_sync ); }
		else to = block( 4, c, deadline );
		while ( s.owner >= 0 ) block( 1, m, -1 );
		s.owner = tls.id; s.rec = rec; acquire( s.rel ); acquire( so( c ).rel );
		return to ? ETIMEDOUT : 0;
	}
	void rt_cond_wake( void* c, int all )
	{
		Enter e;
		sched_point( G.w_sync );
		so( c ).rel.join( me().vc ); tick();
		if ( all ) { wake_all( c, 4, 4 ); return; }
		Thread* w[MAXT]; int n = 0;
		for ( int i = 0; i < G.nth; ++i ) if ( G.th[i].st == BLOCKED && G.th[i].bkind == 4 && G.th[i].baddr == (uintptr_t)c ) w[n++] = &G.th[i];
		if ( n ) { auto* t = w[choose_uniform( "signal", n )]; t->st = RUN; G.nrun++; }
	}
	int rt_once( void* flag, void ( *fn )( void ) )
	{
		int* f = (int*)flag;
		{
			Enter e;
			sched_point( G.w_sync );
			while ( *f == 1 ) block( 8, flag, -1 );
			if ( *f == 2 ) { acquire( so( flag ).rel ); return 0; }
			*f = 1;
		}
		try { fn(); }
		catch ( ... ) { { Enter e; *f = 0; wake_all( flag, 8, 8 ); } throw; }
		Enter e;
		*f = 2;
		so( flag ).rel.join( me().vc ); tick();
		wake_all( flag, 8, 8 );
		sched_point( G.w_sync );
		return 0;
	}
	long rt_futex( void* addr, int op, int val, const struct timespec* ts, unsigned bitset, int is_realtime )
	{
		Enter e;
		(void)bitset;
		int cmd = op & 0x7f;
		sched_point( G.w_sync );
		if ( cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET ) {
			if ( *(volatile int*)addr != val ) { errno = EAGAIN; return -1; }
			int64_t dl = -1;
			if ( ts ) {
				int64_t v = (int64_t)ts->tv_sec * 1000000000 + ts->tv_nsec;
				dl = cmd == FUTEX_WAIT ? G.mono + v : ( is_realtime ? v - G.real_off : v );
				if ( dl < 0 ) dl = 0;
			}
			if ( block( 6, addr, dl ) ) { errno = ETIMEDOUT; return -1; }
			acquire( so( addr ).rel );
			return 0;
		}
		if ( cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET ) {
			so( addr ).rel.join( me().vc ); tick();
			int n = 0;
			for ( int i = 0; i < G.nth && n < val; ++i ) if ( G.th[i].st == BLOCKED && G.th[i].bkind == 6 && G.th[i].baddr == (uintptr_t)addr ) { G.th[i].st = RUN; G.nrun++; ++n; }
			return n;
		}
		errno = ENOSYS; return -1;
	}
	void rt_yield( void )
	{
		Enter e;
		if ( !G.multi ) return;
		Thread& t = me(); t.pcount++; SH->points++;
		if ( G.nrun < 2 ) { move_clock( 1000 ); return; }
		Thread* n = next_cyclic( tls.id );
		int ti = tag_index( ptag( "yield" ).c_str() ); uint32_t occ = ++G.occ[ti];
		unsigned v = 0;
		if ( G.rc.replay ) v = replay_value( ti, occ );
		else { Thread* c[MAXT]; int k = 0; for ( int i = 0; i < G.nth; ++i ) if ( G.th[i].st == RUN && i != tls.id ) c[k++] = &G.th[i]; auto* x = c[G.rng.below( k )]; v = x == n ? 0 : x->id + 1; }
		if ( v && (int)v <= G.nth && G.th[v - 1].st == RUN ) n = &G.th[v - 1];
		record( ti, occ, v );
		switch_to( n );
	}
	void rt_sleep( int64_t ns ) { Enter e; if ( ns <= 0 ) { sched_point( G.w_sync ); return; } block( 7, &me(), G.mono + ns ); }
	int rt_guard_acquire( void* g )
	{
		char* b = (char*)g;
		Enter e;
		sched_point( G.w_sync );
		while ( b[1] && !b[0] ) block( 9, g, -1 );
		acquire( so( g ).rel );	// also after an aborted initialization
		if ( b[0] ) return 0;
		b[1] = 1;
		return 1;
	}
	void rt_guard_release( void* g, int ok )
	{
		Enter e;
		char* b = (char*)g;
		b[1] = 0;
		if ( ok ) b[0] = 1;
		so( g ).rel.join( me().vc ); tick();
		wake_all( g, 9, 9 );
		sched_point( G.w_sync );
	}
	int64_t rt_clock_read( int realtime )
	{
		Enter e;
		if ( !tls.quiet ) { move_clock( G.tick ); if ( ++SH->steps > G.step_cap ) step_cap_hit(); sched_point( G.w_sync ); }
		return realtime ? G.mono + G.real_off : G.mono;
	}
	int64_t rt_deadline( int realtime, const struct timespec* ts ) { int64_t v = (int64_t)ts->tv_sec * 1000000000 + ts->tv_nsec; v = realtime ? v - G.real_off : v; return v < 0 ? 0 : v; }

	// ---------------------------------------------------------------- compiler instrumentation entry points
#define PC __builtin_return_address( 0 )
	void __tsan_init( void ) {}
	void __tsan_func_entry( void* ) { if ( rt_active && !tls.in_rt && !tls.quiet && ++SH->steps > G.step_cap ) { tls.in_rt = 1; step_cap_hit(); } }
	void __tsan_func_exit( void ) {}
#define RW( n_ ) \
	void __tsan_read##n_( void* a ) { on_access( (uintptr_t)a, n_, 0, PC ); } \
	void __tsan_write##n_( void* a ) { on_access( (uintptr_t)a, n_, F_WRITE, PC ); } \
	void __tsan_unaligned_read##n_( void* a ) { on_access( (uintptr_t)a, n_, 0, PC ); } \
	void __tsan_unaligned_write##n_( void* a ) { on_access( (uintptr_t)a, n_, F_WRITE, PC ); } \
	void __tsan_volatile_read##n_( void* a ) { on_access( (uintptr_t)a, n_, 0, PC ); } \
	void __tsan_volatile_write##n_( void* a ) { on_access( (uintptr_t)a, n_, F_WRITE, PC ); }
	RW( 1 ) RW( 2 ) RW( 4 ) RW( 8 ) RW( 16 )
	void __tsan_read_range( void* a, size_t n ) { on_range( (uintptr_t)a, n, 0, PC ); }
	void __tsan_write_range( void* a, size_t n ) { on_range( (uintptr_t)a, n, F_WRITE, PC ); }
	void __tsan_vptr_read( void** a ) { on_access( (uintptr_t)a, 8, 0, PC ); }
	void __tsan_vptr_update( void** a, void* v ) { on_access( (uintptr_t)a, 8, *a != v ? F_WRITE : 0, PC ); }	// counted in any case: what was there before may be left-over addresses, which differ between processes

	static inline bool acq( int mo ) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
	static inline bool rel( int mo ) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
	// kind: 0 load 1 store 2 rmw
	struct AtomicScope {
		bool on; 
		AtomicScope( const volatile void* a, size_t n, int mo, int kind, void* pc )
		{
			on = rt_active && !tls.in_rt && !tls.quiet;
			if ( !on ) return;
			tls.in_rt = 1;
			if ( ++SH->steps > G.step_cap ) step_cap_hit();
			heap_check( (uintptr_t)a, n, kind ? F_WRITE : 0, pc );
			if ( G.multi ) {
				sched_point( G.w_sync );
				heap_check( (uintptr_t)a, n, kind ? F_WRITE : 0, pc );
				race_check( (uintptr_t)a, n, F_ATOMIC | ( kind ? F_WRITE : 0 ), pc );
				SyncObj& s = so( (const void*)a );
				if ( kind != 1 && acq( mo ) ) acquire( s.rel );
				if ( kind == 1 ) { if ( rel( mo ) ) s.rel = me().vc; else memset( &s.rel, 0, sizeof s.rel ); }
				if ( kind == 2 && rel( mo ) ) s.rel.join( me().vc );
				if ( kind && rel( mo ) ) tick();
			}
			else if ( kind && rel( mo ) ) { so( (const void*)a ).rel.join( me().vc ); }
		}
		~AtomicScope() { if ( on ) { if ( G.multi ) sched_point( G.w_sync * 0.5 ); tls.in_rt = 0; } }
	};
#define ATOM( bits_, type_ ) \
	type_ __tsan_atomic##bits_##_load( const volatile type_* a, int mo ) { AtomicScope sc( a, sizeof( type_ ), mo, 0, PC ); return __atomic_load_n( a, __ATOMIC_SEQ_CST ); } \
	void __tsan_atomic##bits_##_store( volatile type_* a, type_ v, int mo ) { AtomicScope sc( a, sizeof( type_ ), mo, 1, PC ); __atomic_store_n( a, v, __ATOMIC_SEQ_CST ); } \
	type_ __tsan_atomic##bits_##_exchange( volatile type_* a, type_ v, int mo ) { AtomicScope sc( a, sizeof( type_ ), mo, 2, PC ); return __atomic_exchange_n( a, v, __ATOMIC_SEQ_CST ); } \
	type_ __tsan_atomic##bits_##_fetch_add( volatile type_* a, type_ v, int mo ) { AtomicScope sc( a, sizeof( type_ ), mo, 2, PC ); return __atomic_fetch_add( a, v, __ATOMIC_SEQ_CST ); } \
	type_ __tsan_atomic##bits_##_fetch_sub( volatile type_* a, type_ v, int mo ) { AtomicScope sc( a, sizeof( type_ ), mo, 2, PC ); return __atomic_fetch_sub( a, v, __ATOMIC_SEQ_CST ); } \
	type_ __tsan_atomic##bits_##_fetch_and( volatile type_* a, type_ v, int mo ) { AtomicScope sc( a, sizeof( type_ ), mo, 2, PC ); return __atomic_fetch_and( a, v, __ATOMIC_SEQ_CST ); } \
	type_ __tsan_atomic##bits_##_fetch_or( volatile type_* a, type_ v, int mo ) { AtomicScope sc( a, sizeof( type_ ), mo, 2, PC ); return __atomic_fetch_or( a, v, __ATOMIC_SEQ_CST ); } \
	type_ __tsan_atomic##bits_##_fetch_xor( volatile type_* a, type_ v, int mo ) { AtomicScope sc( a, sizeof( type_ ), mo, 2, PC ); return __atomic_fetch_xor( a, v, __ATOMIC_SEQ_CST ); } \
	type_ __tsan_atomic##bits_##_fetch_nand( volatile type_* a, type_ v, int mo ) { AtomicScope sc( a, sizeof( type_ ), mo, 2, PC ); return __atomic_fetch_nand( a, v, __ATOMIC_SEQ_CST ); } \
	int __tsan_atomic##bits_##_compare_exchange_strong( volatile type_* a, type_* c, type_ v, int mo, int ) { AtomicScope sc( a, sizeof( type_ ), mo, 2, PC ); return __atomic_compare_exchange_n( a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST ); } \
	int __tsan_atomic##bits_##_compare_exchange_weak( volatile type_* a, type_* c, type_ v, int mo, int ) { AtomicScope sc( a, sizeof( type_ ), mo, 2, PC ); return __atomic_compare_exchange_n( a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST ); } \
	type_ __tsan_atomic##bits_##_compare_exchange_val( volatile type_* a, type_ c, type_ v, int mo, int ) { AtomicScope sc( a, sizeof( type_ ), mo, 2, PC ); __atomic_compare_exchange_n( a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST ); return c; }
	ATOM( 8, uint8_t ) ATOM( 16, uint16_t ) ATOM( 32, uint32_t ) ATOM( 64, uint64_t )
	void __tsan_atomic_thread_fence( int mo )
	{
		if ( !rt_on() || !G.multi ) return;
		Enter e; sched_point( G.w_sync );
		if ( acq( mo ) ) acquire( G.fence );
		if ( rel( mo ) ) { G.fence.join( me().vc ); tick(); }
	}
	void __tsan_atomic_signal_fence( int ) {}
}

// ---------------------------------------------------------------- operator new / delete
void* operator new( size_t n ) { return do_new( n, 0, false ); }
void* operator new[]( size_t n ) { return do_new( n, 0, false ); }
void* operator new( size_t n, const std::nothrow_t& ) noexcept { return do_new( n, 0, true ); }
void* operator new[]( size_t n, const std::nothrow_t& ) noexcept { return do_new( n, 0, true ); }
void* operator new( size_t n, std::align_val_t a ) { return do_new( n, (size_t)a, false ); }
void* operator new[]( size_t n, std::align_val_t a ) { return do_new( n, (size_t)a, false ); }
void operator delete( void* p ) noexcept { do_delete( p, __builtin_return_address( 0 ) ); }
void operator delete[]( void* p ) noexcept { do_delete( p, __builtin_return_address( 0 ) ); }
void operator delete( void* p, size_t ) noexcept { do_delete( p, __builtin_return_address( 0 ) ); }
void operator delete[]( void* p, size_t ) noexcept { do_delete( p, __builtin_return_address( 0 ) ); }
void operator delete( void* p, const std::nothrow_t& ) noexcept { do_delete( p, __builtin_return_address( 0 ) ); }
void operator delete[]( void* p, const std::nothrow_t& ) noexcept { do_delete( p, __builtin_return_address( 0 ) ); }
void operator delete( void* p, std::align_val_t ) noexcept { do_delete( p, __builtin_return_address( 0 ) ); }
void operator delete[]( void* p, std::align_val_t ) noexcept { do_delete( p, __builtin_return_address( 0 ) ); }
void operator delete( void* p, size_t, std::align_val_t ) noexcept { do_delete( p, __builtin_return_address( 0 ) ); }
void operator delete[]( void* p, size_t, std::align_val_t ) noexcept { do_delete( p, __builtin_return_address( 0 ) ); }

// std::random_device becomes part of the decision stream
unsigned int std_random_device_stub() __asm__( "_ZNSt13random_device9_M_getvalEv" );
unsigned int std_random_device_stub() { Enter e; return rt_active ? (unsigned)Rng::mix( G.rc.seed + ++G.seqno ) : 4u; }

// exception objects come from malloc inside libstdc++
extern "C" void* __cxa_allocate_exception( size_t n ) noexcept
{
	static void* ( *real )( size_t ) = ( void* ( * )( size_t ) )dlsym( RTLD_NEXT, "__cxa_allocate_exception" );
	void* p = real( n );
	if ( rt_active && sim::G.multi ) { sim::Enter e; sim::race_forget( (uintptr_t)p, n ); }
	return p;
}
