// C19 containers: every operation is repeated on a simple model, allocations may fail
#include <cstdarg>
#include <cstdio>
#include <cmath>
#include <cstring>
#include <memory>
#include <optional>
#include <sstream>
#include <deque>
#include "scn.h"
#include "xo/container/circular_deque.h"
#include "xo/container/circular_buffer.h"
#include "xo/container/dynarray.h"
#include "xo/container/flat_map.h"
#include "xo/container/flat_set.h"
#include "xo/container/indexed_map.h"
#include "xo/container/indexed_set.h"
#include "xo/container/sorted_vector.h"
#include "xo/container/handle_vector.h"
#include "xo/container/collection.h"
#include "xo/container/label_vector.h"
#include "xo/container/table.h"
#include "xo/container/storage.h"
#include "xo/container/storage_tools.h"
#include "xo/container/prop_node.h"
#include "xo/container/collection_ic.h"
#include "xo/container/flag_set.h"
#include "xo/string/stack_string.h"
#include "xo/utility/optional.h"
#include "xo/utility/result.h"

using namespace sim;

namespace
{
	using S = std::string;
	S str( long i ) { i = ( i % 16 + 16 ) % 16; return i % 2 ? fmt( "key %02ld that needs memory of its own", i ) : fmt( "k%02ld", i ); }
	enum Out { DONE, OOM, ERR };
	const char* out_name[] = { "succeeded", "ran out of memory", "failed" };

	struct Box	// a container with its model
	{
		double nm = 0; int ops = 0; const char* kind = ""; S last;
		virtual ~Box() {}
		virtual void op( const Op& o ) = 0;
		virtual void check() = 0;
		template<class F> Out attempt( const char* what, F f )
		{
			{ Quiet q; last = what; }
			Out r = DONE; AllocFaults a( nm );
			try { f(); } catch ( std::bad_alloc& ) { r = OOM; } catch ( std::exception& ) { r = ERR; }
			return r;
		}
		// the outcome must be DONE, or OOM when memory can run out; returns whether it is DONE
		template<class F> bool must( const char* what, F f )
		{
			Out r = attempt( what, f );
			SIM_CHECK( r == DONE || ( r == OOM && nm > 0 ), "fails", "%s: %s %s", kind, what, out_name[r] );
			if ( r == OOM ) probe( "out_of_memory" );
			return r == DONE;
		}
		template<class F> void must_fail( const char* what, F f )
		{
			Out r = attempt( what, f ); SIM_CHECK( r == ERR || ( r == OOM && nm > 0 ), "accepted", "%s: %s %s", kind, what, out_name[r] ); probe( "refused" );
		}
		void bad( const char* what ) { fail( "wrong-content", "%s is wrong after %s: %s", kind, last.c_str(), what ); }
		void expect( bool b, const char* what ) { if ( !b ) bad( what ); }
	};
#define CHK( c_ ) expect( c_, #c_ )

	struct DequeBox : Box
	{
		using D = xo::circular_deque<S>; using M = std::deque<S>;
		std::optional<D> d[2]; M m[2];
		DequeBox() { kind = "circular_deque"; d[0].emplace(); d[1].emplace( 3 ); }
		void op( const Op& o ) override
		{
			int i = (int)( o.b & 1 ), j = 1 - i; D& x = *d[i]; M& y = m[i]; S s = str( o.c ); size_t n = y.size();
			switch ( o.a % 16 ) {
			case 0: case 1: case 2: case 3: if ( must( "push_back", [&] { x.push_back( s ); } ) ) y.push_back( s ); break;
			case 4: case 5: if ( must( "push_front", [&] { x.push_front( s ); } ) ) y.push_front( s ); break;
			case 6: if ( n && must( "push_back of an element", [&] { x.push_back( x[o.c % n] ); } ) ) y.push_back( S( y[o.c % n] ) ); break;
			case 7: if ( n && must( "push_front of an element", [&] { x.push_front( x[o.c % n] ); } ) ) y.push_front( S( y[o.c % n] ) ); break;
			case 8: if ( n && must( "pop_back", [&] { x.pop_back(); } ) ) y.pop_back(); break;
			case 9: case 10: if ( n && must( "pop_front", [&] { x.pop_front(); } ) ) y.pop_front(); break;
			case 11: if ( o.c % 4 == 0 && must( "clear", [&] { x.clear(); } ) ) y.clear(); break;
			case 12: if ( must( "reserve", [&] { x.reserve( o.c ); } ) ) CHK( x.capacity() >= (size_t)o.c ); break;
			case 13: if ( o.c % 3 ) { if ( must( "copy assignment", [&] { *d[j] = x; } ) ) m[j] = y; } else { if ( must( "self assignment", [&] { x = *&x; } ) ) ; } break;
			case 14: if ( must( "copy construction", [&] { D t( x ); t.push_back( "tmp" ); } ) ) ; break;
			default: if ( o.c % 2 ) { if ( must( "move assignment", [&] { *d[j] = std::move( x ); } ) ) { m[j] = y; must( "clear after move", [&] { x.clear(); } ); y.clear(); } } else { if ( must( "move construction", [&] { D t( std::move( x ) ); *d[j] = std::move( t ); } ) ) { m[j] = y; y.clear(); } }
			}
		}
		void check() override
		{
			for ( int i = 0; i < 2; ++i ) {
				const D& x = *d[i]; M& y = m[i]; CHK( x.size() == y.size() ); CHK( x.empty() == y.empty() ); CHK( x.capacity() >= x.size() );
				for ( size_t k = 0; k < y.size(); ++k ) CHK( x[k] == y[k] );
				if ( y.size() ) { CHK( x.front() == y.front() ); CHK( x.back() == y.back() ); CHK( d[i]->front() == y.front() ); CHK( d[i]->back() == y.back() ); }
				size_t k = 0; for ( auto it = x.begin(); it != x.end(); ++it ) { CHK( k < y.size() ); CHK( *it == y[k] ); ++k; } CHK( k == y.size() );
				k = 0; for ( auto& e : *d[i] ) { CHK( k < y.size() ); CHK( e == y[k] ); ++k; } CHK( k == y.size() );
			}
		}
	};

	struct BufferBox : Box
	{
		using B = xo::circular_buffer<double>; B b; size_t fr = 0, ch = 0, in = 0, out = 0; std::vector<std::optional<double>> v;
		BufferBox() : b( 0, 0 ) { kind = "circular_buffer"; }
		void fit( size_t f, size_t c ) { fr = f; ch = c; v.assign( f * c, {} ); }
		void op( const Op& o ) override
		{
			double x = o.c * 0.5;
			switch ( o.a % 12 ) {
			case 0: case 1: {
				size_t f = o.b % 5, c = o.c % 4;
				if ( in != out ) must_fail( "resize of a buffer in use", [&] { b.resize( f, c ); } );
				else if ( in * std::max<size_t>( c, 1 ) < std::max<size_t>( f * c, 1 ) && in == 0 ) { if ( must( "resize", [&] { b.resize( f, c ); } ) ) fit( f, c ); }
				break; }
			case 2: if ( in == out && in == 0 ) { xo::index_t r = 0; if ( must( "add_channel", [&] { r = b.add_channel(); } ) ) { CHK( r == ch ); fit( fr, ch + 1 ); } } else if ( in != out ) must_fail( "add_channel of a buffer in use", [&] { b.add_channel(); } ); break;
			case 3: if ( in == out && in == 0 ) { xo::index_t r = 0; if ( must( "add_frame", [&] { r = b.add_frame(); } ) ) { CHK( r == fr ); fit( fr + 1, ch ); } } else if ( in != out ) must_fail( "add_frame of a buffer in use", [&] { b.add_frame(); } ); break;
			case 4: case 5: case 6: case 7: if ( fr && ch ) { size_t c = o.b % ch; must( "set", [&] { if ( o.a % 2 ) b.set( c, x ); else b.back( c ) = x; } ); v[in * ch + c] = x; } break;
			case 8: case 9: if ( fr && ch ) { must( "advance", [&] { b.advance(); } ); in = ( in + 1 ) % fr; if ( in == out ) out = ( out + 1 ) % fr; } break;
			case 10: if ( fr && ch && o.b % 2 ) { must( "clear_back", [&] { b.clear_back( x ); } ); for ( size_t c = 0; c < ch; ++c ) v[in * ch + c] = x; } break;
			default: if ( o.b % 3 == 0 ) { must( "reset", [&] { b.reset(); } ); in = out = 0; for ( auto& e : v ) e = 0.0; }
			}
		}
		void check() override
		{
			CHK( b.capacity() == fr ); CHK( b.empty() == ( in == out ) );
			for ( size_t c = 0; fr && c < ch; ++c ) { auto o = v[out * ch + c], i = v[in * ch + c]; if ( o ) { CHK( b.get( c ) == *o ); CHK( b.front( c ) == *o ); } if ( i ) CHK( std::as_const( b ).back( c ) == *i ); }
		}
	};

	struct ArrayBox : Box
	{
		using A = xo::dynarray<S>; using M = std::vector<S>; A a[2]; M m[2];
		ArrayBox() { kind = "dynarray"; }
		void op( const Op& o ) override
		{
			int i = (int)( o.b & 1 ), j = 1 - i; A& x = a[i]; M& y = m[i]; S s = str( o.c ); size_t n = o.c % 7;
			switch ( o.a % 11 ) {
			case 0: case 1: if ( must( "resize", [&] { x.resize( n, s ); } ) ) y.assign( n, s ); break;
			case 2: if ( y.size() ) { S e = y[o.c % y.size()]; if ( must( "resize with an element", [&] { x.resize( n, x[o.c % y.size()] ); } ) ) y.assign( n, e ); } break;
			case 3: if ( must( "construction", [&] { a[j] = A( n, s ); } ) ) m[j].assign( n, s ); break;
			case 4: if ( must( "copy assignment", [&] { a[j] = x; } ) ) m[j] = y; break;
			case 5: must( "self assignment", [&] { x = *&x; } ); break;
			case 6: if ( must( "move assignment", [&] { a[j] = std::move( x ); } ) ) { m[j] = y; y.clear(); } break;
			case 7: if ( y.size() ) { size_t k = o.c % y.size(); if ( must( "element assignment", [&] { x[k] = s; } ) ) y[k] = s; } break;
			case 8: if ( must( "copy construction", [&] { A t( x ); a[j] = std::move( t ); } ) ) m[j] = y; break;
			case 9: if ( o.c % 4 == 0 ) { must( "clear", [&] { x.clear(); } ); y.clear(); } break;
			default: must_fail( "at() beyond the end", [&] { x.at( y.size() + o.c % 3 ); } );
			}
		}
		void check() override
		{
			for ( int i = 0; i < 2; ++i ) { A& x = a[i]; M& y = m[i]; CHK( x.size() == y.size() ); CHK( x.empty() == y.empty() ); size_t k = 0; for ( auto& e : x ) { CHK( e == y[k] ); CHK( std::as_const( x )[k] == y[k] ); CHK( x.at( k ) == y[k] ); ++k; } CHK( k == y.size() ); }
			CHK( ( a[0] == a[1] ) == ( m[0] == m[1] ) );
		}
	};

	template<class C, class M, bool MAP> struct FlatBox : Box
	{
		C c[2]; M m[2];
		static const S& key( const S& s ) { return s; } template<class P> static const S& key( const P& p ) { return p.first; }
		FlatBox() { kind = MAP ? "flat_map" : "flat_set"; }
		void op( const Op& o ) override
		{
			int i = (int)( o.b & 1 ), j = 1 - i; C& x = c[i]; M& y = m[i]; S s = str( o.c ), v = str( o.b * 3 + o.c ); auto it = y.lower_bound( s ); long pos = std::distance( y.begin(), it ); bool has = it != y.end() && key( *it ) == s;
			switch ( o.a % 12 ) {
			case 0: case 1: case 2: {
				bool fresh = false; long at = -1; auto f = [&] { if constexpr ( MAP ) { if ( o.b & 2 ) { auto r = x.insert( { s, v } ); fresh = r.second; at = r.first - x.begin(); } else { const xo::pair<S, S> e( s, v ); auto r = x.insert( e ); fresh = r.second; at = r.first - x.begin(); } } else { auto r = o.b & 2 ? x.insert( S( s ) ) : x.insert( s ); fresh = r.second; at = r.first - x.begin(); } };
				if ( must( "insert", f ) ) { CHK( fresh == !has ); CHK( at == pos ); if constexpr ( MAP ) y.insert( { s, v } ); else y.insert( s ); } break; }
			case 3: if constexpr ( MAP ) { S* r = nullptr; if ( must( "operator[]", [&] { r = &x[s]; } ) ) { CHK( *r == ( has ? y[s] : "" ) ); y[s]; if ( must( "assignment to operator[]", [&] { *r = v; } ) ) y[s] = v; } } break;
			case 4: case 5: { size_t n = 9; if ( must( "erase", [&] { n = x.erase( s ); } ) ) { CHK( n == (size_t)has ); y.erase( s ); } break; }
			case 6: if ( has ) { long at = -1; if ( must( "erase of an iterator", [&] { at = x.erase( x.find( s ) ) - x.begin(); } ) ) { CHK( at == pos ); y.erase( s ); } } break;
			case 7: {
				const C& cx = x; long p = std::distance( y.begin(), y.upper_bound( s ) );
				CHK( x.lower_bound( s ) - x.begin() == pos ); CHK( cx.lower_bound( s ) - cx.begin() == pos ); CHK( x.upper_bound( s ) - x.begin() == p ); CHK( cx.upper_bound( s ) - cx.begin() == p );
				CHK( ( x.find( s ) != x.end() ) == has ); CHK( ( cx.find( s ) != cx.end() ) == has ); CHK( cx.count( s ) == (size_t)has ); CHK( cx.contains( s ) == has ); if ( has ) CHK( cx.find( s ) - cx.begin() == pos );
				if constexpr ( MAP ) { if ( has ) { CHK( cx.at( s ) == y[s] ); CHK( cx[s] == y[s] ); } else { must_fail( "at() of a missing key", [&] { x.at( s ); } ); must_fail( "at() of a missing key", [&] { cx.at( s ); } ); } }
				break; }
			case 8: if ( must( "copy assignment", [&] { c[j] = x; } ) ) m[j] = y; else resync( j ); break;
			case 9: if ( must( "move assignment", [&] { c[j] = std::move( x ); } ) ) { m[j] = y; x.clear(); y.clear(); } break;
			case 10: {
				if constexpr ( MAP ) { if ( must( "construction from a list", [&] { C t{ { s, "1" }, { str( o.c + 1 ), "2" }, { str( o.c + 14 ), v }, { str( o.b ), "4" }, { s, "5" } }; c[j] = std::move( t ); } ) ) { M t{ { s, "1" }, { str( o.c + 1 ), "2" }, { str( o.c + 14 ), v }, { str( o.b ), "4" }, { s, "5" } }; m[j] = t; } }
				else if ( must( "construction from a list", [&] { C t{ s, str( o.c + 1 ), str( o.c + 14 ), str( o.b ), s }; c[j] = std::move( t ); } ) ) { M t{ s, str( o.c + 1 ), str( o.c + 14 ), str( o.b ), s }; m[j] = t; }
				break; }
			default: if ( o.c % 4 == 0 ) { must( "clear", [&] { x.clear(); } ); y.clear(); } else must( "reserve", [&] { x.reserve( o.c ); } );
			}
		}
		void resync( int j ) { m[j].clear(); c[j].clear(); }	// an assignment that failed may leave anything valid
		void check() override
		{
			for ( int i = 0; i < 2; ++i ) {
				const C& x = c[i]; M& y = m[i]; CHK( x.size() == y.size() ); CHK( x.empty() == y.empty() ); auto it = y.begin();
				for ( auto& e : x ) { CHK( key( e ) == key( *it ) ); if constexpr ( MAP ) CHK( e.second == it->second ); ++it; } CHK( it == y.end() );
				if ( y.size() ) { CHK( key( x.front() ) == key( *y.begin() ) ); CHK( key( x.back() ) == key( *y.rbegin() ) ); CHK( key( *c[i].rbegin() ) == key( *y.rbegin() ) ); }
			}
		}
	};
	using MapBox = FlatBox<xo::flat_map<S, S>, std::map<S, S>, true>;
	using SetBox = FlatBox<xo::flat_set<S>, std::set<S>, false>;

	struct IndexedMapBox : Box
	{
		using C = xo::indexed_map<S, S>; C x; std::vector<std::pair<S, S>> y;
		IndexedMapBox() { kind = "indexed_map"; }
		void op( const Op& o ) override
		{
			S s = str( o.c ), v = str( o.b + o.c ); size_t p = 0; while ( p < y.size() && y[p].first != s ) ++p; bool has = p < y.size();
			switch ( o.a % 7 ) {
			case 0: case 1: { bool fresh = false; size_t at = 99; if ( must( "insert", [&] { auto r = x.insert( { s, v } ); fresh = r.second; at = r.first - x.begin(); } ) ) { CHK( fresh == !has ); CHK( at == p ); if ( has ) y[p].second = v; else y.push_back( { s, v } ); } break; }
			case 2: case 3: { S* r = nullptr; if ( must( "operator[]", [&] { r = &x[s]; } ) ) { if ( !has ) y.push_back( { s, "" } ); CHK( *r == y[p].second ); if ( must( "assignment to operator[]", [&] { *r = v; } ) ) y[p].second = v; } break; }
			case 4: { const C& cx = x; CHK( size_t( x.find( s ) - x.begin() ) == p ); CHK( size_t( cx.find( s ) - cx.begin() ) == p ); CHK( cx.contains( s ) == has ); if ( has ) CHK( cx[s] == y[p].second ); else must_fail( "access of a missing key", [&] { cx[s]; } ); break; }
			case 5: if ( has ) { must( "erase", [&] { x.erase( x.begin() + p ); } ); y.erase( y.begin() + p ); } break;
			default: if ( o.b % 6 == 0 ) { must( "clear", [&] { x.clear(); } ); y.clear(); } else must( "reserve", [&] { x.reserve( o.b ); } );
			}
		}
		void check() override { CHK( x.size() == y.size() ); size_t k = 0; for ( auto& e : x ) { CHK( k < y.size() ); CHK( e.first == y[k].first ); CHK( e.second == y[k].second ); CHK( x[k].first == e.first ); ++k; } CHK( k == y.size() ); }
	};

	template<class I> struct IndexedSetBox : Box
	{
		xo::indexed_set<S, I> x; std::vector<S> y;
		IndexedSetBox() { kind = "indexed_set"; }
		void add( const S& s )
		{
			size_t p = 0; { Quiet q; while ( p < y.size() && y[p] != s ) ++p; } I r{};
			if ( p == y.size() && y.size() >= size_t( std::numeric_limits<I>::max() ) ) { must_fail( "get_or_add with all indices used", [&] { x.get_or_add( s ); } ); return; }
			if ( must( "get_or_add", [&] { r = x.get_or_add( s ); } ) ) { CHK( size_t( r ) == p ); if ( p == y.size() ) y.push_back( s ); }
		}
		void op( const Op& o ) override
		{
			S s = str( o.c );
			switch ( o.a % 6 ) {
			case 0: case 1: case 2: add( s ); break;
			case 3: if ( o.b % 4 == 0 ) for ( int i = 0; i < 40; ++i ) add( fmt( "n%02ld", ( o.c * 9 + i ) % 200 ) ); break;
			case 4: { size_t p = 0; while ( p < y.size() && y[p] != s ) ++p; auto r = x.try_get( s ); CHK( bool( r ) == ( p < y.size() ) ); if ( r ) CHK( size_t( *r ) == p ); break; }
			default: if ( o.b % 12 == 0 ) { must( "clear", [&] { x.clear(); } ); y.clear(); }
			}
		}
		void check() override { CHK( x.size() == y.size() ); for ( size_t i = 0; i < y.size(); ++i ) CHK( x[I( i )] == y[i] ); for ( size_t i = 0; i < y.size(); i += 1 + y.size() / 8 ) { auto r = x.try_get( y[i] ); CHK( r && size_t( *r ) == i ); } }
	};

	struct SortedBox : Box
	{
		using C = xo::sorted_vector<S>; C x; std::vector<S> y;
		SortedBox() { kind = "sorted_vector"; }
		void op( const Op& o ) override
		{
			S s = str( o.c ); long lo = std::lower_bound( y.begin(), y.end(), s ) - y.begin(), hi = std::upper_bound( y.begin(), y.end(), s ) - y.begin();
			switch ( o.a % 6 ) {
			case 0: case 1: case 2: { long at = -1; if ( must( "insert", [&] { auto it = x.insert( s ); at = it - x.begin(); } ) ) { y.insert( y.begin() + hi, s ); CHK( at >= lo && at <= hi ); } break; }
			case 3: { long at = -1; if ( must( "remove", [&] { at = x.remove( s ) - x.begin(); } ) ) { y.erase( y.begin() + lo, y.begin() + hi ); CHK( at == ( lo < hi ? lo : (long)y.size() ) ); } break; }
			case 4: { const C& cx = x; long want = lo < hi ? lo : (long)y.size(); CHK( x.find( s ) - x.begin() == want ); CHK( cx.find( s ) - cx.begin() == want ); break; }
			default: if ( o.b % 6 == 0 ) { if ( must( "construction from a list", [&] { x = C{ s, str( o.b ), str( o.c + 3 ), s }; } ) ) { y = { s, str( o.b ), str( o.c + 3 ), s }; std::sort( y.begin(), y.end() ); } } else if ( y.size() ) { size_t k = o.b % y.size(); must( "erase", [&] { x.erase( x.begin() + k ); } ); y.erase( y.begin() + k ); }
			}
		}
		void check() override { CHK( x.size() == y.size() ); for ( size_t i = 0; i < y.size(); ++i ) CHK( x[i] == y[i] ); }
	};

	struct HandleBox : Box
	{
		using C = xo::handle_vector<S>; using H = C::handle_type; C x; std::vector<S> y; std::vector<std::pair<H, S>> held;	// handles the user keeps, with what they stand for
		HandleBox() { kind = "handle_vector"; }
		static H at( size_t i ) { return H( xo::uint32( i ) ); }
		void op( const Op& o ) override
		{
			S s = str( o.c ); size_t n = y.size();
			switch ( o.a % 9 ) {
			case 0: case 1: case 2: {
				H h; if ( must( "push_back", [&] { if ( o.b % 3 == 0 ) h = x.push_back( s ); else if ( o.b % 3 == 1 ) h = x.push_back( S( s ) ); else h = x.emplace_back( s ); } ) ) { y.push_back( s ); CHK( h.value() == n ); CHK( x[h] == s ); CHK( x.back_handle() == h ); CHK( *x.iter( h ) == s ); if ( held.size() < 8 ) { bool dup = false; for ( auto& q : held ) dup |= q.first == h; if ( !dup ) held.push_back( { h, s } ); } }
				break; }
			case 3: if ( n ) { size_t k = o.b % n; H r; must( "erase", [&] { r = x.erase( at( k ) ); } ); moved( k, 1 ); y.erase( y.begin() + k ); CHK( r.value() == k ); } break;
			case 4: if ( n ) { size_t a = o.b % n, e = a + o.c % ( n - a + 1 ); H r; must( "erase of a span", [&] { r = x.erase( C::handle_span_type( at( a ), at( e ) ) ); } ); moved( a, e - a ); y.erase( y.begin() + a, y.begin() + e ); CHK( r.value() == a ); } break;
			case 5: { size_t p = std::find( y.begin(), y.end(), s ) - y.begin(); H h = x.find( s ); CHK( bool( h ) == ( p < n ) ); if ( h ) CHK( h.value() == p ); H g = x.handle_from_iterator( x.begin() + p ); CHK( bool( g ) == ( p < n ) ); if ( g ) CHK( g == h ); break; }
			case 6: { CHK( x.contains( at( o.b ) ) == ( size_t( o.b ) < n ) ); CHK( !x.contains( H() ) ); CHK( !H() ); CHK( x.end_handle().value() == n ); H h = at( o.b ), m = std::move( h ); CHK( m.value() == xo::uint32( o.b ) ); CHK( !h ); break; }
			case 7: if ( n ) { must( "pop_back", [&] { x.pop_back(); } ); moved( n - 1, 1 ); y.pop_back(); } break;
			default: if ( o.b % 8 == 0 ) { must( "clear", [&] { x.clear(); } ); y.clear(); held.clear(); }
			}
		}
		// handles after an erased part follow their element
		void moved( size_t first, size_t n )
		{
			size_t w = 0; for ( auto& h : held ) { size_t v = h.first.value(); if ( v >= first && v < first + n ) continue; xo::update_moved_handle( h.first, C::handle_span_type( at( first + n ), at( y.size() ) ), C::handle_span_type::iterator( xo::uint32( first ) ) ); held[w++] = h; } held.resize( w );
		}
		void check() override
		{
			CHK( x.size() == y.size() ); size_t k = 0; for ( auto h : x.span() ) { CHK( k < y.size() ); CHK( x[h] == y[k] ); CHK( std::as_const( x )[h] == y[k] ); ++k; } CHK( k == y.size() ); CHK( x.span().size() == y.size() );
			for ( auto& h : held ) { CHK( x.contains( h.first ) ); CHK( x[h.first] == h.second ); }
		}
	};

	struct CollectionBox : Box
	{
		xo::collection<xo::uint32, S, double> x; std::vector<S> a; std::vector<double> b;
		CollectionBox() { kind = "collection"; }
		template<class T> using H = xo::handle<T, xo::uint32>;
		void op( const Op& o ) override
		{
			S s = str( o.c ); double v = o.c * 0.25;
			switch ( o.a % 6 ) {
			case 0: case 1: { H<S> h; const S& cs = s; if ( must( "push_back", [&] { h = x.push_back( cs ); } ) ) { a.push_back( s ); CHK( h.value() == a.size() - 1 ); CHK( x.get_handle( x[h] ) == h ); } break; }
			case 2: { H<double> h; const double& cv = v; if ( must( "push_back", [&] { h = x.push_back( cv ); } ) ) { b.push_back( v ); CHK( h.value() == b.size() - 1 ); CHK( x.get_handle( x[h] ) == h ); } break; }
			case 3: if ( a.size() ) { size_t k = o.b % a.size(); must( "erase", [&] { x.erase( H<S>( xo::uint32( k ) ) ); } ); a.erase( a.begin() + k ); } break;
			case 4: if ( b.size() ) { size_t k = o.b % b.size(), e = k + o.c % ( b.size() - k + 1 ); must( "erase of a span", [&] { x.erase( xo::handle_span<double, xo::uint32>( H<double>( xo::uint32( k ) ), H<double>( xo::uint32( e ) ) ) ); } ); b.erase( b.begin() + k, b.begin() + e ); } break;
			default: if ( o.b % 8 == 0 ) { must( "clear", [&] { x.clear(); } ); a.clear(); b.clear(); }
			}
		}
		void check() override { CHK( x.get_vec<S>().size() == a.size() ); CHK( x.get_vec<double>().size() == b.size() ); for ( size_t i = 0; i < a.size(); ++i ) CHK( x[H<S>( xo::uint32( i ) )] == a[i] ); for ( size_t i = 0; i < b.size(); ++i ) CHK( x[H<double>( xo::uint32( i ) )] == b[i] ); }
	};

	size_t where( const std::vector<S>& y, const S& s ) { return std::find( y.begin(), y.end(), s ) - y.begin(); }
	struct LabelBox : Box
	{
		using C = xo::label_vector<S>; std::optional<C> x; std::vector<S> y;
		LabelBox() { kind = "label_vector"; x.emplace(); }
		void op( const Op& o ) override
		{
			S s = str( o.c ); size_t p = where( y, s ); bool has = p < y.size();
			switch ( o.a % 9 ) {
			case 0: case 1: case 2: if ( has ) must_fail( "add of a label that is there", [&] { x->add( s ); } ); else { size_t r = 99; if ( must( "add", [&] { r = x->add( s ); } ) ) { CHK( r == y.size() ); y.push_back( s ); } } break;
			case 3: { CHK( x->find( s ) == ( has ? p : xo::no_index ) ); if ( has ) CHK( x->find_or_throw( s ) == p ); else must_fail( "find_or_throw", [&] { x->find_or_throw( s ); } ); break; }
			case 4: case 5: if ( y.size() ) { size_t k = o.b % y.size(); if ( has ) must_fail( "set to a label that is there", [&] { x->set( k, s ); } ); else if ( must( "set", [&] { x->set( k, s ); } ) ) y[k] = s; } else must_fail( "set beyond the end", [&] { x->set( 0, s ); } ); break;
			case 6: if ( must( "resize", [&] { x->resize( y.size() + o.b % 3 ); } ) ) y.resize( y.size() + o.b % 3 ); if ( y.size() ) must_fail( "resize to less", [&] { x->resize( y.size() - 1 ); } ); break;
			case 7: { std::vector<S> l{ s, str( o.c + 1 ), str( o.c + 2 ) }; if ( must( "construction from a list", [&] { if ( o.b % 2 ) x.emplace( l ); else x.emplace( std::initializer_list<S>{ s, str( o.c + 1 ), str( o.c + 2 ) } ); } ) ) y = l; else { x.emplace(); y.clear(); } break; }
			default: if ( o.b % 8 == 0 ) { must( "clear", [&] { x->clear(); } ); y.clear(); }
			}
		}
		void check() override
		{
			CHK( x->size() == y.size() ); size_t k = 0; for ( auto& e : *x ) { CHK( e == y[k] ); CHK( ( *x )[k] == y[k] ); ++k; } CHK( k == y.size() );
			for ( long i = 0; i < 16; ++i ) { size_t p = where( y, str( i ) ); CHK( x->find( str( i ) ) == ( p < y.size() ? p : xo::no_index ) ); }
		}
	};

	struct TableBox : Box
	{
		using C = xo::table<double>; C x; std::vector<S> r, c; std::vector<std::vector<double>> v;
		TableBox() { kind = "table"; }
		void fit( double d = 0 ) { v.resize( r.size() ); for ( auto& l : v ) l.resize( c.size(), d ); }
		void op( const Op& o ) override
		{
			S s = str( o.c ), s2 = str( o.b ); double d = o.b * 0.5; bool hr = where( r, s ) < r.size(), hc = where( c, s ) < c.size(); size_t i = 99;
			switch ( o.a % 10 ) {
			case 0: case 1: if ( hr ) must_fail( "add_row with a label that is there", [&] { x.add_row( s, d ); } ); else if ( must( "add_row", [&] { i = x.add_row( s, d ); } ) ) { CHK( i == r.size() ); r.push_back( s ); fit( d ); } break;
			case 2: case 3: if ( hc ) must_fail( "add_column with a label that is there", [&] { x.add_column( s, d ); } ); else if ( must( "add_column", [&] { i = x.add_column( s, d ); } ) ) { CHK( i == c.size() ); c.push_back( s ); fit( d ); } else spare( d ); break;
			case 4: if ( r.size() && c.size() ) { size_t a = o.b % r.size(), b = o.c % c.size(); must( "element assignment", [&] { x( a, b ) = d; } ); v[a][b] = d; } break;
			case 5: if ( r.size() && c.size() && !hc ) { double e = v[0][0]; if ( must( "add_column with an element", [&] { x.add_column( s, x( 0, 0 ) ); } ) ) { c.push_back( s ); fit( e ); } else spare( e ); } break;
			case 6: { size_t a = r.size() + o.b % 2, b = c.size() + o.c % 2; if ( must( "resize", [&] { x.resize( a, b, d ); } ) ) { r.resize( a ); c.resize( b ); fit( d ); } if ( r.size() ) must_fail( "resize to less", [&] { x.resize( r.size() - 1, c.size() ); } ); break; }
			case 7: { if ( must( "get_or_add_row", [&] { i = x.get_or_add_row( s, d ); } ) ) { size_t p = where( r, s ); CHK( i == p ); if ( !hr ) { r.push_back( s ); fit( d ); } } break; }
			case 8: {	// what is missing is added
				double* e = nullptr; bool ok = must( "access by labels", [&] { e = &x( s2, s ); } );
				if ( !ok ) { if ( x.column_size() > c.size() ) { c.push_back( x.find_column( s ) == xo::no_index ? S() : s ); fit(); } hc = where( c, s ) < c.size(); }
				if ( ok || x.row_size() > r.size() ) { if ( where( r, s2 ) == r.size() ) { r.push_back( s2 ); fit(); } }
				if ( ok ) { if ( !hc ) { c.push_back( s ); fit(); } CHK( *e == v[where( r, s2 )][where( c, s )] ); *e = d; v[where( r, s2 )][where( c, s )] = d; }
				break; }
			default: { const C& cx = x; if ( !hr || !c.size() ) must_fail( "access beyond the end", [&] { cx( r.size() + o.b % 2, 0 ); } ); else { CHK( cx.find_row( s ) == where( r, s ) ); CHK( cx.back_row( 0 ) == v.back()[0] ); } }
			}
		}
		void spare( double d ) { if ( x.column_size() == c.size() + 1 ) { probe( "spare_column" ); c.push_back( "" ); fit( d ); } }	// memory ran out after the column was made: it has no label
		void check() override
		{
			CHK( x.row_size() == r.size() ); CHK( x.column_size() == c.size() ); CHK( x.empty() == ( r.empty() || c.empty() ) ); const C& cx = x;
			for ( size_t a = 0; a < r.size(); ++a ) for ( size_t b = 0; b < c.size(); ++b ) CHK( cx( a, b ) == v[a][b] );
			for ( size_t a = 0; a < r.size(); ++a ) if ( !r[a].empty() ) CHK( cx.find_row( r[a] ) == a );
			for ( size_t b = 0; b < c.size(); ++b ) if ( !c[b].empty() ) CHK( cx.find_column( c[b] ) == b );
			for ( long i = 0; i < 16; i += 3 ) { S s = str( i ); size_t p = where( r, s ), q = where( c, s ); if ( p == r.size() ) CHK( cx.find_row( s ) == xo::no_index ); if ( q == c.size() ) CHK( cx.find_column( s ) == xo::no_index ); }
		}
	};

	struct StorageBox : Box
	{
		using C = xo::storage<double>; C x; std::vector<S> c; std::vector<std::vector<double>> v;	// v[frame][channel]
		StorageBox() { kind = "storage"; }
		void fit( double d = 0 ) { for ( auto& f : v ) f.resize( c.size(), d ); }
		void op( const Op& o ) override
		{
			S s = str( o.c ); double d = o.b * 0.5; size_t p = where( c, s ); bool has = p < c.size(); size_t i = 99; const C& cx = x;
			switch ( o.a % 14 ) {
			case 0: case 1: if ( has ) must_fail( "add_channel with a label that is there", [&] { x.add_channel( s, d ); } ); else if ( must( "add_channel", [&] { i = x.add_channel( s, d ); } ) ) { CHK( i == c.size() ); c.push_back( s ); fit( d ); } else spare( d, v.size() ); break;
			case 2: {
				std::vector<double> col; for ( long k = 0; k < o.b % 5; ++k ) col.push_back( d + k ); auto f = [&] { i = x.add_channel( s, col ); };
				if ( has ) must_fail( "add_channel with a label that is there", f ); else { size_t n = std::max( v.size(), col.size() ); if ( must( "add_channel with data", f ) ) { CHK( i == c.size() ); c.push_back( s ); v.resize( n ); fit(); for ( size_t k = 0; k < col.size(); ++k ) v[k][p] = col[k]; } else spare( 0, n ); }
				break; }
			case 3: case 4: if ( c.size() && must( "add_frame", [&] { x.add_frame( d ); } ) ) v.push_back( std::vector<double>( c.size(), d ) ); break;
			case 5: if ( c.size() ) { std::vector<double> f; for ( size_t k = 0; k < c.size(); ++k ) f.push_back( d * k + 1 ); if ( must( "add_frame with data", [&] { x.add_frame( f ); } ) ) v.push_back( f ); f.push_back( 0 ); must_fail( "add_frame with too much data", [&] { x.add_frame( f ); } ); } break;
			case 6: if ( c.size() && v.size() ) { size_t a = o.b % v.size(), b = o.c % c.size(); must( "element assignment", [&] { if ( o.b & 4 ) x( a, b ) = d; else x[a][b] = d; } ); v[a][b] = d; } break;
			case 7: if ( v.size() ) { size_t a = o.b % v.size(); double* e = nullptr; if ( must( "access of a frame by label", [&] { e = &x[a][s]; } ) ) { if ( !has ) { c.push_back( s ); fit(); } CHK( *e == v[a][p] ); *e = d; v[a][p] = d; } else spare( 0, v.size() ); } break;
			case 8: { if ( has ) CHK( cx.find_channel( s ) == p ); else must_fail( "find_channel", [&] { cx.find_channel( s ); } ); CHK( cx.try_find_channel( s ) == ( has ? p : xo::no_index ) ); if ( has && v.size() ) { CHK( cx.back()[s] == v.back()[p] ); CHK( cx.front()[s] == v.front()[p] ); } break; }
			case 9: if ( c.size() ) { size_t k = o.b % c.size(); if ( has ) must_fail( "set_label to a label that is there", [&] { x.set_label( k, s ); } ); else if ( must( "set_label", [&] { x.set_label( k, s ); } ) ) c[k] = s; } break;
			case 10: { size_t nf = v.size() + o.b % 3, nc = c.size() + o.c % 2; if ( nc && must( "resize", [&] { x.resize( nf, nc, d ); } ) ) { c.resize( nc ); fit( d ); v.resize( nf, std::vector<double>( nc, d ) ); } if ( v.size() ) must_fail( "resize to less", [&] { x.resize( v.size() - 1, c.size() ); } ); break; }
			case 11: if ( c.size() ) { size_t k = o.c % c.size(); std::vector<double> g; if ( must( "get_channel", [&] { g = c[k].empty() ? cx.get_channel( xo::index_t( k ) ) : cx.get_channel( c[k] ); } ) ) { CHK( g.size() == v.size() ); for ( size_t a = 0; a < g.size(); ++a ) CHK( g[a] == v[a][k] ); } } break;
			case 12: if ( c.size() && v.size() ) {
				size_t k = o.c % c.size(); double f = o.b * 0.25; size_t f0 = (size_t)f;
				if ( f0 + 1 < v.size() ) { double g = 0; must( "get_interpolated_value", [&] { g = x.get_interpolated_value( f, k ); } ); double w = f - f0, want = ( 1 - w ) * v[f0][k] + w * v[f0 + 1][k]; CHK( std::fabs( g - want ) < 1e-9 ); } else must_fail( "get_interpolated_value beyond the end", [&] { x.get_interpolated_value( f, k ); } );
				bool sorted = true; for ( size_t a = 1; a < v.size(); ++a ) sorted = sorted && v[a - 1][k] <= v[a][k];
				if ( sorted ) { double t = o.b * 0.3; size_t n = xo::find_frame_index( cx, t, k ); CHK( n < v.size() ); for ( auto& l : v ) CHK( std::fabs( v[n][k] - t ) <= std::fabs( l[k] - t ) ); }
			} break;
			default: if ( o.b % 6 == 0 ) { must( "clear", [&] { x.clear(); } ); c.clear(); v.clear(); CHK( xo::find_frame_index( cx, 1.0 ) == xo::no_index ); }
			}
		}
		void spare( double d, size_t frames ) { if ( x.channel_size() == c.size() + 1 ) { probe( "spare_column" ); c.push_back( "" ); v.resize( frames ); fit( d ); } }
		void check() override
		{
			const C& cx = x; CHK( cx.channel_size() == c.size() ); CHK( cx.frame_size() == v.size() ); CHK( cx.data().size() == c.size() * v.size() ); CHK( cx.labels().size() == c.size() );
			for ( size_t b = 0; b < c.size(); ++b ) { CHK( cx.get_label( b ) == c[b] ); if ( !c[b].empty() ) CHK( cx.try_find_channel( c[b] ) == b ); }
			for ( size_t a = 0; a < v.size(); ++a ) for ( size_t b = 0; b < c.size(); ++b ) { CHK( cx( a, b ) == v[a][b] ); CHK( cx[a][b] == v[a][b] ); }
			for ( long i = 0; i < 16; i += 3 ) { S s = str( i ); if ( where( c, s ) == c.size() ) CHK( cx.try_find_channel( s ) == xo::no_index ); }
		}
	};

	struct TreeBox : Box
	{
		struct N { S key, val; std::vector<N> kids; bool operator==( const N& o ) const { return key == o.key && val == o.val && kids == o.kids; } };
		xo::prop_node x; N y;
		TreeBox() { kind = "prop_node"; }
		static S key( long i ) { return str( i % 6 ); }
		static N* get( N& n, const S& k ) { for ( auto& c : n.kids ) if ( c.key == k ) return &c; return nullptr; }
		static N& get_or_add( N& n, const S& k ) { if ( auto* c = get( n, k ) ) return *c; n.kids.push_back( N{ k } ); return n.kids.back(); }
		static size_t count( const N& n ) { size_t s = n.kids.size(); for ( auto& c : n.kids ) s += count( c ); return s; }
		static size_t layers( const N& n ) { size_t s = 0; for ( auto& c : n.kids ) s = std::max( s, layers( c ) + 1 ); return s; }
		static void merge( N& n, const N& o, bool over ) { if ( over ) n.val = o.val; for ( auto& c : o.kids ) if ( auto* k = get( n, c.key ) ) merge( *k, c, over ); else n.kids.push_back( c ); }
		static N& put( N& n, const N& o ) { n.val = o.val; n.kids = std::vector<N>( o.kids ); return n; }	// the key stays
		static xo::prop_node make( const N& n ) { xo::prop_node p; p.set_value( S( n.val ) ); for ( auto& c : n.kids ) p.add_child( c.key, make( c ) ); return p; }
		static N small( long a, long b ) { N n{ "", str( a ) }; for ( long i = 0; i < b % 3; ++i ) n.kids.push_back( N{ key( a + i ), str( b + i ) } ); return n; }
		void find( long path, xo::prop_node*& p, N*& n ) { p = &x; n = &y; for ( int d = 0; d < 3 && !n->kids.empty() && path % 4; ++d, path /= 4 ) { size_t k = path % n->kids.size(); p = &p->at( k ).second; n = &n->kids[k]; } }
		void op( const Op& o ) override
		{
			xo::prop_node* p; N* n; find( o.b, p, n ); S k = key( o.c ), v = str( o.c + o.b ), query = k + "." + key( o.c + 1 ) + "." + key( o.b ); N* kid = get( *n, k ); size_t sz = n->kids.size(); const xo::prop_node& cp = *p;
			bool big = count( y ) > 60;
			switch ( o.a % 35 ) {
			case 0: case 1: if ( must( "set", [&] { p->set( k, v ); } ) ) { auto& c = get_or_add( *n, k ); c.val = v; c.kids.clear(); } break;
			case 2: if ( must( "set of a number", [&] { p->set( k, (int)o.b ); } ) ) { auto& c = get_or_add( *n, k ); c.val = std::to_string( o.b ); c.kids.clear(); } break;
			case 3: { bool ok = must( "set_query", [&] { p->set_query( query, v ); } ); if ( ok || p->size() > sz || true ) track( *p, *n, { k, key( o.c + 1 ), key( o.b ) }, ok ? &v : nullptr ); break; }
			case 4: if ( must( "add_child", [&] { p->add_child( k ).set_value( 5 ); } ) ) n->kids.push_back( N{ k, "5" } ); else if ( p->size() > sz ) n->kids.push_back( N{ k } ); break;
			case 5: if ( must( "add_key_value", [&] { p->add_key_value( k, v ); } ) ) n->kids.push_back( N{ k, v } ); break;
			case 6: if ( must( "add_value", [&] { p->add_value( v ); } ) ) n->kids.push_back( N{ "", v } ); break;
			case 7: { bool r = false; if ( must( "erase", [&] { r = p->erase( k ); } ) ) { CHK( r == !!kid ); if ( kid ) n->kids.erase( n->kids.begin() + ( kid - n->kids.data() ) ); } break; }
			case 8: { S q = k + "." + key( o.b ); N* sub = kid ? get( *kid, key( o.b ) ) : nullptr; bool r = false; if ( must( "erase_query", [&] { r = p->erase_query( q ); } ) ) { CHK( r == !!sub ); if ( sub ) kid->kids.erase( kid->kids.begin() + ( sub - kid->kids.data() ) ); } break; }
			case 9: if ( sz ) { must( "pop_back", [&] { p->pop_back(); } ); n->kids.pop_back(); } break;
			case 10: if ( o.c % 5 == 0 ) { must( "clear", [&] { p->clear(); } ); n->val.clear(); n->kids.clear(); } break;
			case 11: { N e = small( o.c, o.b ); xo::prop_node t = make( e ); bool copy = o.b & 8; if ( must( copy ? "append" : "append by moving", [&] { if ( copy ) p->append( t ); else p->append( std::move( t ) ); } ) ) n->kids.insert( n->kids.end(), e.kids.begin(), e.kids.end() ); break; }
			case 12: { N e = small( o.c, o.b ); if ( o.c % 3 == 0 ) e.val.clear(); xo::prop_node t = make( e ); bool over = o.b & 4; if ( must( "merge", [&] { p->merge( t, over ); } ) ) merge( *n, e, over ); else resync( *p, *n ); break; }
			case 13: if ( kid ) { N e = *kid; if ( must( "assignment of a child", [&] { *p = std::as_const( p->get_child( k ) ); } ) ) put( *n, e ); } break;
			case 14: if ( kid ) { N e = *kid; if ( must( "move assignment of a child", [&] { *p = std::move( p->get_child( k ) ); } ) ) put( *n, e ); } break;
			case 15: if ( kid && !big ) { N e = *kid; S k2 = key( o.b ); if ( must( "set to a child", [&] { p->set( k2, p->get_child( k ) ); } ) ) put( get_or_add( *n, k2 ), e ); } break;
			case 16: if ( kid && !big ) { N e = *kid; e.key = key( o.b ); if ( must( "add_child of a child", [&] { p->add_child( key( o.b ), std::as_const( p->get_child( k ) ) ); } ) ) n->kids.push_back( e ); } break;
			case 17: { must( "self assignment", [&] { *p = *&*p; } ); break; }
			case 18: if ( !big ) { xo::prop_node t; if ( must( "copy construction", [&] { xo::prop_node u( x ); t = std::move( u ); } ) ) { CHK( t == x ); CHK( !( t != x ) ); t.add_child( "extra" ); CHK( t != x ); if ( must( "add_child by moving", [&] { p->add_child( "copy", std::move( t ) ); } ) ) { N e = y; e.key = "copy"; e.kids.push_back( N{ "extra" } ); n->kids.push_back( e ); } } } break;
			case 19: {	// reading
				CHK( cp.has_key( k ) == !!kid ); CHK( ( cp.try_get_child( k ) != nullptr ) == !!kid ); CHK( cp.has_value() == !n->val.empty() ); CHK( cp.has_value( k ) == ( kid && !kid->val.empty() ) );
				CHK( cp.count_children() == count( *n ) ); CHK( cp.count_layers() == layers( *n ) ); bool arr = true; size_t same = 0; for ( auto& c : n->kids ) { arr = arr && c.key.empty(); same += c.key == k; } CHK( cp.is_array() == arr ); CHK( cp.count_key( k ) == same ); CHK( cp.empty() == ( n->val.empty() && n->kids.empty() ) );
				if ( kid ) { CHK( cp.get<S>( k ) == kid->val ); CHK( cp.get_str( k ) == kid->val ); CHK( &cp[k] == &cp.at( kid - n->kids.data() ).second ); CHK( cp.get( k, S( "def" ) ) == kid->val ); auto t = cp.try_get<S>( k ); CHK( t && *t == kid->val ); S got; CHK( cp.try_get( got, k ) && got == kid->val ); }
				else { CHK( cp.get( k, S( "def" ) ) == "def" ); CHK( !cp.try_get<S>( k ) ); must_fail( "get of a missing key", [&] { cp.get<S>( k ); } ); must_fail( "get_child of a missing key", [&] { cp.get_child( k ); } ); S got = "x"; CHK( !cp.try_get( got, k ) && got == "x" ); }
				break; }
			case 20: {	// queries
				N* sub = kid ? get( *kid, key( o.c + 1 ) ) : nullptr; sub = sub ? get( *sub, key( o.b ) ) : nullptr; auto* q = cp.try_get_query( query ); CHK( !!q == !!sub ); if ( q ) CHK( q->peek_str() == sub->val );
				S idx = "#" + std::to_string( o.b % 4 ); q = cp.try_get_query( idx ); bool ok = o.b % 4 >= 1 && size_t( o.b % 4 ) <= sz; CHK( !!q == ok ); if ( ok ) CHK( q == &cp.at( o.b % 4 - 1 ).second );
				break; }
			case 21: { std::vector<S> all; if ( must( "get_all", [&] { all = cp.get_all<S>( k ); } ) ) { std::vector<S> want; for ( auto& c : n->kids ) if ( c.key == k ) want.push_back( c.val ); CHK( all == want ); size_t i = 0; for ( auto& e : cp.select( k ) ) { CHK( i < want.size() && e.second.peek_str() == want[i] ); ++i; } CHK( i == want.size() ); } break; }
			case 22: { const xo::prop_node* want = nullptr; for ( int i = 0; i < 2 && !want; ++i ) want = cp.try_get_child( key( o.c + i ) ); CHK( cp.try_get_any_child( { key( o.c ), key( o.c + 1 ) } ) == want ); CHK( cp.has_any_key( { key( o.c ), key( o.c + 1 ) } ) == !!want ); auto r = std::as_const( x ).try_find_parent( *p ); if ( p == &x ) CHK( !r.first ); else { CHK( r.first && r.second < r.first->size() ); CHK( &r.first->at( r.second ).second == p ); } break; }
			case 23: if ( must( "add_children", [&] { p->add_children( o.c % 3, k, v ); } ) ) for ( long i = 0; i < o.c % 3; ++i ) n->kids.push_back( N{ k, v } ); break;
			case 24: { N e = small( o.c, o.b ); xo::prop_node t = make( e ); size_t at = sz ? o.c % ( sz + 1 ) : 0; if ( must( "insert", [&] { p->insert( p->begin() + at, std::as_const( t ).begin(), std::as_const( t ).end() ); } ) ) n->kids.insert( n->kids.begin() + at, e.kids.begin(), e.kids.end() ); break; }
			case 25: { long num[3] = { o.b, o.c, -o.b }; if ( must( "set of a vector", [&] { p->set( k, std::vector<int>{ (int)num[0], (int)num[1], (int)num[2] } ); } ) ) { auto& c = get_or_add( *n, k ); c.val.clear(); c.kids.clear(); for ( long e : num ) c.kids.push_back( N{ "", std::to_string( e ) } ); std::vector<int> back; if ( must( "get of a vector", [&] { back = cp.get<std::vector<int>>( k ); } ) ) CHK( back.size() == 3 && back[0] == num[0] && back[1] == num[1] && back[2] == num[2] ); } break; }
			case 26: { must_fail( "set with a value that cannot be converted", [&] { p->set( k, Refused{} ); } ); break; }
			case 27: must( "reserve", [&] { p->reserve( o.c ); } ); break;
			case 30: {	// erasing by index and deeper
				S q = "#" + std::to_string( o.b % 4 + 1 ) + "." + key( o.c ); size_t at = o.b % 4; N* up = at < sz ? &n->kids[at] : nullptr; N* sub = up ? get( *up, key( o.c ) ) : nullptr;
				if ( sub && o.b & 4 && sub->kids.size() ) { q += "." + sub->kids.back().key; up = sub; sub = get( *up, S( sub->kids.back().key ) ); }
				bool r = false; if ( must( "erase_query by index", [&] { r = p->erase_query( q ); } ) ) { CHK( r == !!sub ); if ( sub ) up->kids.erase( up->kids.begin() + ( sub - up->kids.data() ) ); } break; }
			case 31: {	// the first one, parents before children
				std::function<const xo::prop_node*( const N&, const xo::prop_node& )> look = [&]( const N& a, const xo::prop_node& b ) -> const xo::prop_node* { for ( size_t i = 0; i < a.kids.size(); ++i ) { if ( a.kids[i].key == k ) return &b.at( i ).second; if ( auto* f = look( a.kids[i], b.at( i ).second ) ) return f; } return nullptr; };
				CHK( cp.try_find_child_recursively( k ) == look( *n, cp ) ); break; }
			case 32: {	// one difference anywhere makes it different
				if ( big ) break; xo::prop_node t; if ( !must( "copy construction", [&] { t = x; } ) ) break;
				std::vector<xo::prop_node*> all; { Quiet q; std::function<void( xo::prop_node& )> walk = [&]( xo::prop_node& a ) { all.push_back( &a ); for ( size_t i = 0; i < a.size(); ++i ) walk( a.at( i ).second ); }; walk( t ); }
				auto* w = all[size_t( o.c ) % all.size()]; bool changed = true; if ( !must( "change", [&] { switch ( o.b % 4 ) { case 0: w->set_value( w->peek_str() + "x" ); break; case 1: if ( w->size() ) { auto& l = w->at( o.c % w->size() ).first; if ( l.empty() ) l = "y"; else l[l.size() - 1] ^= 1; } else changed = false; break; case 2: w->add_child(); break; default: if ( w->size() ) w->pop_back(); else changed = false; } } ) ) break;
				CHK( ( t == x ) == !changed ); CHK( ( t != x ) == changed ); CHK( ( x == t ) == !changed ); break; }
			case 33: {	// as text: one line for each node, in order
				if ( big ) break; S text; if ( !must( "to_str", [&] { text = xo::to_str( cp ); } ) ) break; size_t at = 0, col = S::npos;
				std::function<void( const N&, size_t )> walk = [&]( const N& a, size_t depth ) { for ( auto& c : a.kids ) {
					auto e = text.find( '\n', at ); CHK( e != S::npos ); S line = text.substr( at, e - at ), head = S( depth * 2, ' ' ) + c.key; at = e + 1;
					if ( c.val.empty() && c.kids.size() ) CHK( line == head );
					else { S tail = " = " + c.val; CHK( line.size() >= head.size() + tail.size() && line.compare( 0, head.size(), head ) == 0 && line.substr( line.size() - tail.size() ) == tail ); CHK( line.find_first_not_of( ' ', head.size() ) == line.size() - tail.size() + 1 ); CHK( col == S::npos || col == line.size() - tail.size() ); col = line.size() - tail.size(); }
					walk( c, depth + 1 ); } };
				Quiet q; walk( *n, 0 ); CHK( at == text.size() ); break; }
			case 34: {	// finding or adding along a path, also by index
				S q = o.b & 1 && sz ? "#" + std::to_string( o.c % sz + 1 ) : k; N* up = o.b & 1 && sz ? &n->kids[o.c % sz] : nullptr; if ( up ) if ( auto* same = get( *n, q ) ) up = same; S k2 = key( o.b ); xo::prop_node* got = nullptr; bool ok = must( "get_or_add_query", [&] { got = &p->get_or_add_query( q + "." + k2 ); } );
				if ( ok ) { N& a = up ? *up : get_or_add( *n, k ); N& b = get_or_add( a, k2 ); CHK( got->peek_str() == b.val && got->size() == b.kids.size() ); } else if ( up ) CHK( true ); else if ( p->try_get_child( k ) ) get_or_add( *n, k );
				break; }
			case 28: if ( must( "set_value", [&] { if ( o.b & 1 ) p->set_value( S( v ) ); else p->set_value( (int)o.c ); } ) ) n->val = o.b & 1 ? v : std::to_string( o.c ); break;
			default: { N e = small( o.c, o.b ); xo::prop_node t = make( e ); bool copy = o.b & 8; if ( must( "set to a node", [&] { if ( copy ) p->set( t ); else p->set( std::move( t ) ); } ) ) put( *n, e ); }
			}
			if ( count( y ) > 150 ) { must( "clear", [&] { x.clear(); } ); y = N(); }
		}
		// nodes on the path may be there already when memory ran out
		void track( xo::prop_node& p, N& n, std::vector<S> path, const S* v )
		{
			xo::prop_node* a = &p; N* b = &n;
			for ( size_t i = 0; i < path.size(); ++i ) { bool had = get( *b, path[i] ); auto* c = a->try_get_child( path[i] ); if ( !c ) { CHK( !v && !had ); return; } b = &get_or_add( *b, path[i] ); a = c; }
			if ( v ) { b->val = *v; b->kids.clear(); }
		}
		static void resync( const xo::prop_node& p, N& n ) { n.val = p.peek_str(); n.kids.clear(); for ( auto it = p.cbegin(); it != p.cend(); ++it ) { n.kids.push_back( N{ it->first } ); resync( it->second, n.kids.back() ); } }
		void same( const xo::prop_node& p, const N& n ) { CHK( p.peek_str() == n.val ); CHK( p.size() == n.kids.size() ); for ( size_t i = 0; i < n.kids.size(); ++i ) { CHK( p.at( i ).first == n.kids[i].key ); same( p.at( i ).second, n.kids[i] ); } }
		void check() override { same( x, y ); }
		struct Refused { friend xo::prop_node to_prop_node( const Refused& ) { throw std::runtime_error( "refused" ); } };
	};

	// values that are there or not, with an error, or in a stack
	struct ValueBox : Box
	{
		xo::stack_string st; std::vector<S> parts; xo::optional<S> os[2]; std::optional<S> ms[2]; xo::optional<int> oi; std::optional<int> mi; xo::optional<double> od; std::optional<double> md; xo::result<S> rs[2]; struct { S v, e; } mr[2]; xo::error_message em; S me;
		enum class F { a, b, c = 40, d = 63 }; xo::flag_set<F> fl; std::set<int> mf;
		ValueBox() { kind = "value"; }
		S all() const { S r; for ( auto& p : parts ) r += p; return r; }
		void op( const Op& o ) override
		{
			int i = (int)( o.b & 1 ), j = 1 - i; S s = str( o.c ); bool full = o.b & 2; auto flag = [&]( long v ) { return std::vector<F>{ F::a, F::b, F::c, F::d }[v % 4]; };
			switch ( o.a % 20 ) {
			case 0: case 1: case 2: if ( must( "push_back", [&] { st.push_back( s ); } ) ) parts.push_back( s ); break;
			case 3: case 4: if ( !parts.empty() && must( "pop_back", [&] { st.pop_back(); } ) ) parts.pop_back(); break;
			case 5: if ( o.c == 0 ) s.clear(); if ( must( "set", [&] { st.set( s ); } ) ) { parts.clear(); if ( !s.empty() ) parts.push_back( s ); } break;
			case 6: if ( must( "assignment of a value", [&] { if ( full ) { S t = s; os[i] = std::move( t ); } else os[i] = s; } ) ) ms[i] = s; break;
			case 7: if ( must( "reset", [&] { os[i].reset(); } ) ) ms[i].reset(); break;
			case 8: if ( must( "copy assignment", [&] { if ( full ) os[j] = xo::optional<S>( os[i] ); else os[j] = os[i]; } ) ) ms[j] = ms[i]; break;
			case 9: { S d; if ( ms[i] ) { if ( must( "value", [&] { d = os[i].value(); } ) ) CHK( d == *ms[i] ); } else must_fail( "value of an empty optional", [&] { d = os[i].value(); } ); if ( must( "value_or", [&] { d = os[i].value_or( s ); } ) ) CHK( d == ms[i].value_or( s ) ); break; }
			case 10: if ( full ) { oi = (int)o.c - 5; mi = (int)o.c - 5; od = o.c * 0.5 - 3; md = o.c * 0.5 - 3; } else { oi.reset(); mi.reset(); od.reset(); md.reset(); } break;
			case 11: if ( must( "construction", [&] { xo::optional<S> t( s ); CHK( t && *t == s && t == s && t->size() == s.size() ); xo::optional<S> u( std::move( t ) ); CHK( u && *u == s ); } ) ) ; break;
			case 12: if ( must( "assignment of a result", [&] { if ( full ) { S t = s; rs[i] = std::move( t ); } else rs[i] = s; } ) ) { mr[i].v = s; mr[i].e.clear(); } else { mr[i].v = rs[i].value(); mr[i].e = rs[i].error().message(); } break;
			case 13: if ( must( "assignment of an error", [&] { xo::error_message e( s ); if ( full ) rs[i] = e; else rs[i] = std::move( e ); } ) ) mr[i].e = s; break;
			case 14: if ( must( "copy of a result", [&] { xo::result<S> t( rs[i] ); rs[j] = std::move( t ); } ) ) mr[j] = mr[i]; break;
			case 15: if ( must( "result of a value or an error", [&] { xo::result<S> a( s ); xo::result<S> b{ xo::error_message( s ) }; CHK( a && a.has_value() && a.value() == s && a.error().good() ); CHK( !b && !b.has_value() && b.error().message() == s ); } ) ) ; break;
			case 16: { bool self = o.b % 8 == 5; S add = self ? me : s; if ( must( "append", [&] { if ( self ) em.append( em ); else em.append( s ); } ) ) me += ( me.empty() ? "" : "\n" ) + add; break; }
			case 17: if ( must( "assignment of a message", [&] { if ( full ) em = s; else em = xo::error_message(); } ) ) me = full ? s : S(); break;
			case 18: { F a = flag( o.c ), b = flag( o.c / 4 ); switch ( o.b % 7 ) { case 0: fl.set( a ); mf.insert( (int)a ); break; case 1: fl.set( a, full ); if ( full ) mf.insert( (int)a ); else mf.erase( (int)a ); break; case 2: fl.toggle( a ); if ( !mf.erase( (int)a ) ) mf.insert( (int)a ); break; case 3: fl.clear<F::b>(); mf.erase( 1 ); fl.toggle<F::c>(); if ( !mf.erase( 40 ) ) mf.insert( 40 ); break; case 4: fl.set( { a, b } ); mf.insert( (int)a ); mf.insert( (int)b ); break; case 5: fl.set( { a, b }, false ); mf.erase( (int)a ); mf.erase( (int)b ); break; default: if ( o.c == 0 ) { fl.clear(); mf.clear(); } else fl = xo::flag_set<F>( fl.data() ); } break; }
			default: if ( must( "comparison", [&] { CHK( ( os[0] == os[1] ) == ( ms[0] == ms[1] ) ); CHK( ( os[i] == s ) == ( ms[i] && *ms[i] == s ) ); CHK( ( os[i] != s ) == !( ms[i] && *ms[i] == s ) ); } ) ) ;
			}
			if ( me.size() > 400 ) { em = xo::error_message(); me.clear(); }
		}
		void check() override
		{
			CHK( st.str() == all() ); for ( int i = 0; i < 2; ++i ) { CHK( bool( os[i] ) == ms[i].has_value() ); if ( ms[i] ) CHK( *os[i] == *ms[i] ); CHK( bool( rs[i] ) == mr[i].e.empty() ); CHK( rs[i].error().message() == mr[i].e ); CHK( rs[i].value() == mr[i].v ); }
			CHK( bool( oi ) == mi.has_value() && ( !mi || *oi == *mi ) && oi.value_or( 7 ) == mi.value_or( 7 ) ); CHK( bool( od ) == md.has_value() && ( !md || *od == *md ) && od.value_or( 7 ) == md.value_or( 7 ) ); CHK( em.message() == me && em.bad() == !me.empty() && em.good() == me.empty() );
			size_t n = 0; for ( F f : { F::a, F::b, F::c, F::d } ) { CHK( fl.get( f ) == (bool)mf.count( (int)f ) && fl( f ) == fl.get( f ) ); n += mf.count( (int)f ); } CHK( fl.get<F::d>() == (bool)mf.count( 63 ) ); CHK( fl.any() == !mf.empty() ); CHK( fl.count( { F::a, F::b, F::c, F::d } ) == n && fl.any( { F::a, F::b } ) == ( mf.count( 0 ) || mf.count( 1 ) ) );
		}
	};

	// elements of several types with an index for each type
	struct TypesBox : Box
	{
		using C = xo::collection_ic<xo::uint32, S, int>; C c; std::vector<S> ms; std::vector<int> mi;
		TypesBox() { kind = "collection_ic"; }
		void op( const Op& o ) override
		{
			S s = str( o.c ); const S& cs = s; int v = (int)o.c;
			switch ( o.a % 10 ) {
			case 0: case 1: case 2: { size_t at = 99; if ( must( "push_back", [&] { auto i = o.b & 1 ? c.push_back( cs ) : c.push_back( S( s ) ); at = i.value(); } ) ) { CHK( at == ms.size() ); ms.push_back( s ); } break; }
			case 3: case 4: { size_t at = 99; if ( must( "push_back", [&] { at = c.push_back( (int)v ).value(); } ) ) { CHK( at == mi.size() ); mi.push_back( v ); } break; }
			case 5: if ( ms.size() && must( "pop_back", [&] { c.pop_back<S>(); } ) ) ms.pop_back(); break;
			case 6: if ( mi.size() ) { size_t at = o.b % mi.size(), r = 99; if ( must( "erase", [&] { r = c.erase( xo::index_class<int, xo::uint32>( (int)at ) ).value(); } ) ) { CHK( r == at ); mi.erase( mi.begin() + at ); } } break;
			case 7: if ( ms.size() ) { size_t at = o.b % ms.size(), r = 99; if ( must( "erase", [&] { r = c.erase( xo::index_class<S, xo::uint32>( (int)at ) ).value(); } ) ) { CHK( r == at ); ms.erase( ms.begin() + at ); } } break;
			case 8: if ( o.c == 0 && must( "clear", [&] { c.clear(); } ) ) { ms.clear(); mi.clear(); } break;
			default: must( "copy", [&] { C t( c ); t.push_back( S( s ) ); C u( std::move( t ) ); CHK( u.get_vec<S>().size() == ms.size() + 1 ); } );
			}
		}
		void check() override
		{
			const C& cc = c; CHK( cc.get_vec<S>() == ms ); CHK( cc.get_vec<int>() == mi ); CHK( c.end_index<S>().value() == ms.size() ); CHK( c.begin_index<int>().value() == 0 ); size_t n = 0;
			for ( auto i : cc.get_index_span<S>() ) { CHK( n < ms.size() && cc[i] == ms[n] && cc.get_index( cc[i] ) == i && &*i.iter( cc.get_vec<S>() ) == &c[i] ); ++n; } CHK( n == ms.size() ); CHK( cc.get_index_span<int>().size() == mi.size() && cc.get_index_span<int>().empty() == mi.empty() );
			if ( ms.size() ) CHK( cc[cc.back_index<S>()] == ms.back() ); n = 0; for ( auto it = c.begin<int>(); it != c.end<int>(); ++it ) { CHK( *it == mi[n] ); ++n; } CHK( n == mi.size() );
		}
	};

	Box* make_box( long k )
	{
		switch ( k % 17 ) {
		case 15: return new ValueBox; case 16: return new TypesBox;
		case 0: return new DequeBox; case 1: return new BufferBox; case 2: return new ArrayBox; case 3: return new MapBox; case 4: return new SetBox; case 5: return new IndexedMapBox; case 6: return new IndexedSetBox<signed char>; case 7: return new SortedBox; case 8: return new HandleBox;
		case 9: return new CollectionBox; case 10: return new LabelBox; case 11: return new TableBox; case 12: return new StorageBox; case 13: return new IndexedSetBox<int>; default: return new TreeBox;
		}
	}
	void gen_cont( Rng& r, Plan& p )
	{
		p.cfg["nomem"] = r.chance( 0.6 ) ? r.range( 10, 300 ) : 0;
		int nth = r.chance( 0.8 ) ? 0 : 2;
		for ( int t = nth ? 1 : 0; t <= nth; ++t ) {
			p.cfg[fmt( "kind%d", t )] = r.chance( 0.2 ) ? 14 : r.below( 17 );
			int n = (int)( !nth && r.chance( 0.03 ) ? r.range( 100, 600 ) : r.range( 5, nth ? 25 : 60 ) ); for ( int i = 0; i < n; ++i ) p.add( t, "op", r.below( 840 ), r.below( 64 ), r.below( 16 ) );
		}
	}
	void run_cont( const Plan& p, int )
	{
		set_faults( FaultCfg() ); faults_on( true ); nontrivial(); size_t blocks = live_blocks();
		{
			std::unique_ptr<Box> box[4]; int n = 0; for ( auto& o : p.ops ) n = std::max( n, o.t );
			for ( int t = 0; t <= n; ++t ) { box[t].reset( make_box( p.get( fmt( "kind%d", t ).c_str() ) ) ); box[t]->nm = pct( p.get( "nomem" ) ); }
			run_threads( p, [&]( const Op& o ) { 
				if ( o.k != "op" ) return;
				auto& b = *box[o.t]; b.op( o );
				if ( ++b.ops % 5 == 0 ) b.check(); else { Quiet q; b.check(); }
			} );
			for ( int t = 0; t <= n; ++t ) box[t]->check();
		}
		SIM_CHECK( live_blocks() == blocks, "leak", "%zu blocks of memory are left after all containers are gone", live_blocks() - blocks );
	}
	Register r19( "C19.containers", gen_cont, run_cont, 1 );
}
