// C24 components that are stepped through time: delays, filters, averages, differences and cached variables
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <memory>
#include "scn.h"
#include "xo/system/assert.h"
#include "xo/numerical/delayer.h"
#include "xo/numerical/filter.h"
#include "xo/numerical/filter_1st_order.h"
#include "xo/numerical/average.h"
#include "xo/numerical/delta.h"
#include "xo/utility/cached_var.h"
#include "xo/time/timer.h"

using namespace sim;

namespace
{
	enum { CONSTANT, RAMP, WALK, ANY };
	struct Sample { double t, v; };
	struct Signal	// the samples a thread has produced so far
	{
		int kind; double slope, v0, init, dtmax = 0, lo, hi; std::vector<Sample> s; bool fixed = true; double first = -1;
		double t() const { return s.empty() ? 0 : s.back().t; }
		void add( double dt, double v ) { dtmax = std::max( dtmax, dt ); if ( dt > 0 ) { if ( first < 0 ) first = dt; else if ( std::abs( dt - first ) > 1e-6 * first ) fixed = false; } s.push_back( { t() + dt, v } ); lo = std::min( lo, v ); hi = std::max( hi, v ); }
		double next( double dt, double u ) const
		{
			switch ( kind ) { case CONSTANT: return v0; case RAMP: return v0 + slope * ( t() + dt ); case WALK: return ( s.empty() ? v0 : s.back().v ) + slope * dt * ( 2 * u - 1 ); default: return v0 + 10 * u; }
		}
		// the signal between samples, the initial value before the first
		double at( double x ) const
		{
			if ( x <= 0 || s.empty() ) return init; double pt = 0, pv = init;
			for ( auto& e : s ) { if ( e.t >= x ) return e.t > pt ? pv + ( e.v - pv ) * ( x - pt ) / ( e.t - pt ) : e.v; pt = e.t; pv = e.v; }
			return s.back().v;
		}
		void hull( double a, double b, double& l, double& h ) const
		{
			bool any = a <= 0; l = h = init; for ( auto& e : s ) if ( e.t >= a && e.t <= b ) { if ( !any ) l = h = e.v; any = true; l = std::min( l, e.v ); h = std::max( h, e.v ); }
			if ( !any ) { l = lo; h = hi; }
		}
		double mean( double a, double b ) const	// of the signal that jumps to the next sample right after the one before
		{
			double sum = 0, p = 0; if ( a < 0 ) sum += ( std::min( b, 0.0 ) - a ) * init;
			for ( auto& e : s ) { double x = std::max( a, p ), y = std::min( b, e.t ); if ( y > x ) sum += ( y - x ) * e.v; p = e.t; }
			return sum / ( b - a );
		}
	};

	struct Part
	{
		virtual ~Part() {}
		virtual void step( double dt, double v, const Signal& s ) = 0;	// v and dt as given to the component, s includes them
		virtual void op( const Op&, const Signal& ) {}
		virtual void copy() {}
	};

	void near( const char* what, double got, double want, double tol, const char* kind ) { SIM_CHECK( std::abs( got - want ) <= tol, kind, "%s gives %.9g instead of %.9g (+-%.3g)", what, got, want, tol ); }

	template<class D> struct Delay : Part
	{
		D d; int n; bool smooth; double delay; int count = 0; const char* name;
		Delay( float dl, double init, int n_, bool sm, const char* nm ) : d( dl, init ), n( n_ ), smooth( sm ), delay( dl ), name( nm ) {}
		void copy() override { D c = d; double was = d(); c.add_sample( 1000, (float)delay ); c.add_sample( 1000, (float)delay ); SIM_CHECK( (double)d() == was, "changes", "%s changes with its copy", name ); D e = d; d = e; }
		void step( double dt, double v, const Signal& s ) override
		{
			double got; if ( ++count % 3 == 0 ) { d.add_sample( v, (float)dt ); got = d.delayed_value(); } else got = d( v, (float)dt );
			Quiet q; SIM_CHECK( got == (double)d.delayed_value() && got == (double)d(), "changes", "%s gives %.9g and then %.9g", name, got, (double)d.delayed_value() );
			double win = delay / ( smooth ? n - 0.5 : n - 1.0 ), back = s.t() - delay, m = std::min( s.dtmax, win ), h = smooth ? 0 : 0.5 * m / win, range = s.hi - s.lo, mag = std::max( std::abs( s.hi ), std::abs( s.lo ) );
			double tol = 1e-4 * range + 1e-5 * mag + 1e-9 + std::abs( s.slope ) * delay * 1e-4, l, u, slack = delay * 1e-3 + 1e-6;
			SIM_CHECK( std::isfinite( got ), "wrong-value", "%s gives %g", name, got );
			if ( smooth ) s.hull( back - 1.5 * win - slack, back + 1.5 * win + s.dtmax + slack, l, u ); else s.hull( back - win - 0.5 * s.dtmax - slack, back + win + 1.5 * s.dtmax + slack, l, u );
			SIM_CHECK( got >= l - h * ( u - l ) - tol && got <= u + h * ( u - l ) + tol, "not-the-past", "%s gives %.9g %.6g s after the start, when the signal was between %.9g and %.9g around %.6g s before", name, got, s.t(), l, u, delay );
			bool ramp = s.kind <= RAMP && back > 2 * win + 2 * s.dtmax;
			if ( s.kind != ANY && ( ramp || s.init == s.v0 ) && ( back > 0 || s.init == s.v0 ) ) {
				double late = s.fixed && s.dtmax <= win ? 0.5 * s.dtmax * ( 1 + 2 * h ) : s.dtmax * ( 1 + 1.5 * h ); if ( smooth ) late = s.dtmax;
				double e = std::abs( s.slope ) * ( ramp ? late : late + 1.5 * win + s.dtmax );
				near( name, got, s.at( back ), e + tol, "wrong-delay" ); if ( ramp && s.kind == RAMP ) probe( "exact_delay" );
			}
			if ( smooth && s.dtmax <= win * 0.999 ) {	// the mean of each window
				double g = std::floor( s.t() / win ) * win, w = ( s.t() - g ) / win;
				near( name, got, ( 1 - w ) * s.mean( g - n * win, g - ( n - 1 ) * win ) + w * s.mean( g - ( n - 1 ) * win, g - ( n - 2 ) * win ), tol + range * 2e-3, "wrong-mean" ); probe( "exact_mean" );
			}
			if ( s.dtmax > win ) probe( "step_longer_than_window" );
			if ( back > 0 ) probe( "delayed" );
		}
	};

	template<class T> struct First : Part
	{
		xo::filter_1st_order<T, T> f; double y, rate, tol; bool fast;
		First( double r, double init, bool fa ) : f( (T)r, (T)init ), y( (T)init ), rate( (T)r ), tol( sizeof( T ) == 4 ? 2e-4 : 1e-10 ), fast( fa ) {}
		void copy() override { auto c = f; f = c; }
		void op( const Op& o, const Signal& s ) override
		{
			if ( o.k == "set_value" ) { y = (T)( o.a * 0.25 ); f.set_value( (T)y ); } else { rate = (T)( o.a * 0.5 ); f.set_rate( (T)rate ); }
		}
		void step( double dt, double v, const Signal& s ) override
		{
			double got; if ( fast ) { if ( rate * dt > 1.9 ) return; got = f.update_fast( (T)v, (T)dt ); y += rate * dt * ( v - y ); } else { got = s.s.size() % 2 ? f( (T)v, (T)dt ) : f.update_accurate( (T)v, (T)dt ); y = v + ( y - v ) * std::exp( -rate * dt ); }
			Quiet q; near( fast ? "a fast filter" : "a filter", got, y, tol * ( 1 + std::abs( y ) + std::max( std::abs( s.lo ), std::abs( s.hi ) ) ), "wrong-value" ); SIM_CHECK( got == (double)f.value() && (double)f.rate() == rate, "changes", "a filter with %g shows %g and %g", got, (double)f.value(), (double)f.rate() ); probe( "filtered" );
		}
	};

	template<class T> struct Low : Part
	{
		xo::iir_filter<T, 2> f; double b0, a1, a2, x1 = 0, x2 = 0, y1 = 0, y2 = 0, tol;
		Low( double c ) : f( xo::make_lowpass_butterworth_2nd_order( (T)c ) )
		{
			double k = std::tan( 3.14159265358979323846 * (T)c ), d = 1 + std::sqrt( 2.0 ) * k + k * k; b0 = k * k / d; a1 = 2 * ( k * k - 1 ) / d; a2 = ( 1 - std::sqrt( 2.0 ) * k + k * k ) / d; tol = sizeof( T ) == 4 ? 5e-3 : 1e-8;
			auto e = f; double re = 0, im = 0, sum = 0, nyq = 0;	// the impulse response: passes a constant, halves the power at the cutoff frequency, stops the highest frequency
			int n = (int)( 30 / std::min( c, 0.5 - c ) ); for ( int i = 0; i < n; ++i ) { double h = e( (T)( i == 0 ) ); Quiet q; re += h * std::cos( 6.283185307179586 * c * i ); im += h * std::sin( 6.283185307179586 * c * i ); sum += h; nyq += i % 2 ? -h : h; }
			Quiet q; near( "the response of a filter to a constant", sum, 1, tol, "wrong-response" ); near( "the response of a filter at its cutoff", std::sqrt( re * re + im * im ), std::sqrt( 0.5 ), tol, "wrong-response" ); near( "the response of a filter to the highest frequency", nyq, 0, tol, "wrong-response" );
			SIM_CHECK( f() == 0, "changes", "a filter without samples shows %g", (double)f() );
		}
		void copy() override { auto c = f; f = c; }
		void step( double, double v, const Signal& s ) override
		{
			double got = f( (T)v ); Quiet q; double y = b0 * ( v + 2 * x1 + x2 ) - a1 * y1 - a2 * y2, m = 1 + std::max( std::abs( s.lo ), std::abs( s.hi ) );
			near( "a low-pass filter", got, y, tol * m, "wrong-value" ); near( "the velocity of a low-pass filter", (double)f.velocity(), y - y1, 2 * tol * m, "wrong-value" ); SIM_CHECK( got == (double)f(), "changes", "a low-pass filter with %g shows %g", got, (double)f() );
			x2 = x1; x1 = v; y2 = y1; y1 = y; probe( "low_passed" );
		}
	};

	template<int N> struct Iir : Part
	{
		xo::iir_filter<double, N> f; std::vector<double> x, y;
		Iir( Rng& r ) { f.b0_ = r.unit(); for ( int i = 0; i < N; ++i ) { f.b_[i] = r.unit() - 0.5; f.a_[i] = ( r.unit() - 0.5 ) / N; } }
		void copy() override { auto c = f; f = c; }
		void step( double, double v, const Signal& s ) override
		{
			double got = f( v ); Quiet q; double w = f.b0_ * v; for ( int i = 0; i < N; ++i ) if ( (int)x.size() > i ) w += f.b_[i] * x[x.size() - 1 - i] + f.a_[i] * y[y.size() - 1 - i];
			near( "a recursive filter", got, w, 1e-9 * ( 1 + std::max( std::abs( s.lo ), std::abs( s.hi ) ) ), "wrong-value" ); x.push_back( v ); y.push_back( w );
		}
	};

	struct Sums : Part	// average and difference
	{
		xo::averaged a; xo::delta<double> d; std::vector<Sample> in; double prev; long n = 0;
		Sums( double init ) : d( init ), prev( init ) {}
		void copy() override { auto c = a; a = c; auto e = d; d = e; }
		void op( const Op& o, const Signal& ) override { a.reset(); Quiet q; in.clear(); }
		void step( double dt, double v, const Signal& s ) override
		{
			double w = ++n % 2 ? 1 : dt; if ( n % 2 ) a.add( v ); else a.add( v, dt );
			Quiet q; in.push_back( { w, v } ); double sv = 0, sw = 0, m = 0; for ( auto& e : in ) { sv += e.t * e.v; sw += e.t; m = std::max( m, std::abs( e.v ) ); }
			SIM_CHECK( a.empty() == ( sw == 0 ), "wrong-value", "an average with weight %g says it is %s", sw, a.empty() ? "empty" : "not empty" );
			near( "an average", a.get(), sw > 0 ? sv / sw : 0, 1e-9 * ( 1 + m ), "wrong-value" );
			double g = d( v ); SIM_CHECK( g == v - prev, "wrong-value", "a difference is %g instead of %g - %g", g, v, prev ); prev = v;
		}
	};

	struct Cached : Part
	{
		using S = std::string;
		xo::cached_var<S, double> c{ -1.0, "nothing was computed yet, as nothing was asked" }; S val = "nothing was computed yet, as nothing was asked"; double time = -1; double fail; double nm;
		Cached( double f, double m ) : fail( f ), nm( m ) {}
		void copy() override { auto e = c; c = e; }
		void op( const Op& o, const Signal& s ) override	// the same moment again, the one before, or one of its own
		{
			ask( o.a == 0 || s.s.empty() ? s.t() : o.a == 1 && s.s.size() > 1 ? s.s[s.s.size() - 2].t : 1000.0 + o.a );
		}
		void step( double, double, const Signal& s ) override { ask( s.t() ); }
		void ask( double t )
		{
			int runs = 0; S made; bool ok = false, same; const S* r = nullptr; { Quiet q; made = fmt( "a value that was computed at %.9f, long enough to need memory", t ); same = t == time; }
			try { AllocFaults a( nm ); r = &c( t, [&]() -> S { ++runs; if ( sim::fault( "compute_throws", fail ) ) throw std::runtime_error( "cannot compute" ); return made; } ); ok = true; }
			catch ( std::bad_alloc& ) {} catch ( std::exception& ) {}
			Quiet q; SIM_CHECK( runs == ( same ? 0 : 1 ), same ? "computed-again" : "not-computed", "a cached variable was computed %d times at %.9g after %.9g", runs, t, time );
			if ( ok && !same ) { val = made; time = t; }
			SIM_CHECK( ok || ( runs && ( fail > 0 || nm > 0 ) ), "fails", "a cached variable failed" ); if ( !ok ) probe( "compute_failed" ); if ( same ) probe( "cached" );
			if ( ok ) SIM_CHECK( *r == val, "wrong-value", "a cached variable is '%s' instead of '%s'", r->c_str(), val.c_str() );
		}
	};

	std::unique_ptr<Part> make_delay( int k, float dl, double init )
	{
		switch ( k ) {
		case 0: return std::make_unique<Delay<xo::delayer<float>>>( dl, init, 2, false, "a delayer of 2" );
		case 1: return std::make_unique<Delay<xo::delayer<double, 3>>>( dl, init, 3, false, "a delayer of 3" );
		case 2: return std::make_unique<Delay<xo::delayer<float, 5>>>( dl, init, 5, false, "a delayer of 5" );
		case 3: return std::make_unique<Delay<xo::delayer<double, 8>>>( dl, init, 8, false, "a delayer of 8" );
		case 4: return std::make_unique<Delay<xo::smooth_delayer<float>>>( dl, init, 2, true, "a smooth delayer of 2" );
		case 5: return std::make_unique<Delay<xo::smooth_delayer<double, 3>>>( dl, init, 3, true, "a smooth delayer of 3" );
		case 6: return std::make_unique<Delay<xo::smooth_delayer<float, 5>>>( dl, init, 5, true, "a smooth delayer of 5" );
		default: return std::make_unique<Delay<xo::smooth_delayer<double, 8>>>( dl, init, 8, true, "a smooth delayer of 8" );
		}
	}

	void gen( Rng& r, Plan& p )
	{
		int nth = r.chance( 0.75 ) ? 1 : (int)r.range( 2, 3 ); p.cfg["clock"] = r.chance( 0.5 ); p.cfg["tick"] = r.chance( 0.7 ) ? 0 : r.range( 1, 100000 ); p.cfg["seed"] = (long)( r.next() >> 8 );
		if ( r.chance( 0.3 ) ) p.cfg["fail"] = r.range( 50, 500 ); if ( r.chance( 0.2 ) ) p.cfg["nomem"] = r.range( 30, 300 );
		for ( int t = 1; t <= nth; ++t ) {
			long delay = p.cfg[fmt( "delay%d", t )] = r.range( 2, 2000 );	// ms
			p.cfg[fmt( "kind%d", t )] = r.below( 4 ); p.cfg[fmt( "init%d", t )] = r.chance( 0.4 ) ? 0 : r.range( -40, 40 ); p.cfg[fmt( "same%d", t )] = r.chance( 0.7 ); p.cfg[fmt( "slope%d", t )] = r.range( -30, 30 ); p.cfg[fmt( "d%d", t )] = r.below( 8 ); p.cfg[fmt( "e%d", t )] = r.below( 8 );
			// steps from a small part of the delay to much longer, regular or not, now and then a stall
			double base = delay * 1e6 * r.pick<double>( { 0.01, 0.05, 0.1, 0.2, 0.3, 0.7 } ); int mode = (int)r.below( 3 ), n = (int)r.range( 5, base < delay * 2e4 ? 160 : 60 ); double stall = r.chance( 0.25 ) ? 0.06 : 0;
			long fixed = (long)( base * ( 0.5 + r.unit() ) );
			for ( int i = 0; i < n; ++i ) {
				long dt = mode == 0 ? fixed : mode == 1 ? (long)( base * ( 0.7 + 0.6 * r.unit() ) ) : (long)( base * 2 * r.unit() );
				if ( r.chance( stall ) ) dt = (long)( delay * 1e6 * r.pick<double>( { 0.5, 1.5, 4, 30, 1000 } ) * r.unit() ); else if ( mode && r.chance( 0.05 ) ) dt = 0;
				p.add( t, "step", dt, r.below( 1001 ) );
				if ( r.chance( 0.06 ) ) switch ( r.below( 6 ) ) {
				case 0: p.add( t, "set_value", r.range( -20, 20 ) ); break; case 1: p.add( t, "set_rate", r.range( 0, 60 ) ); break; case 2: p.add( t, "reset" ); break; case 3: p.add( t, "copy" ); break; default: p.add( t, "ask", r.below( 3 ) );
				}
			}
		}
	}
	void run( const Plan& p, int )
	{
		set_clock_tick( p.get( "tick" ) ); bool clock = p.get( "clock" );
		struct World { std::unique_ptr<Part> d, e, f1, f2, f3, low, low2, iir, iir4, sums, cached; Signal s; xo::timer timer; double last = 0; std::vector<Part*> all() { return { d.get(), e.get(), f1.get(), f2.get(), f3.get(), low.get(), low2.get(), iir.get(), iir4.get(), sums.get(), cached.get() }; } };
		std::vector<World>* ws; { Quiet q; ws = new std::vector<World>( 4 ); }
		faults_on( true ); int nth = 0; for ( auto& o : p.ops ) nth = std::max( nth, o.t );
		for ( int t = 1; t <= nth; ++t ) {
			World& w = ( *ws )[t]; Rng r( p.get( "seed" ) + t ); auto g = [&]( const char* k ) { return p.get( fmt( "%s%d", k, t ).c_str() ); };
			auto& s = w.s; s.kind = (int)g( "kind" ); s.slope = s.kind == RAMP || s.kind == WALK ? g( "slope" ) * 0.3 : 0; s.init = g( "init" ) * 0.5; s.v0 = g( "same" ) ? s.init : s.init + 3; s.lo = s.hi = s.init; float dl = g( "delay" ) * 1e-3f;
			w.d = make_delay( (int)g( "d" ), dl, s.init ); w.e = make_delay( (int)g( "e" ), dl * 0.7f, s.init ); w.f1 = std::make_unique<First<double>>( 0.1 + 30 * r.unit(), s.init, false ); w.f2 = std::make_unique<First<float>>( 0.1 + 30 * r.unit(), s.init, false ); w.f3 = std::make_unique<First<double>>( 0.1 + 30 * r.unit(), s.init, true );
			w.low = std::make_unique<Low<double>>( 0.02 + 0.43 * r.unit() ); w.low2 = std::make_unique<Low<float>>( 0.05 + 0.4 * r.unit() ); w.iir = std::make_unique<Iir<2>>( r ); w.iir4 = std::make_unique<Iir<5>>( r ); w.sums = std::make_unique<Sums>( s.init ); w.cached = std::make_unique<Cached>( pct( p.get( "fail" ) ), pct( p.get( "nomem" ) ) );
		}
		run_threads( p, [&]( const Op& o ) {
			World& w = ( *ws )[o.t]; auto& s = w.s;
			if ( o.k == "step" ) {
				float dt; if ( clock ) { { Quiet q; advance( o.a ); } double n = w.timer().secondsd(); dt = (float)( n - w.last ); w.last = n; if ( dt < 0 ) dt = 0; } else dt = o.a * 1e-9f;
				float v; { Quiet q; v = (float)s.next( dt, o.b / 1000.0 ); s.add( dt, v ); } for ( auto* c : w.all() ) c->step( dt, v, s );
			}
			else if ( o.k == "set_value" || o.k == "set_rate" ) { w.f1->op( o, s ); w.f2->op( o, s ); w.f3->op( o, s ); }
			else if ( o.k == "reset" ) w.sums->op( o, s );
			else if ( o.k == "ask" ) w.cached->op( o, s );
			else for ( auto* c : w.all() ) c->copy();
		} );
	}
	Register reg( "C24.signal", gen, run );
}
