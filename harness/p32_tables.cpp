// P32: tabulated, binned and special functions have the values of their data
#include "mc.h"
#include "Interpolation.h"
#include "Histogram.h"
#include "Range.h"
#include "utils.h"
#include "NumericalConstants.h"
#include <iostream>
#include <memory>
using namespace std;
struct Silent
{
	streambuf* o;
	ostringstream s;
	Silent() :
		o(cout.rdbuf(s.rdbuf()))
	{
	}
	~Silent()
	{
		cout.rdbuf(o);
	}
};
static string list(const vector<double>& v)
{
	mc::S s;
	for(auto x : v)
		s << x << " ";
	return s;
}
static vector<double> probes(const vector<double>& x)
{
	vector<double> r;
	for(size_t i = 0; i < x.size(); i++)
	{
		r.push_back(x[i]);
		if(i + 1 < x.size())
		{
			double d = x[i + 1] - x[i];
			for(double f : {1e-12, 0.25, 0.5, 0.8125, 1 - 1e-12})
				r.push_back(x[i] + f * d);
			r.push_back(nextafter(x[i], 1e300));
			r.push_back(nextafter(x[i + 1], -1e300));
		}
	}
	return r;
}
static double lin(const vector<double>& x, const vector<double>& y, double t)
{
	size_t i = 0;
	while(i + 2 < x.size() && t > x[i + 1])
		i++;
	return y[i] + (y[i + 1] - y[i]) * (t - x[i]) / (x[i + 1] - x[i]);
}
MC_SECTION("equal-spacing")
{
	int n = 2 + mc::choose(mc::thorough() ? 6 : 4);
	double x0 = mc::pick(vector<double>{0, -1.5, 0.1, 1e6, -1e-9}), dx = mc::pick(vector<double>{1, 0.1, 1.0 / 3, 1e-3, 250});
	vector<double> y, x;
	for(int i = 0; i < n; i++)
	{
		y.push_back(mc::pick(vector<double>{0, 1, -2.5}));
		x.push_back(x0 + i * dx);
	}
	mc::S d;
	d << "values " << list(y) << "from " << x0 << " by " << dx;
	mc::note(d);
	mc::state(d);
	unique_ptr<Interpolation> f;
	{
		// the data do not have to stay, and what follows them in memory does not matter
		vector<double> t;
		t.reserve(n + 3);
		t = y;
		f.reset(new Interpolation(t, x0, dx));
		t.assign(n, 99);
	}
	double tol = 1e-9 * 4 + 4e-16 * fabs(x0) / dx * 10;
	for(double t : probes(x))
		MC_CLOSET((*f)(t), lin(x, y, t), 0, tol, "equal-value", d << " at " << t);
	// beyond the ends the end segments go on
	for(double k : {1e-9, 0.5, 1.0, 3.75})
	{
		double a = x0 - k * dx, b = x.back() + k * dx;
		MC_CLOSET((*f)(a), y[0] - (y[1] - y[0]) * k, 0, tol * 10, "equal-below", d << " at " << a);
		MC_CLOSET((*f)(b), y[n - 1] + (y[n - 1] - y[n - 2]) * k, 0, tol * 10, "equal-above", d << " at " << b);
	}
	mc::outcome(mc::S() << n);
}
// points in any order and spacing
MC_SECTION("any-spacing")
{
	int n = 2 + mc::choose(mc::thorough() ? 5 : 4), order = 1 + mc::choose(5), how = mc::choose(2), perm = mc::choose(6);
	vector<double> x, y;
	double at = mc::pick(vector<double>{0, -2, 5});
	for(int i = 0; i < n; i++)
	{
		x.push_back(at);
		at += i < 3 ? mc::pick(vector<double>{1, 0.25, 2.5}) : 0.75 + 0.5 * (i % 2);
	}
	// polynomials of at most the order are exact, anything passes through its points and has no jumps
	int k = min(order, n - 1), deg = mc::choose(k + 2);
	auto p = [&](double t){
			return deg == k + 1 ? (t > x[n / 2] ? 1.0 : t == x[n / 2] ? -2 : 0.25) : deg == 0 ? 3 : 1 + pow(t - 0.5, deg) - 2 * t * (deg > 1);
		};
	for(auto t : x)
		y.push_back(p(t));
	vector<size_t> ix(n);
	for(int i = 0; i < n; i++)
		ix[i] = perm == 0 ? i : perm == 1 ? n - 1 - i : perm == 2 ? (i + 1) % n : perm == 4 ? (i == 0 || i == n - 1 ? i : n - 1 - i) : perm == 5 ? (i < n - 2 ? i : 2 * n - 3 - i) : (i % 2 ? i / 2 : n - 1 - i / 2);
	vector<double> sx, sy;
	for(auto i : ix)
	{
		sx.push_back(x[i]);
		sy.push_back(y[i]);
	}
	mc::S d;
	d << "order " << order << (how ? " arrays" : " vectors") << " points " << list(sx) << "values " << list(sy);
	mc::note(d);
	mc::state(d);
	Silent q;
	unique_ptr<Interpolation> f(how ? new Interpolation(sx.data(), sy.data(), n, order) : new Interpolation(sx, sy, order));
	fill(sx.begin(), sx.end(), 77);
	fill(sy.begin(), sy.end(), 77);
	double big = 1;
	for(auto v : y)
		big = max(big, fabs(v));
	vector<double> ts = probes(x), got;
	for(double t : ts)
		got.push_back((*f)(t));
	for(size_t i = 0; i < ts.size(); i++)
	{
		double t = ts[i];
		for(int j = 0; j < n; j++)
			if(fabs(t - x[j]) < 1e-11)
				MC_CLOSET(got[i], y[j], 0, 1e-7 * big, "through-points", d << " at " << t);
		if(k == 1)
			MC_CLOSET(got[i], lin(x, y, t), 0, 1e-9 * big, "linear", d << " at " << t);
		if(deg <= k)
			MC_CLOSET(got[i], p(t), 0, 1e-7 * big, "polynomial", d << " at " << t);
	}
	// whatever was asked before
	for(size_t i = 0; i < ts.size(); i++)
	{
		size_t j = i * 5 % ts.size();
		MC_CHECK((*f)(ts[j]) == got[j], "history", d << " at " << ts[j]);
		if(i % 3 == 0)
			for(double out : {x[0] - 1e-6, x[n - 1] + 1e-6, -1e300, 1e300})
			{
				bool thrown = false;
				try
				{
					(*f)(out);
				}
				catch(Interpolation::BadRange& e)
				{
					thrown = string(e.what()).find("not in interpolation range") != string::npos;
				}
				MC_CHECK(thrown, "outside", d << " at " << out);
			}
	}
	mc::outcome(mc::S() << n << order << deg);
}
MC_SECTION("histogram")
{
	double x1 = mc::pick(vector<double>{0, -2, 1.5}), dx = mc::pick(vector<double>{1, 0.5, 0.125});
	int nb = mc::choose(4);
	double part = mc::pick(vector<double>{0, 0.5}), x2 = x1 + (nb + part) * dx;
	vector<double> pool{-1e300, -HUGE_VAL, x1 - 1e-9, x1, x1 + dx / 2, x1 + dx, x1 + nb * dx, x1 + (nb + 1) * dx, x1 + (nb + 1) * dx - 1e-9, x1 + 3.25 * dx, 1e10, 1e25, 1e300, HUGE_VAL};
	int m = mc::choose(mc::thorough() ? 4 : 3);
	vector<double> data;
	for(int i = 0; i < m; i++)
		data.push_back(mc::pick(pool));
	mc::S d;
	d << "from " << x1 << " to " << x2 << " by " << dx << ": " << list(data);
	mc::note(d);
	mc::state(d);
	vector<double> h(7, 5.0);
	size_t lost = Hist(data, x1, x2, dx, h), want = 0;
	MC_CHECK(int(h.size()) == nb + 1, "bins", d << " gives " << h.size());
	vector<double> e(nb + 1);
	for(auto v : data)
	{
		int b = -1;
		for(int i = 0; i <= nb; i++)
			if(v >= x1 + i * dx && v < x1 + (i + 1) * dx)
				b = i;
		if(b < 0)
			want++;
		else
			e[b]++;
	}
	MC_CHECK(h == e, "counts", d << " gives " << list(h) << "should be " << list(e));
	MC_CHECK(lost == want, "lost", d << " loses " << lost << " should be " << want);
	mc::outcome(mc::S() << lost);
}
MC_SECTION("ranges")
{
	vector<double> v{-HUGE_VAL, -3, -1, 0, 1, nextafter(1, 2), 2.5, HUGE_VAL};
	int kind = mc::choose(3);
	double a = mc::pick(v), b = kind == 0 ? mc::pick(v) : 0, x = mc::pick(v);
	if(kind == 2 && a != v[0])
		mc::prune();
	mc::S d;
	d << (kind == 0 ? "range " : kind == 1 ? "point " : "unbounded ") << a << " " << b << " value " << x;
	mc::note(d);
	mc::state(d);
	FloatRange r = kind == 0 ? FloatRange(a, b) : kind == 1 ? FloatRange(a) : FloatRange(UnboundedRange());
	double lo = kind == 0 ? min(a, b) : a, hi = kind == 0 ? max(a, b) : a;
	if(kind == 2)
	{
		lo = -HUGE_VAL;
		hi = HUGE_VAL;
	}
	MC_CHECK(r.IsUnbounded() == (kind == 2), "unbounded", d);
	MC_CHECK(kind == 2 || r.IsFixedPoint() == (lo == hi), "fixed-point", d);
	MC_CHECK(r(x) == (x >= lo && x <= hi), "inside", d);
	MC_CHECK(r.Check(x) == (x < lo ? RangeBase::belowlower : x > hi ? RangeBase::aboveupper : RangeBase::ok), "check", d);
	if(kind == 0)
	{
		FloatRange s(b, a), t(x, b);
		MC_CHECK(r == s && !(r != s), "equal", d);
		bool same = lo == min(x, b) && hi == max(x, b);
		MC_CHECK((r == t) == same && (r != t) == !same, "equal", d);
		NumericalRange<int> g(int(max(-9.0, min(9.0, a))), int(max(-9.0, min(9.0, b))));
		MC_CHECK(g(g.lower) && g(g.upper) && !g(g.lower - 1) && !g(g.upper + 1), "integers", d);
	}
	mc::outcome(mc::S() << r.Check(x));
}
MC_SECTION("functions")
{
	int n = mc::choose(400);
	double x = 0.05 + n * 0.125 + (n > 200 ? (n - 200) * 2.5 : 0);
	mc::S d;
	d << "argument " << x;
	mc::note(d);
	mc::state(d);
	MC_CLOSET(LogGamma(x), lgamma(x), 1e-12, 1e-12, "log-gamma", d);
	if(x < 160)
		MC_CLOSET(Gamma(x), tgamma(x), 1e-10, 0, "gamma", d);
	double t = (n - 200) * 0.0625, w = (n % 7) * 0.25;
	long double want = 0.5L * (erfcl(t / sqrtl(2)) - erfcl((t + w) / sqrtl(2)));
	MC_CLOSET(NormalBin(t, t + w), double(want), 1e-12, 1e-16, "normal-bin", d << " from " << t << " to " << t + w);
	double sum = 0;
	for(int i = -40; i < 40; i++)
		sum += NormalBin(i * 0.25 + 1e-3 * n, (i + 1) * 0.25 + 1e-3 * n);
	MC_CLOSET(sum, 1.0, 0, 1e-13, "normal-total", d);
	MC_CHECK(fequal(x, x) && fequal(x, x + 1e-3, 2e-3) && !fequal(x, x + 1e-3, 1e-4) && !fequal(x, x + 1), "fequal", d);
	MC_CLOSET(pi, acos(-1.0), 0, 0, "pi", d);
	MC_CLOSET(twoPi, 2 * acos(-1.0), 0, 0, "pi", d);
	MC_CLOSET(euler, 0.57721566490153286, 1e-15, 0, "euler", d);
}
