// P39: ground motion moves supports by the ATL law
#include "mc.h"
#include <random>
#include "MerlinIO.h"
#include "ATL2D.h"
#include "SimpleATL.h"
#include "AcceleratorSupport.h"
#include "RandomNG.h"
#include <fstream>
#include <iomanip>
#include <memory>
#include <map>
#include <random>
#include <unistd.h>
using namespace std;
typedef vector<double> Vec;
typedef vector<Vec> Mat;
struct Layout
{
	vector<AcceleratorSupport> s;
	Vec arc, x, z;
	AcceleratorSupportList list;
	Point2D ref;
	string d;
	double dist(int i, int j) const
	{
		return hypot(x[i] - x[j], z[i] - z[j]);
	}
	// covariance per A and time: motion relative to the reference point
	double cov(int i, int j) const
	{
		return (hypot(x[i] - ref.x, z[i] - ref.y) + hypot(x[j] - ref.x, z[j] - ref.y) - dist(i, j)) / 2;
	}
	void place()
	{
		s.resize(x.size());
		for(size_t i = 0; i < x.size(); i++)
		{
			s[i].SetPosition(arc[i], x[i], z[i]);
			list.push_back(&s[i]);
		}
	}
};
static const double GRID[][2] = {{0, 0}, {3, 0}, {3, 4}, {-2, 7.5}, {0, 20}};
static void layout(Layout& l, bool thorough)
{
	int n = 1 + mc::choose(thorough ? 4 : 3), r = mc::choose(3);
	l.ref = r == 0 ? Point2D(0, 0) : r == 1 ? Point2D(3, 4) : Point2D(-5, 1);
	l.d = mc::S() << "reference " << l.ref.x << " " << l.ref.y << " supports";
	for(int i = 0; i < n; i++)
	{
		int g = mc::choose(5);
		l.x.push_back(GRID[g][0]);
		l.z.push_back(GRID[g][1]);
		l.arc.push_back(10 * g);
		l.d += string(mc::S() << " " << g);
	}
	l.place();
}
static Vec offsets(const Layout& l)
{
	Vec o;
	for(auto& s : l.s)
	{
		o.push_back(s.GetOffset().y);
		MC_CHECK(s.GetOffset().x == 0 && s.GetOffset().z == 0, "sideways", l.d);
	}
	return o;
}
// the map from standard normal numbers drawn from the generator to the motion, if it is one: solves M from the first draws and tries it on the others
static bool solve(const vector<Vec>& z, const vector<Vec>& y, Mat& M)
{
	size_t k = z[0].size(), n = y[0].size(), m = z.size();
	// normal equations over all steps, then the residual
	Mat A(k, Vec(k + n, 0));
	for(size_t t = 0; t < m; t++)
		for(size_t i = 0; i < k; i++)
		{
			for(size_t j = 0; j < k; j++)
				A[i][j] += z[t][i] * z[t][j];
			for(size_t j = 0; j < n; j++)
				A[i][k + j] += z[t][i] * y[t][j];
		}
	for(size_t c = 0; c < k; c++)
	{
		size_t p = c;
		for(size_t r = c; r < k; r++)
			if(fabs(A[r][c]) > fabs(A[p][c]))
				p = r;
		if(fabs(A[p][c]) < 1e-9)
			return false;
		swap(A[c], A[p]);
		for(size_t r = 0; r < k; r++)
			if(r != c)
			{
				double f = A[r][c] / A[c][c];
				for(size_t j = c; j < k + n; j++)
					A[r][j] -= f * A[c][j];
			}
	}
	M.assign(n, Vec(k));
	double big = 0, off = 0;
	for(size_t i = 0; i < n; i++)
		for(size_t j = 0; j < k; j++)
			M[i][j] = A[j][k + i] / A[j][j];
	for(size_t t = 0; t < m; t++)
		for(size_t i = 0; i < n; i++)
		{
			double s = 0;
			for(size_t j = 0; j < k; j++)
				s += M[i][j] * z[t][j];
			big = max(big, fabs(y[t][i]));
			off = max(off, fabs(s - y[t][i]));
		}
	return off <= 1e-9 * big;
}
// covariance of motions y made after the generator states g (one for each step): exact where motions are linear in the draws, else from their moments
static void covariance(const vector<mt19937_64>& g, const vector<Vec>& y, const Mat& want, const string& key, const string& d)
{
	size_t n = want.size();
	double big = 0;
	for(size_t i = 0; i < n; i++)
	{
		big = max(big, want[i][i]);
		for(size_t t = 0; t < y.size(); t++)
			MC_CHECK(std::isfinite(y[t][i]), (key + "-undefined").c_str(), d << ": support " << i << " moved by " << y[t][i]);
	}
	Mat C(n, Vec(n));
	bool exact = false;
	if(big == 0)
		exact = true; // all zero, or not
	for(size_t i = 0; i < n && big == 0; i++)
		for(size_t j = 0; j < n; j++)
			for(auto& v : y)
				C[i][j] = max(C[i][j], fabs(v[i]));
	// one number for each degree of freedom, which are as many as the supports or less
	for(int kind = 0; kind < 2 && !exact; kind++)
		for(size_t k = n; k >= 1 && !exact; k--)
		{
			vector<Vec> z;
			for(auto s : g)
			{
				Vec v;
				normal_distribution<> one(0, 1);
				for(size_t i = 0; i < k; i++)
					v.push_back(kind ? one(s) : normal_distribution<>{0, 1} (s));
				z.push_back(v);
			}
			Mat M;
			if(!solve(z, y, M))
				continue;
			exact = true;
			for(size_t i = 0; i < n; i++)
				for(size_t j = 0; j < n; j++)
				{
					C[i][j] = 0;
					for(size_t l = 0; l < k; l++)
						C[i][j] += M[i][l] * M[j][l];
				}
		}
	double tol = exact ? 1e-9 * big + 1e-300 : 6 * big * sqrt(2.0 / y.size());
	mc::outcome(exact ? "exact" : "moments");
	if(!exact)
		for(size_t i = 0; i < n; i++)
			for(size_t j = 0; j < n; j++)
			{
				C[i][j] = 0;
				for(auto& v : y)
					C[i][j] += v[i] * v[j] / y.size();
			}
	for(size_t i = 0; i < n; i++)
		for(size_t j = 0; j < n; j++)
			MC_CHECK(fabs(C[i][j] - want[i][j]) <= tol, key.c_str(), d << ": supports " << i << " " << j << " have covariance " << C[i][j] << " should be " << want[i][j] << (exact ? "" : " from moments"));
}
static mt19937_64& gen(unsigned seed)
{
	return RandomNG::getLocalGenerator(hash_string("ATL2D") + seed);
}
// the motion of a step in the plane: differences of any two supports have the variance A T L
MC_SECTION("plane")
{
	Layout l;
	layout(l, mc::thorough());
	int n = int(l.s.size()), mode = mc::choose(2), sz = mc::choose(2), at = mc::choose(3);
	double A = sz ? 1e-17 : 4, dt = sz ? 3600 : 0.25;
	string d = mc::S() << l.d << (mode ? " absolute" : " increments") << " A " << A << " step " << dt << " after " << at;
	mc::note(d);
	mc::state(d);
	RandomNG::init(5);
	ATL2D atl(A, l.list, l.ref);
	MC_CHECK(atl.SetATLMode(mode ? ATL2D::absolute : ATL2D::increment), "mode-refused", d);
	for(int i = 0; i < at; i++)
		MC_CLOSET(atl.DoStep(2 * dt), 2 * dt * (i + 1), 1e-12, 0, "time", d);
	vector<mt19937_64> g;
	vector<Vec> y;
	double t0 = 2 * dt * at;
	for(int i = 0; i < n + 60; i++)
	{
		Vec was = offsets(l);
		g.push_back(gen(0));
		double t = atl.DoStep(dt);
		MC_CLOSET(t, t0 + dt * (i + 1), 1e-12, 0, "time", d);
		MC_CHECK(t == atl.GetTime(), "time", d);
		Vec now = offsets(l);
		// offsets at a time go as its root
		for(int j = 0; j < n; j++)
			now[j] = mode ? now[j] / sqrt(t) * sqrt(dt) : now[j] - was[j];
		if(!mode || i > 0 || at > 0 || true)
			y.push_back(now);
		for(int j = 0; j < n; j++)
			for(int k = 0; k < j; k++)
				if(l.dist(j, k) == 0)
					MC_CHECK(fabs(now[j] - now[k]) <= 1e-6 * sqrt(A * dt), "apart", d << ": supports " << j << " and " << k << " at the same place moved by " << now[j] << " and " << now[k]);
	}
	Mat want(n, Vec(n));
	for(int i = 0; i < n; i++)
		for(int j = 0; j < n; j++)
			want[i][j] = A * dt * l.cov(i, j);
	covariance(g, y, want, "covariance", d);
	atl.Reset();
	MC_CHECK(atl.GetTime() == 0 && offsets(l) == Vec(n, 0.0), "reset", d);
}
// along the line only, supports in any order
MC_SECTION("line")
{
	Layout l;
	l.d = "supports";
	int n = 1 + mc::choose(mc::thorough() ? 4 : 3), sz = mc::choose(2), vib = mc::choose(2);
	for(int i = 0; i < n; i++)
	{
		int g = mc::choose(4);
		l.arc.push_back(g * g * 2.5);
		l.x.push_back(0);
		l.z.push_back(g * g * 2.5);
		l.d += string(mc::S() << " " << l.arc.back());
	}
	l.place();
	double A = sz ? 1e-17 : 4, dt = sz ? 3600 : 0.25, v = vib ? (sz ? 1e-7 : 1) : 0;
	string d = mc::S() << l.d << " A " << A << " step " << dt << " vibration " << v;
	mc::note(d);
	mc::state(d);
	RandomNG::init(6);
	SimpleATL atl(vib ? 0 : A, l.list, v);
	vector<mt19937_64> g;
	vector<Vec> y;
	for(int i = 0; i < n + 60; i++)
	{
		Vec was = offsets(l);
		g.push_back(gen(0));
		MC_CLOSET(atl.DoStep(dt), dt * (i + 1), 1e-12, 0, "time", d);
		Vec now = offsets(l);
		if(!vib)
			for(int j = 0; j < n; j++)
				now[j] -= was[j];
		y.push_back(now);
	}
	Mat want(n, Vec(n));
	for(int i = 0; i < n; i++)
		for(int j = 0; j < n; j++)
			want[i][j] = vib ? (i == j ? v * v : 0) : A * dt * min(l.arc[i], l.arc[j]);
	covariance(g, y, want, vib ? "vibration" : "covariance", d);
	atl.Reset();
	MC_CHECK(atl.GetTime() == 0 && offsets(l) == Vec(n, 0.0), "reset", d);
}
// vibration adds to offsets at a time and does not stay
MC_SECTION("vibration")
{
	Layout l;
	layout(l, false);
	int n = int(l.s.size());
	double v = mc::choose(2) ? 1e-7 : 2;
	string d = mc::S() << l.d << " vibration " << v;
	mc::note(d);
	mc::state(d);
	RandomNG::init(7);
	ATL2D atl(0, l.list, l.ref);
	MC_CHECK(atl.SetVibration(v), "vibration-refused", d);
	vector<mt19937_64> g;
	vector<Vec> y;
	for(int i = 0; i < n + 60; i++)
	{
		g.push_back(gen(0));
		atl.DoStep(1);
		y.push_back(offsets(l));
	}
	Mat want(n, Vec(n));
	for(int i = 0; i < n; i++)
		want[i][i] = v * v;
	covariance(g, y, want, "vibration", d);
}
// histories of settings
MC_SECTION("histories")
{
	int simple = mc::choose(2), depth = mc::thorough() ? 7 : 6;
	Layout l;
	l.x = {0, 3, 3};
	l.z = {5, 0, 4};
	l.arc = {20, 0, 10};
	l.place();
	RandomNG::init(8);
	string d = simple ? "line" : "plane";
	double t = 0;
	unsigned seed = 0;
	bool inc = false, vib = false;
	unique_ptr<ATL2D> a;
	unique_ptr<SimpleATL> s;
	if(simple)
		s.reset(new SimpleATL(1, l.list));
	else
		a.reset(new ATL2D(1, l.list, l.ref));
	// motions of a seed from its start on, by mode and time: as before for the same calls
	static map<string, Vec> known;
	string since = "new";
	Vec y(3, 0.0);
	for(int i = 0; i < depth; i++)
	{
		int op = i + 1 == depth ? mc::choose(2) : mc::choose(simple ? 5 : 9);
		switch(op)
		{
		case 0:
		case 1:
		{
			double dt = op ? 4 : 0.5;
			d += op ? "; step 4" : "; step 0.5";
			mc::note(d);
			Vec was = y;
			double r = simple ? s->DoStep(dt) : a->DoStep(dt);
			t += dt;
			MC_CLOSET(r, t, 1e-12, 0, "time", d);
			y = offsets(l);
			since += vib && !inc ? "v" : op ? "b" : "a";
			Vec mv = y;
			if(inc || simple)
				for(int j = 0; j < 3; j++)
					mv[j] -= was[j];
			else
				for(int j = 0; j < 3; j++)
					mv[j] /= sqrt(t);
			if(vib && !inc)
				break;
			// normal numbers over the sign and scale of a step: the same wherever the generator stands the same
			string key = mc::S() << simple << seed << inc << " " << since;
			if(inc || simple)
				for(int j = 0; j < 3; j++)
					mv[j] /= sqrt(dt);
			Vec& k = known[key];
			if(k.empty())
				k = mv;
			for(int j = 0; j < 3; j++)
			{
				MC_CHECK(fabs(mv[j] - k[j]) < 1e-9, "repeat", d << ": support " << j << " moved by " << mv[j] << " instead of " << k[j] << " as before");
				MC_CHECK(fabs(mv[j]) < 40 && (mv[j] != 0 || (simple && l.arc[j] == 0)), "size", d << ": support " << j << " moved by " << mv[j]);
			}
			break;
		}
		case 2:
			d += "; reset";
			mc::note(d);
			simple ? s->Reset() : a->Reset();
			t = 0;
			y = offsets(l);
			MC_CHECK(y == Vec(3, 0.0) && (simple ? s->GetTime() : a->GetTime()) == 0, "reset", d);
			break;
		case 3:
		{
			seed = 7 - seed;
			d += string(mc::S() << "; seed " << seed);
			mc::note(d);
			simple ? s->SetRandomSeed(seed) : a->SetRandomSeed(seed);
			MC_CHECK((simple ? s->GetRandomSeed() : a->GetRandomSeed()) == seed, "seed", d);
			since = "new";
			break;
		}
		case 4:
			d += "; seed again";
			mc::note(d);
			simple ? s->ResetRandomSeed() : a->ResetRandomSeed();
			since = "new";
			break;
		case 5:
		case 6:
		{
			d += op == 5 ? "; increments" : "; absolute";
			mc::note(d);
			bool to = op == 5, ok = a->SetATLMode(to ? ATL2D::increment : ATL2D::absolute);
			// may be refused with vibration
			MC_CHECK(ok || vib, "mode", d << ": refused");
			if(ok)
				inc = to;
			break;
		}
		case 7:
			d += "; vibration";
			mc::note(d);
			MC_CHECK(a->SetVibration(0.5) == !inc, "vibration", d);
			vib = vib || !inc;
			break;
		case 8:
			d += "; no vibration";
			mc::note(d);
			MC_CHECK(a->SetVibration(0) == !inc, "vibration", d);
			vib = vib && inc;
			break;
		}
		mc::state(d);
	}
	// the written offsets
	ostringstream os;
	os << fixed << setprecision(2);
	simple ? s->RecordOffsets(os) : a->RecordOffsets(os);
	os << 0.125;
	string o = os.str();
	MC_CHECK(o.substr(o.rfind('\n') + 1) == "0.12" || o.substr(o.rfind('\n') + 1) == "0.13", "format-left", d << ": " << o);
	istringstream is(o);
	vector<int> ord = simple ? vector<int>{1, 2, 0} : vector<int>{0, 1, 2};
	for(int j : ord)
	{
		double v[5];
		for(int k = 0; k < (simple ? 3 : 5); k++)
			MC_CHECK(bool(is >> v[k]), "record", d << ": " << o);
		double dy = simple ? v[1] : v[4];
		MC_CHECK(fabs(dy - y[j]) <= 6e-5 * fabs(y[j]), "record", d << ": " << o);
		MC_CHECK(simple ? v[0] == 0 && v[2] == 0 : fabs(v[0] - t) <= 6e-5 * t && fabs(v[1] - l.arc[j]) < 1e-3 && v[2] == l.x[j] && v[3] == l.z[j], "record", d << ": " << o);
	}
	mc::sample(d);
}
// the eigensystem in files
MC_SECTION("files")
{
	Layout l, m;
	layout(l, mc::thorough());
	m.x = l.x;
	m.z = l.z;
	m.arc = l.arc;
	m.ref = l.ref;
	m.place();
	int n = int(l.s.size());
	string d = l.d, f = mc::S() << "p39-" << getpid();
	mc::note(d);
	mc::state(d);
	RandomNG::init(9);
	ATL2D a(1, l.list, l.ref);
	{
		ofstream v(f + ".vec"), e(f + ".val");
		a.RecordEigenSystem(&v, &e);
	}
	unique_ptr<ATL2D> b;
	{
		ifstream v(f + ".vec"), e(f + ".val");
		b.reset(new ATL2D(1, m.list, m.ref, &v, &e));
	}
	unlink((f + ".vec").c_str());
	unlink((f + ".val").c_str());
	for(int mode = 0; mode < 2; mode++)
		for(int i = 0; i < 4; i++)
		{
			a.SetATLMode(mode ? ATL2D::absolute : ATL2D::increment);
			b->SetATLMode(mode ? ATL2D::absolute : ATL2D::increment);
			a.SetRandomSeed(i);
			a.DoStep(1);
			b->SetRandomSeed(i);
			b->DoStep(1);
			Vec p = offsets(l), q = offsets(m);
			for(int j = 0; j < n; j++)
				MC_CHECK(fabs(p[j] - q[j]) < 1e-6, "other-motion", d << ": support " << j << " moves by " << q[j] << " with the eigensystem from files, " << p[j] << " without");
		}
}
