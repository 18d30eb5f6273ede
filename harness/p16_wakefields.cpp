// P16: wakefields act on each particle as the charge ahead of it says
#include "mc.h"
#include "MerlinIO.h"
#include "Components.h"
#include "AcceleratorModelConstructor.h"
#include "WakePotentials.h"
#include "WakeFieldProcess.h"
#include "CouplerWakeFieldProcess.h"
#include "CombinedWakeRF.h"
#include "CollimatorWakeProcess.h"
#include "CollimatorWakePotentials.h"
#include "SMPWakeFieldProcess.h"
#include "ParticleTracker.h"
#include "ParticleComponentTracker.h"
#include "TWRFStructure.h"
#include "SMPTracker.h"
#include "PhysicalConstants.h"
using namespace std;
using namespace ParticleTracking;
typedef long double ld;
typedef complex<double> C;
static const ld E0 = PhysicalConstants::ElectronCharge * 1e-9L; // GeV per V and electron
static const double NP = 2e10;
// wakes in V/C/m and V/C/m/m of shapes 0..3, per shape other constants
struct Wake: public WakePotentials
{
	int s;
	double f;
	mutable double bad = 1; // distances of the wrong sign
	Wake(int s, bool c = false, double f = 1) :
		s(s), f(f)
	{
		csr = c;
	}
	static double shape(int s, double z, int t)
	{
		double u = z / 1e-3;
		switch(s)
		{
		case 0: return t ? 3 : 2;
		case 1: return t ? 5 * u : 1 + 0.5 * u;
		case 2: return t ? 4 * (1 - exp(-u)) : 3 * exp(-2 * u);
		default: return t ? -2 * cos(u) : sqrt(fabs(u)) + 1;
		}
	}
	double L(double z) const
	{
		return f * 1e15 * shape(s, z, 0);
	}
	double T(double z) const
	{
		return f * 1e18 * shape(s, z, 1);
	}
	double Wlong(double z) const override
	{
		if(!csr)
			bad = min(bad, z);
		return L(z);
	}
	double Wtrans(double z) const override
	{
		if(!csr)
			bad = min(bad, z);
		return T(z);
	}
};
struct Quiet
{
	ostringstream o;
	ostream* old;
	streambuf* c;
	Quiet() :
		old(MerlinIO::std_warn), c(cout.rdbuf(o.rdbuf()))
	{
		MerlinIO::std_warn = &o;
	}
	~Quiet()
	{
		MerlinIO::std_warn = old;
		cout.rdbuf(c);
	}
};
// passes a component of length L under a process with further limits to the steps, as the tracker does
static int pass(BunchProcess& p, AcceleratorComponent& c, int pattern)
{
	double L = c.GetLength(), s = 0;
	static const vector<vector<double>> W{{1}, {0.5, 0.5}, {0.1, 1}, {1. / 3, 1. / 3, 1. / 3}, {0.1, 0.1, 0.1, 0.1, 0.1, 0.1, 0.1, 0.1, 0.1, 0.1}, {0.7, 0.2, 0.2}, {1. / 7, 1. / 7, 1. / 7, 1. / 7, 1. / 7, 1. / 7, 1. / 7}, {0.05, 0.9, 0.1}};
	int n = 0;
	size_t k = 0;
	p.SetCurrentComponent(c);
	if(L == 0)
	{
		if(p.IsActive())
		{
			p.DoProcess(0);
			n++;
		}
		return n;
	}
	while(L - s > 1e-12 * L && n < 100)
	{
		double ds = L - s;
		if(k < W[pattern].size())
			ds = min(ds, W[pattern][k++] * L);
		if(p.IsActive())
			ds = min(ds, p.GetMaxAllowedStepSize());
		s += ds;
		n++;
		if(p.IsActive())
			p.DoProcess(ds);
	}
	return n;
}
static const int NPATTERN = 8;
struct P
{
	double x, xp, y, yp, ct, dp;
};
static P get(const PSvector& p)
{
	return P{p.x(), p.xp(), p.y(), p.yp(), p.ct(), p.dp()};
}
static PSvector put(const P& p)
{
	PSvector v(0);
	v.x() = p.x;
	v.xp() = p.xp;
	v.y() = p.y;
	v.yp() = p.yp;
	v.ct() = p.ct;
	v.dp() = p.dp;
	return v;
}
static bool before(const P& a, const P& b)
{
	return a.ct != b.ct ? a.ct < b.ct : a.x < b.x;
}
static vector<P> sorted(const ParticleBunch& b)
{
	vector<P> r;
	for(auto& p : b.GetParticles())
		r.push_back(get(p));
	sort(r.begin(), r.end(), before);
	return r;
}
struct Slices
{
	double z0, dz;
	int nb;
	vector<P> in; // by ct
	vector<int> bin;
	double total;
	double lost;
};
// slices of the bunch, as wide as asked in standard deviations
static Slices slices(const vector<P>& all, double total, int nb, double ns)
{
	ld m = 0, v = 0;
	for(auto& p : all)
		m += p.ct;
	m /= all.size();
	for(auto& p : all)
		v += (p.ct - m) * (p.ct - m);
	ld sig = sqrt(v / all.size());
	if(sig < 1e-9)
		mc::prune(); // no length
	Slices s;
	s.z0 = m - ns * sig;
	s.dz = 2 * ns * sig / nb;
	s.nb = nb;
	s.total = total;
	s.lost = 0;
	for(auto& p : all)
	{
		double u = (p.ct - s.z0) / s.dz;
		if(fabs(u - round(u)) < 1e-7)
			mc::prune(); // on the edge of slices
		if(u < 0 || u > nb)
			s.lost++;
		else
		{
			s.in.push_back(p);
			s.bin.push_back(int(u));
		}
	}
	if(s.in.empty())
		mc::prune();
	return s;
}
// a value on edges of slices, between them
static ld between(const Slices& s, size_t k, const vector<ld>& edge)
{
	ld f = (s.in[k].ct - s.z0) / s.dz - s.bin[k];
	return edge[s.bin[k]] * (1 - f) + edge[s.bin[k] + 1] * f;
}
struct Kick
{
	ld x, y, e; // GeV
};
static vector<Kick> wake(const Slices& s, const Wake& w, double L, bool tw)
{
	vector<ld> n(s.nb), X(s.nb), Y(s.nb), ex(s.nb + 1), ey(s.nb + 1), ez(s.nb + 1);
	for(size_t k = 0; k < s.in.size(); k++)
	{
		n[s.bin[k]]++;
		X[s.bin[k]] += s.in[k].x;
		Y[s.bin[k]] += s.in[k].y;
	}
	ld q = fabs(s.total) / s.in.size() * E0 * L;
	for(int i = 0; i <= s.nb; i++)
		for(int j = i; j < s.nb; j++)
		{
			ld d = (j + 0.5L - i) * s.dz;
			ez[i] += q * n[j] * w.L(d);
			if(tw)
			{
				ex[i] += q * X[j] * w.T(d);
				ey[i] += q * Y[j] * w.T(d);
			}
		}
	vector<Kick> r;
	for(size_t k = 0; k < s.in.size(); k++)
		r.push_back({between(s, k, ex), between(s, k, ey), -between(s, k, ez)});
	return r;
}
static void compare(const ParticleBunch& b, const Slices& s, const vector<Kick>& k, double P0, bool ref, const string& d)
{
	MC_CHECK(b.size() == s.in.size(), "particles", d << ": " << b.size() << " particles, expected " << s.in.size());
	vector<P> g = sorted(b);
	ld sum = 0, big = 0;
	for(auto& c : k)
		sum += c.e, big = max({big, fabs(c.e), fabs(c.x), fabs(c.y)});
	ld P1 = b.GetReferenceMomentum();
	MC_CLOSET(double(P1), double(P0 + (ref ? sum / k.size() : 0)), 1e-13, 1e-9 * double(big), "reference", d << ": reference momentum (was " << P0 << ")");
	MC_CLOSET(b.GetTotalCharge(), s.total, 1e-12, 0, "charge", d << ": total charge");
	for(size_t i = 0; i < g.size(); i++)
	{
		const P& a = s.in[i];
		mc::S w;
		w << d << ": particle " << i << " of ct " << a.ct;
		MC_CHECK(g[i].x == a.x && g[i].y == a.y && g[i].ct == a.ct, "moved", w << " moved");
		ld e = P1 * (1 + g[i].dp), e0 = P0 * (1 + a.dp);
		MC_CLOSET(double(e - e0), double(k[i].e), 1e-8, 1e-9 * double(big) + 1e-12 * P0, "energy", w << ": gain of momentum");
		ld ddp = k[i].e / P0;
		double tx = double(2 * fabs(a.dp) * (fabs(k[i].x) + fabs(P0 * ddp * a.xp)) + 1e-9 * big + 1e-12 * P0), ty = double(2 * fabs(a.dp) * (fabs(k[i].y) + fabs(P0 * ddp * a.yp)) + 1e-9 * big + 1e-12 * P0);
		MC_CLOSET(double(e * g[i].xp - e0 * a.xp), double(k[i].x), 1e-8, tx, "kick-x", w << ": horizontal kick");
		MC_CLOSET(double(e * g[i].yp - e0 * a.yp), double(k[i].y), 1e-8, ty, "kick-y", w << ": vertical kick");
	}
}
static const vector<double> CT{0, 0.13e-3, 0.31e-3, 0.52e-3, 0.77e-3, 1.01e-3};
// all multisets of places for n particles
static vector<P> choosebunch(int nmin, int nmax, bool off)
{
	static const P A[] = {{1e-3, 2e-4, -2e-3, 1e-4, 0, 0}, {-3e-3, 0, 1e-3, -3e-4, 0, 0.01}, {2e-3, -1e-4, 0, 0, 0, -0.02}, {0, 3e-4, 4e-3, 2e-4, 0, 0.005}, {-1e-3, -2e-4, -3e-3, 0, 0, 0}};
	int n = nmin + mc::choose(nmax - nmin + 1), c = 0;
	vector<P> r;
	for(int i = 0; i < n; i++)
	{
		c += mc::choose(int(CT.size()) - c);
		P p = A[i];
		p.ct = CT[c] - 0.2e-3;
		if(!off)
			p.dp = 0;
		r.push_back(p);
	}
	switch(mc::choose(3)) // order in the bunch
	{
	case 1: reverse(r.begin(), r.end()); break;
	case 2: rotate(r.begin(), r.begin() + 1, r.end()); break;
	}
	return r;
}
static ParticleBunch* bunch(const vector<P>& v, double P0, int q)
{
	ParticleBunch* b = new ParticleBunch(P0, q * NP / v.size());
	for(auto& p : v)
		b->AddParticle(put(p));
	return b;
}
static string str(const vector<P>& v)
{
	mc::S d;
	d << "ct";
	for(auto& p : v)
		d << " " << p.ct;
	return d;
}
MC_SECTION("slices")
{
	Quiet quiet;
	bool off = mc::choose(2);
	vector<P> v = choosebunch(2, mc::thorough() ? 5 : 4, off);
	int nb = mc::pick(vector<int>{1, 2, 3, 7}), shape = mc::choose(4), q = mc::choose(2) ? -1 : 1;
	double ns = mc::pick(vector<double>{3, 1.2}), P0 = q < 0 ? 1 : 20;
	bool tw = mc::choose(2);
	string d = mc::S() << str(v) << (off ? " off momentum" : "") << ", " << nb << " slices in +-" << ns << " sigma, wake " << shape << " charge " << q << (tw ? "" : " longitudinal only");
	mc::note(d);
	Slices s = slices(v, q * NP, nb, ns);
	mc::state(d);
	sort(s.in.begin(), s.in.end(), before);
	for(size_t k = 0; k < s.in.size(); k++)
		s.bin[k] = int((s.in[k].ct - s.z0) / s.dz);
	Wake w(shape);
	double L = 0.7;
	Drift c("D", L);
	c.SetWakePotentials(&w);
	unique_ptr<ParticleBunch> b(bunch(v, P0, q));
	WakeFieldProcess p(1, nb, ns);
	p.IncludeTransverseWake(tw);
	p.InitialiseProcess(*b);
	pass(p, c, 0);
	compare(*b, s, wake(s, w, L, tw), P0, true, d);
	MC_CHECK(w.bad > 0, "causality", d << ": wake asked for at " << w.bad);
	mc::sample(d);
}
// once per passage, where asked, whatever the steps; for the components it is responsible for
MC_SECTION("passages")
{
	Quiet quiet;
	double L = mc::pick(vector<double>{0.7, 3.7, 12.3, 0.37, 1. / 3, 0});
	int pattern = L == 0 ? 0 : mc::choose(NPATTERN), expects = mc::choose(4), times = 1 + mc::choose(2);
	bool centre = mc::choose(2), coupler = mc::choose(2);
	static const char* EX[] = {"nothing", "this process", "another process", "no wake"};
	string d = mc::S() << "component of length " << L << " steps " << pattern << (centre ? " impulse at the centre" : "") << " wake expecting " << EX[expects] << " " << times << " passages of " << (coupler ? "the coupler process" : "the process");
	mc::note(d);
	mc::state(d);
	struct Combined: public CombinedWakeRF
	{
		double Wlong(double z) const override
		{
			return 2e15;
		}
		double Wtrans(double z) const override
		{
			return 3e18;
		}
		Vector2D Wxy(double, double) const override
		{
			return Vector2D(0, 0);
		}
		Vector2D CouplerRFKick(double, double, double) const override
		{
			return Vector2D(0, 0);
		}
	} cw;
	Wake w(0);
	if(coupler && (L == 0 || expects == 2))
		mc::prune();
	Drift c("D", L);
	WakeFieldProcess p0(1, 3, 3);
	CouplerWakeFieldProcess p1(1, 3, 3);
	WakeFieldProcess& p = coupler ? p1 : p0;
	WakePotentials& wp = coupler ? static_cast<WakePotentials&>(cw) : w;
	if(expects != 3)
		c.SetWakePotentials(&wp);
	WakeFieldProcess other(1);
	CouplerWakeFieldProcess other1(1);
	if(expects == 1)
		wp.SetExpectedProcess(coupler ? &other1 : &other);
	if(expects == 2)
		wp.SetExpectedProcess(coupler ? static_cast<BunchProcess*>(&other) : &other1);
	vector<P> v{{1e-3, 0, 2e-3, 0, 0, 0}, {-1e-3, 1e-4, 0, 2e-4, 1e-4, 0}, {3e-3, 0, 0, 0, 2.5e-4, 0}};
	double P0 = 20;
	unique_ptr<ParticleBunch> b(bunch(v, P0, 1));
	p.ApplyImpulseAt(centre ? WakeFieldProcess::atCentre : WakeFieldProcess::atExit);
	p.InitialiseProcess(*b);
	for(int t = 0; t < times; t++)
	{
		vector<P> u = sorted(*b);
		double Pr = b->GetReferenceMomentum();
		Slices s = slices(u, NP, 3, 3);
		int n = pass(p, c, pattern);
		MC_CHECK(n < 90, "steps", d << ": more than 90 steps");
		vector<Kick> k = wake(s, w, L, true);
		bool acts = expects < 2;
		if(!acts)
			for(auto& x : k)
				x = Kick{0, 0, 0};
		compare(*b, s, k, Pr, true, mc::S() << d << ", passage " << t + 1);
	}
	// nothing without a bunch
	mc::sample(d);
}
// what happened to the bunch between passages counts
MC_SECTION("histories")
{
	Quiet quiet;
	vector<P> v{{1e-3, 1e-4, -2e-3, 0, -1e-4, 0}, {-2e-3, 0, 1e-3, 0, 0.2e-4, 0}, {4e-3, 0, 3e-3, -1e-4, 2.3e-4, 0}, {0, 0, -1e-3, 0, 2.9e-4, 0}};
	int q = mc::choose(2) ? -1 : 1;
	double P0 = 5;
	unique_ptr<ParticleBunch> b(bunch(v, P0, q));
	Wake w1(1), w2(2);
	Drift A("A", 0.5), B("B", 0.8), D("D", 0.3);
	SectorBend S("S", 1, 0.1, 1);
	A.SetWakePotentials(&w1);
	B.SetWakePotentials(&w2);
	WakeFieldProcess p(1, 4, 2.5);
	p.InitialiseProcess(*b);
	int n = 2 + mc::choose(mc::thorough() ? 4 : 3);
	mc::S d;
	d << "charge " << q << ":";
	for(int i = 0; i < n; i++)
		switch(mc::choose(10))
		{
		case 0:
		case 1: {
			AcceleratorComponent& c = mc::choose(2) ? B : A;
			d << " " << c.GetName();
			mc::note(d);
			vector<P> u = sorted(*b);
			double Pr = b->GetReferenceMomentum(), Q = b->GetTotalCharge();
			Slices s = slices(u, Q, 4, 2.5);
			pass(p, c, i % NPATTERN);
			compare(*b, s, wake(s, &c == &A ? w1 : w2, c.GetLength(), true), Pr, true, d);
			break;
		}
		case 2: d << " drift"; pass(p, D, 0); break;
		case 3: d << " bend"; pass(p, S, 0); break;
		case 4: d << " last particle moved ahead"; b->GetParticles().front().ct() += 4.1e-4; break;
		case 5: d << " particle added"; b->AddParticle(put(P{5e-3, 0, 5e-3, 0, 1.7e-4, 0})); break;
		case 6:
			d << " particle removed";
			if(b->size() > 2)
				b->erase(b->begin() + 1);
			break;
		case 7: d << " charge doubled"; b->SetMacroParticleCharge(2 * b->GetTotalCharge() / b->size()); break;
		case 8: d << " particle replaced"; b->erase(b->begin()); b->AddParticle(put(P{-5e-3, 0, 2e-3, 0, 0.6e-4, 0})); break;
		default:
			d << " new bunch";
			b.reset(bunch({v[0], v[2], v[1]}, 2 * P0, -q));
			p.InitialiseProcess(*b);
		}
	mc::state(d);
	mc::sample(d);
}
// fits of a polynomial to the points around
static vector<ld> fit(int n, int m, int der)
{
	// normal equations for the points as unit vectors, by elimination
	int N = m + 1;
	vector<vector<ld>> a(N, vector<ld>(N + 2 * n + 1));
	for(int i = 0; i < N; i++)
		for(int k = -n; k <= n; k++)
		{
			for(int j = 0; j < N; j++)
				a[i][j] += pow(ld(k) / n, i + j);
			a[i][N + k + n] = pow(ld(k) / n, i);
		}
	for(int i = 0; i < N; i++)
	{
		int p = i;
		for(int j = i; j < N; j++)
			if(fabs(a[j][i]) > fabs(a[p][i]))
				p = j;
		swap(a[i], a[p]);
		ld f = a[i][i];
		for(auto& x : a[i])
			x /= f;
		for(int j = 0; j < N; j++)
			if(j != i)
			{
				ld g = a[j][i];
				for(size_t k = 0; k < a[j].size(); k++)
					a[j][k] -= g * a[i][k];
			}
	}
	vector<ld> r(2 * n + 1);
	for(int k = 0; k <= 2 * n; k++)
		r[k] = a[der][N + k] * pow(ld(1) / n, der);
	return r;
}
MC_SECTION("filters")
{
	int n = 1 + mc::choose(mc::thorough() ? 30 : 20), m = mc::choose(5), der = mc::choose(2);
	if(m > 2 * n || der > m)
		mc::prune();
	string d = mc::S() << "filter of half width " << n << " order " << m << " derivative " << der;
	mc::note(d);
	mc::state(d);
	vector<double> c;
	savgol(c, n, n, der, m);
	vector<ld> w = fit(n, m, der);
	MC_CHECK(c.size() == w.size(), "width", d << ": " << c.size() << " coefficients");
	for(size_t k = 0; k < w.size(); k++)
		MC_CLOSET(c[k], double(w[k]), 1e-6, 1e-9, "filter", d << ": coefficient " << int(k) - n);
	mc::sample(d);
}
// coherent radiation: from the slope of the charge behind
MC_SECTION("radiation")
{
	Quiet quiet;
	vector<P> v = choosebunch(2, mc::thorough() ? 4 : 3, false);
	int nb = mc::pick(vector<int>{12, 25}), shape = mc::choose(4), q = mc::choose(2) ? -1 : 1, fn = 1 + mc::choose(3), fm = 1 + mc::choose(2);
	double ns = 3, P0 = 2, L = 0.9;
	string d = mc::S() << str(v) << ", " << nb << " slices, radiation wake " << shape << " charge " << q << " filter " << fn << " " << fm;
	mc::note(d);
	Slices s = slices(v, q * NP, nb, ns);
	sort(s.in.begin(), s.in.end(), before);
	for(size_t k = 0; k < s.in.size(); k++)
		s.bin[k] = int((s.in[k].ct - s.z0) / s.dz);
	mc::state(d);
	if(s.bin.front() <= fn)
		mc::prune(); // slope at the end of the slices
	Wake w(shape, true);
	SectorBend c("S", L, 0.1, 1);
	c.SetWakePotentials(&w);
	unique_ptr<ParticleBunch> b(bunch(v, P0, q));
	WakeFieldProcess p(1, nb, ns);
	p.SetFilter(fn, fm, 1);
	p.IncludeTransverseWake(false);
	p.InitialiseProcess(*b);
	pass(p, c, 0);
	vector<ld> f = fit(fn, fm, 1), n(nb), slope(nb), ez(nb + 1);
	for(int k : s.bin)
		n[k]++;
	for(int i = 0; i < nb; i++)
		for(int k = -fn; k <= fn; k++)
			if(i + k >= 0 && i + k < nb)
				slope[i] += f[k + fn] * n[i + k];
	ld Q = NP / s.in.size() * E0 * L / s.dz;
	for(int i = 0; i <= nb; i++)
		for(int j = 0; j < i; j++)
			ez[i] += Q * slope[j] * w.L((j + 0.5L - i) * s.dz);
	vector<Kick> k;
	for(size_t i = 0; i < s.in.size(); i++)
		k.push_back({0, 0, -between(s, i, ez)});
	compare(*b, s, k, P0, false, d);
	mc::sample(d);
}
// modes of collimators
struct Modes: public CollimatorWakePotentials
{
	int s;
	Modes(int m, int s) :
		CollimatorWakePotentials(m), s(s)
	{
	}
	double L(double z, int m) const
	{
		return 1e3 * pow(300, m) * (m + Wake::shape(s, z, 0));
	}
	double T(double z, int m) const
	{
		return 1e4 * pow(300, m) * (m + Wake::shape(s, z, 1));
	}
	double Wlong(double) const
	{
		return 1;
	}
	double Wtrans(double) const
	{
		return 1;
	}
	double Wlong(double z, int m) const override
	{
		return L(z, m);
	}
	double Wtrans(double z, int m) const override
	{
		return T(z, m);
	}
};
MC_SECTION("modes")
{
	Quiet quiet;
	vector<P> v = choosebunch(2, 3, false);
	int nb = mc::pick(vector<int>{1, 3, 8, 1201}), modes = 1 + mc::choose(3), shape = mc::choose(4), q = mc::choose(2) ? -1 : 1;
	bool tw = mc::choose(2);
	double ns = 3, P0 = 5, L = 0.6;
	if(nb == 1201 && (!mc::thorough() && (shape || modes > 1 || v.size() > 2 || tw)))
		mc::prune();
	string d = mc::S() << str(v) << ", " << nb << " slices, " << modes << " modes of wake " << shape << " charge " << q << (tw ? "" : " longitudinal only");
	mc::note(d);
	Slices s = slices(v, q * NP, nb, ns);
	sort(s.in.begin(), s.in.end(), before);
	for(size_t k = 0; k < s.in.size(); k++)
		s.bin[k] = int((s.in[k].ct - s.z0) / s.dz);
	mc::state(d);
	Modes w(modes, shape);
	Drift c("D", L);
	c.SetWakePotentials(&w);
	unique_ptr<ParticleBunch> b(bunch(v, P0, q));
	CollimatorWakeProcess p(modes, 1, nb, ns);
	p.IncludeTransverseWake(tw);
	p.InitialiseProcess(*b);
	pass(p, c, 0);
	vector<Kick> k(s.in.size(), Kick{0, 0, 0});
	double Q = NP / s.in.size() * double(E0) / (4 * M_PI * PhysicalConstants::FreeSpacePermittivity);
	for(size_t i = 0; i < s.in.size(); i++)
		for(size_t j = 0; j < s.in.size(); j++)
		{
			int n = s.bin[j] - s.bin[i];
			if(n < 0)
				continue;
			C z(s.in[i].x, s.in[i].y), u(s.in[j].x, s.in[j].y);
			for(int m = 1; m <= modes; m++)
			{
				C M = pow(u, m), t = tw ? Q * w.T(n * s.dz, m) * double(m) * M * conj(pow(z, m - 1)) : 0;
				k[i].x += t.real();
				k[i].y += t.imag();
				k[i].e -= Q * w.L(n * s.dz, m) * (M * conj(pow(z, m))).real();
			}
		}
	// each mode in turn changes the slope by the loss in it: second order in the kicks
	double big = 0;
	for(auto& x : k)
		big = max({big, double(fabs(x.x)), double(fabs(x.y)), double(fabs(x.e))});
	vector<P> g = sorted(*b);
	MC_CHECK(g.size() == s.in.size() && b->GetReferenceMomentum() == P0, "modes-bunch", d);
	for(size_t i = 0; i < g.size(); i++)
	{
		double e = P0 * (1 + g[i].dp), t = 3 * big * big / P0 + 1e-12 * P0;
		MC_CLOSET(e - P0, double(k[i].e), 1e-8, t, "modes-energy", d << ": particle " << i);
		MC_CLOSET(e * g[i].xp - P0 * s.in[i].xp, double(k[i].x), 1e-8, t + 3e-3 * big * big, "modes-x", d << ": particle " << i);
		MC_CLOSET(e * g[i].yp - P0 * s.in[i].yp, double(k[i].y), 1e-8, t + 3e-3 * big * big, "modes-y", d << ": particle " << i);
	}
	mc::outcome(big > 1e-6 ? "kicked" : "no kick");
	mc::sample(d);
}
// couplers: wake by the position, RF by the phase
struct Coupler: public CombinedWakeRF
{
	int s;
	Wake w;
	Coupler(int s) :
		s(s), w(s % 4)
	{
	}
	double Wlong(double z) const override
	{
		return w.L(z);
	}
	double Wtrans(double z) const override
	{
		return w.T(z);
	}
	Vector2D Wxy(double x, double y) const override
	{
		return s & 1 ? Vector2D(1e15 * (0.3 + 20 * x), 1e15 * (10 * y - 0.2)) : Vector2D(0, 0);
	}
	Vector2D CouplerRFKick(double x, double y, double phi) const override
	{
		return s & 2 ? Vector2D(0.02 * cos(phi) + x, -0.03 * sin(phi + 0.2) + 2 * y) : Vector2D(0, 0);
	}
};
MC_SECTION("couplers")
{
	Quiet quiet;
	vector<P> v = choosebunch(2, mc::thorough() ? 4 : 3, false);
	int nb = mc::pick(vector<int>{1, 2, 5}), shape = mc::choose(4), q = mc::choose(2) ? -1 : 1;
	bool cavity = mc::choose(2);
	double ns = 3, P0 = 5, L = 0.6, phi = -mc::choose(2) * 0.4, V = 0.1;
	if(!cavity && phi)
		mc::prune();
	string d = mc::S() << str(v) << ", " << nb << " slices, coupler " << shape << " charge " << q << (cavity ? " cavity" : " drift") << " phase " << phi;
	mc::note(d);
	Slices s = slices(v, q * NP, nb, ns);
	sort(s.in.begin(), s.in.end(), before);
	for(size_t k = 0; k < s.in.size(); k++)
		s.bin[k] = int((s.in[k].ct - s.z0) / s.dz);
	mc::state(d);
	Coupler w(shape);
	Drift dr("D", L);
	TWRFStructure tw("C", L, 1.3e9, V / L, phi);
	AcceleratorComponent& c = cavity ? static_cast<AcceleratorComponent&>(tw) : dr;
	c.SetWakePotentials(&w);
	unique_ptr<ParticleBunch> b(bunch(v, P0, q));
	CouplerWakeFieldProcess p(1, nb, ns);
	p.InitialiseProcess(*b);
	pass(p, c, 0);
	vector<Kick> k = wake(s, w.w, L, true);
	vector<ld> n(nb), X(nb + 1), Y(nb + 1), ex(nb + 1), ey(nb + 1);
	for(size_t i = 0; i < s.in.size(); i++)
	{
		n[s.bin[i]]++;
		X[s.bin[i]] += s.in[i].x;
		Y[s.bin[i]] += s.in[i].y;
	}
	for(int i = 0; i < nb; i++)
		if(n[i])
			X[i] /= n[i], Y[i] /= n[i];
	X[nb] = X[nb - 1];
	Y[nb] = Y[nb - 1];
	for(int i = 0; i <= nb; i++)
	{
		ld ahead = 0;
		for(int j = i; j < nb; j++)
			ahead += n[j];
		Vector2D u = w.Wxy(X[i], Y[i]), rf = w.CouplerRFKick(X[i], Y[i], cavity ? -phi + 2 * M_PI * 1.3e9 / PhysicalConstants::SpeedOfLight * (s.z0 + (i + 0.5) * s.dz) : 0);
		ld Q = NP / s.in.size() * E0 * ahead, v = cavity ? V : 0;
		ex[i] = Q * u.x + v * rf.x;
		ey[i] = Q * u.y + v * rf.y;
	}
	for(size_t i = 0; i < s.in.size(); i++)
		k[i].x += between(s, i, ex), k[i].y += between(s, i, ey);
	compare(*b, s, k, P0, true, d);
	mc::sample(d);
}
// slice macroparticles: each slice by those ahead and half of itself
namespace smp
{
using namespace SMPTracking;
struct M
{
	double m[6], s[4][4], q;
};
static M get(const SliceMacroParticle& p)
{
	M r;
	for(int i = 0; i < 6; i++)
		r.m[i] = p.mean(i);
	for(int i = 0; i < 4; i++)
		for(int j = 0; j < 4; j++)
			r.s[i][j] = p.sig(i, j);
	r.q = p.Q();
	return r;
}
static bool less(const M& a, const M& b)
{
	return a.m[4] != b.m[4] ? a.m[4] < b.m[4] : fabs(a.q) < fabs(b.q);
}
static vector<M> all(SMPBunch& b)
{
	vector<M> r;
	for(auto& p : b)
		r.push_back(get(p));
	sort(r.begin(), r.end(), less);
	return r;
}
static void check(SMPBunch& b, const vector<M>& u, double P0, const Wake* w, double width, double L, bool tw, const string& d)
{
	static const char* N[] = {"x", "xp", "y", "yp", "ct", "dp"};
	// slices
	vector<size_t> first;
	for(size_t i = 0; i < u.size(); i++)
	{
		if(first.empty() || u[i].m[4] >= u[first.back()].m[4] + width)
			first.push_back(i);
		if(i && fabs(u[i].m[4] - u[first.back()].m[4] - width) < 1e-12)
			mc::prune();
	}
	size_t n = first.size();
	first.push_back(u.size());
	vector<ld> q(n), z(n), x(n), y(n);
	ld qt = 0, loss = 0;
	for(size_t i = 0; i < n; i++)
	{
		for(size_t k = first[i]; k < first[i + 1]; k++)
		{
			ld a = fabs(u[k].q);
			q[i] += a;
			z[i] += a * u[k].m[4];
			x[i] += a * u[k].m[0];
			y[i] += a * u[k].m[2];
		}
		z[i] /= q[i];
		x[i] /= q[i];
		y[i] /= q[i];
		qt += q[i];
	}
	vector<Kick> k(n, Kick{0, 0, 0});
	if(w)
		for(size_t i = 0; i < n; i++)
		{
			for(size_t j = i; j < n; j++)
			{
				k[i].e -= (i == j ? 0.5L : 1) * q[j] * E0 * L * w->L(z[j] - z[i]);
				if(j > i && tw)
				{
					k[i].x += q[j] * E0 * L * w->T(z[j] - z[i]) * x[j];
					k[i].y += q[j] * E0 * L * w->T(z[j] - z[i]) * y[j];
				}
			}
			loss += k[i].e * q[i] / qt;
		}
	ld P1 = b.GetReferenceMomentum();
	MC_CLOSET(double(P1), double(P0 + loss), 1e-13, 1e-10 * double(fabs(loss)), "macro-reference", d << ": reference momentum (was " << P0 << ")");
	vector<M> g = all(b);
	for(size_t i = 0; i < n; i++)
		for(size_t l = first[i]; l < first[i + 1]; l++)
		{
			mc::S t;
			t << d << ": macroparticle " << l << " in slice " << i;
			const M& a = u[l];
			const M& r = g[l];
			ld e0 = P0 * (1 + a.m[5]), e = e0 + k[i].e, f = e0 / e;
			MC_CHECK(r.q == a.q && r.m[0] == a.m[0] && r.m[2] == a.m[2] && r.m[4] == a.m[4], "macro-moved", t);
			MC_CLOSET(double(P1 * (1 + r.m[5])), double(e), 1e-12, 0, "macro-energy", t << " energy");
			MC_CLOSET(r.m[1], double((e0 * a.m[1] + k[i].x) / e), 1e-9, 1e-15, "macro-kick-x", t << " xp");
			MC_CLOSET(r.m[3], double((e0 * a.m[3] + k[i].y) / e), 1e-9, 1e-15, "macro-kick-y", t << " yp");
			for(int m = 0; m < 4; m++)
				for(int o = 0; o <= m; o++)
					MC_CLOSET(r.s[m][o], double(a.s[m][o] * (m % 2 ? f : 1) * (o % 2 ? f : 1)), 1e-10, 0, "macro-covariance", t << " covariance of " << N[m] << " and " << N[o]);
		}
}
static SliceMacroParticle make(int i, double ct, double q)
{
	static const double S[4][4] = {{2, 0.3, 0.5, -0.2}, {0.3, 1.5, 0.1, 0.4}, {0.5, 0.1, 1.8, -0.35}, {-0.2, 0.4, -0.35, 1.1}};
	SliceMacroParticle p(q * NP * (1 + 0.3 * i) / 4);
	p[0] = (i % 3 - 1) * 2e-3;
	p[1] = (i % 2) * 1e-4;
	p[2] = (1 - i % 4) * 1e-3;
	p[3] = -(i % 3) * 1e-4;
	p[4] = ct;
	p[5] = (i % 3 - 1) * 0.01;
	for(int m = 0; m < 4; m++)
		for(int n = 0; n <= m; n++)
			p.sig(m, n) = S[m][n] * 1e-6;
	return p;
}
}
MC_SECTION("macroparticles")
{
	using namespace smp;
	Quiet quiet;
	int n = 1 + mc::choose(mc::thorough() ? 5 : 4), q = mc::choose(2) ? -1 : 1, shape = mc::choose(4), c = 0;
	SMPBunch b(5, q);
	mc::S d;
	d << "macroparticles of charge " << q << " at";
	vector<double> ct;
	for(int i = 0; i < n; i++)
	{
		c += mc::choose(int(CT.size()) - c);
		ct.push_back(CT[c]);
		d << " " << CT[c];
	}
	bool rev = mc::choose(2); // order in the bunch
	for(int i = 0; i < n; i++)
		b.AddParticle(make(i, ct[rev ? n - 1 - i : i], q));
	double width = mc::pick(vector<double>{1e-9, 0.2e-3, 0.45e-3, 1}), L = mc::pick(vector<double>{0.7, 3.7});
	bool tw = mc::choose(2);
	int pattern = mc::choose(mc::thorough() ? NPATTERN : 2) * (mc::thorough() ? 1 : 4);
	bool centre = pattern && mc::choose(2);
	d << (rev ? " reversed" : "") << ", slices of " << width << ", wake " << shape << (tw ? "" : " longitudinal only") << " length " << L << " steps " << pattern << (centre ? " at the centre" : "");
	mc::note(d);
	mc::state(d);
	Wake w(shape);
	Drift dr("D", L);
	dr.SetWakePotentials(&w);
	SMPTracking::WakeFieldProcess p(1, width);
	p.IncludeTransverseWake(tw);
	p.ApplyImpulseAt(centre ? SMPTracking::WakeFieldProcess::atCentre : SMPTracking::WakeFieldProcess::atExit);
	p.InitialiseProcess(b);
	for(int k = 0; k < 2; k++)
	{
		vector<M> u = all(b);
		double P0 = b.GetReferenceMomentum();
		pass(p, dr, pattern);
		check(b, u, P0, &w, width, L, tw, mc::S() << d << ", passage " << k + 1);
	}
	MC_CHECK(w.bad >= 0, "macro-causality", d << ": wake asked for at " << w.bad);
	mc::sample(d);
}
MC_SECTION("macro-histories")
{
	using namespace smp;
	Quiet quiet;
	int q = mc::choose(2) ? -1 : 1, n = 2 + mc::choose(mc::thorough() ? 4 : 3);
	unique_ptr<SMPBunch> b(new SMPBunch(5, q));
	for(int i = 0; i < 4; i++)
		b->AddParticle(make(i, CT[i + 1], q));
	Wake w1(1), w2(2), w3(0);
	CouplerWakeFieldProcess other(1);
	w3.SetExpectedProcess(&other);
	Drift A("A", 0.5), B("B", 0.8), X("X", 0.3), D("D", 0.3);
	SectorBend S("S", 1, 0.1, 1);
	A.SetWakePotentials(&w1);
	B.SetWakePotentials(&w2);
	X.SetWakePotentials(&w3);
	double width = 0.2e-3;
	SMPTracking::WakeFieldProcess p(1, width);
	p.InitialiseProcess(*b);
	mc::S d;
	d << "macroparticles of charge " << q << ":";
	for(int i = 0; i < n; i++)
	{
		vector<M> u = all(*b);
		double P0 = b->GetReferenceMomentum();
		switch(mc::choose(7))
		{
		case 0: d << " A"; mc::note(d); pass(p, A, i); check(*b, u, P0, &w1, width, 0.5, true, d); break;
		case 1: d << " B"; mc::note(d); pass(p, B, i); check(*b, u, P0, &w2, width, 0.8, true, d); break;
		case 2: d << " drift"; pass(p, D, 0); check(*b, u, P0, nullptr, width, 0, true, d); break;
		case 3: d << " wake of another process"; pass(p, X, 0); check(*b, u, P0, nullptr, width, 0, true, d); break;
		case 4: // a bend which turns the bunch around
			d << " bend, last first";
			pass(p, S, 0);
			for(auto& x : *b)
				x.ct() = -0.7 * x.ct();
			break;
		case 5: // a bend which lengthens it
			d << " bend, longer";
			pass(p, S, 0);
			for(auto& x : *b)
				x.ct() *= 1.9;
			break;
		default:
			d << " new bunch";
			b.reset(new SMPBunch(8, -q));
			for(int k = 0; k < 3; k++)
				b->AddParticle(make(k + 1, CT[k] * 2, -q));
			p.InitialiseProcess(*b);
		}
	}
	mc::state(d);
	mc::sample(d);
}
// along lines, by the tracker
MC_SECTION("lines")
{
	Quiet quiet;
	int n = 1 + mc::choose(mc::thorough() ? 4 : 3), q = mc::choose(2) ? -1 : 1, second = mc::choose(2);
	bool centre = mc::choose(2);
	Wake w1(1), w2(2), w3(0);
	CouplerWakeFieldProcess other(1);
	w3.SetExpectedProcess(&other);
	double P0 = 5, brho = P0 / 0.299792458;
	AcceleratorModelConstructor ctor;
	vector<AcceleratorComponent*> cs;
	vector<Wake*> ws;
	mc::S d;
	d << "charge " << q << (centre ? " at centres" : "") << (second ? " with a second process" : "") << " line";
	for(int i = 0; i < n; i++)
	{
		int k = mc::choose(5);
		AcceleratorComponent* c;
		Wake* w = nullptr;
		switch(k)
		{
		case 0: c = new Drift("D", 0.5); break;
		case 1: c = new Drift("A", 1.2); w = &w1; break;
		case 2: c = new Quadrupole("B", 0.7, 0.5 * brho); w = &w2; break;
		case 3: c = new SectorBend("S", 1, 0.1, 0.1 * brho); break;
		default: c = new Drift("X", 0.4); w = &w3;
		}
		d << " " << c->GetName();
		if(w)
			c->SetWakePotentials(w);
		cs.push_back(c);
		ws.push_back(w == &w3 ? nullptr : w);
		ctor.AppendComponent(c);
	}
	mc::note(d);
	mc::state(d);
	unique_ptr<AcceleratorModel> m(ctor.GetModel());
	vector<P> v{{1e-3, 1e-4, -2e-3, 0, -1e-4, 0}, {-2e-3, 0, 1e-3, 0, 0.2e-4, 0}, {4e-3, 0, 3e-3, -1e-4, 2.3e-4, 0}, {0, 0, -1e-3, 0, 2.9e-4, 0}};
	ParticleTracker t(m->GetBeamline(), bunch(v, P0, q));
	WakeFieldProcess* p = new WakeFieldProcess(2, 4, 2.5);
	p->ApplyImpulseAt(centre ? WakeFieldProcess::atCentre : WakeFieldProcess::atExit);
	t.AddProcess(p);
	struct Third: public ParticleBunchProcess // limits the steps
	{
		double ds = 0;
		Third() :
			ParticleBunchProcess("THIRD", 1)
		{
		}
		void SetCurrentComponent(AcceleratorComponent& c) override
		{
			ds = c.GetLength() / 3;
			active = true;
		}
		void DoProcess(double) override
		{
		}
		double GetMaxAllowedStepSize() const override
		{
			return ds;
		}
	};
	if(second)
		t.AddProcess(new Third);
	t.Run();
	unique_ptr<ParticleBunch> r(bunch(v, P0, q));
	WakeFieldProcess g(2, 4, 2.5);
	ParticleComponentTracker ct;
	for(size_t i = 0; i < cs.size(); i++)
	{
		g.InitialiseProcess(*r);
		ct.SetBunch(*r);
		cs[i]->PrepareTracker(ct);
		double L = cs[i]->GetLength();
		double at = centre ? L / 2 : L, at0 = 0;
		for(int part = 0; part < 2; part++, at0 = at, at = L)
		{
			while(at - at0 > 1e-12)
			{
				double ds = min({at - at0, ct.GetRemainingLength(), second ? L / 3 : L});
				if(!ws[i])
					ds = second ? min(L / 3, ct.GetRemainingLength()) : ct.GetRemainingLength();
				ct.TrackStep(ds);
				at0 += ds;
				if(ct.GetRemainingLength() < 1e-12)
					break;
			}
			if(ws[i] && part == 0)
			{
				Drift e("E", L);
				e.SetWakePotentials(ws[i]);
				pass(g, e, 0);
			}
			if(ct.GetRemainingLength() < 1e-12)
				break;
		}
	}
	ParticleBunch& o = t.GetTrackedBunch();
	vector<P> a = sorted(o), e = sorted(*r);
	MC_CHECK(a.size() == e.size(), "line-particles", d);
	MC_CLOSET(o.GetReferenceMomentum(), r->GetReferenceMomentum(), 1e-12, 0, "line-reference", d);
	for(size_t i = 0; i < a.size(); i++)
	{
		MC_CLOSET(a[i].x, e[i].x, 1e-9, 1e-12, "line-x", d << " particle " << i);
		MC_CLOSET(a[i].xp, e[i].xp, 1e-9, 1e-12, "line-xp", d << " particle " << i);
		MC_CLOSET(a[i].y, e[i].y, 1e-9, 1e-12, "line-y", d << " particle " << i);
		MC_CLOSET(a[i].yp, e[i].yp, 1e-9, 1e-12, "line-yp", d << " particle " << i);
		MC_CLOSET(a[i].ct, e[i].ct, 1e-9, 1e-12, "line-ct", d << " particle " << i);
		MC_CLOSET(a[i].dp, e[i].dp, 1e-9, 1e-12, "line-dp", d << " particle " << i);
	}
	mc::sample(d);
}
