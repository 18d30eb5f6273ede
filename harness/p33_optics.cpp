// P33: closed orbit, one-turn matrix, lattice functions, dispersion, phases and tunes are those of the tracking
#include "mc.h"
#include "ElectronBunch.h"
#include "SynchRadParticleProcess.h"
#include "ParticleBunchProcess.h"
#include "MerlinIO.h"
#include "Components.h"
#include "AcceleratorModelConstructor.h"
#include "AcceleratorModel.h"
#include "ParticleTracker.h"
#include "ParticleBunch.h"
#include "ClosedOrbit.h"
#include "TransferMatrix.h"
#include "LatticeFunctions.h"
#include "Dispersion.h"
#include "PhaseAdvance.h"
#include "BetatronTunes.h"
#include "PhysicalConstants.h"
#include "PhysicalUnits.h"
#include <unistd.h>
#include <sys/stat.h>
using namespace std;
using namespace ParticleTracking;
using namespace PhysicalConstants;
using namespace PhysicalUnits;
typedef long double LD;
typedef vector<vector<LD> > Mat;
static const double P0 = 5;
struct Scratch
{
	string d;
	Scratch()
	{
		char t[] = "/tmp/mcopt.XXXXXX";
		d = mkdtemp(t);
		if(chdir(d.c_str()) || mkdir("DataFiles", 0700))
			abort();
	}
	~Scratch()
	{
		for(auto f : {"/TransferMatrix.dat", "/DataFiles/NormMatrix.dat"})
			unlink((d + f).c_str());
		rmdir((d + "/DataFiles").c_str());
		if(chdir("/"))
			abort();
		rmdir(d.c_str());
	}
};
struct Quiet
{
	streambuf* old;
	ostringstream o;
	Quiet() :
		old(cout.rdbuf(o.rdbuf()))
	{
	}
	~Quiet()
	{
		cout.rdbuf(old);
	}
};
static AcceleratorComponent* make(char c, double kf, double kd, const string& nm)
{
	const double brho = P0 / eV / SpeedOfLight;
	switch(c)
	{
	case 'F':
		return new Quadrupole(nm, 0.5, kf * brho);
	case 'G':
		return new Quadrupole(nm, 0.25, kf * brho);
	case 'D':
		return new Quadrupole(nm, 0.5, -kd * brho);
	case 'o':
		return new Drift(nm, 1.0);
	case 'b':
		return new SectorBend(nm, 1.0, 0.1, 0.1 * brho);
	case 'e': // a little stronger than its curvature: a dipole error
		return new SectorBend(nm, 1.0, 0.1, 0.1003 * brho);
	case 'c':
		return new XCor(nm, 0.25, 2e-4 * brho);
	case 'v':
		return new YCor(nm, 0.25, -1e-4 * brho);
	case 's':
		return new SkewQuadrupole(nm, 0.25, 0.12 * brho);
	case 'x':
		return new Sextupole(nm, 0.25, 3 * brho);
	case 'm':
		return new Marker(nm);
	case 'r':
		return new TWRFStructure(nm, 0.5, 5e8, 8e-4, pi / 2);
	case 'R':
		return new TWRFStructure(nm, 0.5, 5e8, 8e-4, -pi / 2);
	}
	abort();
}
struct Ring
{
	string spec;
	unique_ptr<AcceleratorModel> model;
	vector<AcceleratorComponent*> els;
	int n;
	vector<LD> s; // n+1 boundaries
	Ring(const string& sp, double kf, double kd) :
		spec(sp)
	{
		AcceleratorModelConstructor ctor;
		s.push_back(0);
		int i = 0;
		for(char c : sp)
		{
			els.push_back(make(c, kf, kd, string(1, c) + to_string(i++)));
			els.back()->SetComponentLatticePosition(double(s.back()));
			s.push_back(s.back() + els.back()->GetLength());
			ctor.AppendComponent(els.back());
		}
		n = els.size();
		model.reset(ctor.GetModel());
	}
	/// tracks through elements from, from + 1, ... (count of them, around the ring)
	vector<PSvector> track(vector<PSvector> v, int from, int count)
	{
		ParticleBunch b(P0, 1);
		for(auto& p : v)
			b.AddParticle(p);
		ParticleTracker tr;
		ParticleComponentTracker ct;
		ct.SetBunch(b);
		for(int k = 0; k < count; k++)
		{
			auto* c = els[(from + k) % n];
			c->PrepareTracker(ct);
			if(c->GetLength() > 0)
				ct.TrackStep(c->GetLength());
		}
		vector<PSvector> r;
		for(auto& p : b)
			r.push_back(p);
		return r;
	}
	Mat matrix(const PSvector& at, int from, int count, PSvector* end = nullptr)
	{
		const double h = 1e-6;
		vector<PSvector> v{at};
		for(int i = 0; i < 6; i++)
			for(int sg : {-1, 1})
			{
				v.push_back(at);
				v.back()[i] += sg * h;
			}
		vector<PSvector> w = track(v, from, count);
		Mat m(6, vector<LD>(6));
		for(int i = 0; i < 6; i++)
			for(int j = 0; j < 6; j++)
				m[j][i] = (LD(w[2 + 2 * i][j]) - w[1 + 2 * i][j]) / (LD(v[2 + 2 * i][i]) - v[1 + 2 * i][i]);
		if(end)
			*end = w[0];
		return m;
	}
};
static Mat mul(const Mat& a, const Mat& b)
{
	int n = a.size();
	Mat c(n, vector<LD>(n, 0));
	for(int i = 0; i < n; i++)
		for(int j = 0; j < n; j++)
			for(int k = 0; k < n; k++)
				c[i][j] += a[i][k] * b[k][j];
	return c;
}
static Mat tr(const Mat& a)
{
	Mat c = a;
	for(size_t i = 0; i < a.size(); i++)
		for(size_t j = 0; j < a.size(); j++)
			c[i][j] = a[j][i];
	return c;
}
static Mat lin(const Mat& a, LD x, const Mat& b, LD y)
{
	Mat c = a;
	for(size_t i = 0; i < a.size(); i++)
		for(size_t j = 0; j < a.size(); j++)
			c[i][j] = x * a[i][j] + y * b[i][j];
	return c;
}
static Mat unit(int n)
{
	Mat c(n, vector<LD>(n, 0));
	for(int i = 0; i < n; i++)
		c[i][i] = 1;
	return c;
}
static Mat sym(int n)
{
	Mat c(n, vector<LD>(n, 0));
	for(int i = 0; i < n; i += 2)
	{
		c[i][i + 1] = 1;
		c[i + 1][i] = -1;
	}
	return c;
}
static LD trace(const Mat& a)
{
	LD t = 0;
	for(size_t i = 0; i < a.size(); i++)
		t += a[i][i];
	return t;
}
/// solves a x = b by elimination
static vector<LD> solve(Mat a, vector<LD> b)
{
	int n = a.size();
	for(int c = 0; c < n; c++)
	{
		int p = c;
		for(int r = c; r < n; r++)
			if(fabsl(a[r][c]) > fabsl(a[p][c]))
				p = r;
		swap(a[p], a[c]);
		swap(b[p], b[c]);
		for(int r = 0; r < n; r++)
			if(r != c)
			{
				LD f = a[r][c] / a[c][c];
				for(int k = c; k < n; k++)
					a[r][k] -= f * a[c][k];
				b[r] -= f * b[c];
			}
	}
	for(int c = 0; c < n; c++)
		b[c] /= a[c][c];
	return b;
}
/// the modes of a symplectic matrix: mode k turns by phase mu_k, E_k is its beta matrix
struct Modes
{
	int n;
	bool ok = false;
	vector<LD> c; // cos mu
	vector<Mat> E, G;
	Modes(const Mat& M)
	{
		n = M.size();
		int m = n / 2;
		Mat S = sym(n), inv = mul(mul(S, tr(M)), S);
		for(auto& r : inv)
			for(auto& v : r)
				v = -v;
		Mat T = lin(M, 1, inv, 1);
		if(m == 2)
		{
			LD s1 = trace(T) / 2, s2 = trace(mul(T, T)) / 2, p = (s1 * s1 - s2) / 2, d = s1 * s1 - 4 * p;
			if(d < 1e-4)
				return;
			c = {(s1 + sqrtl(d)) / 4, (s1 - sqrtl(d)) / 4};
		}
		else
		{
			LD s1 = trace(T) / 2, s2 = trace(mul(T, T)) / 2, s3 = trace(mul(T, mul(T, T))) / 2;
			LD e1 = s1, e2 = (s1 * s1 - s2) / 2, e3 = (s1 * s1 * s1 - 3 * s1 * s2 + 2 * s3) / 6;
			// x^3 - e1 x^2 + e2 x - e3 with three real roots
			LD p = e2 - e1 * e1 / 3, q = -2 * e1 * e1 * e1 / 27 + e1 * e2 / 3 - e3;
			if(p >= 0)
				return;
			LD r = 2 * sqrtl(-p / 3), a = 3 * q / (p * r);
			if(fabsl(a) >= 1)
				return;
			for(int k = 0; k < 3; k++)
				c.push_back((r * cosl(acosl(a) / 3 - 2 * acosl(-1.0L) * k / 3) + e1 / 3) / 2);
		}
		for(int k = 0; k < m; k++)
		{
			if(fabsl(c[k]) > 0.99995L)
				return;
			for(int j = 0; j < k; j++)
				if(fabsl(c[j] - c[k]) < 1e-2)
					return;
		}
		for(int k = 0; k < m; k++)
		{
			Mat P = unit(n);
			for(int j = 0; j < m; j++)
				if(j != k)
				{
					Mat f = lin(T, 1, unit(n), -2 * c[j]);
					LD x = 2 * c[k] - 2 * c[j];
					P = mul(P, f);
					for(auto& r : P)
						for(auto& v : r)
							v /= x;
				}
			Mat g = mul(lin(M, 1, inv, -1), P);
			LD sn = 2 * sqrtl(1 - c[k] * c[k]);
			for(auto& r : g)
				for(auto& v : r)
					v /= sn;
			// E = -g S, positive
			Mat e = mul(g, S);
			LD t = 0;
			for(int i = 0; i < n; i++)
				t += e[i][i];
			if(t > 0) // E = -g S must be positive
				for(auto& r : g)
					for(auto& v : r)
						v = -v;
			e = mul(g, S);
			for(auto& r : e)
				for(auto& v : r)
					v = -v;
			E.push_back(e);
			G.push_back(g);
		}
		ok = true;
	}
	/// mode order by plane; false when a plane has no mode that is mostly in it
	bool assign(vector<int>& of)
	{
		int m = n / 2;
		of.assign(m, -1);
		for(int k = 0; k < m; k++)
			for(int p = 0; p < m; p++)
			{
				// share of plane p in mode k: -tr of the block of E S E S ... use the block determinant
				LD a = E[k][2 * p][2 * p], b = E[k][2 * p][2 * p + 1], d = E[k][2 * p + 1][2 * p + 1], det = a * d - b * b;
				if(det > 0.6L)
					of[p] = k;
			}
		for(int p = 0; p < m; p++)
			if(of[p] < 0)
				return false;
		return true;
	}
};
static Mat cut(const Mat& m, int n)
{
	Mat r(n, vector<LD>(n));
	for(int i = 0; i < n; i++)
		for(int j = 0; j < n; j++)
			r[i][j] = m[i][j];
	return r;
}
/// own closed orbit: Newton with central differences; dims 4 or 6
static bool orbit(Ring& r, int from, int dims, PSvector& p)
{
	for(int it = 0; it < 60; it++)
	{
		PSvector e;
		Mat m = r.matrix(p, from, r.n, &e);
		vector<LD> g;
		LD w = 0;
		for(int i = 0; i < dims; i++)
			g.push_back(LD(e[i]) - p[i]);
		g = solve(lin(cut(m, dims), 1, unit(dims), -1), g);
		for(int i = 0; i < dims; i++)
		{
			if(!(fabsl(g[i]) < 1))
				return false;
			p[i] -= double(g[i]);
			w += g[i] * g[i];
		}
		if(w < 1e-28L)
			return true;
	}
	return false;
}
struct Case
{
	string spec, desc;
	double kf, kd;
};
static Case ringcase(const string& slots, bool reps)
{
	Case c;
	auto ks = vector<pair<double, double> >{{1.2, 1.2}, {1.9, 1.6}, {1.0, 1.4}};
	auto k = mc::pick(ks);
	c.kf = k.first;
	c.kd = k.second;
	string a(1, slots[mc::choose(slots.size())]), b(1, slots[mc::choose(slots.size())]);
	auto fill = [](string x){
			return x == "o" || x == "b" || x == "e" ? x : x + "o";
		};
	string cell = "F" + fill(a) + "D" + fill(b);
	int n = reps ? mc::pick(mc::thorough() ? vector<int>{1, 2, 9, 24} : vector<int>{1, 9}) : 1;
	c.spec = cell;
	for(int i = 1; i < n; i++)
		c.spec += i % 2 ? "GGbDb" : "FoDb";
	c.desc = mc::S() << "ring " << c.spec << " k " << c.kf << "," << -c.kd;
	return c;
}
static string str(const PSvector& p)
{
	mc::S s;
	s << "(";
	for(int i = 0; i < 6; i++)
		s << p[i] << (i < 5 ? "," : ")");
	return s;
}
static bool stable4(Ring& r, PSvector& co)
{
	if(!orbit(r, 0, 4, co))
		return false;
	Modes m(cut(r.matrix(co, 0, r.n), 4));
	return m.ok;
}
MC_SECTION("closed-orbit")
{
	Case c = ringcase("obecvsxmr", true);
	double dp = mc::pick(vector<double>{0, 2e-3, -1e-3});
	bool full = mc::choose(2);
	if(full && dp != 0)
		mc::prune();
	Ring r(c.spec, c.kf, c.kd);
	int at = mc::pick(mc::thorough() ? vector<int>{0, 1, 3, 4} : vector<int>{0, 3});
	if(at >= r.n)
		mc::prune();
	mc::S d;
	d << c.desc << " at " << at << " dp " << dp << (full ? " 6D" : " transverse");
	mc::note(d);
	PSvector ref(0);
	ref.dp() = dp;
	if(!stable4(r, ref))
		mc::prune();
	bool bends = c.spec.find_first_of("be") != string::npos;
	if(full && !bends)
		mc::prune();
	mc::state(d);
	ClosedOrbit co(r.model.get(), P0);
	co.TransverseOnly(!full);
	PSvector p(0);
	p.dp() = dp;
	co.FindClosedOrbit(p, at);
	mc::step();
	PSvector q = r.track({p}, at, r.n)[0];
	for(int i = 0; i < (full ? 6 : 4); i++)
		MC_CLOSET(q[i], p[i], 1e-7, 1e-11, "closed-orbit", d << ": coordinate " << i << " of " << str(p) << " after a turn");
	if(!full)
		MC_CHECK(p.dp() == dp && p.ct() == 0, "closed-orbit-momentum", d << " " << str(p));
	MC_CHECK(co.w <= 1e-24, "closed-orbit-merit", d << " figure of merit " << co.w << " after " << co.iter);
	mc::outcome(mc::S() << (p.x() != 0) << (p.y() != 0) << (p.dp() != 0));
}
static Mat get(const RealMatrix& m)
{
	Mat c(m.nrows(), vector<LD>(m.ncols()));
	for(size_t i = 0; i < m.nrows(); i++)
		for(size_t j = 0; j < m.ncols(); j++)
			c[i][j] = m(i, j);
	return c;
}
static LD diff(const Mat& a, const Mat& b, const Mat& scale)
{
	LD w = 0, s = 0;
	for(auto& r : scale)
		for(LD v : r)
			s = max(s, fabsl(v));
	for(size_t i = 0; i < a.size(); i++)
		for(size_t j = 0; j < a.size(); j++)
		{
			LD x = fabsl(a[i][j] - b[i][j]);
			w = max(w, isnan(x) ? LD(INFINITY) : x);
		}
	return w / s;
}
static string str(const Mat& a)
{
	mc::S s;
	for(auto& r : a)
	{
		for(LD v : r)
			s << double(v) << " ";
		s << ";";
	}
	return s;
}
MC_SECTION("transfer-matrix")
{
	Case c = ringcase("obecvsxmR", false);
	Ring r(c.spec, c.kf, c.kd);
	int how = mc::choose(4), at = mc::choose(r.n), count = r.n;
	double dp = mc::pick(vector<double>{0, 2e-3}), delta = mc::pick(vector<double>{0, 1e-7});
	mc::S d;
	d << c.desc << " at " << at << " dp " << dp << " way " << how << " delta " << delta;
	mc::note(d);
	TransferMatrix tm(r.model.get(), P0);
	if(delta != 0)
		tm.SetDelta(delta);
	RealMatrix M(6);
	PSvector p(0);
	p.x() = 1e-4;
	p.yp() = -2e-5;
	p.ct() = 1e-4;
	p.dp() = dp;
	bool bends = c.spec.find_first_of("be") != string::npos;
	if(how == 0) // about a given orbit, from an observation point
	{
		mc::state(d);
		tm.SetObservationPoint(at);
		tm.FindTM(M, p);
	}
	else if(how == 1) // of a part of the lattice
	{
		count = 1 + mc::choose(r.n - at);
		d << " elements " << at << " to " << at + count - 1;
		mc::state(d);
		tm.FindTM(M, p, at, at + count - 1);
	}
	else // about the closed orbit
	{
		if(dp != 0 || delta != 0 || !bends)
			mc::prune();
		PSvector o(0);
		if(!stable4(r, o))
			mc::prune();
		mc::state(d);
		tm.SetObservationPoint(at);
		p = PSvector(0);
		if(how == 2)
		{
			tm.FindClosedOrbitTM(M, p);
			PSvector q = r.track({p}, at, r.n)[0];
			for(int i = 0; i < 6; i++)
				MC_CLOSET(q[i], p[i], 1e-7, 1e-11, "closed-orbit-with-matrix", d << ": coordinate " << i << " of " << str(p) << " after a turn");
		}
		else
		{
			tm.FindTM(M);
			ClosedOrbit co(r.model.get(), P0);
			co.FindClosedOrbit(p, at);
		}
	}
	Mat want = r.matrix(p, at, count);
	MC_CHECK(diff(get(M), want, want) < 3e-6L, "matrix", d << " is " << str(get(M)) << " should be " << str(want));
}
/// a process of the user
struct Push: public ParticleBunchProcess
{
	int* ends;
	Push(int* e): ParticleBunchProcess("PUSH", 3), ends(e) {}
	~Push() { ++*ends; }
	void SetCurrentComponent(AcceleratorComponent& c)
	{
		active = c.GetLength() == 0.5;
		done = false;
	}
	void DoProcess(double)
	{
		for(auto& p : *currentBunch)
		{
			p.xp() += 1e-5;
			p.y() *= 0.999;
		}
		active = false;
	}
	double GetMaxAllowedStepSize() const { return 1; }
	bool done;
};
// orbit and matrix of electrons that radiate, and with processes of the user
MC_SECTION("processes")
{
	static const char* SPEC[] = {"FbDR", "FoDbR", "FbDbR", "RFeDo"};
	string spec = SPEC[mc::choose(4)];
	int rad = mc::choose(4), push = mc::choose(2), way = mc::choose(4), again = mc::choose(2);
	Ring r(spec, 1.2, 1.2);
	int at = mc::choose(r.n), count = r.n;
	if(push && way != 0)
		mc::prune();
	static const char* RAD[] = {"no radiation", "radiation", "radiation in 3 steps", "radiation in steps of 0.3"};
	mc::S d;
	d << "ring " << spec << " at " << at << " " << RAD[rad] << (push ? " pushed" : "") << " way " << way << (again ? " again" : "");
	mc::note(d);
	mc::state(d);
	auto set = [&](auto& x)
	{
		x.Radiation(rad > 0);
		if(rad == 2)
			x.SetRadNumSteps(3);
		if(rad == 3)
			x.SetRadStepSize(0.3);
	};
	int ends = 0;
	int to = -1;
	auto turn = [&](const vector<PSvector>& v)
	{
		ElectronBunch b(P0, 1);
		for(auto& p : v)
			b.AddParticle(p);
		unique_ptr<ParticleTracker> tr(to < 0 ? new ParticleTracker(r.model->GetRing(at), &b, false) : new ParticleTracker(r.model->GetBeamline(at, to), &b, false));
		ParticleTracker& t = *tr;
		if(rad)
		{
			auto* s = new SynchRadParticleProcess(1);
			s->AdjustBunchReferenceEnergy(false);
			if(rad == 3)
				s->SetMaxComponentStepSize(0.3);
			else
				s->SetNumComponentSteps(rad == 2 ? 3 : 1);
			t.AddProcess(s);
		}
		if(push)
			t.AddProcess(new Push(&ends));
		t.Run();
		return vector<PSvector>(t.GetTrackedBunch().begin(), t.GetTrackedBunch().end());
	};
	PSvector p(0);
	RealMatrix M(6);
	if(way == 0)
	{
		int died = 0;
		{
			ClosedOrbit co(r.model.get(), P0);
			set(co);
			if(push)
				co.AddProcess(new Push(&died));
			for(int i = 0; i <= again; i++)
			{
				p = PSvector(0);
				co.FindClosedOrbit(p, at);
			}
			MC_CHECK(died == 0, "process-deleted", d);
		}
		MC_CHECK(died == push, "process-kept", d << ": " << died);
	}
	else
	{
		TransferMatrix tm(r.model.get(), P0);
		set(tm);
		tm.SetObservationPoint(at);
		for(int i = 0; i <= again; i++)
		{
			if(way == 1)
			{
				p = PSvector(0);
				tm.FindClosedOrbitTM(M, p);
			}
			else if(way == 2)
			{
				p = PSvector(0);
				p.x() = 1e-4;
				p.dp() = 1e-3;
				tm.FindTM(M, p);
			}
			else
			{
				p = PSvector(0);
				p.yp() = 1e-4;
				p.dp() = -1e-3;
				to = r.n - 1;
				tm.FindTM(M, p, at, to);
			}
		}
	}
	if(way < 2)
	{
		PSvector q = turn({p})[0];
		for(int i = 0; i < 6; i++)
			MC_CLOSET(q[i], p[i], 1e-7, 1e-11, "closed-orbit", d << ": coordinate " << i << " of " << str(p) << " after a turn");
	}
	if(way > 0)
	{
		const double h = 1e-6;
		vector<PSvector> v;
		for(int k = 0; k < 6; k++)
			for(int g = -1; g < 2; g += 2)
			{
				v.push_back(p);
				v.back()[k] += g * h;
			}
		v = turn(v);
		Mat want(6, vector<LD>(6));
		for(int k = 0; k < 6; k++)
			for(int i = 0; i < 6; i++)
				want[i][k] = (LD(v[2 * k + 1][i]) - v[2 * k][i]) / (2 * h);
		MC_CHECK(diff(get(M), want, want) < 3e-6L, "matrix", d << " is " << str(get(M)) << " should be " << str(want));
	}
	mc::outcome(mc::S() << rad << (p.dp() != 0));
}
struct Table
{
	vector<array<int, 3> > f{{{0, 0, 0}}};
	vector<vector<LD> > rows;
};
struct Optics
{
	PSvector co;
	vector<PSvector> orb; // at the n + 1 boundaries
	vector<Mat> toM; // matrix from the start to each boundary
	int dims;
	vector<Mat> E0; // by plane
	vector<Mat> G0;
	vector<LD> cosmu;
};
/// false when the ring has no well separated stable modes
static bool optics(Ring& r, int dims, Optics& o)
{
	o.dims = dims;
	o.co = PSvector(0);
	if(!orbit(r, 0, 4, o.co))
		return false;
	Mat M = unit(6);
	PSvector p = o.co;
	o.orb.push_back(p);
	o.toM.push_back(M);
	for(int i = 0; i < r.n; i++)
	{
		PSvector e;
		M = mul(r.matrix(p, i, 1, &e), M);
		p = e;
		o.orb.push_back(p);
		o.toM.push_back(M);
	}
	Modes m(cut(M, dims));
	vector<int> of;
	if(!m.ok || !m.assign(of))
		return false;
	for(int k = 0; k < dims / 2; k++)
	{
		o.E0.push_back(m.E[of[k]]);
		o.G0.push_back(m.G[of[k]]);
		o.cosmu.push_back(m.c[of[k]]);
		// the label is only defined while the plane's own block of the map says so
		LD own = (M[2 * k][2 * k] + M[2 * k + 1][2 * k + 1]) / 2;
		for(int j = 0; j < dims / 2; j++)
			if(j != of[k] && fabsl(own - m.c[of[k]]) > 0.5L * fabsl(own - m.c[j]))
				return false;
	}
	return true;
}
static LD lattice(const Optics& o, int row, int i, int j, int k, LD s)
{
	if(i == 0 && j == 0 && k == 0)
		return s;
	if(j == 0 && k == 0)
		return o.orb[row][i - 1];
	Mat M = cut(o.toM[row], o.dims);
	const Mat& E = o.E0[k - 1];
	if(i > 0)
		return mul(M, mul(E, tr(M)))[i - 1][j - 1];
	// phase since the start: a is the real part of the mode, b = -G a the imaginary part
	int x = 2 * (k - 1);
	vector<LD> a(o.dims), b(o.dims, 0);
	for(int q = 0; q < o.dims; q++)
		a[q] = E[q][x] / sqrtl(E[x][x]);
	for(int q = 0; q < o.dims; q++)
		for(int w = 0; w < o.dims; w++)
			b[q] -= o.G0[k - 1][q][w] * a[w];
	LD A = 0, B = 0;
	for(int w = 0; w < o.dims; w++)
	{
		A += M[x][w] * a[w];
		B += M[x][w] * b[w];
	}
	LD v = atan2l(B, A) / (2 * acosl(-1.0L));
	if(k != 3 && v < -1e-7L)
		v += 1;
	return v;
}
MC_SECTION("lattice-functions")
{
	Case c = ringcase("obcvsxmR", true);
	bool rf = c.spec.find('R') != string::npos;
	int mode = mc::choose(4); // 0 transverse, 1 transverse twice with changes, 2 longitudinal stability forced, 3 symplectified
	Ring r(c.spec, c.kf, c.kd);
	mc::S d;
	d << c.desc << " mode " << mode;
	mc::note(d);
	bool bends = c.spec.find('b') != string::npos;
	if(mode == 2 && (rf || !bends))
		mc::prune();
	Optics o;
	if(!optics(r, rf ? 6 : 4, o))
		mc::prune();
	mc::state(d);
	Scratch sc;
	Quiet q;
	LatticeFunctionTable t(r.model.get(), P0);
	t.UseOrbitFunctions();
	int dims = o.dims;
	vector<array<int, 3> > f{{{0, 0, 0}}, {{1, 0, 0}}, {{2, 0, 0}}, {{3, 0, 0}}, {{4, 0, 0}}};
	auto add = [&](int i, int j, int k){
			t.AddFunction(i, j, k);
			f.push_back({{i, j, k}});
		};
	if(mode == 1)
	{
		t.Calculate();
		t.RemoveAllFunctions();
		f.resize(1);
		add(6, 0, 0);
		add(5, 0, 0);
	}
	for(int k = 1; k <= dims / 2; k++)
	{
		add(0, 0, k);
		for(int i = 1; i <= dims; i++)
			for(int j = 1; j <= i; j++)
				if((i + j + k) % 3 || i == j)
					add(i, j, k);
	}
	if(mode == 3)
		t.MakeTMSymplectic(true);
	if(mode == 2)
	{
		t.SetForceLongitudinalStability(true);
		for(int i : {1, 2, 3, 4, 6})
			add(i, 6, 3);
	}
	t.Calculate();
	int rows, cols;
	t.Size(rows, cols);
	MC_CHECK(rows == r.n + 1 && t.NumberOfRows() == rows && cols == int(f.size()), "table-size", d << " " << rows << "x" << cols << " should be " << r.n + 1 << "x" << f.size());
	// dispersion: own off-momentum orbits
	PSvector dm(0), dpl(0);
	const double h = 1e-5;
	vector<vector<PSvector> > off;
	if(mode == 2)
	{
		dm.dp() = -h;
		dpl.dp() = h;
		if(!orbit(r, 0, 4, dm) || !orbit(r, 0, 4, dpl))
			mc::prune();
		vector<PSvector> v{dm, dpl};
		off.push_back(v);
		for(int i = 0; i < r.n; i++)
			off.push_back(v = r.track(v, i, 1));
	}
	for(int row = 0; row <= r.n; row++)
	{
		LD big[4] = {0, 0, 0, 0};
		for(auto& x : f)
			if(x[0] > 0 && x[1] > 0 && 2 * x[2] <= dims)
				big[x[2]] = max(big[x[2]], fabsl(lattice(o, row, x[0], x[1], x[2], r.s[row])));
		for(auto& x : f)
		{
			double got = t.Value(x[0], x[1], x[2], row);
			if(mode == 2 && x[2] == 3)
			{
				if(x[0] == 6)
					continue;
				LD D = (LD(off[row][1][x[0] - 1]) - off[row][0][x[0] - 1]) / (2 * h);
				MC_CLOSET(got / t.Value(6, 6, 3, row), double(D), 1e-4, 1e-4, "dispersion", d << " row " << row << " coordinate " << x[0]);
				continue;
			}
			LD want = lattice(o, row, x[0], x[1], x[2], r.s[row]);
			if(x[0] == 0 && x[2] > 0)
			{
				LD e = fabsl(got - want);
				if(fabsl(e - 1) < 1e-4L) // either side of a full turn
					e = fabsl(e - 1);
				MC_CHECK(e < 2e-5L, "phase", d << " row " << row << " plane " << x[2] << " is " << got << " should be " << double(want));
			}
			else
				MC_CHECK(fabsl(got - want) <= 1e-9L + (x[1] ? 1e-4L * big[x[2]] : 1e-6L * fabsl(want)), "lattice-function", d << " row " << row << " function " << x[0] << "," << x[1] << "," << x[2] << " is " << got << " should be " << double(want));
		}
	}
	mc::outcome(mc::S() << dims << mode << bends);
}
// the statistics, look-up and printing of a table are those of its values
MC_SECTION("table-use")
{
	Case c = ringcase("obcvm", false);
	int kind = mc::choose(2);
	Ring r(c.spec, c.kf, c.kd);
	mc::S d;
	d << c.desc << (kind ? " orbit functions" : " transverse functions");
	mc::note(d);
	Optics o;
	if(!optics(r, 4, o))
		mc::prune();
	if(kind && c.spec.find('b') == string::npos)
		mc::prune(); // the 6D closed orbit that orbit tables use is not defined
	mc::state(d);
	Scratch sc;
	Quiet q;
	LatticeFunctionTable t(r.model.get(), P0);
	t.UseOrbitFunctions();
	vector<array<int, 3> > f{{{0, 0, 0}}, {{1, 0, 0}}, {{2, 0, 0}}, {{3, 0, 0}}, {{4, 0, 0}}};
	if(!kind)
		for(auto x : vector<array<int, 3> >{{{1, 1, 1}}, {{3, 3, 2}}, {{0, 0, 1}}})
		{
			t.AddFunction(x[0], x[1], x[2]);
			f.push_back(x);
		}
	t.Calculate();
	int n = t.NumberOfRows();
	MC_CHECK(n == r.n + 1 || (kind && n == r.n), "rows", d << " " << n << " rows");
	for(int i = 0; i < n; i++)
		MC_CLOSE(t.Value(0, 0, 0, i), double(r.s[i]), "place", d << " row " << i);
	for(int n1 = -1; n1 <= n; n1++)
	for(int n2 = -1; n2 <= n; n2++)
	{
	mc::S w;
	w << d << " rows " << n1 << " to " << n2;
	int lo = max(n1, 0), hi = n2 >= n || n2 < lo ? n - 1 : n2;
	if(lo >= n)
		continue;
	for(auto& x : f)
	{
		if(x[0] == 0)
			continue;
		LD S = 0, a = 0, b = 0;
		for(int i = lo; i < hi; i++)
		{
			LD ds = r.s[i + 1] - r.s[i], v0 = t.Value(x[0], x[1], x[2], i), v1 = t.Value(x[0], x[1], x[2], i + 1);
			S += ds;
			a += ds * (v0 + v1) / 2;
			b += ds * (v0 * v0 + v1 * v1) / 2;
		}
		if(S == 0)
			continue;
		MC_CLOSET(t.Mean(x[0], x[1], x[2], n1, n2), double(a / S), 1e-9, 1e-15, "mean", w << " of " << x[0] << "," << x[1] << "," << x[2]);
		MC_CLOSET(t.RMS(x[0], x[1], x[2], n1, n2), double(sqrtl(b / S)), 1e-9, 1e-15, "rms", w << " of " << x[0] << "," << x[1] << "," << x[2]);
	}
	ostringstream os;
	t.PrintTable(os, n1, n2);
	istringstream in(os.str());
	string line;
	for(int i = lo; i <= hi; i++)
	{
		MC_CHECK(bool(getline(in, line)), "printed-rows", w << " ends before row " << i);
		istringstream l(line);
		for(auto& x : f)
		{
			double v = NAN;
			l >> v;
			MC_CLOSET(v, t.Value(x[0], x[1], x[2], i), 1e-9, 0, "printed-value", w << " row " << i << " function " << x[0] << "," << x[1] << "," << x[2]);
		}
		string more;
		MC_CHECK(!(l >> more), "printed-columns", w << " row " << i << " has more: " << more);
	}
	MC_CHECK(!getline(in, line), "printed-rows", w << " goes on after row " << hi);
	}
	for(int i = -1; i <= 2 * n; i++)
	{
		double s = i < 0 ? -1 : i == 2 * n ? double(r.s.back()) + 1 : double(i % 2 == 0 ? r.s[i / 2] : (r.s[i / 2] + r.s[min(i / 2 + 1, r.n)]) / 2);
		int want = -1;
		for(int k = 0; k < n && want < 0; k++)
			if(t.Value(0, 0, 0, k) >= s)
				want = k;
		MC_CHECK(t.GetSPosIndex(s) == want, "position-index", d << " position " << s << " is row " << t.GetSPosIndex(s) << " should be " << want);
	}
	string thrown;
	for(auto x : vector<array<int, 3> >{{{5, 5, 1}}, {{6, 0, 0}}})
	{
		thrown = "nothing";
		try
		{
			t.Value(x[0], x[1], x[2], 0);
		}
		catch(exception&)
		{
			thrown = "";
		}
		MC_CHECK(thrown.empty(), "missing-function", d << " gives a value for " << x[0] << "," << x[1] << "," << x[2] << " which is not in it");
	}
}
// a beam line: the functions carried from given initial values
MC_SECTION("beam-line")
{
	Case c = ringcase("obcvsxm", false);
	Ring r(c.spec, c.kf, c.kd);
	double bx = mc::pick(vector<double>{1, 7}), ax = mc::pick(vector<double>{0, -1.3}), by = mc::pick(vector<double>{0.4, 3}), ay = mc::pick(vector<double>{0, 0.8});
	if(!mc::thorough() && ((bx == 1) != (ax == 0) || (by == 3) != (ay == 0)))
		mc::prune();
	int mux = mc::choose(3), muy = mc::choose(3);
	bool start = mc::choose(2);
	if(mux == muy || (!mc::thorough() && (mux + muy == 3 || mux < muy)))
		mc::prune();
	mc::S d;
	d << c.desc << " from beta " << bx << "," << by << " alpha " << ax << "," << ay << " phases " << mux << "," << muy << (start ? " off axis" : "");
	mc::note(d);
	mc::state(d);
	RealMatrix M(6);
	M = IdentityMatrix(6);
	const double mus[] = {1.1, 2.3, 4.4};
	double b[] = {bx, by}, a[] = {ax, ay}, mu[] = {mus[mux], mus[muy]};
	Optics o;
	o.dims = 4;
	for(int k = 0; k < 2; k++)
	{
		double cs = cos(mu[k]), sn = sin(mu[k]), g = (1 + a[k] * a[k]) / b[k];
		M(2 * k, 2 * k) = cs + a[k] * sn;
		M(2 * k, 2 * k + 1) = b[k] * sn;
		M(2 * k + 1, 2 * k) = -g * sn;
		M(2 * k + 1, 2 * k + 1) = cs - a[k] * sn;
		Mat E(4, vector<LD>(4, 0)), G = E;
		E[2 * k][2 * k] = b[k];
		E[2 * k][2 * k + 1] = E[2 * k + 1][2 * k] = -a[k];
		E[2 * k + 1][2 * k + 1] = g;
		G[2 * k][2 * k] = a[k];
		G[2 * k][2 * k + 1] = b[k];
		G[2 * k + 1][2 * k] = -g;
		G[2 * k + 1][2 * k + 1] = -a[k];
		o.E0.push_back(E);
		o.G0.push_back(G);
	}
	PSvector p(0);
	if(start)
	{
		p.x() = 1e-4;
		p.yp() = -3e-5;
	}
	PSvector z = p;
	Mat T = unit(6);
	o.orb.push_back(z);
	o.toM.push_back(T);
	for(int i = 0; i < r.n; i++)
	{
		PSvector e;
		T = mul(r.matrix(z, i, 1, &e), T);
		z = e;
		o.orb.push_back(z);
		o.toM.push_back(T);
	}
	Scratch sc;
	Quiet q;
	LatticeFunctionTable t(r.model.get(), P0);
	t.UseOrbitFunctions();
	vector<array<int, 3> > f{{{0, 0, 0}}, {{1, 0, 0}}, {{3, 0, 0}}, {{1, 1, 1}}, {{1, 2, 1}}, {{2, 2, 1}}, {{3, 3, 2}}, {{3, 4, 2}}, {{4, 4, 2}}, {{3, 3, 1}}, {{1, 1, 2}}, {{0, 0, 1}}, {{0, 0, 2}}};
	for(size_t i = 3; i < f.size(); i++)
		t.AddFunction(f[i][0], f[i][1], f[i][2]);
	t.Calculate(&p, &M);
	MC_CHECK(t.NumberOfRows() == r.n + 1, "rows", d << " " << t.NumberOfRows() << " rows");
	for(int row = 0; row <= r.n; row++)
		for(auto& x : f)
		{
			LD want = lattice(o, row, x[0], x[1], x[2], r.s[row]), got = t.Value(x[0], x[1], x[2], row), big = 1;
			if(x[1])
				big = max(fabsl(lattice(o, row, 2 * x[2] - 1, 2 * x[2] - 1, x[2], 0)), fabsl(lattice(o, row, 2 * x[2], 2 * x[2], x[2], 0)));
			LD e = fabsl(got - want);
			if(x[0] == 0 && x[2] && fabsl(e - 1) < 1e-4L)
				e = fabsl(e - 1);
			MC_CHECK(e <= (x[1] ? 1e-5L * max<LD>(big, 1) : x[2] ? 1e-5L : 1e-9L + 1e-6L * fabsl(want)), "beam-line-function", d << " row " << row << " function " << x[0] << "," << x[1] << "," << x[2] << " is " << double(got) << " should be " << double(want));
		}
}
MC_SECTION("dispersion-function")
{
	Case c = ringcase("obcvsxm", true);
	Ring r(c.spec, c.kf, c.kd);
	mc::S d;
	d << c.desc;
	mc::note(d);
	Optics o;
	if(!optics(r, 4, o))
		mc::prune();
	mc::state(d);
	const double h = 1e-5;
	vector<PSvector> v(2, PSvector(0));
	v[0].dp() = -h;
	v[1].dp() = h;
	if(!orbit(r, 0, 4, v[0]) || !orbit(r, 0, 4, v[1]))
		mc::prune();
	vector<array<LD, 4> > D;
	for(int i = 0; i <= r.n; i++)
	{
		array<LD, 4> x;
		for(int k = 0; k < 4; k++)
			x[k] = (LD(v[1][k]) - v[0][k]) / (2 * h);
		D.push_back(x);
		if(i < r.n)
			v = r.track(v, i, 1);
	}
	Dispersion disp(r.model.get(), P0);
	double del = mc::pick(vector<double>{0, 1e-6});
	if(del != 0)
		MC_CHECK(disp.SetDelta(del) == 1e-9, "dispersion-delta", d);
	for(int at : {0, 2, 3, 5})
	{
		if(at >= r.n)
			continue;
		disp.FindDispersion(at);
		double got[] = {disp.Dx, disp.Dxp, disp.Dy, disp.Dyp};
		for(int k = 0; k < 4; k++)
			MC_CLOSET(got[k], double(D[at][k]), 2e-4, 1e-5, "dispersion", d << " at " << at << " coordinate " << k);
	}
	ostringstream os;
	bool file = del == 0 || mc::choose(2);
	disp.FindRMSDispersion(file ? &os : nullptr);
	double rms[] = {disp.DxRMS, disp.DyRMS};
	for(int k = 0; k < 2; k++)
	{
		// any rule that uses the values at both ends of the elements lies between these
		LD lo = 0, hi = 0;
		for(int i = 0; i < r.n; i++)
		{
			LD ds = r.s[i + 1] - r.s[i], a = D[i][2 * k], b = D[i + 1][2 * k];
			lo += ds * (a * b < 0 ? 0 : min(a * a, b * b));
			hi += ds * max(a * a, b * b);
		}
		lo = sqrtl(lo / r.s.back());
		hi = sqrtl(hi / r.s.back());
		MC_CHECK(rms[k] >= lo * (1 - 1e-3L) - 1e-5L && rms[k] <= hi * (1 + 1e-3L) + 1e-5L, "rms-dispersion", d << " plane " << k << " " << rms[k] << " should lie between " << double(lo) << " and " << double(hi));
		// and for the trapezium rule
		LD t = 0;
		for(int i = 0; i < r.n; i++)
			t += (r.s[i + 1] - r.s[i]) * (D[i][2 * k] * D[i][2 * k] + D[i + 1][2 * k] * D[i + 1][2 * k]) / 2;
		MC_CLOSET(rms[k], double(sqrtl(t / r.s.back())), 1e-3, 1e-5, "rms-dispersion-value", d << " plane " << k);
	}
	if(file)
	{
		istringstream in(os.str());
		double s, x, y;
		int n = 0;
		while(in >> s >> x >> y)
		{
			n++;
			bool found = false;
			for(int i = 0; i <= r.n; i++)
				found = found || (fabsl(r.s[i] - s) < 1e-4L * max<LD>(1, s) && fabsl(D[i][0] - x) < 1e-3L * fabsl(x) + 1e-5L && fabsl(D[i][2] - y) < 1e-3L * fabsl(y) + 1e-5L);
			MC_CHECK(found, "dispersion-listed", d << " lists " << x << "," << y << " at " << s);
		}
		MC_CHECK(n >= r.n, "dispersion-list-length", d << " lists " << n << " places");
	}
	mc::outcome(mc::S() << (D[0][0] != 0) << (D[0][2] != 0));
}
MC_SECTION("phase-advance")
{
	Case c = ringcase("obcsm", false);
	int cells = mc::pick(vector<int>{1, 3, 9});
	string cell = c.spec;
	for(int i = 1; i < cells; i++)
		c.spec += cell;
	Ring r(c.spec, c.kf, c.kd);
	mc::S d;
	d << c.desc << " with " << cells << " cells";
	mc::note(d);
	Optics o;
	if(!optics(r, 4, o))
		mc::prune();
	mc::state(d);
	// own phases with all full turns (fine steps are not needed: no element advances by half a turn)
	vector<array<LD, 2> > mu(1, {{0, 0}});
	bool clear = true;
	for(int i = 1; i <= r.n; i++)
	{
		array<LD, 2> m;
		for(int k = 0; k < 2; k++)
		{
			LD f = lattice(o, i, 0, 0, k + 1, 0), prev = mu.back()[k], x = floorl(prev) + f;
			while(x < prev - 1e-3L)
				x += 1;
			if(x - prev > 0.9L)
				x -= 1;
			clear = clear && x - prev < 0.45L;
			// the end of a full turn is on either side
			if(fabsl(x - roundl(x)) < 1e-4L && roundl(x) > 0)
				clear = false;
			m[k] = x;
		}
		mu.push_back(m);
	}
	if(!clear)
		mc::prune();
	Scratch sc;
	Quiet q;
	LatticeFunctionTable t(r.model.get(), P0);
	t.UseOrbitFunctions();
	for(auto x : vector<array<int, 3> >{{{1, 1, 1}}, {{3, 3, 2}}, {{0, 0, 1}}, {{0, 0, 2}}})
		t.AddFunction(x[0], x[1], x[2]);
	t.Calculate();
	PhaseAdvance pa(r.model.get(), &t, P0);
	for(int i = 0; i <= r.n; i++)
	{
		auto both = pa.CalcIntegerPart(i);
		MC_CLOSET(both.first, double(mu[i][0]), 0, 1e-3, "phase-x", d << " at row " << i);
		MC_CLOSET(both.second, double(mu[i][1]), 0, 1e-3, "phase-y", d << " at row " << i);
		MC_CLOSET(pa.GetPhaseAdvanceX(i), double(mu[i][0]), 0, 1e-3, "phase-x-from-start", d << " at row " << i);
		MC_CLOSET(pa.PhaseAdvanceBetween(i, false), double(mu[i][1]), 0, 1e-3, "phase-y-from-start", d << " at row " << i);
		for(int j : {0, i / 2, i, r.n})
		{
			MC_CLOSET(pa.PhaseAdvanceBetween(j, i, true), double(mu[i][0] - mu[j][0]), 0, 1e-3, "phase-x-between", d << " rows " << j << " and " << i);
			MC_CLOSET(pa.GetPhaseAdvanceY(i, j), double(mu[i][1] - mu[j][1]), 0, 1e-3, "phase-y-between", d << " rows " << j << " and " << i);
			if(i < r.n && j < r.n)
				MC_CLOSET(pa.PhaseAdvanceBetween(r.els[j]->GetName(), r.els[i]->GetName(), true), double(mu[i][0] - mu[j][0]), 0, 1e-3, "phase-x-by-name", d << " elements " << r.els[j]->GetName() << " and " << r.els[i]->GetName());
		}
		if(i < r.n)
			MC_CLOSET(pa.PhaseAdvanceBetween(r.els[i]->GetName(), false), double(mu[i][1]), 0, 1e-3, "phase-y-by-name", d << " element " << r.els[i]->GetName());
	}
	if(cells == 1 && c.spec.find('b') != string::npos)
		for(int i = 0; i < r.n; i++)
			for(int j = i; j < r.n; j++)
			{
				PSvector p(0);
				if(!orbit(r, 0, 4, p))
					mc::prune();
				ClosedOrbit co(r.model.get(), P0);
				PSvector z(0);
				co.FindClosedOrbit(z, i);
				Mat want = r.matrix(z, i, j - i + 1), got = get(pa.TransferMapBetween(i, j));
				MC_CHECK(diff(got, want, want) < 1e-5L, "map-between", d << " elements " << i << " to " << j << " is " << str(got) << " should be " << str(want));
			}
	mc::outcome(mc::S() << int(mu.back()[0]) << int(mu.back()[1]));
}
// the map between two elements is taken about the closed orbit there
MC_SECTION("map-between-off-axis")
{
	Case c = ringcase("bx", false);
	c.spec += "c";
	Ring r(c.spec, c.kf, c.kd);
	int i = mc::choose(r.n), j = mc::choose(r.n);
	if(i > j)
		mc::prune();
	mc::S d;
	d << c.desc << " with a corrector, elements " << i << " to " << j;
	mc::note(d);
	PSvector p(0);
	if(!stable4(r, p) || c.spec.find('b') == string::npos)
		mc::prune();
	mc::state(d);
	LatticeFunctionTable t(r.model.get(), P0);
	PhaseAdvance pa(r.model.get(), &t, P0);
	ClosedOrbit co(r.model.get(), P0);
	PSvector z(0);
	co.FindClosedOrbit(z, i);
	Mat want = r.matrix(z, i, j - i + 1), got = get(pa.TransferMapBetween(i, j));
	MC_CHECK(diff(got, want, want) < 1e-5L, "map-between", d << " is " << str(got) << " should be " << str(want));
}
// the tune found by tracking is the fractional tune of the one-turn map
MC_SECTION("tunes")
{
	Case c = ringcase("obm", false);
	int cells = mc::pick(vector<int>{1, 2, 3, 5}), n = mc::pick(mc::thorough() ? vector<int>{16, 64, 256, 1024} : vector<int>{16, 64});
	string cell = c.spec;
	for(int i = 1; i < cells; i++)
		c.spec += cell;
	bool diffusion = mc::choose(2);
	double ax = mc::pick(mc::thorough() ? vector<double>{1e-6, 1e-5} : vector<double>{1e-6}), ay = mc::pick(vector<double>{1e-6, 0});
	Ring r(c.spec, c.kf, c.kd);
	mc::S d;
	d << c.desc << " with " << cells << " cells, " << n << " turns" << (diffusion ? " twice" : "") << " amplitude " << ax << "," << ay;
	mc::note(d);
	Optics o;
	if(!optics(r, 4, o))
		mc::prune();
	mc::state(d);
	Quiet q;
	BetatronTunes bt(r.model.get(), P0);
	PSvector p(0);
	p.x() = ax;
	p.y() = ay;
	bt.FindTunes(p, n, diffusion);
	LD Q[2];
	for(int k = 0; k < 2; k++)
		Q[k] = lattice(o, r.n, 0, 0, k + 1, 0);
	double got[] = {bt.Qx, bt.Qy}, dq[] = {bt.dQx, bt.dQy}, amp[] = {ax, ay};
	for(int k = 0; k < 2; k++)
		if(amp[k] > 0)
		{
			// the image at 1 - Q must be well apart
			LD sep = min(fabsl(2 * Q[k] - 1), min(2 * Q[k], 2 - 2 * Q[k])) * n;
			if(sep < 6 || min(Q[k], 1 - Q[k]) * n < 3)
				continue;
			MC_CHECK(fabsl(got[k] - Q[k]) < 0.1L / n, "tune", d << " plane " << k << " is " << got[k] << " should be " << double(Q[k]));
			if(diffusion)
				MC_CHECK(fabsl(dq[k]) < 0.2L / n, "tune-change", d << " plane " << k << " " << dq[k]);
			mc::outcome(mc::S() << int(Q[k] * 20));
		}
	for(int k = 0; k < 2; k++)
		if(amp[k] > 0)
			MC_CHECK((k ? bt.GetQy() : bt.GetQx()) == got[k] && (k ? bt.GetdQy() : bt.GetdQx()) == dq[k], "tune-getters", d << " plane " << k);
	MC_CHECK(p.x() == ax && p.y() == ay, "tune-particle", d << " changes the particle");
}
MC_SECTION("tune-of-signal")
{
	int n = mc::pick(vector<int>{16, 32, 64, 256}), steps = mc::thorough() ? 400 : 80, k = 1 + mc::choose(78 * steps / 80);
	double Q = double(k) / steps, ph = mc::pick(vector<double>{0, 0.7, 2.9});
	double a = mc::pick(vector<double>{1, 1e-9, 1e6});
	if(min(Q, 1 - Q) * n < 1.6)
		mc::prune();
	mc::S d;
	d << "signal of frequency " << Q << " phase " << ph << " amplitude " << a << " over " << n << " turns";
	mc::note(d);
	mc::state(d);
	vector<double> v;
	for(int i = 0; i < n; i++)
	{
		double w = sin(pi * (i + 1) / n);
		w *= w;
		v.push_back(a * cos(2 * pi * Q * (i + 1) + ph) * w);
		v.push_back(-a * sin(2 * pi * Q * (i + 1) + ph) * w);
	}
	BetatronTunes bt(nullptr, P0);
	double q = bt.FindTune(v);
	MC_CHECK(fabs(q - Q) < 0.01 / n, "signal-tune", d << " found " << q);
}
