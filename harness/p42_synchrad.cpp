// P42: particles radiate in bends (and multipoles, when asked) the energy they should, where they should
#include "mc.h"
#include "MerlinIO.h"
#include "Components.h"
#include "AcceleratorModelConstructor.h"
#include "AcceleratorModel.h"
#include "ElectronBunch.h"
#include "MuonBunch.h"
#include "ProtonBunch.h"
#include "ParticleTracker.h"
#include "ParticleBunchProcess.h"
#include "SynchRadParticleProcess.h"
#include "TransferMatrix.h"
#include "RandomNG.h"
#include "PhysicalConstants.h"
#include "PhysicalUnits.h"
using namespace std;
using namespace ParticleTracking;
using namespace PhysicalUnits;
static const double EC = 1.602176487e-19, HP = 6.62606896e-34, CL = 299792458., PI = acos(-1.), MU0 = 4e-7 * PI;
struct Sort
{
	const char* name;
	double mass; // GeV
	double P0;
};
static const Sort SORT[] = {{"electrons", 0.51099891e-3, 5}, {"muons", 0.10565836, 900}, {"protons", 0.938272013, 7000}, {"fast electrons", 0.51099891e-3, 100}};
static double kg(const Sort& s)
{
	return s.mass * 1e9 * EC / CL / CL;
}
// energy radiated on average, in GeV
static double loss(const Sort& s, double B, double L, double P)
{
	double g = P / s.mass, m = kg(s);
	return EC * EC * EC * EC * MU0 * B * B * g * g * L / (6 * PI * m * m) / EC * 1e-9;
}
static double critical(const Sort& s, double B, double P)
{
	double g = P / s.mass;
	return 1.5 * HP / (2 * PI) * EC * B * g * g / kg(s) / EC * 1e-9;
}
static double photons(const Sort& s, double B, double L)
{
	double alpha = EC * EC * MU0 * CL / (2 * HP);
	return 5 / (2 * sqrt(3.)) * alpha * EC * B * L / (kg(s) * CL);
}
static ParticleBunch* bunch(int k)
{
	switch(k)
	{
	case 1:
		return new MuonBunch(SORT[k].P0, 1);
	case 2:
		return new ProtonBunch(SORT[k].P0, 1);
	default:
		return new ElectronBunch(SORT[k].P0, 1);
	}
}
typedef complex<double> C;
static PSvector vec(double x, double xp, double y, double yp, double ct, double dp)
{
	PSvector p(0);
	p.x() = x;
	p.xp() = xp;
	p.y() = y;
	p.yp() = yp;
	p.ct() = ct;
	p.dp() = dp;
	return p;
}
// a component and the size of its field
struct Made
{
	AcceleratorComponent* c;
	function<double(double, double)> B;
	bool bend, multipole;
};
static Made make(int k, double L, const string& nm, double P0)
{
	const double R = P0 * 1e9 / CL;
	switch(k)
	{
	case 0:
		return {new SectorBend(nm, L, 0.01, 0.01 * R), [R](double, double) {
			return 0.01 * R;
		}, true, false};
	case 1:
	{
		auto* b = new SectorBend(nm, L, -0.02, -0.02 * R);
		b->SetB1(0.03 * R);
		return {b, [R](double x, double y) {
			return abs(-0.02 * R + 0.03 * R * C(x, y));
		}, true, false};
	}
	case 2:
		return {new Quadrupole(nm, L, -0.05 * R), [R](double x, double y) {
			return 0.05 * R * hypot(x, y);
		}, false, true};
	case 3:
		return {new Sextupole(nm, L, 0.4 * R), [R](double x, double y) {
			return 0.4 * R * (x * x + y * y) / 2;
		}, false, true};
	case 4:
		return {new YCor(nm, L, 1e-3 * R), [R](double, double) {
			return 1e-3 * R;
		}, false, true};
	case 5:
		return {new Drift(nm, L), [](double, double) {
			return 0.;
		}, false, false};
	default:
		return {new Solenoid(nm, L, 0.1 * R), [](double, double) {
			return 0.;
		}, false, false};
	}
}
static const char* KIND[] = {"bend", "combined function bend", "quadrupole", "sextupole", "corrector", "drift", "solenoid"};
struct Snap
{
	double P0;
	vector<PSvector> p;
};
// sees the bunch where it stands in the list of processes
class Look: public ParticleBunchProcess
{
public:
	function<void(AcceleratorComponent*, double, ParticleBunch*)> f;
	double cap;
	Look(int prio, double c, function<void(AcceleratorComponent*, double, ParticleBunch*)> g) :
		ParticleBunchProcess("look", prio), f(g), cap(c)
	{
		active = true;
	}
	void SetCurrentComponent(AcceleratorComponent& c) override
	{
		currentComponent = &c;
		active = true;
		s = 0;
	}
	void DoProcess(double ds) override
	{
		s += ds;
		if(f)
			f(currentComponent, s, currentBunch);
	}
	double GetMaxAllowedStepSize() const override
	{
		return cap;
	}
	double s = 0;
};
static vector<double> emitted; // critical energies asked for
static int plan;
static double fraction(size_t i)
{
	static const double F[][4] = {{0.3, 0.3, 0.3, 0.3}, {0.05, 1.2, 0, 0.4}, {0, 0, 0, 0}};
	return F[plan][i % 4];
}
static double stub(double uc)
{
	emitted.push_back(uc);
	return uc * fraction(emitted.size() - 1);
}
struct Restore
{
	~Restore()
	{
		SynchRadParticleProcess::SetPhotonGenerator(HBSpectrumGen);
		SynchRadParticleProcess::UseSymplecticVariables(false);
	}
};
// every radiation step, with the bunch before and after it
MC_SECTION("steps")
{
	static const vector<double> LQ{0.7, 3, 10, 14.3};
	static const vector<double> LT{0.7, 3, 10, 14.3, 0.1, 1, 27.1, 100. / 3};
	int kind = mc::choose(7), incQ = mc::choose(2);
	int mode = mc::choose(mc::thorough() ? 11 : 8);
	double L = mc::pick(mc::thorough() ? LT : LQ);
	int other = mc::choose(3), adjust = mc::choose(2), symp = mc::choose(2), gen = mc::choose(3), sort = mc::choose(4), n = mc::choose(3);
	if((sort != 0 || n == 0) && (other != 0 || L != 3))
		mc::prune();
	if(gen == 2 && other == 2)
		mc::prune();
	if(kind >= 5 && (n != 2 || gen))
		mc::prune();
	static const char* MODE[] = {"1 step", "2 steps", "3 steps", "7 steps", "10 steps", "steps below 0.29", "steps below 1.13", "steps below 0.51", "13 steps", "steps below 0.093", "40 steps"};
	static const int NS[] = {1, 2, 3, 7, 10, 0, 0, 0, 13, 0, 40};
	static const double MX[] = {0, 0, 0, 0, 0, 0.29, 1.13, 0.51, 0, 0.093, 0};
	static const double CAP[] = {100, 0.25, 0.4};
	const Sort& so = SORT[sort];
	mc::S ds;
	ds << KIND[kind] << " of " << L << " m, " << MODE[mode] << (incQ ? ", multipoles radiate" : "") << ", others' steps of " << CAP[other] << (adjust ? ", reference follows" : "") << (symp ? ", canonical momenta" : "") << ", photons " << gen << ", " << n << " " << so.name;
	string d = ds;
	mc::note(d);
	mc::state(d);
	Restore restore;
	SynchRadParticleProcess::SetPhotonGenerator(stub);
	SynchRadParticleProcess::UseSymplecticVariables(symp);
	RandomNG::init(7);
	plan = gen == 2;
	AcceleratorModelConstructor c;
	Made a = make(kind, L, "A", so.P0), gap = make(5, 0.5, "G", so.P0), b = make(kind, 0.9, "B", so.P0);
	c.AppendComponent(a.c);
	c.AppendComponent(gap.c);
	c.AppendComponent(b.c);
	unique_ptr<AcceleratorModel> m(c.GetModel());
	unique_ptr<ParticleBunch> bn(bunch(sort));
	if(n >= 1)
		bn->AddParticle(vec(2e-3, 1e-4, -1e-3, -2e-4, 0, 0.01));
	if(n == 2)
	{
		bn->AddParticle(vec(-4e-3, 3e-5, 5e-4, 0, 1e-3, -0.02));
		bn->AddParticle(vec(1e-3, 0, 3e-3, 1e-4, 0, 0));
		n = 3;
	}
	ParticleTracker t(m->GetBeamline(), bn.get());
	Snap before;
	size_t had = 0;
	map<AcceleratorComponent*, vector<double> > where;
	int looked = 0;
	t.AddProcess(new Look(5, CAP[other], [&](AcceleratorComponent*, double, ParticleBunch* q) {
		before.P0 = q->GetReferenceMomentum();
		before.p.assign(q->begin(), q->end());
		had = emitted.size();
	}));
	auto* sr = new SynchRadParticleProcess(6, gen > 0);
	sr->IncludeQuadRadiation(incQ);
	sr->AdjustBunchReferenceEnergy(adjust);
	if(NS[mode])
		sr->SetNumComponentSteps(NS[mode]);
	else
		sr->SetMaxComponentStepSize(MX[mode]);
	t.AddProcess(sr);
	auto steps = [&](double len) {
		return NS[mode] ? NS[mode] : int(ceil(len / MX[mode] - 1e-9)) ;
	};
	emitted.clear();
	t.AddProcess(new Look(7, 100, [&](AcceleratorComponent* cmp, double s, ParticleBunch* q) {
		++looked;
		const Made& x = cmp == a.c ? a : cmp == b.c ? b : gap;
		double P = before.P0, len = cmp->GetLength();
		vector<PSvector> now(q->begin(), q->end());
		MC_CHECK(now.size() == before.p.size(), "count", d << " at " << s << ": " << now.size());
		int st = steps(len);
		double dl = len / st;
		bool radiates = x.bend || (incQ && x.multipole);
		double at = s / dl, off = fabs(at - round(at)) * dl;
		bool due = radiates && off < 1e-9;
		if(due)
			where[cmp].push_back(s);
		if(!due)
		{
			MC_CHECK(q->GetReferenceMomentum() == P && emitted.size() == had, "radiates-early", d << " at " << s << " of " << cmp->GetName());
			for(size_t i = 0; i < now.size(); i++)
				MC_CHECK(now[i] == before.p[i], "radiates-early", d << " at " << s << " of " << cmp->GetName() << " particle " << i);
			return;
		}
		double sum = 0, newP = q->GetReferenceMomentum();
		size_t k = had;
		for(size_t i = 0; i < now.size(); i++)
		{
			const PSvector& o = before.p[i];
			double B = x.B(o.x(), o.y()), p = P * (1 + o.dp()), u = 0;
			if(gen == 0)
				u = loss(so, B, dl, p);
			else
				for(; k < emitted.size() && mc::close(emitted[k], critical(so, B, p), 1e-6, 0); k++)
					u += fraction(k) * emitted[k];
			sum += u;
			double got = p - newP * (1 + now[i].dp());
			MC_CLOSET(got, u, 1e-6, 4e-15 * P, "energy-loss", d << " particle " << i << " at " << s << " of " << cmp->GetName());
			MC_CHECK(now[i].x() == o.x() && now[i].y() == o.y() && now[i].ct() == o.ct(), "position", d << " particle " << i);
			// the direction is kept
			double f = 1;
			if(symp)
				f = newP * (1 + now[i].dp()) / p; // momenta are those of the particle, in units of the reference
			double unit = symp ? P / newP : 1;
			MC_CLOSET(now[i].xp(), o.xp() * f * unit, 1e-12, 1e-18, "direction", d << " particle " << i << " at " << s);
			MC_CLOSET(now[i].yp(), o.yp() * f * unit, 1e-12, 1e-18, "direction", d << " particle " << i << " at " << s);
		}
		MC_CHECK(k == emitted.size(), "photon-energy", d << " at " << s << ": " << emitted.size() - k << " photons with the critical energy " << emitted[k] << " of no particle");
		MC_CLOSET(newP, adjust && n ? P - sum / n : P, 1e-13, 1e-6 * fabs(sum), "reference", d << " at " << s);
	}));
	t.Run();
	double P1 = t.GetTrackedBunch().GetReferenceMomentum();
	MC_CHECK(P1 == P1 && P1 > 0, "reference", d << ": reference momentum " << P1);
	MC_CHECK(looked >= 3, "looked", d);
	for(const Made* x : {&a, &b})
		if((x->bend || (incQ && x->multipole)) && n)
		{
			auto& w = where[x->c];
			double len = x->c->GetLength();
			MC_CHECK(int(w.size()) == steps(len), "radiation-steps", d << ": " << w.size() << " steps in " << x->c->GetName());
		}
	mc::outcome(string(KIND[kind]) + MODE[mode]);
}
// how many photons there are
MC_SECTION("number")
{
	int sort = mc::choose(2) * 3, seed = 1 + mc::choose(mc::thorough() ? 20 : 3);
	double L = mc::pick(vector<double>{0.02, 0.5, 3, 20});
	double B = mc::pick(vector<double>{0.01, 0.3, 2});
	int ns = 1 + 2 * mc::choose(2);
	string d = mc::S() << SORT[sort].name << " in " << B << " T over " << L << " m in " << ns << " steps, seed " << seed;
	mc::note(d);
	mc::state(d);
	Restore restore;
	SynchRadParticleProcess::SetPhotonGenerator(stub);
	RandomNG::init(seed);
	AcceleratorModelConstructor c;
	c.AppendComponent(new SectorBend("A", L, 1e-6, B));
	unique_ptr<AcceleratorModel> m(c.GetModel());
	unique_ptr<ParticleBunch> bn(bunch(sort));
	const int N = 2000;
	for(int i = 0; i < N; i++)
		bn->AddParticle(vec(0, 0, 0, 0, 0, i * 1e-5));
	ParticleTracker t(m->GetBeamline(), bn.get());
	plan = 2;
	emitted.clear();
	auto* sr = new SynchRadParticleProcess(6, true);
	sr->AdjustBunchReferenceEnergy(false);
	sr->SetNumComponentSteps(ns);
	t.AddProcess(sr);
	t.Run();
	vector<int> cnt(N);
	for(double uc : emitted)
	{
		double P = SORT[sort].P0 * sqrt(uc / critical(SORT[sort], B, SORT[sort].P0));
		int i = int(round((P / SORT[sort].P0 - 1) / 1e-5));
		MC_CHECK(i >= 0 && i < N, "photon-energy", d << ": critical energy " << uc);
		++cnt[i];
	}
	double mu = photons(SORT[sort], B, L), mean = emitted.size() / double(N), var = 0;
	for(int k : cnt)
		var += (k - mean) * (k - mean) / (N - 1);
	MC_CHECK(fabs(mean - mu) < 6 * sqrt(mu / N) + 3. / N, "photon-number", d << ": mean " << mean << " expected " << mu);
	MC_CHECK(fabs(var - mu) < 6 * sqrt((mu + 2 * mu * mu) / N) + 10. / N, "photon-spread", d << ": variance " << var << " expected " << mu);
}
// photons with more than x critical energies
static double above(double x)
{
	double s = 0, h = 1e-3;
	for(double t = h / 2; t < 60; t += h)
	{
		double c = cosh(t);
		s += exp(-x * c) * cosh(5 * t / 3) / (c * c) * h;
		if(x * c > 50)
			break;
	}
	return s * 3 / (5 * PI);
}
// the state of a generator whose next numbers are these
static uint64_t untemper(uint64_t y)
{
	y ^= y >> 43;
	y ^= (y << 37) & 0xfff7eee000000000ull;
	uint64_t x = y;
	for(int i = 0; i < 5; i++)
		x = y ^ ((x << 17) & 0x71d67fffeda60000ull);
	y = x;
	for(int i = 0; i < 4; i++)
		x = y ^ ((x >> 29) & 0x5555555555555555ull);
	return x;
}
static void feed(mt19937_64& g, const double* u)
{
	stringstream s;
	for(int i = 0; i < 312; i++)
		s << untemper(uint64_t(ldexp(u[i], 64))) << " ";
	s << 0;
	s >> g;
}
// every history of the random numbers on a grid: the photons have the spectrum of synchrotron radiation
MC_SECTION("spectrum")
{
	int aw = mc::choose(2);
	double uc = mc::pick(vector<double>{1, 1e-6, 0.3});
	string d = mc::S() << (aw ? "short" : "full") << " spectrum with critical energy " << uc;
	mc::note(d);
	mc::state(d);
	RandomNG::init(3);
	auto f = aw ? AWSpectrumGen : HBSpectrumGen;
	auto& g = RandomNG::getLocalGenerator(hash_string("PhotonSpectrumGen"));
	vector<double> x;
	{
		vector<double> u(312, 0.5);
		feed(g, u.data());
		MC_CHECK(g() == 1ull << 63, "self-test", d);
	}
	auto state = g;
	f(uc);
	bool controlled = !(g == state);
	const int KI = mc::thorough() ? 797 : 397, KJ = mc::thorough() ? 301 : 151, KK = mc::thorough() ? 40 : 20;
	if(controlled && !aw)
	{
		// tries of three numbers, 104 of them in a load
		vector<double> load;
		int extra = 0;
		for(int i = 0; i < KI; i++)
			for(int j = 0; j < KJ; j++)
				for(int k = 0; k < KK; k++)
				{
					load.push_back((i + 0.5) / KI);
					load.push_back((j + 0.5) / KJ);
					load.push_back((k + 0.5) / KK);
					if(load.size() == 309 || (i == KI - 1 && j == KJ - 1 && k == KK - 1))
					{
						// the tries of one load must not spill over: end on one that is accepted
						while(load.size() < 312)
							load.insert(load.end(), {0.5, 0.5, 1e-9}), ++extra;
						feed(g, load.data());
						auto end = g;
						end.discard(312);
						size_t guard = 0;
						while(!(g == end) && ++guard < 400)
							x.push_back(f(uc) / uc);
						MC_CHECK(g == end, "self-test", d << ": " << guard << " photons from 312 numbers");
						for(; extra; --extra)
							x.pop_back();
						load.clear();
					}
				}
	}
	else if(controlled)
	{
		vector<double> load;
		for(int i = 0; i < 312 * 100; i++)
		{
			load.push_back((i + 0.5) / 31200);
			if(load.size() == 312)
			{
				feed(g, load.data());
				for(int j = 0; j < 312; j++)
					x.push_back(f(uc) / uc);
				load.clear();
			}
		}
	}
	else
		for(int i = 0; i < 300000; i++)
			x.push_back(f(uc) / uc);
	sort(x.begin(), x.end());
	double m1 = 0, m2 = 0, D = 0;
	for(double v : x)
	{
		MC_CHECK(v >= 0 && v < 1e3, "photon-range", d << ": " << v);
		m1 += v / x.size();
		m2 += v * v / x.size();
	}
	for(double q = 1e-4; q < 8; q *= 1.1)
	{
		double F = (upper_bound(x.begin(), x.end(), q) - x.begin()) / double(x.size());
		D = max(D, fabs(1 - above(q) - F));
	}
	mc::outcome(mc::S() << d << " n " << x.size() << " m1 " << m1 << " m2 " << m2 << " D " << D);
	double w1 = 8 / (15 * sqrt(3.)), w2 = 11. / 27;
	MC_CLOSET(m1, w1, aw ? 0.03 : 0.01, 0, "mean-photon", d);
	MC_CLOSET(m2, w2, aw ? 0.1 : 0.03, 0, "mean-square-photon", d);
	MC_CHECK(D < (aw ? 0.03 : 0.008), "spectrum", d << ": distribution off by " << D);
}
static double det(RealMatrix m, vector<int> ix)
{
	double d = 1;
	int n = ix.size();
	vector<vector<double> > a(n, vector<double>(n));
	for(int i = 0; i < n; i++)
		for(int j = 0; j < n; j++)
			a[i][j] = m(ix[i], ix[j]);
	for(int i = 0; i < n; i++)
	{
		int p = i;
		for(int r = i; r < n; r++)
			if(fabs(a[r][i]) > fabs(a[p][i]))
				p = r;
		if(p != i)
		{
			d = -d;
			swap(a[i], a[p]);
		}
		d *= a[i][i];
		for(int r = i + 1; r < n; r++)
		{
			double f = a[r][i] / a[i][i];
			for(int k = i; k < n; k++)
				a[r][k] -= f * a[i][k];
		}
	}
	return d;
}
// Robinson's theorem: the energy lost in a turn is four times what the oscillations lose together,
// and one times what the vertical ones do
MC_SECTION("damping")
{
	static const vector<double> KQ{0.8, 1.2};
	double k = mc::pick(KQ), ang = mc::pick(vector<double>{0.05, 0.1, 0.2}), P0 = mc::pick(vector<double>{2, 5, 12});
	double freq = mc::pick(vector<double>{1.5e8, 5e8});
	int ns = mc::pick(vector<int>{1, 4, 10}), cells = 1 + mc::choose(2);
	string d = mc::S() << cells << " cells k " << k << " angle " << ang << " momentum " << P0 << " frequency " << freq << " in " << ns << " steps";
	mc::note(d);
	mc::state(d);
	double brho = P0 / eV / CL;
	const double E = 0.51099891e-3, w = 2 * PI;
	(void) E;
	AcceleratorModelConstructor c;
	for(int i = 0; i < cells; i++)
	{
		c.AppendComponent(new Quadrupole("F", 0.5, k * brho));
		c.AppendComponent(new SectorBend("b", 1, ang, ang * brho));
		c.AppendComponent(new Quadrupole("D", 0.5, -k * brho));
		c.AppendComponent(new SectorBend("b", 1, ang, ang * brho));
	}
	double U = 2 * cells * loss(SORT[0], ang * brho, 1, P0);
	// the loss is made up for near the zero crossing
	double V = 40 * U;
	c.AppendComponent(new TWRFStructure("R", 0.5, freq, V / 0.5, -w / 4));
	unique_ptr<AcceleratorModel> m(c.GetModel());
	RealMatrix M(6);
	double y0 = 0, d0 = 0;
	for(int rad = 0; rad < 2; rad++)
	{
		TransferMatrix t(m.get(), P0);
		t.Radiation(rad);
		if(rad)
			t.SetRadNumSteps(ns);
		t.SetDelta(1e-6);
		PSvector o(0);
		t.FindClosedOrbitTM(M, o);
		double all = det(M, {0, 1, 2, 3, 4, 5}) - 1, y = det(M, {2, 3}) - 1;
		if(!(fabs(all) < 0.05) || o.dp() != o.dp())
		{
			MC_CHECK(!rad, "no-orbit", d << ": determinant " << all + 1);
			mc::prune();
		}
		if(!rad)
		{
			d0 = all;
			y0 = y;
			MC_CLOSET(y, 0, 0, 1e-8, "undamped", d);
			continue;
		}
		MC_CLOSET(y - y0, -U / P0, 0.02, 3e-9, "vertical-damping", d);
		MC_CLOSET(all - d0, -4 * U / P0, 0.05, 1e-7 + 2 * fabs(d0), "total-damping", d);
	}
}
