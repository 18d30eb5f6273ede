// P36: hollow electron lenses kick particles by the current inside them, once a passage
#include "mc.h"
#include "MerlinIO.h"
#include "Components.h"
#include "HollowElectronLens.h"
#include "HollowELensProcess.h"
#include "AcceleratorModelConstructor.h"
#include "AcceleratorModel.h"
#include "ParticleTracker.h"
#include "BetatronTunes.h"
#include "SynchRadParticleProcess.h"
#include "SpinParticleProcess.h"
#include "RandomNG.h"
#include "PhysicalConstants.h"
#include "PhysicalUnits.h"
using namespace std;
using namespace ParticleTracking;
struct Quiet
{
	ostringstream sink;
	streambuf* old;
	Quiet(): old(cout.rdbuf(sink.rdbuf())) {}
	~Quiet() { cout.rdbuf(old); }
};
static double beta(double P0)
{
	double m = 0.938272;
	return P0 / sqrt(P0 * P0 + m * m);
}
struct Lens
{
	double rmin, rmax, I, be, brho, L;
	int profile; // 0 uniform, 1 measured, 2 measured scaled to LHC
	bool against;
	double x0, y0, P0;
};
// fraction of the current inside r: integral of density times radius, the density being linear between knots
static double inside(const Lens& l, double r)
{
	if(r <= l.rmin)
		return 0;
	if(l.profile == 0)
		return r >= l.rmax ? 1 : (r * r - l.rmin * l.rmin) / (l.rmax * l.rmax - l.rmin * l.rmin);
	vector<double> k = l.profile == 1 ? vector<double>{222.5, 252.5, 287, 364.5, 426.5} : vector<double>{222.5, 265, 315, 435, 505}, v{0, 917, 397, 228, 0};
	double tot = 0, in = 0;
	for(int i = 0; i < 4; i++)
	{
		double a = k[i] / k[0] * l.rmin, b = k[i + 1] / k[0] * l.rmin;
		// a cubic is integrated exactly by Simpson
		auto part = [&](double e){
			auto f = [&](double t){ return t * (v[i] + (v[i + 1] - v[i]) * (t - a) / (b - a)); };
			return (e - a) / 6 * (f(a) + 4 * f((a + e) / 2) + f(e));
		};
		tot += part(b);
		if(r > a)
			in += part(min(r, b));
	}
	return in / tot;
}
// light: as if the particles went with the speed of light
static double kick(const Lens& l, double r, bool light = false)
{
	if(r == 0)
		return 0;
	double bb = l.be * (light ? 1 : beta(l.P0));
	return -(l.against ? 1 : -1) * 2e-7 * l.L * l.I * (1 + (l.against ? bb : -bb)) / (r * l.brho * bb) * inside(l, r);
}
// true where the kick is right, after reporting the known one of slow protons
static bool right(const Lens& l, double r, double got, double rel, double ab, const string& d)
{
	double t = kick(l, r), u = kick(l, r, true);
	if(fabs(got - t) <= rel * fabs(t) + ab)
		return true;
	if(fabs(u - t) > 1e-3 * fabs(t) && fabs(got - u) <= rel * fabs(u) + ab)
	{
		mc::report("slow-protons", mc::S() << d << ": a particle at " << r << " is kicked by " << got << " as if it went with the speed of light, should be " << t);
		return true;
	}
	return false;
}
static HollowElectronLens* make(const Lens& l, double len, int mode = 0)
{
	Quiet q;
	HollowElectronLens* e = new HollowElectronLens("HEL", len, mode, l.I, l.be, l.brho, l.L);
	e->SetRadii(l.rmin, l.rmax);
	if(l.profile)
		e->SetRadialProfile();
	if(l.profile == 2)
		e->SetLHCRadialProfile();
	e->SetElectronDirection(l.against);
	e->XOffset = l.x0;
	e->YOffset = l.y0;
	e->Sigma_x = 0.5e-3;
	return e;
}
static PSvector particle(double x, double y, int id)
{
	PSvector p(0);
	p.x() = x;
	p.y() = y;
	p.xp() = 1e-6 * (id % 3 - 1);
	p.yp() = -2e-6 * (id % 5 - 2);
	p.ct() = 1e-4 * id;
	p.dp() = 1e-5 * id;
	p.id() = id;
	return p;
}
static Lens lens()
{
	Lens l;
	l.rmin = mc::pick(vector<double>{2e-3, 0});
	l.rmax = 5e-3;
	l.I = 5;
	l.be = mc::pick(vector<double>{0.195, 0.7});
	l.P0 = mc::pick(vector<double>{7000, 1});
	l.brho = l.P0 * 1e9 / 299792458.;
	l.L = 3;
	l.profile = mc::choose(3);
	if(l.profile && l.rmin == 0)
		mc::prune();
	l.against = !mc::choose(2);
	int o = mc::choose(4);
	l.x0 = o & 1 ? 1.5e-3 : 0;
	l.y0 = o & 2 ? -0.7e-3 : 0;
	return l;
}
static string str(const Lens& l)
{
	return string(mc::S() << "lens " << l.rmin << "-" << l.rmax << " beta " << l.be << " P0 " << l.P0 << " profile " << l.profile << (l.against ? " against" : " along") << " at " << l.x0 << " " << l.y0);
}
MC_SECTION("kick")
{
	Lens l = lens();
	double len = mc::choose(2) * 1.2;
	int inv = mc::choose(3);
	string d = mc::S() << str(l) << " length " << len << (inv == 1 ? " copied" : inv == 2 ? " reversed" : "");
	mc::note(d);
	mc::state(d);
	unique_ptr<HollowElectronLens> e(make(l, len));
	if(inv == 1)
		e.reset(static_cast<HollowElectronLens*>(e->Copy()));
	if(inv == 2)
		e->RotateY180();
	ParticleBunch b(l.P0, 1);
	int id = 0;
	static const double R[] = {0, 1e-3, 1.99e-3, 2.01e-3, 2.2e-3, 2.5e-3, 2.7e-3, 3e-3, 3.5e-3, 4e-3, 4.4e-3, 4.99e-3, 5.01e-3, 8e-3};
	for(double r : R)
		for(int a = 0; a < 7; a++)
			b.AddParticle(particle(l.x0 + r * cos(a * 0.9 + 0.1), l.y0 + r * sin(a * 0.9 + 0.1), id++));
	vector<PSvector> was(b.begin(), b.end());
	HollowELensProcess p(3);
	p.InitialiseProcess(b);
	p.SetCurrentComponent(*e);
	MC_CHECK(p.IsActive(), "inactive", d);
	MC_CLOSET(p.GetMaxAllowedStepSize(), len, 1e-12, 0, "step", d);
	p.DoProcess(len);
	MC_CHECK(b.size() == was.size(), "particles-lost", d << ": " << b.size());
	MC_CLOSET(b.GetTotalCharge(), double(was.size()), 1e-12, 0, "charge", d);
	for(size_t i = 0; i < was.size(); i++)
	{
		PSvector g = *(b.begin() + i), w = was[i];
		double dx = w.x() - l.x0, dy = w.y() - l.y0, r = hypot(dx, dy), kx = g.xp() - w.xp(), ky = g.yp() - w.yp();
		double along = r > 0 ? (kx * dx + ky * dy) / r : kx, across = r > 0 ? (kx * dy - ky * dx) / r : ky;
		MC_CHECK(right(l, r, along, 1e-6, 1e-18, d) && fabs(across) < 1e-6 * fabs(along) + 1e-18, "kick", d << ": particle at " << w.x() << " " << w.y() << " is kicked by " << kx << " " << ky << " should be by " << kick(l, r) << " away from the axis");
		MC_CHECK(g.x() == w.x() && g.y() == w.y() && g.ct() == w.ct() && g.dp() == w.dp() && g.id() == w.id(), "particle-changed", d << ": particle " << i);
		if(r > 0)
		{
			double c = l.profile ? p.CalcKickRadial(r) : p.CalcKickSimple(r);
			MC_CHECK(right(l, r, c, 1e-6, 1e-18, d), "calculated", d << ": at " << r << " got " << c << " expected " << kick(l, r));
		}
	}
	mc::outcome(mc::S() << l.profile << l.against);
}
// the written profile
MC_SECTION("profile")
{
	Lens l = lens();
	double lo = mc::pick(vector<double>{0, 2}), hi = mc::pick(vector<double>{10, 14});
	string d = mc::S() << str(l) << " from " << lo << " to " << hi;
	mc::note(d);
	mc::state(d);
	unique_ptr<HollowElectronLens> e(make(l, 1));
	ParticleBunch b(l.P0, 1);
	HollowELensProcess p(3);
	p.InitialiseProcess(b);
	p.SetCurrentComponent(*e);
	ostringstream os;
	os.precision(15);
	{
		Quiet q;
		p.OutputProfile(&os, l.P0, lo, hi);
	}
	istringstream is(os.str());
	string line;
	getline(is, line);
	int n = 0;
	Lens rad = l, sim = l;
	rad.profile = l.profile ? l.profile : 1;
	sim.profile = 0;
	double last = 0;
	while(getline(is, line))
	{
		istringstream ls(line);
		double r, kr, ks, ar, as;
		MC_CHECK(bool(ls >> r >> kr >> ks >> ar >> as), "profile-line", d << ": " << line);
		double at = r * e->Sigma_x;
		MC_CLOSET(r, lo + n * (hi - lo) / 1000, 1e-9, 1e-9, "profile-radius", d << ": line " << n);
		if(l.rmin > 0 && fabs(at - l.rmin) > 1e-9)
			MC_CHECK(right(rad, at, kr, 1e-5, 1e-12, d), "profile-measured", d << ": at " << r << " sigma got " << kr << " expected " << kick(rad, at));
		if(fabs(at - l.rmin) > 1e-9)
			MC_CHECK(right(sim, at, ks, 1e-5, 1e-16, d), "profile-uniform", d << ": at " << r << " sigma got " << ks << " expected " << kick(sim, at));
		if(l.rmin > 0)
			MC_CHECK(ar == fabs(kr), "profile-absolute", d << ": " << line);
		MC_CHECK(as == fabs(ks), "profile-absolute", d << ": " << line);
		// the current inside only grows
		MC_CHECK(fabs(ks * at) >= last - 1e-15, "profile-monotone", d << ": at " << r);
		last = fabs(ks * at);
		n++;
	}
	MC_CHECK(n == 999, "profile-lines", d << ": " << n << " lines");
}
struct Stepper: public ParticleBunchProcess
{
	int n;
	double L = 0, at = 0;
	int made = 0;
	Stepper(int prio, int nn): ParticleBunchProcess("STEPPER", prio), n(nn) {}
	void SetCurrentComponent(AcceleratorComponent& c) override
	{
		active = c.GetLength() > 0;
		L = c.GetLength();
		at = 0;
		made = 0;
	}
	void DoProcess(double ds) override
	{
		at += ds;
		while(made < n && at > (made + 1) * L / n - 1e-9)
			made++;
	}
	double GetMaxAllowedStepSize() const override
	{
		return (made + 1) * L / n - at;
	}
};
// histories of turns and settings
MC_SECTION("turns")
{
	int two = mc::choose(2), steps = mc::choose(3), depth = mc::thorough() ? 6 : 5, framed = mc::choose(2);
	Lens l{2e-3, 5e-3, 5, 0.195, 7000e9 / 299792458., 3, 0, true, 0, 0, 7000};
	Lens k = l;
	k.I = 2;
	k.against = false;
	k.profile = 1;
	double len = steps == 2 ? 0 : 1;
	AcceleratorModelConstructor mk;
	mk.NewModel();
	HollowElectronLens* e[2] = {make(l, len), make(k, len)};
	mk.AppendDrift(0.5);
	mk.AppendComponent(e[0]);
	mk.AppendDrift(0.5);
	if(two)
		mk.AppendComponent(e[1]);
	else
		delete e[1];
	unique_ptr<AcceleratorModel> m(mk.GetModel());
	if(framed)
	{
		vector<ComponentFrame*> f;
		m->ExtractComponents("HollowElectronLens.*", f);
		MC_CHECK(f.size() == size_t(1 + two), "elements", "found " << f.size());
		f[0]->TranslateX(0.5e-3);
	}
	Lens ls[2] = {l, k};
	struct State
	{
		int mode = 0, turn = 0, skip = 0;
		double tune = 0, dt = 0, var = 0, per = 1, mult = 1;
		bool ac = false;
	} st[2];
	string d = mc::S() << (two ? "two lenses" : "one lens") << (steps == 1 ? " in three steps" : steps == 2 ? " of no length" : "") << (framed ? " displaced" : "");
	ParticleTracker tr(m->GetBeamline());
	tr.AddProcess(new HollowELensProcess(3));
	if(steps == 1)
		tr.AddProcess(new Stepper(5, 3));
	RandomNG::init(77);
	for(int s = 0; s < depth; s++)
	{
		int op = s + 1 == depth ? 0 : mc::choose(7), turns = 0;
		Quiet quiet;
		switch(op)
		{
		case 0:
			turns = 3;
			d += "; 3 turns";
			break;
		case 1:
			d += "; dc";
			e[0]->SetOpMode(DC);
			st[0].mode = 0;
			break;
		case 2:
			d += "; ac swept";
			e[0]->SetAC(0.31, 0.002, 1e-3, 2, 2);
			st[0] = State{1, 0, st[0].skip, 0.31, 0.002, 1e-3, 2, 2, true};
			break;
		case 3:
			d += "; ac of one tune";
			e[0]->SetAC(0.28, 0, 0, 10, 1);
			st[0] = State{1, 0, st[0].skip, 0.28, 0, 0, 10, 1, true};
			break;
		case 4:
			d += "; every third turn";
			e[0]->SetTurnskip(3);
			st[0].mode = 3;
			st[0].skip = 3;
			break;
		case 5:
			d += "; every second turn";
			e[0]->SetOpMode(Turnskip);
			e[0]->SkipTurn = 0;
			st[0].mode = 3;
			st[0].skip = 2;
			break;
		case 6:
			if(!two)
				mc::prune();
			d += "; second every second turn";
			e[1]->SetTurnskip(2);
			st[1].mode = 3;
			st[1].skip = 2;
			break;
		}
		mc::note(d);
		for(int t = 0; t < turns; t++)
		{
			ParticleBunch b(7000, 1);
			vector<PSvector> m0;
			static const double XY[][2] = {{0, 0}, {1e-3, -1e-3}, {3e-3, 1e-3}, {-2e-3, 4e-3}, {6e-3, -1e-3}};
			for(auto& xy : XY)
			{
				PSvector p = particle(xy[0], xy[1], int(m0.size()));
				p.dp() = 0;
				m0.push_back(p);
				b.AddParticle(p);
			}
			tr.Track(&b);
			auto drift = [&](double L){ for(auto& p : m0) { p.x() += L * p.xp(); p.y() += L * p.yp(); } };
			drift(0.5);
			for(int i = 0; i <= two; i++)
			{
				State& z = st[i];
				z.turn++;
				double f = 1;
				if(z.mode == 3)
					f = z.turn % z.skip == 0;
				if(z.mode == 1)
				{
					double q = z.tune;
					if(z.var != 0)
					{
						int n = int(round(2 * z.dt / z.var)) + 1;
						q = z.tune - z.dt + (int(floor(z.turn / z.per)) % n) * z.var;
					}
					f = 0.5 * (1 + cos(2 * M_PI * z.mult * z.turn * q));
				}
				double ox = framed && i == 0 ? 0.5e-3 : 0;
				drift(len);
				for(auto& p : m0)
				{
					double dx = p.x() - ox, r = hypot(dx, p.y()), t2 = f * kick(ls[i], r);
					if(r > 0)
					{
						p.xp() += t2 * dx / r;
						p.yp() += t2 * p.y() / r;
					}
				}
				if(i == 0)
					drift(0.5);
			}
			if(!mc::fresh())
				continue;
			for(size_t i = 0; i < m0.size(); i++)
			{
				PSvector g = *(b.begin() + i);
				MC_CHECK(fabs(g.xp() - m0[i].xp()) < 1e-13 && fabs(g.yp() - m0[i].yp()) < 1e-13 && fabs(g.x() - m0[i].x()) < 1e-11 && fabs(g.y() - m0[i].y()) < 1e-11, "turn",
					d << ": turn " << t << " particle " << i << " has angles " << g.xp() << " " << g.yp() << " should be " << m0[i].xp() << " " << m0[i].yp());
			}
		}
		mc::state(d);
	}
	mc::sample(d);
}
// every mode kicks by the lens as it is: profile, axis, direction
MC_SECTION("modes")
{
	Lens l = lens();
	int mode = mc::choose(4), ctor = mc::choose(2), inv = mc::choose(2);
	if(l.P0 < 7000) // slow protons are in "kick"
		mc::prune();
	string d = mc::S() << str(l) << " mode " << mode << (ctor ? " as made" : " as set") << (inv ? " copied" : "");
	mc::note(d);
	mc::state(d);
	RandomNG::init(5);
	unique_ptr<HollowElectronLens> e(make(l, 1, ctor ? mode : (mode + 1) % 4));
	static const OperationMode OM[] = {DC, AC, Diffusive, Turnskip};
	{
		Quiet q;
		if(mode == 1)
			e->SetAC(0.27, 0, 0, 10, 3);
		else if(!ctor)
			e->SetOpMode(OM[mode]);
		if(mode == 3)
			e->SkipTurn = 3;
		if(ctor && mode != 1)
			MC_CHECK(e->OMode == OM[mode], "mode-made", d);
	}
	if(inv)
		e.reset(static_cast<HollowElectronLens*>(e->Copy()));
	int on = 0;
	for(int t = 1; t <= 12; t++)
	{
		ParticleBunch b(l.P0, 1);
		int id = 0;
		for(double r : {0., 1e-3, 2.2e-3, 2.7e-3, 3.5e-3, 8e-3})
			for(int a = 0; a < 5; a++)
				b.AddParticle(particle(l.x0 + r * cos(a * 1.3 + 0.1), l.y0 + r * sin(a * 1.3 + 0.1), id++));
		vector<PSvector> was(b.begin(), b.end());
		HollowELensProcess p(3);
		Quiet q;
		p.InitialiseProcess(b);
		p.SetCurrentComponent(*e);
		p.DoProcess(1);
		MC_CHECK(b.size() == was.size(), "particles-lost", d << ": " << b.size());
		double f = mode == 0 ? 1 : mode == 1 ? 0.5 * (1 + cos(2 * M_PI * 3 * t * 0.27)) : mode == 3 ? t % 3 == 0 : 0;
		if(mode == 2)
		{
			for(size_t i = 0; i < was.size(); i++)
				f = max(f, double((b.begin() + i)->xp() != was[i].xp()));
			on += f > 0;
		}
		Lens lt = l;
		lt.I *= f;
		for(size_t i = 0; i < was.size(); i++)
		{
			PSvector g = *(b.begin() + i), w = was[i];
			double dx = w.x() - l.x0, dy = w.y() - l.y0, r = hypot(dx, dy), kx = g.xp() - w.xp(), ky = g.yp() - w.yp();
			double along = r > 0 ? (kx * dx + ky * dy) / r : kx, across = r > 0 ? (kx * dy - ky * dx) / r : ky;
			MC_CHECK(right(lt, r, along, 1e-6, 1e-18, d) && fabs(across) < 1e-6 * fabs(along) + 1e-18, "mode-kick", d << ": turn " << t << " particle at " << w.x() << " " << w.y() << " is kicked by " << kx << " " << ky << " should be by " << kick(lt, r) << " away from the axis");
		}
	}
	MC_CHECK(mode != 2 || (on > 0 && on < 12), "mode-random", d << ": on in " << on << " turns");
}
// random operation: on or off for all particles of a turn
MC_SECTION("random")
{
	int steps = 1 + 2 * mc::choose(2), seed = mc::choose(mc::thorough() ? 200 : 40);
	Lens l{2e-3, 5e-3, 5, 0.195, 7000e9 / 299792458., 3, 0, true, 0, 0, 7000};
	string d = mc::S() << "random operation in " << steps << " steps, seed " << seed;
	mc::note(d);
	mc::state(d);
	vector<int> on[2];
	for(int rep = 0; rep < 2; rep++)
	{
		AcceleratorModelConstructor mk;
		mk.NewModel();
		mk.AppendComponent(make(l, 1, 2));
		unique_ptr<AcceleratorModel> m(mk.GetModel());
		ParticleTracker tr(m->GetBeamline());
		tr.AddProcess(new HollowELensProcess(3));
		if(steps > 1)
			tr.AddProcess(new Stepper(5, steps));
		RandomNG::init(seed + 1);
		for(int t = 0; t < 60; t++)
		{
			ParticleBunch b(7000, 1);
			PSvector p(0);
			for(int i = 0; i < 4; i++)
			{
				p.x() = 3e-3 + i * 1e-3;
				b.AddParticle(p);
			}
			tr.Track(&b);
			int n = 0;
			for(int i = 0; i < 4; i++)
			{
				double k = kick(l, 3e-3 + i * 1e-3), g = (b.begin() + i)->xp();
				MC_CHECK(fabs(g) < 1e-15 || fabs(g - k) < 1e-6 * fabs(k), "random-kick", d << ": kick " << g << " should be nothing or " << k);
				n += fabs(g) > 1e-15;
			}
			MC_CHECK(n == 0 || n == 4, "random-some", d << ": turn " << t << " kicked " << n << " of 4 particles");
			on[rep].push_back(n);
		}
	}
	MC_CHECK(on[0] == on[1], "random-repeat", d);
	int n = count(on[0].begin(), on[0].end(), 4);
	// 30 of 60 on average; 8 and 52 are more than five deviations away
	MC_CHECK(n > 8 && n < 52, "random-half", d << ": on in " << n << " of 60 turns");
	// and not in the same order for other seeds
	mc::outcome(mc::S() << n);
}
// tunes with a lens: the process survives and the lens shifts them
MC_SECTION("tunes")
{
	int times = 1 + mc::choose(3), diff = mc::choose(2);
	string d = mc::S() << times << " tunes found" << (diff ? " with diffusion" : "");
	mc::note(d);
	mc::state(d);
	double P0 = 10, brho = P0 * 1e9 / 299792458.;
	AcceleratorModelConstructor mk;
	mk.NewModel();
	for(int i = 0; i < 4; i++)
	{
		mk.AppendComponent(new Quadrupole("QF", 0.3, 1.1 * brho));
		mk.AppendDrift(1.2);
		mk.AppendComponent(new Quadrupole("QD", 0.3, -1.0 * brho));
		mk.AppendDrift(1.2);
	}
	Lens l{0, 8e-3, 5000, 0.2, brho, 3, 0, true, 0, 0, P0};
	mk.AppendComponent(make(l, 0));
	unique_ptr<AcceleratorModel> m(mk.GetModel());
	HollowELensProcess* p = new HollowELensProcess(3);
	PSvector z(0);
	z.x() = z.y() = 1e-3;
	double q0, q1 = 0;
	{
		BetatronTunes b(m.get(), P0);
		b.FindTunes(z, 128, diff);
		q0 = b.Qx;
	}
	BetatronTunes b(m.get(), P0);
	b.SetHELProcess(p);
	for(int i = 0; i < times; i++)
	{
		b.FindTunes(z, 128, diff);
		if(i)
			MC_CLOSET(b.Qx, q1, 1e-9, 1e-9, "tune-again", d);
		q1 = b.Qx;
	}
	// a uniform column of electrons is a lens
	MC_CHECK(fabs(q1 - q0) > 1e-3, "tune-shift", d << ": tune " << q0 << " becomes " << q1);
	delete p;
}
