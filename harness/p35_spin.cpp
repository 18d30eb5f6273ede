// P35: spins stay with their particles and precess with the fields that bend them
#include "mc.h"
#include "MerlinIO.h"
#include "Components.h"
#include "AcceleratorModelConstructor.h"
#include "AcceleratorModel.h"
#include "SpinParticleProcess.h"
#include "ParticleTracker.h"
#include "ParticleComponentTracker.h"
#include "StdIntegrators.h"
#include "SymplecticIntegrators.h"
#include "CollimateParticleProcess.h"
#include "NANCheckProcess.h"
#include "WakeFieldProcess.h"
#include "WakePotentials.h"
#include "Aperture.h"
#include "PhysicalConstants.h"
#include "PhysicalUnits.h"
#include "Transform3D.h"
#include "Rotation3D.h"
using namespace std;
using namespace ParticleTracking;
using namespace PhysicalUnits;
typedef array<double, 3> V3;
static const double A = 0.00115965218, MASS = 0.51099891e-3 /* GeV */, CL = 299792458.;
static V3 cross(const V3& a, const V3& b)
{
	return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
}
static double dot(const V3& a, const V3& b)
{
	return a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
}
// turns s about w by its length
static V3 turn(const V3& s, const V3& w)
{
	double a = sqrt(dot(w, w));
	if(a == 0)
		return s;
	V3 n{w[0] / a, w[1] / a, w[2] / a}, c = cross(n, s), r;
	double d = dot(n, s);
	for(int i = 0; i < 3; i++)
		r[i] = s[i] * cos(a) + c[i] * sin(a) + n[i] * d * (1 - cos(a));
	return r;
}
static V3 get(const SpinVector& s)
{
	return {s.x(), s.y(), s.z()};
}
static string str(const V3& v)
{
	return string(mc::S() << "(" << v[0] << " " << v[1] << " " << v[2] << ")");
}
static double dist(const V3& a, const V3& b)
{
	return sqrt((a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2]));
}
static V3 start(int k)
{
	switch(k)
	{
	case 0: return {0, 0, 1};
	case 1: return {0, 1, 0};
	case 2: return {1, 0, 0};
	default: return {0.48, -0.6, 0.64};
	}
}
static SpinVector sv(const V3& v)
{
	return SpinVector(v[0], v[1], v[2]);
}
static PSvector particle(double x, double xp, double y, double yp, double ct, double dp, int id)
{
	PSvector p(0);
	p.x() = x;
	p.xp() = xp;
	p.y() = y;
	p.yp() = yp;
	p.ct() = ct;
	p.dp() = dp;
	p.id() = id;
	return p;
}
// ---------------------------------------------------------------- spins stay with their particles
struct TestWake: public WakePotentials
{
	double Wlong(double) const override { return 0; }
	double Wtrans(double) const override { return 0; }
};
struct Entry
{
	int id;
	double ct, x;
	V3 s;
};
MC_SECTION("attached")
{
	SpinParticleBunch b(5, 1);
	vector<Entry> m;
	int next = 0, depth = mc::thorough() ? 6 : 5;
	static const double CTS[] = {3e-3, -1e-3, 2e-3, 5e-3, -4e-3, 1e-3, 0, 7e-3, -6e-3};
	static const double XS[] = {1e-3, 5e-3, -1e-3, 2e-3, -6e-3, 0, 3e-3, 7e-3, -2e-3};
	auto add = [&](int how)
	{
		V3 s = turn({0, 0, 1}, {0.3 + 0.25 * next, 0.2 * next * next - 1, 0.1});
		PSvector p = particle(XS[next % 9], 0, 0, 0, CTS[next % 9], 0, next);
		if(how == 0)
			b.AddParticle(p, sv(s));
		else
		{
			s = {0, 0, 1}; // the default
			if(how == 1)
				b.AddParticle(p);
			else
				b.push_back(p);
		}
		m.push_back({next, p.ct(), p.x(), s});
		next++;
	};
	string d = "three particles";
	for(int i = 0; i < 3; i++)
		add(0);
	for(int step = 0; step < depth; step++)
	{
		int op = mc::choose(11);
		switch(op)
		{
		case 0:
		case 1:
		case 2:
			d += mc::S() << "; add " << op;
			mc::note(d);
			add(op);
			break;
		case 3:
		case 4:
		{
			if(m.empty())
				mc::prune();
			size_t i = op == 3 ? 0 : (m.size() - 1) / 2 + m.size() % 2 * (m.size() > 1);
			i = min(i, m.size() - 1);
			d += mc::S() << "; erase " << i;
			mc::note(d);
			b.erase(b.begin() + i);
			m.erase(m.begin() + i);
			break;
		}
		case 5:
			d += "; sort";
			mc::note(d);
			b.SortByCT();
			stable_sort(m.begin(), m.end(), [](const Entry& x, const Entry& y){ return x.ct < y.ct; });
			break;
		case 6:
		{
			if(m.empty())
				mc::prune();
			d += "; turn about z";
			mc::note(d);
			b.ApplyTransformation(Transform3D::rotationZ(0.4));
			for(Entry& e : m)
			{
				// x, y turn as the spins
				e.s = {e.s[0] * cos(0.4) + e.s[1] * sin(0.4), e.s[1] * cos(0.4) - e.s[0] * sin(0.4), e.s[2]};
			}
			for(size_t i = 0; i < m.size(); i++)
				m[i].x = (b.begin() + i)->x();
			break;
		}
		case 7:
		case 8:
		{
			if(m.empty())
				mc::prune();
			d += op == 7 ? "; aperture" : "; short aperture";
			mc::note(d);
			Drift dr("D", op == 7 ? 0.2 : 0);
			CircularAperture ap(op == 7 ? 4e-3 : 1.5e-3);
			dr.SetAperture(&ap);
			CollimateParticleProcess c(1, COLL_AT_EXIT);
			c.ScatterAtCollimator(false);
			c.SetLossThreshold(200);
			stringstream log;
			c.InitialiseProcess(b);
			c.SetCurrentComponent(dr);
			if(c.IsActive())
				c.DoProcess(c.GetMaxAllowedStepSize());
			double r = op == 7 ? 4e-3 : 1.5e-3;
			vector<Entry> keep;
			for(size_t i = 0; i < m.size(); i++)
			{
				// position after the rotations so far: the radius is that of the start
				if(fabs(XS[m[i].id % 9]) < r)
					keep.push_back(m[i]);
			}
			m = keep;
			break;
		}
		case 9:
		{
			// a particle gets lost as NaN
			if(m.size() < 2)
				mc::prune();
			d += "; cull NaN";
			mc::note(d);
			size_t i = (m.size() - 1) / 2;
			(b.begin() + i)->xp() = nan("");
			NANCheckProcess n("NAN", 1);
			n.SetCullNAN(true);
			streambuf* old = cout.rdbuf();
			ostringstream sink;
			cout.rdbuf(sink.rdbuf());
			n.InitialiseProcess(b);
			Drift dr("D", 1);
			n.SetCurrentComponent(dr);
			n.DoProcess(1);
			cout.rdbuf(old);
			m.erase(m.begin() + i);
			break;
		}
		case 10:
		{
			if(m.size() < 2)
				mc::prune();
			d += "; wake slices";
			mc::note(d);
			TestWake w;
			Drift dr("D", 1);
			dr.SetWakePotentials(&w);
			WakeFieldProcess p(1, 4, 3);
			p.InitialiseProcess(b);
			bool spread = false;
			for(Entry& e : m)
				spread |= e.ct != m[0].ct;
			if(!spread)
				mc::prune();
			p.SetCurrentComponent(dr);
			double s = 0;
			while(p.IsActive() && s < 1)
			{
				double ds = min(1 - s, p.GetMaxAllowedStepSize());
				p.DoProcess(ds);
				s += ds;
			}
			stable_sort(m.begin(), m.end(), [](const Entry& x, const Entry& y){ return x.ct < y.ct; });
			break;
		}
		}
		if(!mc::fresh())
			continue;
		size_t ns = b.endSpinArray() - b.beginSpinArray();
		MC_CHECK(b.size() == m.size() && ns == m.size(), "spin-count", d << ": " << b.size() << " particles and " << ns << " spins, should be " << m.size());
		V3 mean{0, 0, 0};
		for(size_t i = 0; i < m.size(); i++)
		{
			MC_CHECK((b.begin() + i)->id() == m[i].id, "particle-order", d << ": particle " << i << " is " << (b.begin() + i)->id() << " should be " << m[i].id);
			V3 s = get(*(b.beginSpinArray() + i));
			MC_CHECK(dist(s, m[i].s) < 1e-12, "spin-detached", d << ": particle " << m[i].id << " has spin " << str(s) << " should be " << str(m[i].s));
			for(int k = 0; k < 3; k++)
				mean[k] += s[k] / m.size();
		}
		if(!m.empty())
		{
			MC_CHECK(dist(get(b.GetAverageSpin()), mean) < 1e-12, "average-spin", d << ": " << str(get(b.GetAverageSpin())) << " should be " << str(mean));
			ostringstream os;
			os.precision(4);
			b.Output(os);
			MC_CHECK(os.precision() == 4, "output-precision", d << ": precision " << os.precision());
			istringstream is(os.str());
			string line;
			size_t n = 0;
			while(getline(is, line))
			{
				istringstream ls(line);
				double v[11];
				for(double& x : v)
					ls >> x;
				MC_CHECK(n < m.size() && ls, "output-lines", d << ": line " << line);
				bool ok = fabs(v[0] - b.GetReferenceTime()) < 1e-9 && fabs(v[1] - 5) < 1e-9;
				for(int k = 0; k < 6; k++)
					ok = ok && fabs(v[2 + k] - (*(b.begin() + n))[k]) < 1e-9;
				for(int k = 0; k < 3; k++)
					ok = ok && fabs(v[8 + k] - m[n].s[k]) < 1e-9;
				MC_CHECK(ok, "output", d << ": particle " << n << " is written as " << line);
				n++;
			}
			MC_CHECK(n == m.size(), "output-lines", d << ": " << n << " lines for " << m.size() << " particles");
		}
		mc::state(d);
	}
	// a copy has its own spins
	SpinParticleBunch c(b);
	if(!m.empty())
	{
		c.beginSpinArray()->x() = 9;
		MC_CHECK(b.beginSpinArray()->x() != 9, "shared-spins", d);
		c.clear();
		c.AddParticle(particle(0, 0, 0, 0, 0, 0, 99), SpinVector(0, 1, 0));
		MC_CHECK(c.size() == 1 && c.endSpinArray() - c.beginSpinArray() == 1 && c.beginSpinArray()->y() == 1, "cleared", d << ": after clearing, one particle has " << c.endSpinArray() - c.beginSpinArray() << " spins");
	}
	mc::outcome(mc::S() << m.size());
	mc::sample(d);
}
// ---------------------------------------------------------------- the precession itself, particles held still
struct Case
{
	unique_ptr<AcceleratorComponent> c;
	string d;
	bool bend = false, sol = false;
	double L = 0, e1 = 0, e2 = 0, B0 = 0, tilt = 0;
	function<complex<double>(complex<double>)> field = [](complex<double>){ return complex<double>(0); }; // By + i Bx
	double bz = 0;
};
static const int NCASE = 12;
static Case make(int k, double brho)
{
	Case r;
	typedef complex<double> C;
	switch(k)
	{
	case 0:
		r.c.reset(new Drift("D", r.L = 1.5));
		r.d = "drift";
		break;
	case 1:
		r.c.reset(new Quadrupole("Q", r.L = 0.8, 0.3 * brho));
		r.field = [=](C z){ return 0.3 * brho * z; };
		r.d = "quadrupole";
		break;
	case 2:
		r.c.reset(new SkewQuadrupole("Q", r.L = 0.5, 0.2 * brho));
		r.field = [=](C z){ return C(0, 1) * 0.2 * brho * z; };
		r.d = "skew quadrupole";
		break;
	case 3:
		r.c.reset(new Sextupole("S", r.L = 0.5, 8 * brho));
		r.field = [=](C z){ return 4 * brho * z * z; };
		r.d = "sextupole";
		break;
	case 4:
		r.c.reset(new XCor("X", r.L = 0.2, 0.02 * brho));
		r.field = [=](C){ return C(0.02 * brho, 0); };
		r.d = "horizontal corrector";
		break;
	case 5:
		r.c.reset(new YCor("Y", r.L = 0.2, -0.03 * brho));
		r.field = [=](C){ return C(0, -0.03 * brho); };
		r.d = "vertical corrector";
		break;
	case 6:
		r.c.reset(new XCor("X", 0, 2e-3 * brho));
		r.field = [=](C){ return C(2e-3 * brho, 0); };
		r.d = "thin horizontal corrector";
		break;
	case 7:
		r.c.reset(new Solenoid("S", r.L = 1.2, r.bz = 0.4 * brho));
		r.sol = true;
		r.d = "solenoid";
		break;
	default:
	{
		double h = k % 2 ? 0.1 : -0.05;
		r.L = 1.3;
		r.B0 = h * brho;
		SectorBend* b = new SectorBend("B", r.L, h, r.B0);
		r.bend = true;
		if(k == 9 || k == 11)
		{
			r.e1 = 0.2;
			r.e2 = -0.1;
			b->SetPoleFaceInfo(new SectorBend::PoleFace(r.e1), new SectorBend::PoleFace(r.e2));
		}
		if(k == 10)
		{
			r.e2 = 0.3;
			b->SetPoleFaceInfo(nullptr, new SectorBend::PoleFace(r.e2));
		}
		if(k == 11)
		{
			r.tilt = 0.7;
			b->GetGeometry().SetTilt(r.tilt);
		}
		double B0 = r.B0;
		r.field = [=](C){ return C(B0, 0); };
		r.d = mc::S() << "bend of " << h * r.L << " faces " << r.e1 << " " << r.e2 << " tilt " << r.tilt;
		r.c.reset(b);
		break;
	}
	}
	return r;
}
MC_SECTION("precession")
{
	int k = mc::choose(NCASE), q = mc::choose(2) ? -1 : 1, ns = 1 + mc::choose(3), cut = mc::choose(3), s0 = mc::choose(4), pos = mc::choose(4), spinp = mc::choose(2);
	double P0 = mc::pick(vector<double>{5, 1.3}), dp = pos == 3 ? 2e-3 : 0;
	double brho = P0 * 1e9 / CL;
	Case c = make(k, brho * q);
	if(c.L == 0 && (ns > 1 || cut))
		mc::prune();
	string d = mc::S() << c.d << " charge " << q << " P0 " << P0 << " steps " << ns << " cut " << cut << " start " << s0 << " position " << pos << " spin momentum " << spinp;
	mc::note(d);
	mc::state(d);
	double x = pos == 1 || pos == 3 ? 2e-3 : 0, y = pos >= 2 ? -1.5e-3 : 0;
	SpinParticleBunch b(P0, q);
	V3 s = start(s0);
	b.AddParticle(particle(x, 0, y, 0, 0, dp, 0), sv(s));
	b.AddParticle(particle(0, 0, 0, 0, 0, 0, 1), sv(start(0)));
	// the number of steps may be set later, before the next element
	SpinParticleProcess p(1, spinp ? 4 - ns : ns);
	if(spinp)
	{
		p.SetSpinMomentum(0.75 * P0);
		p.SetNumComponentSteps(ns);
	}
	p.InitialiseProcess(b);
	// two elements: the second starts afresh
	auto go = [&](AcceleratorComponent& e)
	{
		p.SetCurrentComponent(e);
		double l = e.GetLength(), at = 0;
		vector<double> cuts;
		if(cut == 1)
			cuts = {0.4 * l};
		if(cut == 2)
			cuts = {l / 3, 0.5 * l, 0.9 * l};
		vector<double> steps;
		int n = 0;
		do
		{
			double ds = l - at;
			if(p.IsActive())
				ds = min(ds, p.GetMaxAllowedStepSize());
			for(double t : cuts)
				if(t > at + 1e-9)
				{
					ds = min(ds, t - at);
					break;
				}
			MC_CHECK(ds > 1e-9 || l == 0, "no-step", d << ": step of " << ds << " at " << at);
			MC_CHECK(++n < 20, "no-end", d << ": " << n << " steps");
			if(p.IsActive())
				p.DoProcess(ds);
			steps.push_back(ds);
			at += ds;
		} while(fabs(at - l) > 1e-9);
		return steps;
	};
	MC_CHECK(dist(get(SpinVector()), {0, 0, 1}) == 0, "default-spin", "default " << str(get(SpinVector())));
	vector<double> steps = go(*c.c);
	// at least as many steps as asked for, none longer
	if(c.L > 0 && k != 0)
		for(double ds : steps)
			MC_CHECK(ds <= c.L / ns + 1e-9, "long-step", d << ": step " << ds);
	// and no more than those and the cuts
	if(c.L > 0 && k != 0)
		MC_CHECK(steps.size() <= size_t(ns + cut + (cut == 2)), "short-step", d << ": " << steps.size() << " steps");
	double n = q / (brho * (1 + dp)), gam = (spinp ? 0.75 : 1) * P0 / MASS * (1 + dp);
	auto expect = [&](V3 t, double px, double py, double nn, double g)
	{
		double ct = cos(c.tilt), st = sin(c.tilt);
		// the coordinates of a tilted bend
		auto to = [&](const V3& a, double sg){ return V3{a[0] * ct + sg * a[1] * st, a[1] * ct - sg * a[0] * st, a[2]}; };
		if(c.tilt)
		{
			t = to(t, 1);
			V3 w = to({px, py, 0}, 1);
			px = w[0];
			py = w[1];
		}
		auto W = [&](double bx, double by, double bz){ return V3{-(1 + A * g) * bx * nn, -((c.bend ? 0 : 1) + A * g) * by * nn, -(1 + A) * bz * nn}; };
		// fringes: without curl, all field lines of the gap leave through the faces
		if(c.bend)
			t = turn(t, W(-c.B0 * py * tan(c.e1), 0, c.B0 * py));
		if(c.sol)
			t = turn(t, W(-c.bz * px / 2, -c.bz * py / 2, 0));
		complex<double> f = c.field({px, py});
		double l = c.L == 0 ? 1 : c.L;
		t = turn(t, W(f.imag() * l, f.real() * l, c.bz * l));
		if(c.bend)
			t = turn(t, W(-c.B0 * py * tan(c.e2), 0, -c.B0 * py));
		if(c.sol)
			t = turn(t, W(c.bz * px / 2, c.bz * py / 2, 0));
		if(c.tilt)
			t = to(t, -1);
		return t;
	};
	V3 e = expect(s, x, y, n, gam), g = get(*b.beginSpinArray());
	// a particle of a tilted bend is moved to its coordinates by the tracking, not done here
	double tol = 3e-6;
	if(c.tilt && pos)
		tol = 5 * (fabs(x) + fabs(y)) * (1 + A * gam);
	MC_CHECK(fabs(dot(g, g) - 1) < 1e-12, "spin-length", d << ": " << sqrt(dot(g, g)));
	MC_CHECK(dist(e, g) < tol, "precession", d << ": spin " << str(g) << " should be " << str(e));
	V3 e2 = expect(start(0), 0, 0, q / brho, (spinp ? 0.75 : 1) * P0 / MASS), g2 = get(*(b.beginSpinArray() + 1));
	MC_CHECK(dist(e2, g2) < 3e-6, "precession-second", d << ": spin " << str(g2) << " should be " << str(e2));
	// once more, and the two of them
	go(*c.c);
	V3 ee = expect(e, x, y, n, gam), gg = get(*b.beginSpinArray());
	MC_CHECK(dist(ee, gg) < 2 * tol, "precession-again", d << ": spin " << str(gg) << " should be " << str(ee));
	MC_CHECK(fabs((b.begin())->x() - x) < 1e-15 && b.begin()->y() == y && b.begin()->xp() == 0 && b.begin()->dp() == dp, "particle-changed", d);
	mc::outcome(mc::S() << c.d << (dist(g, s) > 1e-9));
}
// ---------------------------------------------------------------- in the tracker: spins turn 1 + a gamma times as far as the orbit
MC_SECTION("follows-orbit")
{
	int kind = mc::choose(8), ns = mc::pick(vector<int>{1, 2, 5, 16}), q = mc::choose(2) ? -1 : 1, offs = mc::choose(4), set = mc::choose(3);
	double P0 = mc::pick(vector<double>{5, 0.8}), dp = mc::choose(2) * 1e-2;
	double brho = P0 * 1e9 / CL, g = P0 / MASS * (1 + dp);
	AcceleratorModelConstructor mk;
	mk.NewModel();
	string kd;
	AcceleratorComponent* c = nullptr;
	double fld = brho * q;
	switch(kind)
	{
	case 0: c = new Quadrupole("E", 0.2, 0.25 * fld); kd = "quadrupole"; break;
	case 1: c = new SkewQuadrupole("E", 0.2, -0.2 * fld); kd = "skew quadrupole"; break;
	case 2: c = new Sextupole("E", 0.2, 60 * fld); kd = "sextupole"; break;
	case 3: c = new XCor("E", 0.1, 2e-3 * fld); kd = "horizontal corrector"; break;
	case 4: c = new YCor("E", 0.1, 1e-3 * fld); kd = "vertical corrector"; break;
	case 5: c = new YCor("E", 0, 2e-4 * fld); kd = "thin vertical corrector"; break;
	case 6: c = new SkewSextupole("E", 0.2, 50 * fld); kd = "skew sextupole"; break;
	default: c = new Octupole("E", 0.2, 3e4 * fld); kd = "octupole"; break;
	}
	mk.AppendDrift(0.1);
	mk.AppendComponent(c);
	mk.AppendDrift(0.1);
	unique_ptr<AcceleratorModel> m(mk.GetModel());
	string d = mc::S() << kd << " charge " << q << " P0 " << P0 << " dp " << dp << " steps " << ns << " displaced " << offs << " set " << set;
	mc::note(d);
	mc::state(d);
	vector<ComponentFrame*> fs;
	m->ExtractComponents("*.E", fs);
	if(offs & 1)
		fs[0]->RotateZ(0.6);
	if(offs & 2)
	{
		fs[0]->TranslateX(2e-3);
		fs[0]->TranslateY(-1e-3);
	}
	ParticleTracker tr(m->GetBeamline());
	if(set == 1)
		tr.SetIntegratorSet(new SYMPLECTIC::StdISet());
	if(set == 2)
		tr.SetIntegratorSet(new TRANSPORT::StdISet());
	tr.AddProcess(new SpinParticleProcess(1, ns));
	SpinParticleBunch b(P0, q);
	b.AddParticle(particle(3e-3, 0, 4e-3, 0, 0, dp, 0), SpinVector(0, 0, 1));
	b.AddParticle(particle(-2e-3, 0, 1e-3, 0, 0, dp, 1), SpinVector(0, 0, 1));
	tr.Track(&b);
	for(int i = 0; i < 2; i++)
	{
		PSvector p = *(b.begin() + i);
		V3 s = get(*(b.beginSpinArray() + i));
		double f = 1 + A * g, kick = hypot(p.xp(), p.yp());
		MC_CHECK(kick > 1e-7, "no-kick", d << ": kick " << kick);
		// the field is that at the end of each step: the particle moves by a few percent
		double tol = f * kick * 0.03 + 2 * f * f * kick * kick;
		MC_CHECK(fabs(s[0] - f * p.xp()) < tol && fabs(s[1] - f * p.yp()) < tol, "spin-follows-orbit",
			d << ": orbit turned by " << p.xp() << " " << p.yp() << " and the spin is " << str(s) << " should be " << f * p.xp() << " " << f * p.yp());
		MC_CHECK(fabs(dot(s, s) - 1) < 1e-12, "spin-length", d << ": " << sqrt(dot(s, s)));
	}
	mc::outcome(kd);
}
// ---------------------------------------------------------------- lines of bends and solenoids on the reference orbit
MC_SECTION("lines")
{
	int n = 1 + mc::choose(mc::thorough() ? 4 : 3), q = mc::choose(2) ? -1 : 1, ns = 1 + mc::choose(3), s0 = mc::choose(4);
	double P0 = 1.6, brho = P0 * 1e9 / CL, g = P0 / MASS;
	AcceleratorModelConstructor mk;
	mk.NewModel();
	V3 e = start(s0);
	string d = mc::S() << "charge " << q << " steps " << ns << " start " << s0 << ":";
	for(int i = 0; i < n; i++)
	{
		int k = mc::choose(7);
		double th = 0.4;
		switch(k)
		{
		case 0:
			mk.AppendDrift(1);
			d += " drift";
			break;
		case 1:
		case 2:
			mk.AppendComponent(new SectorBend("B", 2, k == 1 ? th / 2 : -th / 2, (k == 1 ? 1 : -1) * th / 2 * brho * q));
			e = turn(e, {0, -A * g * (k == 1 ? th : -th), 0});
			d += k == 1 ? " bend" : " bend back";
			break;
		case 3:
		{
			// a vertical bend
			SectorBend* b = new SectorBend("V", 2, th / 2, th / 2 * brho * q);
			b->GetGeometry().SetTilt(M_PI / 2);
			mk.AppendComponent(b);
			// horizontally it bends towards -x, turned by the tilt
			e = turn(e, {A * g * th, 0, 0});
			d += " vertical bend";
			break;
		}
		case 4:
			mk.AppendComponent(new Solenoid("S", 1.5, 0.3 * brho * q));
			e = turn(e, {0, 0, -(1 + A) * 0.45});
			d += " solenoid";
			break;
		case 5:
			mk.AppendComponent(new Quadrupole("Q", 0.5, 0.3 * brho));
			d += " quadrupole";
			break;
		default:
			mk.AppendComponent(new Marker("M"));
			d += " marker";
		}
	}
	mc::note(d);
	mc::state(d);
	unique_ptr<AcceleratorModel> m(mk.GetModel());
	ParticleTracker tr(m->GetBeamline());
	tr.AddProcess(new SpinParticleProcess(1, ns));
	SpinParticleBunch b(P0, q);
	b.AddParticle(particle(0, 0, 0, 0, 0, 0, 0), sv(start(s0)));
	// a neighbour stays a neighbour
	b.AddParticle(particle(1e-6, 0, -1e-6, 0, 0, 1e-6, 1), sv(start(s0)));
	tr.Track(&b);
	V3 s = get(*b.beginSpinArray()), t = get(*(b.beginSpinArray() + 1));
	MC_CHECK(dist(s, e) < 3e-6, "line", d << ": spin " << str(s) << " should be " << str(e));
	MC_CHECK(dist(t, s) < 1e-4, "neighbour", d << ": spins " << str(s) << " and " << str(t));
	mc::sample(d);
	// an ordinary bunch is left alone
	ParticleBunch o(P0, q);
	o.AddParticle(particle(1e-3, 0, 0, 0, 0, 0, 0));
	tr.Track(&o);
	MC_CHECK(o.size() == 1, "ordinary-bunch", d);
}
// pole faces focus vertically, and turn the spins as they do so
MC_SECTION("faces")
{
	int q = mc::choose(2) ? -1 : 1, ns = mc::pick(vector<int>{1, 3}), f = 1 + mc::choose(3), sg = mc::choose(2) ? -1 : 1;
	double P0 = mc::pick(vector<double>{5, 2}), brho = P0 * 1e9 / CL, g = P0 / MASS, e = sg * 0.6, L = 0.1, h = (mc::choose(2) ? -1 : 1) * 0.02, tilt = mc::choose(2) * 0.5;
	AcceleratorModelConstructor mk;
	mk.NewModel();
	SectorBend* b = new SectorBend("B", L, h, h * brho * q);
	b->SetPoleFaceInfo(f & 1 ? new SectorBend::PoleFace(e) : nullptr, f & 2 ? new SectorBend::PoleFace(e / 2) : nullptr);
	b->GetGeometry().SetTilt(tilt);
	mk.AppendComponent(b);
	unique_ptr<AcceleratorModel> m(mk.GetModel());
	ParticleTracker tr(m->GetBeamline());
	tr.AddProcess(new SpinParticleProcess(1, ns));
	string d = mc::S() << "charge " << q << " steps " << ns << " faces " << f << " of " << e << " P0 " << P0 << " h " << h << " tilt " << tilt;
	mc::note(d);
	mc::state(d);
	SpinParticleBunch u(P0, q);
	double y = 1e-3, c = cos(tilt), s = sin(tilt);
	u.AddParticle(particle(-y * s, 0, y * c, 0, 0, 0, 0), SpinVector(0, 0, 1));
	tr.Track(&u);
	PSvector p = *u.begin();
	V3 t = get(*u.beginSpinArray());
	double kick = p.yp() * c - p.xp() * s, sy = t[1] * c - t[0] * s, k = 1 + A * g;
	MC_CHECK(fabs(kick) > 1e-6, "no-kick", d);
	MC_CHECK(fabs(sy - k * kick) < 0.05 * k * fabs(kick), "faces-follow-orbit", d << ": orbit turned by " << kick << ", spin by " << sy << " should be " << k * kick);
}
// turning a bend about its axis turns what it does to particles and spins
MC_SECTION("tilted")
{
	int q = mc::choose(2) ? -1 : 1, ns = mc::pick(vector<int>{1, 2, 5}), f = mc::choose(4), pos = mc::choose(4), sn = mc::choose(4), set = mc::choose(2), k1 = mc::choose(3) - 1;
	double tilt = mc::pick(vector<double>{0.5, -1.2, M_PI / 2, 2.5}), P0 = 3, brho = P0 * 1e9 / CL, h = (mc::choose(2) ? -1 : 1) * 0.02, L = 0.4;
	string d = mc::S() << "charge " << q << " steps " << ns << " faces " << f << " h " << h << " k1 " << k1 << " tilt " << tilt << " position " << pos << " spin " << sn << " set " << set;
	mc::note(d);
	mc::state(d);
	double c = cos(tilt), s = sin(tilt);
	auto turned = [&](double a, double b, double sg){ return make_pair(a * c - sg * b * s, b * c + sg * a * s); };
	PSvector part[2];
	V3 spin[2];
	for(int t = 0; t < 2; t++)
	{
		AcceleratorModelConstructor mk;
		mk.NewModel();
		SectorBend* b = new SectorBend("B", L, h, h * brho * q);
		b->SetB1(0.5 * k1 * brho * q);
		b->SetPoleFaceInfo(f & 1 ? new SectorBend::PoleFace(0.3) : nullptr, f & 2 ? new SectorBend::PoleFace(-0.2) : nullptr);
		if(t)
			b->GetGeometry().SetTilt(tilt);
		mk.AppendComponent(b);
		unique_ptr<AcceleratorModel> m(mk.GetModel());
		ParticleTracker tr(m->GetBeamline());
		if(set)
			tr.SetIntegratorSet(new SYMPLECTIC::StdISet());
		tr.AddProcess(new SpinParticleProcess(1, ns));
		PSvector p = particle(pos & 1 ? 2e-3 : 0, pos & 1 ? -1e-3 : 0, pos & 2 ? -1e-3 : 0, pos & 2 ? 2e-3 : 0, 0, 1e-3, 0);
		V3 v = start(sn);
		if(t)
		{
			tie(p.x(), p.y()) = turned(p.x(), p.y(), 1);
			tie(p.xp(), p.yp()) = turned(p.xp(), p.yp(), 1);
			tie(v[0], v[1]) = turned(v[0], v[1], 1);
		}
		SpinParticleBunch u(P0, q);
		u.AddParticle(p, sv(v));
		tr.Track(&u);
		part[t] = *u.begin();
		spin[t] = get(*u.beginSpinArray());
		if(t)
		{
			tie(part[t].x(), part[t].y()) = turned(part[t].x(), part[t].y(), -1);
			tie(part[t].xp(), part[t].yp()) = turned(part[t].xp(), part[t].yp(), -1);
			tie(spin[t][0], spin[t][1]) = turned(spin[t][0], spin[t][1], -1);
		}
	}
	for(int i = 0; i < 6; i++)
		MC_CHECK(fabs(part[0][i] - part[1][i]) < 1e-12, "tilted-orbit", d << ": coordinate " << i << " is " << part[1][i] << " instead of " << part[0][i]);
	MC_CHECK(dist(spin[0], spin[1]) < 1e-9, "tilted-spin", d << ": spin " << str(spin[1]) << " should be " << str(spin[0]));
}
