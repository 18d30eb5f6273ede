// P22: generated bunches are matched to the beam they are generated for
#include "mc.h"
#include "MerlinIO.h"
#include "ParticleBunch.h"
#include "ProtonBunch.h"
#include "ElectronBunch.h"
#include "BeamData.h"
#include "BunchFilter.h"
#include "ParticleDistributionGenerator.h"
#include "HaloParticleDistributionGenerator.h"
#include "HollowElensParticleDistributionGenerator.h"
#include "SMPBunch.h"
#include "SMPBunchConstructor.h"
#include "RandomNG.h"
using namespace std;
using namespace ParticleTracking;
using SMPTracking::SMPBunch;
using SMPTracking::SMPBunchConstructor;
typedef long double LD;
static PSvector mk(double a, double b, double c, double d, double ct, double dp)
{
	PSvector p(0);
	p.x() = a;
	p.xp() = b;
	p.y() = c;
	p.yp() = d;
	p.ct() = ct;
	p.dp() = dp;
	p.id() = 4711; // must be replaced
	return p;
}
static const vector<PSvector> POOL{mk(1, -2, 0.5, 0.25, 0.75, -1), mk(-0.3, 0, 0, 1.5, -1, 2), mk(0, 0, 0, 0, 0, 0), mk(3, 1, -2.5, -0.1, 0.2, 0)};
struct Scripted: public ParticleDistributionGenerator
{
	vector<int> s;
	mutable size_t n = 0;
	virtual PSvector GenerateFromDistribution() const override
	{
		return POOL[s[n++ % s.size()]];
	}
};
// accepts by a script, and remembers what it was asked
struct ScriptFilter: public ParticleBunchFilter
{
	vector<bool> s;
	mutable vector<PSvector> asked;
	virtual bool Apply(const PSvector& v) const override
	{
		asked.push_back(v);
		return asked.size() > s.size() || s[asked.size() - 1];
	}
};
// normalised coordinates to the coordinates in the beam
static void refMap(const BeamData& t, const PSvector& n, LD r[6])
{
	LD u[4] = {sqrtl(t.emit_x) * n[0], sqrtl(t.emit_x) * n[1], sqrtl(t.emit_y) * n[2], sqrtl(t.emit_y) * n[3]};
	LD ct = LD(t.sig_z) * n[4], dp = LD(t.sig_dp) * n[5];
	// coupling: exponential of the generator, as a power series
	LD a = t.c_xy, b = t.c_xyp, c = t.c_xpy, d = t.c_xpyp;
	LD w[4], k[4];
	for(int i = 0; i < 4; i++)
		w[i] = k[i] = u[i];
	for(int i = 1; i < 40; i++)
	{
		LD m[4] = {a * k[2] + b * k[3], -c * k[2] - d * k[3], d * k[0] + b * k[1], -c * k[0] - a * k[1]};
		for(int j = 0; j < 4; j++)
		{
			k[j] = m[j] / i;
			w[j] += k[j];
		}
	}
	LD bx = sqrtl(t.beta_x), by = sqrtl(t.beta_y);
	r[0] = bx * w[0] + t.Dx * dp + t.x0;
	r[1] = (w[1] - t.alpha_x * w[0]) / bx + t.Dxp * dp + t.xp0;
	r[2] = by * w[2] + t.Dy * dp + t.y0;
	r[3] = (w[3] - t.alpha_y * w[2]) / by + t.Dyp * dp + t.yp0;
	r[4] = ct + t.ct0;
	r[5] = dp;
}
static vector<BeamData> beams()
{
	vector<BeamData> v;
	BeamData t;
	t.beta_x = t.beta_y = 1;
	t.emit_x = t.emit_y = 1;
	t.sig_dp = t.sig_z = 1;
	t.p0 = 7000;
	v.push_back(t);
	t.beta_x = 12;
	t.beta_y = 0.4;
	t.alpha_x = -1.5;
	t.alpha_y = 3;
	t.emit_x = 1e-6;
	t.emit_y = 4e-8;
	t.sig_dp = 1e-3;
	t.sig_z = 0.02;
	t.charge = 1e11;
	v.push_back(t);
	t.Dx = 0.5;
	t.Dxp = -0.02;
	t.Dy = 0.1;
	t.Dyp = 3e-3;
	v.push_back(t);
	t.x0 = 1e-3;
	t.xp0 = -2e-4;
	t.y0 = 5e-4;
	t.yp0 = 3e-5;
	t.ct0 = 0.7;
	t.charge = -3;
	v.push_back(t);
	t.c_xy = 0.1;
	t.c_xyp = -0.2;
	t.c_xpy = 0.15;
	t.c_xpyp = 0.3;
	v.push_back(t);
	t.c_xyp = 0;
	t.c_xpyp = 0;
	t.c_xpy = 0.4;
	t.emit_y = 0;
	t.sig_z = 0;
	v.push_back(t);
	t.sig_dp = 0;
	t.emit_x = 0;
	v.push_back(t);
	return v;
}
static string str(const PSvector& p)
{
	mc::S s;
	for(int i = 0; i < 6; i++)
		s << p[i] << ",";
	return s;
}
template<class B> static void generated(const char* name)
{
	BeamData t = mc::pick(beams());
	int np = 1 + mc::choose(mc::thorough() ? 5 : 4);
	Scripted g;
	int ng = np == 1 ? 1 : np - 1;
	for(int i = 0; i < ng; i++)
		g.s.push_back(mc::choose(POOL.size()));
	// the answers of the filter to its first questions
	ScriptFilter f;
	bool filter = mc::choose(2);
	if(filter && np > 1)
		for(int i = 0; i < 3; i++)
			f.s.push_back(mc::choose(2));
	mc::S d;
	d << name << " np " << np << " beam emit " << t.emit_x << "," << t.emit_y << " D " << t.Dx << " x0 " << t.x0 << " c " << t.c_xy << " sigma " << t.sig_dp << "," << t.sig_z << " particles";
	for(int i : g.s)
		d << " " << i;
	if(filter)
		for(bool b : f.s)
			d << " " << b;
	else
		d << " no filter";
	mc::note(d);
	mc::state(d);
	B b(np, g, t, filter ? &f : nullptr);
	MC_CHECK(b.size() == size_t(np), "number", d << ": bunch of " << b.size() << " particles");
	MC_CHECK(b.GetReferenceMomentum() == t.p0 && b.GetReferenceTime() == 0, "reference", d << ": reference momentum " << b.GetReferenceMomentum() << " time " << b.GetReferenceTime());
	MC_CLOSET(b.GetTotalCharge(), t.charge, 1e-12, 0, "charge", d << ": total charge");
	const PSvector c = b.FirstParticle();
	double x0[6] = {t.x0, t.xp0, t.y0, t.yp0, t.ct0, 0};
	for(int i = 0; i < 6; i++)
		MC_CHECK(c[i] == x0[i], "centroid", d << ": coordinate " << i << " of the first particle is " << c[i] << " expected " << x0[i]);
	size_t n = 0; // generated
	auto it = b.begin();
	for(int i = 0; i < np; i++, ++it)
	{
		MC_CHECK(it->id() == i, "id", d << ": particle " << i << " has id " << it->id());
		if(i == 0)
			continue;
		while(filter && n < f.s.size() && !f.s[n])
			n++;
		LD r[6];
		refMap(t, POOL[g.s[n % g.s.size()]], r);
		for(int k = 0; k < 6; k++)
			MC_CLOSET((*it)[k], double(r[k]), 1e-11, 1e-18, "particle", d << ": particle " << i << " coordinate " << k);
		if(filter)
			MC_CHECK(n < f.asked.size() && str(f.asked[n]) == str(*it), "filtered", d << ": particle " << i << " is not the one the filter accepted");
		n++;
	}
	MC_CHECK(g.n == n, "drawn", d << ": " << g.n << " particles were generated for " << n << " needed");
	MC_CHECK(f.asked.size() == (filter ? n : 0), "asked", d << ": the filter was applied " << f.asked.size() << " times, not " << n);
	mc::sample(d);
}
MC_SECTION("bunch")
{
	generated<ParticleBunch>("ParticleBunch");
}
MC_SECTION("proton-bunch")
{
	generated<ProtonBunch>("ProtonBunch");
}
MC_SECTION("electron-bunch")
{
	generated<ElectronBunch>("ElectronBunch");
}
MC_SECTION("filters")
{
	double lim = mc::pick(vector<double>{0, 1e-3, 0.5});
	double orb = mc::pick(vector<double>{0, 2e-4, -0.01});
	double z = mc::pick(vector<double>{0, 1e-9, 5e-4, 1e-3, 1.1e-3, 0.02, 0.5, 0.500001, 3});
	double o = mc::pick(vector<double>{1e-4, -2, 1e-12});
	int history = mc::choose(3);
	z *= mc::choose(2) ? 1 : -1;
	mc::S d;
	d << "limit " << lim << " orbit " << orb << " coordinate " << z << " other " << o << " settings " << history;
	mc::note(d);
	mc::state(d);
	{
		HorizontalHaloParticleBunchFilter h;
		if(history == 1)
		{
			h.SetHorizontalLimit(77);
			h.SetHorizontalOrbit(-3);
		}
		if(history != 2)
			h.SetHorizontalLimit(lim);
		h.SetHorizontalOrbit(orb);
		if(history == 2)
			h.SetHorizontalLimit(lim);
		PSvector p = mk(z, o, 2 * o, 1, 0, 0);
		bool out = fabs(LD(z) - orb) > lim * (1 + 1e-12L) + 1e-17L, in = fabs(LD(z) - orb) < lim * (1 - 1e-12L) - 1e-17L;
		bool a = static_cast<const ParticleBunchFilter&>(h).Apply(p);
		MC_CHECK(!out || z == 0 || a, "outside", d << ": particle beyond the limit is not accepted");
		MC_CHECK(!in || !a, "inside", d << ": particle within the limit is accepted");
		// unset orbit
		HorizontalHaloParticleBunchFilter h2;
		h2.SetHorizontalLimit(lim);
		MC_CHECK(z == 0 || h2.Apply(p) == (fabs(z) > lim), "no-orbit", d << ": filter without orbit accepts " << h2.Apply(p));
	}
	{
		VerticalHaloParticleBunchFilter v;
		if(history)
			v.SetVerticalLimit(77);
		v.SetVerticalLimit(lim);
		PSvector p = mk(2 * o, 1, z, o, 0, 0);
		MC_CHECK(v.Apply(p) == (fabs(z) > lim), "vertical", d << ": vertical filter accepts " << v.Apply(p));
	}
	mc::sample(d);
}
// shapes of the distributions: every draw of a long run
MC_SECTION("distributions")
{
	int kind = mc::choose(9);
	uint32_t seed = mc::pick(vector<uint32_t>{1, 2, 3});
	double size = mc::pick(vector<double>{1, 0, 5.7});
	PSvector cut(0);
	int cc = mc::choose(3);
	if(cc == 1)
		for(int i = 0; i < 6; i++)
			cut[i] = 0.5 + 0.3 * i;
	if(cc == 2)
		cut[2] = 1;
	const int N = mc::thorough() ? 20000 : 4000;
	mc::S d;
	d << "seed " << seed << " size " << size << " cutoffs " << cc << " ";
	RandomNG::init(seed);
	unique_ptr<ParticleDistributionGenerator> g;
	switch(kind)
	{
	case 0:
		if(cc == 2)
		{
			d << "normal(cutoff)";
			g.reset(new NormalParticleDistributionGenerator(1.5));
			cut = PSvector(1.5);
		}
		else
		{
			d << "normal";
			g.reset(cc ? new NormalParticleDistributionGenerator(cut) : new NormalParticleDistributionGenerator());
		}
		break;
	case 1:
		d << "uniform";
		g.reset(new UniformParticleDistributionGenerator());
		break;
	case 2:
		d << "ring";
		g.reset(new RingParticleDistributionGenerator());
		break;
	case 3:
		d << "horizontal halo 1";
		g.reset(new HorizonalHalo1ParticleDistributionGenerator(size));
		break;
	case 4:
		d << "vertical halo 1";
		g.reset(new VerticalHalo1ParticleDistributionGenerator(size));
		break;
	case 5:
		d << "horizontal halo 2";
		g.reset(new HorizonalHalo2ParticleDistributionGenerator(size, cut));
		break;
	case 6:
		d << "vertical halo 2";
		g.reset(new VerticalHalo2ParticleDistributionGenerator(size, cut));
		break;
	case 7:
		d << "thick lens halo";
		g.reset(new ThickHELHaloParticleDistributionGenerator(size, size + 2));
		break;
	case 8:
		d << "thin lens halo";
		g.reset(new ThinHELHaloParticleDistributionGenerator(size, size + 2));
		break;
	}
	mc::note(d);
	mc::state(d);
	LD s1[6] = {0}, s2[6] = {0}, sc[6][6] = {{0}};
	vector<vector<double> > all(6);
	for(int n = 0; n < N; n++)
	{
		mc::step();
		PSvector p = g->GenerateFromDistribution();
		double ax = hypot(p.x(), p.xp()), ay = hypot(p.y(), p.yp()), r = hypot(p.x(), p.y());
		if(kind != 0)
			MC_CHECK(fabs(p.dp()) <= 1 && fabs(p.ct()) <= 1, "longitudinal", d << ": draw " << n << " " << str(p));
		auto gauss = [&](int k) { MC_CHECK(isfinite(p[k]) && (cut[k] == 0 || fabs(p[k]) <= cut[k] * (1 + 1e-12)), "cutoff", d << ": draw " << n << " coordinate " << k << " is " << p[k] << " with cutoff " << cut[k]); };
		switch(kind)
		{
		case 0:
			for(int k = 0; k < 6; k++)
				gauss(k);
			break;
		case 1:
			for(int k = 0; k < 4; k++)
				MC_CHECK(fabs(p[k]) <= 1, "uniform", d << ": draw " << n << " " << str(p));
			break;
		case 2:
			MC_CHECK(mc::close(ax, 1) && mc::close(ay, 1), "ring", d << ": draw " << n << " " << str(p));
			break;
		case 3:
			MC_CHECK(mc::close(ax, size) && ay == 0, "halo", d << ": draw " << n << " " << str(p));
			break;
		case 4:
			MC_CHECK(mc::close(ay, size) && ax == 0, "halo", d << ": draw " << n << " " << str(p));
			break;
		case 5:
			MC_CHECK(mc::close(ax, size), "halo", d << ": draw " << n << " " << str(p));
			gauss(2);
			gauss(3);
			break;
		case 6:
			MC_CHECK(mc::close(ay, size), "halo", d << ": draw " << n << " " << str(p));
			gauss(0);
			gauss(1);
			break;
		case 7:
			MC_CHECK(r >= size * (1 - 1e-12) && r <= (size + 2) * (1 + 1e-12) && p.xp() == 0 && p.yp() == 0, "hel", d << ": draw " << n << " " << str(p));
			break;
		case 8:
			MC_CHECK(mc::close(r, size + 2) && p.xp() == 0 && p.yp() == 0, "hel", d << ": draw " << n << " " << str(p));
			break;
		}
		for(int k = 0; k < 6; k++)
		{
			all[k].push_back(p[k]);
			s1[k] += p[k];
			s2[k] += LD(p[k]) * p[k];
			for(int l = 0; l < k; l++)
				sc[k][l] += p[k] * p[l];
		}
	}
	// first and second moments: symmetric, independent between coordinates, and as specified for the distribution
	double N2 = sqrt(double(N));
	for(int k = 0; k < 6; k++)
	{
		double m = s1[k] / N, v = s2[k] / N;
		MC_CHECK(fabs(m) <= 6 * sqrt(v) / N2, "mean", d << ": mean of coordinate " << k << " is " << m << " for variance " << v);
		for(int l = 0; l < k; l++)
			MC_CHECK(fabs(double(sc[k][l] / N)) <= 8 * sqrt(v * double(s2[l] / N)) / N2, "correlation", d << ": correlation of coordinates " << k << "," << l << " is " << double(sc[k][l] / N));
		double e = -1; // expected variance
		auto gv = [&](double c) { return c == 0 ? 1 : 1 - 2 * c * exp(-c * c / 2) / sqrt(2 * M_PI) / erf(c / sqrt(2.)); };
		bool trans = k < 4, hor = k < 2;
		if(kind == 0)
			e = gv(cut[k]);
		else if(kind == 1 || !trans)
			e = 1. / 3;
		else if(kind == 2)
			e = 0.5;
		else if(kind == 3 || kind == 4)
			e = hor == (kind == 3) ? size * size / 2 : 0;
		else if(kind == 5 || kind == 6)
			e = hor == (kind == 5) ? size * size / 2 : gv(cut[k]);
		else if(k == 1 || k == 3)
			e = 0;
		else if(kind == 8)
			e = pow(size + 2, 2) / 2;
		else // radius uniform
			e = (pow(size + 2, 3) - pow(size, 3)) / 12;
		MC_CHECK(fabs(v - e) <= 10 * e / N2, "variance", d << ": variance of coordinate " << k << " is " << v << " expected " << e);
	}
	mc::sample(d);
}
// macroparticle bunches
MC_SECTION("macroparticles")
{
	BeamData t = mc::pick(beams());
	int ns = 1 + mc::choose(5), np = 1 + mc::choose(4);
	if(t.emit_x == 0 || t.emit_y == 0)
		return mc::prune();
	mc::S d;
	d << "macroparticles " << ns << "x" << np << " emit " << t.emit_x << " D " << t.Dx << " x0 " << t.x0 << " c " << t.c_xy << " ct0 " << t.ct0 << " q " << t.charge;
	mc::note(d);
	mc::state(d);
	SMPBunchConstructor ctor(t, ns, np);
	unique_ptr<Bunch> b0(ctor.ConstructBunch());
	SMPBunch* b = dynamic_cast<SMPBunch*>(b0.get());
	MC_CHECK(b != nullptr, "type", d << ": not a macroparticle bunch");
	MC_CHECK(b->Size() == size_t(ns * np), "number", d << ": " << b->Size() << " macroparticles");
	MC_CHECK(b->GetReferenceMomentum() == t.p0, "reference", d);
	auto bin = [](LD a, LD c) { return 0.5L * (erfl(c / sqrtl(2)) - erfl(a / sqrtl(2))); };
	// sigma matrix of a slice: transverse emittance only
	LD S[4][4] = {{0}};
	{
		BeamData o = t;
		o.Dx = o.Dxp = o.Dy = o.Dyp = o.x0 = o.xp0 = o.y0 = o.yp0 = o.ct0 = 0;
		for(int k = 0; k < 4; k++)
		{
			PSvector n(0);
			n[k] = 1;
			LD r[6];
			refMap(o, n, r);
			for(int i = 0; i < 4; i++)
				for(int j = 0; j < 4; j++)
					S[i][j] += r[i] * r[j];
		}
	}
	LD total = 0;
	vector<bool> used(b->Size());
	for(int i = 0; i < ns; i++)
		for(int j = 0; j < np; j++)
		{
			LD z = t.ct0 + LD(t.sig_z) * (-3 + 6 * (i + 0.5L) / ns), dp = LD(t.sig_dp) * (-3 + 6 * (j + 0.5L) / np);
			LD q = t.charge * bin(-3 + 6. * i / ns, -3 + 6. * (i + 1) / ns) * bin(-3 + 6. * j / np, -3 + 6. * (j + 1) / np);
			total += q;
			// order is not specified
			size_t k = 0;
			bool found = false;
			for(auto p = b->begin(); p != b->end() && !found; ++p, ++k)
			{
				if(used[k] || !mc::close(p->ct(), double(z), 1e-9, 1e-12) || !mc::close(p->dp(), double(dp), 1e-9, 1e-15) || !mc::close(p->Q(), double(q), 1e-5, 0))
					continue;
				found = used[k] = true;
				double c[4] = {double(t.x0 + t.Dx * dp), double(t.xp0 + t.Dxp * dp), double(t.y0 + t.Dy * dp), double(t.yp0 + t.Dyp * dp)};
				for(int a = 0; a < 4; a++)
				{
					MC_CLOSET((*p)[a], c[a], 1e-10, 1e-16, "slice-centroid", d << ": slice " << i << "," << j << " coordinate " << a);
					for(int e = 0; e < 4; e++)
						MC_CHECK(fabsl((*p)(a, e) - S[a][e]) <= 1e-11L * sqrtl(S[a][a] * S[e][e]), "slice-sigma", d << ": slice " << i << "," << j << " sigma(" << a << "," << e << ") is " << (*p)(a, e) << " expected " << double(S[a][e]));
				}
			}
			MC_CHECK(found, "slice", d << ": no macroparticle at ct " << double(z) << " dp " << double(dp) << " with charge " << double(q));
		}
	MC_CLOSET(b->GetTotalCharge(), double(total), 1e-5, 0, "charge", d << ": total charge");
	unique_ptr<SMPBunch> b2(ctor.ConstructSMPBunch());
	MC_CHECK(b2->Size() == b->Size() && b2->begin()->ct() == b->begin()->ct() && b2->begin()->Q() == b->begin()->Q(), "same-again", d);
	mc::sample(d);
}
