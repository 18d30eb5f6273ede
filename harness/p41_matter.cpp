// P41: materials slow, deflect and stop particles by their properties
#include "mc.h"
#include "MaterialData.h"
#include "MaterialProperties.h"
#include "MerlinException.h"
#include "PSTypes.h"
#include "PhysicalConstants.h"
#include "PhysicalUnits.h"
#include "RandomNG.h"
#include "ScatteringModel.h"
#include "ScatteringModelsMerlin.h"
#include "ScatteringProcess.h"
#include "DiffractiveScatter.h"
#include "ElasticScatter.h"
#include <cstdio>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <unistd.h>
using namespace std;
using namespace Collimation;
using PhysicalUnits::gram;
using PhysicalUnits::cc;
typedef long double LD;
struct Silent
{
	streambuf* o;
	ostringstream s;
	Silent() :
		o(cout.rdbuf(s.rdbuf()))
	{
	}
	~Silent()
	{
		cout.rdbuf(o);
	}
};
static const vector<string> NAMES{"Be", "C", "Al", "Cu", "W", "Pb"};
static LD interactionLength(LD A, LD sigma, LD density) // barn, kg/m3
{
	return A * 1e-3L / (6.022e23L * sigma * 1e-28L * density);
}
static void consistent(const MaterialProperties& m, const string& d, const char* key)
{
	MC_CLOSET(m.lambda, double(interactionLength(m.A, LD(m.sigma_T) + m.sigma_R, m.density)), 1e-5, 0, key, d);
}
static bool equal(const MaterialProperties& a, const MaterialProperties& b)
{
	return a.A == b.A && a.Z == b.Z && a.density == b.density && a.dEdx == b.dEdx && a.sigma_T == b.sigma_T && a.sigma_I == b.sigma_I && a.sigma_R == b.sigma_R && a.X0 == b.X0 && a.lambda == b.lambda && a.sigma_E == b.sigma_E && a.sigma_D == b.sigma_D;
}
// the state of the generator, to know what was drawn
struct Dice
{
	mt19937_64 at;
	Dice() :
		at(RandomNG::getGenerator())
	{
	}
	void back()
	{
		RandomNG::getGenerator() = at;
	}
};
MC_SECTION("mixtures")
{
	int k = 2 + mc::choose(2), how = mc::choose(4);
	vector<string> el;
	vector<double> prop;
	string names;
	int last = -1;
	for(int i = 0; i < k; i++)
	{
		int n = last + 1 + mc::choose(int(NAMES.size()) - (last + 1) - (k - 1 - i));
		last = n;
		el.push_back(NAMES[n]);
		prop.push_back(mc::pick(vector<double>{1, 0.25, 3}));
	}
	if(mc::choose(2))
	{
		reverse(el.begin(), el.end());
		reverse(prop.begin(), prop.end());
	}
	for(auto& e : el)
		names += (names.empty() ? "" : " ") + e;
	double density = mc::pick(vector<double>{2000, 11000});
	mc::S d;
	d << (how % 2 ? "by weight " : "by number ") << (how / 2 ? "listed " : "") << names << " proportions";
	for(auto p : prop)
		d << " " << p;
	mc::note(d);
	mc::state(d);
	StandardMaterialData md;
	map<string, MaterialProperties> before;
	for(auto& p : md.property)
		before[p.first] = *p.second;
	if(how == 0)
		k == 2 ? md.MakeMixture("mix", names, prop[0], prop[1], density) : md.MakeMixture("mix", names, prop[0], prop[1], prop[2], density);
	else if(how == 1)
		k == 2 ? md.MakeMixtureByWeight("mix", names, prop[0], prop[1], density) : md.MakeMixtureByWeight("mix", names, prop[0], prop[1], prop[2], density);
	else if(how == 2)
		md.MakeMixture("mix", names, prop, density);
	else
		md.MakeMixtureByWeight("mix", names, prop, density);
	MC_CHECK(md.property.size() == before.size() + 1 && md.property.count("mix"), "added", d);
	for(auto& p : before)
		MC_CHECK(equal(p.second, *md.property.at(p.first)), "others", d << ": " << p.first);
	auto& m = *md.property.at("mix");
	vector<LD> num, mass;
	LD sn = 0, sm = 0;
	for(int i = 0; i < k; i++)
	{
		auto& e = before.at(el[i]);
		LD n = how % 2 ? LD(prop[i]) / e.A : LD(prop[i]);
		num.push_back(n);
		mass.push_back(n * e.A);
		sn += n;
		sm += n * e.A;
	}
	LD A = 0, Z = 0, sT = 0, sI = 0, sR = 0, dE = 0, rX = 0;
	for(int i = 0; i < k; i++)
	{
		auto& e = before.at(el[i]);
		LD f = num[i] / sn, g = mass[i] / sm;
		A += f * e.A;
		Z += f * e.Z;
		sT += f * e.sigma_T;
		sI += f * e.sigma_I;
		sR += f * e.sigma_R;
		dE += g * e.dEdx;
		rX += g / e.X0;
	}
	const double tol = 2e-6; // calculated in single precision
	MC_CLOSET(m.A, double(A), tol, 0, "mixture-A", d);
	MC_CLOSET(m.Z, double(Z), tol, 0, "mixture-Z", d);
	MC_CLOSET(m.sigma_T, double(sT), tol, 0, "mixture-total", d);
	MC_CLOSET(m.sigma_I, double(sI), tol, 0, "mixture-inelastic", d);
	MC_CLOSET(m.sigma_R, double(sR), tol, 0, "mixture-rutherford", d);
	MC_CLOSET(m.dEdx, double(dE), tol, 0, "mixture-dedx", d);
	MC_CLOSET(m.X0, double(1 / rX), tol, 0, "mixture-radiation-length", d);
	MC_CLOSET(m.density, density, 1e-12, 0, "mixture-density", d);
	consistent(m, d, "mixture-length");
	// the nucleus that is hit
	RandomNG::init(7);
	for(int i = 0; i < 12; i++)
		for(bool ruth : {false, true})
		{
			Dice dice;
			LD u = RandomNG::uniform(0, 1), all = 0, at = 0;
			dice.back();
			double a = ruth ? m.A_R() : m.A_H();
			for(int j = 0; j < k; j++)
				all += num[j] * (ruth ? before.at(el[j]).sigma_R : before.at(el[j]).sigma_T);
			double want = 0;
			bool edge = false;
			for(int j = 0; j < k; j++)
			{
				at += num[j] * (ruth ? before.at(el[j]).sigma_R : before.at(el[j]).sigma_T) / all;
				if(fabsl(u - at) < 1e-5L && j < k - 1)
					edge = true;
				if(!want && (u < at || j == k - 1))
					want = before.at(el[j]).A;
			}
			if(!edge)
				MC_CHECK(a == want, "target", d << (ruth ? " Rutherford" : " nuclear") << " gives " << a << " not " << want << " for " << double(u));
		}
	mc::outcome(mc::S() << how << k);
}
// what is not there
MC_SECTION("refused")
{
	int how = mc::choose(4), bad = mc::choose(3);
	string names = bad == 0 ? "Cu Xx" : bad == 1 ? "Xx" : "Cu Al";
	vector<double> p{1, 1};
	if(bad == 1)
		p = {1};
	if(bad == 2)
	{
		if(how != 2)
			mc::prune();
		p = {1, 1, 1};
	}
	mc::S d;
	d << "way " << how << " of " << names;
	mc::note(d);
	mc::state(d);
	StandardMaterialData md;
	size_t n = md.property.size();
	bool thrown = false;
	try
	{
		if(how == 0)
			bad ? md.MakeMixture("mix", names, 1.0, 1000.0) : md.MakeMixture("mix", names, 1.0, 1.0, 1000.0);
		else if(how == 1)
			bad ? md.MakeMixtureByWeight("mix", names, 1.0, 1000.0) : md.MakeMixtureByWeight("mix", names, 1.0, 1.0, 1000.0);
		else if(how == 2)
			md.MakeMixture("mix", names, p, 1000);
		else
			md.MakeMixtureByWeight("mix", names, p, 1000);
	}
	catch(std::exception&)
	{
		thrown = true;
	}
	MC_CHECK(thrown, "unknown", d);
	MC_CHECK(!md.property.count("mix") || md.property["mix"] == nullptr, "half-made", d);
	md.property.erase("mix");
	MC_CHECK(md.property.size() == n, "half-made", d);
	mc::outcome(mc::S() << bad);
}
// every sequence of copies and changes
struct Plain
{
	double A, Z, density, dEdx, sT, sI, sR, X0, lambda, sE, sD;
	map<string, double> extra;
};
static Plain plain(const MaterialProperties& m)
{
	return {m.A, m.Z, m.density, m.dEdx, m.sigma_T, m.sigma_I, m.sigma_R, m.X0, m.lambda, m.sigma_E, m.sigma_D, {}};
}
MC_SECTION("copies")
{
	int start = mc::choose(3), n = 1 + mc::choose(mc::thorough() ? 4 : 3);
	StandardMaterialData md;
	if(start == 2)
		md.UseSixTrackValues();
	mc::S d;
	d << (start == 0 ? "empty" : start == 1 ? "standard" : "SixTrack") << " material";
	unique_ptr<MaterialProperties> s[2];
	Plain want[2];
	s[0].reset(start == 0 ? new MaterialProperties() : new MaterialProperties(*md.property["Cu"]));
	s[1].reset(start == 0 ? new MaterialProperties(9, 0.3, 0.2, 1e-4, 1.5, 60, 1800, 4) : new MaterialProperties(*md.property["AC150K"]));
	for(int i = 0; i < 2; i++)
	{
		want[i] = plain(*s[i]);
		if(start)
			for(string e : {"MeanExcitationEnergy", "conductivity", "sixtracknuclearslope", "SixtrackdEdx"})
				if(s[i]->HaveExtra(e))
					want[i].extra[e] = s[i]->GetExtra(e);
	}
	for(int i = 0; i < n; i++)
	{
		int op = mc::choose(7), a = mc::choose(2), b = 1 - a;
		d << ", " << a << ":" << op;
		mc::note(d);
		mc::state(d);
		switch(op)
		{
		case 0:
			s[a].reset(new MaterialProperties(*s[b]));
			want[a] = want[b];
			break;
		case 1:
			*s[a] = *s[b];
			want[a] = want[b];
			break;
		case 2:
		{
			auto& self = *s[a];
			*s[a] = self;
			break;
		}
		case 3:
			s[a]->SetExtra("one two", 1.5 + i, -2.0);
			want[a].extra["one"] = 1.5 + i;
			want[a].extra["two"] = -2;
			break;
		case 4:
			s[a]->density = want[a].density = 1234 + i;
			s[a]->A = want[a].A = 20;
			s[a]->sigma_E = want[a].sE = 0.11 + i;
			s[a]->sigma_D = want[a].sD = 0.22 + i;
			s[a]->sigma_T = want[a].sT = 0.5 + i;
			s[a]->Update();
			want[a].lambda = interactionLength(20, LD(want[a].sT) + want[a].sR, want[a].density);
			break;
		case 5:
			if(s[a]->density == 0)
				mc::prune();
			s[a].reset(s[b]->density ? s[b]->EnergyScale(100) : s[a]->EnergyScale(100));
			want[a] = want[want[b].density ? b : a];
			want[a].lambda = interactionLength(want[a].A, LD(want[a].sT) + want[a].sR, want[a].density);
			want[a].sE = s[a]->sigma_E; // left open
			want[a].sD = s[a]->sigma_D;
			want[a].extra.clear();
			for(string e : {"MeanExcitationEnergy", "conductivity", "sixtracknuclearslope", "SixtrackdEdx", "one", "two"})
				if(s[a]->HaveExtra(e))
					want[a].extra[e] = s[a]->GetExtra(e);
			break;
		case 6:
			MC_CHECK(s[a]->GetExtra("nothing") == 0, "extra-missing", d);
			break;
		}
	}
	for(int i = 0; i < 2; i++)
	{
		auto& m = *s[i];
		auto& w = want[i];
		MC_CHECK(m.A == w.A && m.Z == w.Z && m.density == w.density && m.dEdx == w.dEdx && m.sigma_T == w.sT && m.sigma_I == w.sI && m.sigma_R == w.sR && m.X0 == w.X0 && m.sigma_E == w.sE && m.sigma_D == w.sD, "copy", d << ": " << i);
		MC_CLOSET(m.lambda, w.lambda, 1e-5, 0, "copy-length", d << ": " << i);
		MC_CHECK(m.A_R() == w.A && m.A_H() == w.A, "nucleus", d);
		for(string e : {"MeanExcitationEnergy", "conductivity", "sixtracknuclearslope", "SixtrackdEdx", "one", "two"})
			MC_CHECK(m.HaveExtra(e) == bool(w.extra.count(e)) && (!w.extra.count(e) || m.GetExtra(e) == w.extra[e]), "copy-extra", d << ": " << i << " " << e);
	}
	mc::outcome(mc::S() << start << n);
}
// the standard materials, and what is printed of them
MC_SECTION("standard")
{
	int six = mc::choose(3);
	mc::S d;
	d << (six ? "SixTrack values" : "standard values") << six;
	mc::note(d);
	mc::state(d);
	StandardMaterialData md, ref;
	for(int i = 0; i < six; i++)
		md.UseSixTrackValues();
	for(auto& p : md.property)
	{
		auto& m = *p.second;
		if(p.first == "IT180")
		{
			consistent(m, d << " IT180", "interaction-length");
		}
		else if(m.sigma_T > 0) // known
		{
			MC_CHECK(m.X0 > 6 && m.X0 < 70, "radiation-length", d << " " << p.first << " " << m.X0);
			consistent(m, d << " " << p.first, "interaction-length");
			MC_CHECK(m.sigma_I > 0 && m.sigma_I < m.sigma_T && m.sigma_R > 0 && m.sigma_R < 0.01 * m.sigma_T, "cross-sections", d << " " << p.first);
		}
		MC_CHECK(m.A > 1.9 * m.Z && m.A < 2.7 * m.Z, "nucleus", d << " " << p.first);
		auto& r = *ref.property.at(p.first);
		MC_CHECK(m.A == r.A && m.Z == r.Z && m.density == r.density && m.X0 == r.X0, "sixtrack-only", d << " " << p.first);
	}
	const map<string, double> total{{"Be", 0.268}, {"C", 0.331}, {"Al", 0.634}, {"Cu", 1.232}, {"W", 2.767}, {"Pb", 2.96}};
	for(auto& t : total)
		MC_CLOSET(md.property.at(t.first)->sigma_T, t.second, 1e-6, 0, "total", d << " " << t.first);
	if(six)
		for(auto& t : map<string, double>{{"C", 0.68}, {"Al", 0.81}, {"Cu", 2.69}, {"W", 5.79}, {"AC150K", 0.68}})
			MC_CLOSET(md.property.at(t.first)->dEdx, t.second, 1e-6, 0, "sixtrack-dedx", d << " " << t.first);
	// tables of the solids, and liquid oxygen, in g/cm3; of the metals, in S/m
	for(auto& t : map<string, double>{{"Al", 2.70}, {"Be", 1.85}, {"C", 2.27}, {"Cu", 8.96}, {"Pb", 11.35}, {"Si", 2.33}, {"W", 19.3}, {"O", 1.14}, {"Fe", 7.87}, {"Ni", 8.9}, {"Mo", 10.2}, {"Glidcop", 8.93}, {"IT180", 18.06}, {"AC150K", 1.65}})
		MC_CLOSET(md.property.at(t.first)->density, t.second * 1000, 0.02, 0, "density", d << " " << t.first);
	for(auto& t : map<string, double>{{"Al", 3.6e7}, {"Be", 2.9e7}, {"Cu", 5.9e7}, {"Pb", 4.8e6}, {"W", 1.78e7}, {"Fe", 1.02e7}, {"Ni", 1.44e7}, {"Mo", 1.87e7}, {"Glidcop", 5.38e7}})
		MC_CLOSET(md.property.at(t.first)->GetExtra("conductivity"), t.second, 0.08, 0, "conductivity", d << " " << t.first);
	auto &c = *md.property["C"], &ac = *md.property["AC150K"];
	MC_CLOSET(ac.lambda, c.lambda * c.density / ac.density, 1e-9, 0, "interaction-length", d << " AC150K");
	for(int how = 0; how < 2; how++)
	{
		ostringstream os;
		string out;
		{
			Silent q;
			if(how)
				md.PrintTable();
			else
				os << static_cast<MaterialData*>(&md);
			out = how ? q.s.str() : os.str();
			MC_CHECK(how || q.s.str().empty(), "stream", d << ": " << q.s.str());
		}
		istringstream in(out);
		string line;
		getline(in, line);
		map<string, int> seen;
		while(getline(in, line))
		{
			istringstream l(line);
			string name;
			double v[8];
			l >> name;
			for(double& x : v)
				l >> x;
			MC_CHECK(bool(l) && md.property.count(name), "table", d << ": " << line);
			seen[name]++;
			auto& m = *md.property[name];
			double w[8] = {m.A, m.Z, m.sigma_T, m.sigma_I, m.sigma_R, m.dEdx, m.density / 1000, m.X0}, p[8] = {0.051, 0.051, 6e-4, 6e-4, 6e-6, 6e-4, 6e-4, 0.051};
			for(int i = 0; i < 8; i++)
				MC_CHECK(fabs(v[i] - w[i]) <= p[i], "table", d << ": column " << i << " of " << line << " is " << w[i]);
			string e;
			double x;
			while(l >> e >> x)
				MC_CHECK(m.HaveExtra(e) && fabs(m.GetExtra(e) - x) <= 0.006 * fabs(x), "table-extra", d << ": " << e << " in " << line);
		}
		MC_CHECK(seen.size() == md.property.size(), "table", d);
	}
	mc::outcome(mc::S() << six);
	// tungsten with nickel and copper; last, so that it hides nothing
	double x0 = md.property.at("IT180")->X0;
	MC_CHECK(x0 > 6.7 && x0 < 12.9, "it180-radiation-length", d << ": IT180 has " << x0 << " g/cm2");
}
// loss and deflection in a sequence of materials, new ones taking the place of old ones
static LD density_effect(LD bg, LD I, LD rho, LD Z, LD A) // eV, g/cm3
{
	LD plasma = 28.816L * sqrtl(rho * Z / A), C = 1 + 2 * logl(I / plasma), x = log10l(bg), x1 = I < 100 ? 2 : 3, x0 = I < 100 ? (C <= 3.681L ? 0.2L : 0.326L * C - 1) : (C <= 5.215L ? 0.2L : 0.326L * C - 1.5L);
	if(x < x0)
		return 0;
	LD a = (C - 4.606L * x0) / powl(x1 - x0, 3);
	return 4.606L * x - C + (x < x1 ? a * powl(x1 - x, 3) : 0);
}
static LD ionisation(LD E1, LD x, const MaterialProperties& m, LD I, LD landau) // GeV
{
	const LD me = 0.51099891L, mp = 938.272013L;
	LD rho = m.density / 1000, g = E1 * 1000 / mp, b2 = 1 - 1 / (g * g), xi = 0.1535375L * m.Z / m.A * rho * x * 100 / b2, bg2 = b2 * g * g;
	LD tmax = 2 * me * bg2 / (1 + 2 * g * me / mp + (me / mp) * (me / mp)), alpha = 1 / 137.036L;
	LD F = acosl(-1.0L) * alpha * sqrtl(b2) / 2 - logl(1 + 2 * tmax * me / (843.0L * 843)) - 2 * 1.202L * alpha * alpha / b2;
	return 1e-3L * xi * (logl(2 * me * bg2 * xi / (I * I * 1e-12L)) - b2 - density_effect(sqrtl(bg2), I, rho, m.Z, m.A) + 0.2L + F + landau);
}
struct Fake: ScatteringModel
{
	struct P: ScatteringProcess
	{
		Fake* f;
		int which;
		MaterialProperties* of;
		bool ok;
		bool Scatter(PSvector& p, double E) const override;
	};
	vector<vector<double> > tables;
	vector<MaterialProperties*> known, asked;
	vector<double> energies;
	int hit = 0;
	MaterialProperties* of = nullptr;
	double energy = 0;
	vector<unique_ptr<P> > own;
	void Configure(MaterialProperties* m, double E) override
	{
		asked.push_back(m);
		energies.push_back(E);
		size_t i = find(known.begin(), known.end(), m) - known.begin();
		Xsection = tables[i];
		for(int k = 1; k < 6; k++)
		{
			own.emplace_back(new P);
			own.back()->f = this;
			own.back()->which = k;
			own.back()->of = m;
			own.back()->ok = (k + i) % 2;
			Processes[k] = own.back().get();
		}
	}
	~Fake()
	{
		for(auto& s : saveDetails)
			delete s.second;
	}
};
bool Fake::P::Scatter(PSvector& p, double E) const
{
	f->hit = which;
	f->of = of;
	f->energy = E;
	p.y() += which;
	return ok;
}
static MaterialProperties spare; // always at the same address
MC_SECTION("slowing")
{
	static StandardMaterialData* md = nullptr;
	if(!md)
	{
		md = new StandardMaterialData;
		md->MakeMixture("mix", "Cu C", 1.0, 2.0, 5000.0);
	}
	bool six = mc::choose(2), inPlace = mc::choose(2);
	double E0 = mc::pick(vector<double>{5, 120, 7000}), x = mc::pick(vector<double>{1e-3, 0.05, 0.6}), dp = mc::pick(vector<double>{0, -0.3, 2e-3});
	int n = 2 + (mc::thorough() ? mc::choose(2) : 0);
	vector<string> names{"Be", "C", "Cu", "W", "AC150K", "mix"};
	mc::S d;
	d << (six ? "simple" : "full") << " loss of " << E0 << " GeV over " << x << " m from " << dp << (inPlace ? " in place" : "");
	Fake model;
	model.energy_loss_mode = six ? SimpleEnergyLoss : FullEnergyLoss;
	Silent q;
	RandomNG::init(11);
	for(int i = 0; i < n; i++)
	{
		string name = mc::pick(names);
		auto* m = md->property.at(name);
		bool own = six && mc::choose(2);
		double given = 0;
		if(inPlace || own)
		{
			spare = *m;
			m = &spare;
			if(own)
				m->SetExtra("SixtrackdEdx", given = 0.7 + i);
		}
		d << ", " << name << (own ? " given" : "");
		mc::note(d);
		mc::state(d);
		PSvector p(0);
		p.x() = 1e-3;
		p.xp() = 2e-4;
		p.y() = -3e-3;
		p.yp() = 1e-5;
		p.ct() = 0.25;
		p.dp() = dp;
		// path to the next interaction
		for(int k = 0; k < 2; k++)
		{
			Dice dice;
			double u = RandomNG::uniform(0, 1);
			dice.back();
			MC_CLOSET(model.PathLength(m, E0), -m->lambda * log(u), 1e-12, 0, "path", d);
		}
		Dice dice;
		double landau = RandomNG::landau();
		dice.back();
		PSvector was = p;
		model.EnergyLoss(p, x, m, E0);
		MC_CHECK(p.x() == was.x() && p.xp() == was.xp() && p.y() == was.y() && p.yp() == was.yp() && p.ct() == was.ct(), "loss-only", d);
		LD E1 = LD(E0) * (1 + LD(dp)), loss = (was.dp() - LD(p.dp())) * E0;
		if(six)
			MC_CLOSET(double(loss), x * (own ? given : 0.1 * m->dEdx * m->density / 1000), 1e-6, 1e-11 * E0, "simple-loss", d);
		else
		{
			LD I = m->HaveExtra("MeanExcitationEnergy") ? m->GetExtra("MeanExcitationEnergy") * 1e9 : 10 * m->Z;
			MC_CLOSET(double(loss), double(ionisation(E1, x, *m, I, landau)), 2e-4, 1e-11 * E0, "ionisation", d);
		}
		// deflection
		was = p;
		Dice again;
		double z[4];
		for(double& v : z)
			v = RandomNG::normal(0, 1);
		again.back();
		LD E2 = E1 * 0.9L, t = LD(x) * m->density / 10 / m->X0, th = 0.0136L * sqrtl(t) * (1 + 0.038L * logl(t)) / ((E1 + E2) / 2);
		model.Straggle(p, x, m, double(E1), double(E2));
		int perm[4] = {0, 1, 2, 3};
		bool ok = false;
		do
		{
			LD e[4] = {z[perm[0]] * th, z[perm[1]] * th, 0, 0};
			e[2] = x * (z[perm[2]] * th / sqrtl(12) + e[0] / 2);
			e[3] = x * (z[perm[3]] * th / sqrtl(12) + e[1] / 2);
			ok = ok || (fabsl(p.xp() - was.xp() - e[0]) < 1e-8L * th + 1e-18L && fabsl(p.yp() - was.yp() - e[1]) < 1e-8L * th + 1e-18L && fabsl(p.x() - was.x() - e[2]) < 1e-8L * th * x + 1e-17L && fabsl(p.y() - was.y() - e[3]) < 1e-8L * th * x + 1e-17L);
		} while(next_permutation(perm, perm + 4));
		MC_CHECK(ok, "straggle", d << ": angles change by " << p.xp() - was.xp() << " and " << p.yp() - was.yp() << " for " << double(th));
		MC_CHECK(p.ct() == was.ct() && p.dp() == was.dp(), "straggle-only", d);
	}
	mc::outcome(mc::S() << six << (E0 > 10));
}
// the choice of what happens, over every sequence of materials
MC_SECTION("interactions")
{
	int n = 1 + mc::choose(mc::thorough() ? 5 : 4);
	static vector<unique_ptr<MaterialProperties> > mats;
	if(mats.empty())
		for(int i = 0; i < 3; i++)
			mats.emplace_back(new MaterialProperties(10 + i, 1, 1, 1, 1, 10, 1000, 5 + i));
	Fake model;
	for(auto& m : mats)
		model.known.push_back(m.get());
	int table = mc::choose(3);
	vector<vector<double> > all{{1, 0.1, 0.2, 0.3, 0.15}, {2, 0, 0.5, 0, 1.25}, {0.5, 0.5, 0, 0, 0}, {3, 0, 0, 0, 0}, {1, 0.25, 0.25, 0.25, 0.25}};
	for(int i = 0; i < 3; i++)
		model.tables.push_back(all[(table * 2 + i) % 5]);
	mc::S d;
	d << "cross sections " << table << " materials";
	vector<int> order;
	for(int i = 0; i < n; i++)
	{
		order.push_back(mc::choose(3));
		d << " " << order.back();
	}
	mc::note(d);
	mc::state(d);
	Silent q;
	RandomNG::init(3);
	vector<MaterialProperties*> first;
	for(int i = 0; i < n; i++)
	{
		auto* m = mats[order[i]].get();
		if(find(first.begin(), first.end(), m) == first.end())
			first.push_back(m);
		auto& X = model.tables[order[i]];
		for(int k = 0; k < 12; k++)
		{
			Dice dice;
			double u = RandomNG::uniform(0, 1);
			dice.back();
			double at = 0;
			int want = 0;
			bool edge = false;
			for(int j = 1; j < 5; j++)
			{
				at += X[j];
				if(fabs(u * X[0] - at) < 1e-9)
					edge = true;
				if(!want && u * X[0] < at)
					want = j;
			}
			if(!want)
				want = 5;
			PSvector p(0);
			model.hit = 0;
			bool r = model.ParticleScatter(p, m, 100 + k);
			if(edge)
				continue;
			MC_CHECK(model.hit == want && p.y() == want, "chosen", d << ": " << model.hit << " not " << want << " for " << u);
			MC_CHECK(model.of == m, "process-of", d);
			MC_CHECK(model.energy == 100 + k, "energy", d);
			MC_CHECK(r == bool((want + order[i]) % 2), "outcome", d);
		}
	}
	MC_CHECK(model.asked == first, "configured-once", d << ": " << model.asked.size() << " times");
	mc::outcome(mc::S() << first.size());
}
// what each interaction does
static const double AMU = 0.931494028;
MC_SECTION("kinematics")
{
	static StandardMaterialData* md = nullptr;
	static vector<unique_ptr<ScatteringProcess> > procs;
	static const double EREF = 7000;
	struct Rule
	{
		const char* name;
		double tmin, tmax;
		int loss; // 0 none, 1 recoil of the nucleus, 2 excitation
	};
	static const vector<Rule> rules{{"Rutherford", 0.998e-3, 1e9, 1}, {"SixTrackRutherford", 0.998e-3, 1e9, 0}, {"Elasticpn", 0.99e-4, 1.001, 0}, {"SixTrackElasticpn", 0, 1e3, 0}, {"ElasticpN", 0, 1e3, 1}, {"SixTrackElasticpN", 0, 1e3, 0}, {"SingleDiffractive", 0.99e-4, 4.001, 2}, {"SixTrackSingleDiffractive", 0, 1e3, 2}};
	if(!md)
	{
		md = new StandardMaterialData;
		Silent q;
		procs.emplace_back(new Rutherford(md->property["Cu"]));
		procs.emplace_back(new SixTrackRutherford());
		procs.emplace_back(new Elasticpn(EREF));
		procs.emplace_back(new SixTrackElasticpn());
		procs.emplace_back(new ElasticpN(EREF, md->property["C"]));
		procs.emplace_back(new SixTrackElasticpN(md->property["C"]));
		procs.emplace_back(new SingleDiffractive(EREF));
		procs.emplace_back(new SixTrackSingleDiffractive());
	}
	int k = mc::choose(int(rules.size()));
	double dp = mc::pick(vector<double>{0, -0.2, 1e-3, -0.9});
	int seed = 1 + mc::choose(mc::thorough() ? 200 : 40);
	double E0 = mc::pick(vector<double>{7000, 450});
	if(k == 6 && E0 != EREF) // its table is for one energy
		mc::prune();
	auto& r = rules[k];
	mc::S d;
	d << r.name << " of " << E0 << " GeV from " << dp << " seed " << seed;
	mc::note(d);
	mc::state(d);
	RandomNG::init(seed);
	PSvector p(0), was(0);
	p.x() = 1e-3;
	p.xp() = 3e-4;
	p.y() = 2e-3;
	p.yp() = -1e-4;
	p.ct() = 0.5;
	p.dp() = dp;
	was = p;
	Dice dice;
	bool lives = procs[k]->Scatter(p, E0);
	PSvector q(0);
	q.dp() = dp;
	dice.back();
	bool lives2 = procs[k]->Scatter(q, E0);
	MC_CHECK(p.x() == was.x() && p.y() == was.y() && p.ct() == was.ct(), "position", d);
	MC_CHECK(lives == lives2 && p.dp() == q.dp() && fabs(p.xp() - 3e-4 - q.xp()) < 1e-15 && fabs(p.yp() + 1e-4 - q.yp()) < 1e-15, "added", d);
	LD E1 = E0 * (1 + LD(dp)), E2 = E0 * (1 + LD(q.dp())), loss = E1 - E2, th = hypotl(q.xp(), q.yp()), t = th * E2 * th * E2;
	MC_CHECK(t >= r.tmin && t <= r.tmax, "transfer", d << ": " << double(t) << " GeV^2");
	MC_CHECK(lives == (E2 > 0.1L), "stopped", d << " at " << double(E2));
	if(r.loss == 0)
		MC_CHECK(q.dp() == dp, "elastic", d << " loses " << double(loss));
	if(r.loss == 1)
		MC_CLOSET(double(loss), double(t / (2 * AMU * md->property[k == 0 ? "Cu" : "C"]->A)), 1e-6, 1e-11 * E0, "recoil", d);
	if(r.loss == 2)
		MC_CHECK(loss > 0 && loss < 0.16L * E0, "excitation", d << " loses " << double(loss));
	// by what is drawn
	{
		auto after = RandomNG::getGenerator();
		dice.back();
		LD com = 2 * 0.938272013L * E0, bpp = 8.5L + 1.086L * logl(sqrtl(com)), want, lost = 0;
		auto u = []() -> LD {
				return RandomNG::uniform(0, 1);
			};
		LD bN = 14.1L * powl(md->property["C"]->A, 0.66L);
		if(k < 2)
			want = 0.9982e-3L / (1 - u());
		else if(k == 2)
			want = static_cast<Elasticpn*>(procs[k].get())->calculations->SelectT();
		else if(k == 3)
			want = -logl(u()) / bpp;
		else if(k < 6)
			want = -logl(u()) / bN;
		else if(k == 6)
		{
			auto tm = static_cast<SingleDiffractive*>(procs[k].get())->calculations->Select();
			want = tm.first;
			lost = LD(tm.second) * tm.second * E0 / (com + 2 * 0.938272013L * 0.938272013L);
		}
		else
		{
			LD m2 = expl(u() * logl(0.15L * com)), b = m2 < 2 ? 2 * bpp : m2 <= 5 ? (106 - 17 * m2) * bpp / 26 : 7 * bpp / 12;
			want = -logl(u()) / b;
			lost = m2 * E0 / com;
		}
		MC_CLOSET(double(t), double(want), 1e-6, 0, "momentum-transfer", d);
		if(r.loss == 2)
			MC_CLOSET(double(loss), double(lost), 1e-6, 1e-11 * E0, "excitation-loss", d);
		LD phi = RandomNG::uniform(-acos(-1.0), acos(-1.0));
		MC_CLOSET(double(q.xp()), double(sqrtl(want) / E2 * cosl(phi)), 1e-6, 1e-6 * double(th), "direction", d);
		MC_CLOSET(double(q.yp()), double(sqrtl(want) / E2 * sinl(phi)), 1e-6, 1e-6 * double(th), "direction", d);
		MC_CHECK(RandomNG::getGenerator() == after, "drawn", d);
	}
	// every direction
	static map<int, int> dirs;
	dirs[k] |= 1 << ((q.xp() > 0) + 2 * (q.yp() > 0) + 4 * (fabs(q.xp()) > fabs(q.yp())));
	if(seed == 40 && dp == -0.9 && E0 == (k == 6 ? 7000 : 450))
		MC_CHECK(dirs[k] == 255 || dirs[k] == 0, "directions", d << ": " << dirs[k]);
	PSvector s = was;
	Inelastic in;
	MC_CHECK(!in.Scatter(s, E0) && s == was, "inelastic", d);
	mc::outcome(mc::S() << k << lives);
}
// the models that come with the library
MC_SECTION("models")
{
	int kind = mc::choose(5), first = mc::choose(3);
	static StandardMaterialData* md = nullptr;
	if(!md)
		md = new StandardMaterialData;
	vector<MaterialProperties*> mats{md->property["C"], md->property["Cu"], md->property["W"]};
	static const char* NAME[] = {"Merlin", "SixTrack", "SixTrackIoniz", "SixTrackElastic", "SixTrackSD"};
	mc::S d;
	d << NAME[kind] << " from material " << first;
	mc::note(d);
	mc::state(d);
	if(!mc::thorough() && first && kind != 1 && kind != 2)
		mc::prune();
	unique_ptr<ScatteringModel> m(kind == 0 ? (ScatteringModel*) new ScatteringModelMerlin : kind == 1 ? (ScatteringModel*) new ScatteringModelSixTrack : kind == 2 ? (ScatteringModel*) new ScatteringModelSixTrackIoniz : kind == 3 ? (ScatteringModel*) new ScatteringModelSixTrackElastic : (ScatteringModel*) new ScatteringModelSixTrackSD);
	bool full = kind == 0 || kind == 2;
	Silent q;
	MC_CHECK((m->energy_loss_mode == FullEnergyLoss) == full, "mode", d << " before the first interaction");
	RandomNG::init(5);
	for(int i = 0; i < 3; i++)
	{
		auto* mat = mats[(first + i % 2) % 3];
		PSvector p(0);
		m->ParticleScatter(p, mat, 7000);
		MC_CHECK((m->energy_loss_mode == FullEnergyLoss) == full, "mode", d);
		auto& X = m->Xsection;
		MC_CLOSET(X[1], mat->sigma_R, 1e-12, 0, "rutherford", d);
		MC_CLOSET(X[4], mat->sigma_I, 1e-12, 0, "inelastic-section", d);
		MC_CHECK(X[0] >= mat->sigma_T * (1 - 1e-12) && X[0] <= (mat->sigma_T + mat->sigma_R) * (1 + 1e-12), "total-section", d);
		MC_CHECK(X[2] > 0 && X[3] > 0 && X[1] + X[2] + X[3] + X[4] < X[0], "sections", d);
		LD eff = 1.618L * powl(mat->A, 0.333L), s = 2 * 0.938272013L * 7000 + 0.938272013L * 0.938272013L;
		if(kind == 1 || kind == 2 || kind == 4)
			MC_CLOSET(X[2], double(eff * 0.007L * powl(7000 / 450.0L, 0.04792L)), 1e-9, 0, "sixtrack-elastic", d);
		else
			MC_CLOSET(X[2], double(eff * m->Processes[2]->sigma), 1e-9, 0, "elastic", d);
		if(kind == 1 || kind == 2 || kind == 3)
			MC_CLOSET(X[3], double(eff * 0.00068L * logl(0.15L * s)), 1e-9, 0, "sixtrack-diffractive", d);
		else
			MC_CLOSET(X[3], double(eff * m->Processes[3]->sigma), 1e-9, 0, "diffractive", d);
		auto& P = m->Processes;
		MC_CHECK(kind == 0 ? dynamic_cast<Rutherford*>(P[1]) != nullptr : dynamic_cast<SixTrackRutherford*>(P[1]) != nullptr, "processes", d << " 1");
		MC_CHECK(kind == 0 || kind == 3 ? dynamic_cast<Elasticpn*>(P[2]) != nullptr : dynamic_cast<SixTrackElasticpn*>(P[2]) != nullptr, "processes", d << " 2");
		MC_CHECK(kind == 0 || kind == 4 ? dynamic_cast<SingleDiffractive*>(P[3]) != nullptr : dynamic_cast<SixTrackSingleDiffractive*>(P[3]) != nullptr, "processes", d << " 3");
		MC_CHECK(dynamic_cast<Inelastic*>(P[4]) != nullptr, "processes", d << " 4");
		MC_CHECK(kind == 0 || kind == 3 ? dynamic_cast<ElasticpN*>(P[5]) != nullptr : dynamic_cast<SixTrackElasticpN*>(P[5]) != nullptr, "processes", d << " 5");
		// the recoil is of a nucleus of this material
		if(kind == 0)
			for(int k : {1, 5})
			{
				PSvector z(0);
				P[k]->Scatter(z, 7000);
				LD th = hypotl(z.xp(), z.yp()), E2 = 7000 * (1 + LD(z.dp()));
				MC_CLOSET(double(-z.dp() * 7000.0L), double(th * E2 * th * E2 / (2 * AMU * mat->A)), 1e-5, 1e-11 * 7000, "recoil", d << " process " << k);
			}
	}
	mc::outcome(NAME[kind]);
}
// records of impacts and steps, by collimator
MC_SECTION("records")
{
	static int made = 0;
	int n = mc::choose(5), wanted = mc::choose(4), twice = mc::choose(2);
	vector<string> names{"TCP.A", "TCS.B"}, ask;
	if(wanted & 1)
		ask.push_back(names[0]);
	if(wanted & 2)
		ask.push_back(names[1]);
	mc::S d;
	d << "records wanted " << wanted << " of";
	Fake model;
	MC_CHECK(!model.ScatterPlot_on && !model.JawImpact_on, "off", d);
	for(auto& a : ask)
	{
		model.SetScatterPlot(a);
		model.SetJawImpact(a);
	}
	MC_CHECK(model.ScatterPlot_on == !ask.empty() && model.JawImpact_on == !ask.empty(), "on", d);
	vector<int> at;
	string dir = "/tmp/mcp41_" + to_string(getpid()) + "_" + to_string(made++) + "_";
	auto put = [&](int i, int which){
			PSvector p(0);
			p.x() = 1.0 / 3 + i;
			p.xp() = 1e-3 / 7 * (i + 1);
			p.y() = -1.0 / 7 - i;
			p.yp() = -1e-5 / 3;
			p.ct() = 1e5 / 3;
			p.dp() = -0.1 / 3;
			p.id() = 10 + i;
			model.ScatterPlot(p, 0.1 * i + 1.0 / 3, i / 2 + 1, names[which]);
			model.JawImpact(p, i / 2 + 1, names[which]);
			return p;
		};
	for(int i = 0; i < n; i++)
	{
		at.push_back(mc::choose(2));
		d << " " << names[at.back()];
	}
	mc::note(d);
	mc::state(d);
	for(int round = 0; round < 1 + twice; round++)
	{
		vector<PSvector> ps;
		if(round == 0)
			for(int i = 0; i < n; i++)
				ps.push_back(put(i, at[i]));
		model.OutputScatterPlot(dir, 3 + round);
		model.OutputJawImpact(dir, 3 + round);
		for(int w = 0; w < 2; w++)
			for(int jaw = 0; jaw < 2; jaw++)
			{
				string f = dir + (jaw ? "jaw_impact_" : "scatter_plot_") + names[w] + "_" + to_string(3 + round) + ".txt";
				ifstream in(f);
				bool want = find(ask.begin(), ask.end(), names[w]) != ask.end();
				MC_CHECK(bool(in) == want, "file", d << ": " << f);
				if(!want)
					continue;
				string line;
				getline(in, line);
				MC_CHECK(line.size() && line[0] == '#', "header", d);
				vector<vector<double> > rows;
				while(getline(in, line))
				{
					istringstream l(line);
					rows.push_back({});
					double v;
					while(l >> v)
						rows.back().push_back(v);
				}
				vector<vector<double> > exp;
				if(round == 0)
					for(int i = 0; i < n; i++)
						if(at[i] == w)
						{
							auto& p = ps[i];
							if(jaw)
								exp.push_back({p.id(), p.x(), p.xp(), p.y(), p.yp(), p.ct(), p.dp(), double(i / 2 + 1)});
							else
								exp.push_back({p.id(), 0.1 * i + 1.0 / 3, p.x(), p.y(), double(i / 2 + 1)});
						}
				MC_CHECK(rows == exp, jaw ? "jaw-rows" : "scatter-rows", d << ": " << f << " has " << rows.size() << " rows not " << exp.size());
				in.close();
				remove(f.c_str());
			}
		MC_CHECK(model.StoredScatterPlotData.empty() && model.StoredJawImpactData.empty(), "cleared", d);
	}
	mc::outcome(mc::S() << n << wanted);
}
