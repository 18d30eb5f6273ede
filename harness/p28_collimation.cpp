// P28: collimation loses exactly the particles outside of the apertures, once, and says where
#include "mc.h"
#include "MerlinIO.h"
#include "AcceleratorModel.h"
#include "AcceleratorModelConstructor.h"
#include "Aperture.h"
#include "BunchProcess.h"
#include "CollimateParticleProcess.h"
#include "CollimateProtonProcess.h"
#include "Collimator.h"
#include "CollimatorAperture.h"
#include "Components.h"
#include "MaterialProperties.h"
#include "ParticleTracker.h"
#include "PhysicalConstants.h"
#include "PhysicalUnits.h"
#include "RandomNG.h"
#include "ScatteringModel.h"
#include <list>
#include <map>
#include <memory>
#include <set>
using namespace std;
using namespace ParticleTracking;
typedef long double LD;
static const double P0 = 100;
struct Loss
{
	string el;
	double pos;
	PSvector p;
	int turn;
};
struct Spy: CollimationOutput
{
	vector<Loss> seen;
	void Dispose(AcceleratorComponent& c, double pos, Particle& p, int turn) override
	{
		seen.push_back({c.GetName(), pos, p, turn});
	}
};
struct El
{
	char kind; // drift d, drift without aperture n, marker m, quadrupole q, collimator c
	double len;
	string name;
};
static bool outside(char k, LD x, LD y)
{
	switch(k)
	{
	case 'n':
		return false;
	case 'm':
		return fabsl(x) >= 0.009L || fabsl(y) >= 0.008L;
	case 'c':
		return fabsl(x) >= 0.0075L || fabsl(y) >= 0.012L;
	case 'q':
		return x * x / (0.0085L * 0.0085L) + y * y / (0.011L * 0.011L) >= 1;
	}
	return x * x + y * y >= 0.01L * 0.01L;
}
static LD margin(char k, LD x, LD y)
{
	switch(k)
	{
	case 'n':
		return 1;
	case 'm':
		return min(fabsl(fabsl(x) - 0.009L), fabsl(fabsl(y) - 0.008L));
	case 'c':
		return min(fabsl(fabsl(x) - 0.0075L), fabsl(fabsl(y) - 0.012L));
	case 'q':
		return fabsl(x * x / (0.0085L * 0.0085L) + y * y / (0.011L * 0.011L) - 1) * 0.01L;
	}
	return fabsl(hypotl(x, y) - 0.01L);
}
static const double KQ = 0.8;
struct V
{
	LD x, xp, y, yp;
};
static V move(const El& e, V v, LD z)
{
	if(e.kind != 'q')
		return {v.x + z * v.xp, v.xp, v.y + z * v.yp, v.yp};
	LD k = sqrtl(KQ), c = cosl(k * z), s = sinl(k * z), C = coshl(k * z), S = sinhl(k * z);
	return {c * v.x + s / k * v.xp, -k * s * v.x + c * v.xp, C * v.y + S / k * v.yp, k * S * v.y + C * v.yp};
}
static AcceleratorComponent* make(const El& e)
{
	AcceleratorComponent* c;
	switch(e.kind)
	{
	case 'm':
		c = new Marker(e.name);
		c->SetAperture(new RectangularAperture(0.009, 0.008));
		break;
	case 'q':
		c = new Quadrupole(e.name, e.len, KQ * P0 / PhysicalConstants::SpeedOfLight * 1e9);
		c->SetAperture(new EllipticalAperture("ELLIPSE", 0, 0.0085, 0.011));
		break;
	case 'c':
	{
		c = new Collimator(e.name, e.len);
		auto* a = new CollimatorAperture(0.015, 0.024, 0, e.len);
		a->SetExitWidth(0.015);
		a->SetExitHeight(0.024);
		c->SetAperture(a);
		break;
	}
	default:
		c = new Drift(e.name, e.len);
		if(e.kind == 'd')
			c->SetAperture(new CircularAperture(0.01));
	}
	return c;
}
static void freeApertures(AcceleratorModel& m)
{
	vector<AcceleratorComponent*> els;
	m.ExtractTypedElements(els, "*");
	for(auto* c : els)
	{
		delete c->GetAperture();
		c->SetAperture(nullptr);
	}
}
// a process that wants small steps
struct Small: BunchProcess
{
	double h;
	explicit Small(double h) :
		BunchProcess("SMALL", 3), h(h)
	{
		active = true;
	}
	void InitialiseProcess(Bunch&) override
	{
	}
	void SetCurrentComponent(AcceleratorComponent& c) override
	{
		active = c.GetLength() != 0;
	}
	void DoProcess(double) override
	{
	}
	double GetMaxAllowedStepSize() const override
	{
		return h;
	}
};
static vector<V> particles()
{
	vector<V> r;
	static const vector<LD> frac{-0.07L, 0, 0.013L, 0.043L, 0.11L, 0.131L, 0.17L, 0.249L, 0.27L, 0.62L, 1.01L};
	int i = 0;
	for(LD z : frac)
	{
		// crosses 10 mm at z
		LD xp = 0.02L * (1 + i % 3), sg = i % 2 ? 1 : -1;
		r.push_back({sg * (0.01L - z * xp), sg * xp, 1e-4L, 0});
		if(i % 3 == 0)
			r.push_back({2e-4L, 1e-3L, sg * (0.0078L - z * xp), sg * xp});
		// coming in
		if(i % 4 == 1)
			r.push_back({0.0102L, -0.03L * (1 + z), 0, 0});
		i++;
	}
	r.push_back({0, 0, 0, 0});
	r.push_back({0.02L, 0, 0.03L, 0});
	r.push_back({1e-3L, 1e-3L, -2e-3L, 1e-4L});
	r.push_back({0.0074L, 0, 0, 0});
	r.push_back({0, 0, -0.00799L, 0});
	return r;
}
MC_SECTION("losses")
{
	static const string kinds = "dmqcn";
	int mode = 1 + mc::choose(7);
	double bin = mc::pick(vector<double>{0.1, 0.04, 2});
	double L = mc::pick(vector<double>{0.25, 0.1, 1});
	char k1 = kinds[mc::choose(kinds.size())], k2 = kinds[mc::choose(kinds.size())];
	if(k1 == k2 && k1 == 'm')
		return mc::prune();
	int turns = mc::thorough() ? 1 + mc::choose(3) : 1 + mc::choose(2);
	int order = mc::choose(3);
	double threshold = mc::pick(vector<double>{100, 200, 35});
	int index = (mode + int(L * 100) + order + turns) % 3; // none, own, of the caller
	bool small = mc::choose(2);
	mc::S d;
	d << "mode " << mode << " bins " << bin << " elements " << string(1, k1) << "," << string(1, k2) << " of " << L << " turns " << turns << " threshold " << threshold << " order " << order << " index " << index << " small steps " << small;
	mc::note(d);
	mc::state(d);
	vector<El> els{{k1, k1 == 'm' ? 0 : L, string(1, k1) + "1"}, {'n', 0.3, "n2"}, {k2, k2 == 'm' ? 0 : L, string(1, k2) + (k1 == k2 ? "1" : "3")}}; // two elements of a name
	AcceleratorModelConstructor ctor;
	double s = 0;
	for(auto& e : els)
	{
		auto* c = make(e);
		c->SetComponentLatticePosition(s);
		s += e.len;
		ctor.AppendComponent(c);
	}
	unique_ptr<AcceleratorModel> model(ctor.GetModel());
	// expectation; drops particles too close to a wall at a check
	vector<V> all = particles(), start;
	if(order == 1)
		reverse(all.begin(), all.end());
	if(order == 2)
		all = {all[0], all[3], all[1]};
	struct Exp
	{
		string el;
		LD pos;
		V at;
		int turn, elem, check;
	};
	vector<Exp> exps; // by particle
	vector<V> ends;
	vector<vector<V> > path;
	for(auto& v0 : all)
	{
		V v = v0;
		Exp e{"", 0, v, 0, 0, 0};
		bool near = false, lost = false;
		for(int t = 1; t <= turns && !lost; t++)
			for(size_t i = 0; i < els.size() && !lost; i++)
			{
				vector<LD> checks;
				for(int c = 0; c < 3; c++)
					if(mode & (1 << c))
						checks.push_back(c * els[i].len / 2.0L);
				for(size_t c = 0; c < checks.size() && !lost; c++)
				{
					V w = move(els[i], v, checks[c]);
					near = near || margin(els[i].kind, w.x, w.y) < 1e-9L;
					if(!outside(els[i].kind, w.x, w.y))
						continue;
					lost = true;
					LD z = 0;
					for(int k = 0;; k++)
					{
						z = k * (LD) bin;
						if(z > checks[c] - 1e-9L)
							z = checks[c];
						w = move(els[i], v, z);
						near = near || margin(els[i].kind, w.x, w.y) < 1e-9L;
						if(z == checks[c] || outside(els[i].kind, w.x, w.y))
							break;
					}
					e = {els[i].name, z, w, t, int(i), int(c)};
				}
				v = move(els[i], v, els[i].len);
			}
		if(near)
			continue;
		start.push_back(v0);
		exps.push_back(e);
		ends.push_back(v);
	}
	size_t N = start.size();
	// turn, element and check after which too many are lost
	ParticleBunch bunch(P0, 2e9);
	for(size_t i = 0; i < N; i++)
	{
		PSvector p(0);
		p.x() = double(start[i].x);
		p.xp() = double(start[i].xp);
		p.y() = double(start[i].y);
		p.yp() = double(start[i].yp);
		p.id() = 100 + i;
		bunch.AddParticle(p);
	}
	Spy spy, spy2;
	unique_ptr<ParticleTracker> tr(new ParticleTracker(model->GetBeamline()));
	auto* proc = new CollimateParticleProcess(4, mode);
	proc->SetOutputBinSize(bin);
	proc->SetCollimationOutput(&spy);
	proc->SetCollimationOutput(&spy2);
	proc->SetLossThreshold(threshold);
	list<size_t> mine;
	if(index == 1)
		proc->IndexParticles(true);
	if(index == 2)
		proc->IndexParticles(mine);
	tr->AddProcess(proc);
	if(small)
		tr->AddProcess(new Small(0.03));
	bool thrown = false, expectThrow = false;
	set<size_t> gone;
	size_t nstart = N;
	for(int t = 1; t <= turns && !expectThrow; t++)
	{
		size_t nlost = 0;
		nstart = N - gone.size();
		if(!nstart)
			break;
		vector<size_t> alive;
		for(size_t i = 0; i < N; i++)
			if(!gone.count(i))
				alive.push_back(i);
		try
		{
			tr->Track(&bunch);
		}
		catch(ExcessiveParticleLoss& e)
		{
			thrown = true;
		}
		for(size_t i = 0; i < els.size() && !expectThrow; i++)
			for(int c = 0; c < 3 && !expectThrow; c++)
			{
				size_t n = 0;
				for(size_t q = 0; q < N; q++)
					if(exps[q].turn == t && exps[q].elem == (int) i && exps[q].check == c)
					{
						gone.insert(q);
						n++;
					}
				nlost += n;
				if(n && nlost / double(nstart) >= threshold / 100)
					expectThrow = true;
			}
		MC_CHECK(thrown == expectThrow, "threshold", d << ": turn " << t << ": " << nlost << " of " << nstart << " lost, " << (thrown ? "stopped" : "not stopped"));
		// who is left
		vector<size_t> left;
		for(size_t i = 0; i < N; i++)
			if(!gone.count(i))
				left.push_back(i);
		mc::S ids;
		bool same = bunch.size() == left.size();
		for(size_t i = 0; i < bunch.size(); i++)
		{
			ids << " " << bunch.GetParticles()[i].id() - 100;
			same = same && bunch.GetParticles()[i].id() == 100.0 + left[i];
		}
		mc::S want;
		for(size_t i : left)
			want << " " << i;
		MC_CHECK(same, "survivors", d << ": turn " << t << ": left are" << string(ids) << " instead of" << string(want));
		MC_CLOSE(bunch.GetTotalCharge(), 2e9 * left.size(), "charge", d << ": charge left");
		MC_CHECK(bunch.GetReferenceMomentum() == P0, "momentum", d);
		if(index)
		{
			auto& l = proc->GetIndexes();
			vector<size_t> got(l.begin(), l.end()), exp;
			for(size_t i = 0; i < alive.size(); i++)
				if(!gone.count(alive[i]))
					exp.push_back(i);
			MC_CHECK(got == exp, "index", d << ": turn " << t << ": indexes of the particles left are wrong");
			MC_CHECK(index == 1 || &l == &mine, "own-index", d);
		}
	}
	if(!thrown)
		for(size_t i = 0, k = 0; i < N; i++)
			if(!gone.count(i))
			{
				auto& p = bunch.GetParticles()[k++];
				MC_CHECK(fabsl(p.x() - ends[i].x) < 1e-12L && fabsl(p.xp() - ends[i].xp) < 1e-12L && fabsl(p.y() - ends[i].y) < 1e-12L && fabsl(p.yp() - ends[i].yp) < 1e-12L, "unchanged", d << ": particle " << i << " ends at " << p.x() << " instead of " << double(ends[i].x));
			}
	// each reported once
	for(auto* sp : {&spy, &spy2})
	{
		map<size_t, int> count;
		for(auto& l : sp->seen)
		{
			size_t i = size_t(l.p.id()) - 100;
			MC_CHECK(i < N && gone.count(i), "reported-alive", d << ": particle " << i << " is reported as lost in " << l.el << ", but is not lost");
			count[i]++;
			auto& e = exps[i];
			MC_CHECK(l.el == e.el, "element", d << ": particle " << i << " is reported as lost in " << l.el << ", not " << e.el);
			MC_CHECK(l.turn == e.turn, "turn", d << ": particle " << i << " is reported as lost in turn " << l.turn << ", not " << e.turn);
			MC_CHECK(fabsl(l.pos - e.pos) < 1e-12L, "position", d << ": particle " << i << " is reported as lost in " << l.el << " at " << l.pos << ", not " << double(e.pos));
			MC_CHECK(fabsl(l.p.x() - e.at.x) < 1e-12L && fabsl(l.p.y() - e.at.y) < 1e-12L && fabsl(l.p.xp() - e.at.xp) < 1e-12L, "coordinates", d << ": particle " << i << " is reported as lost in " << l.el << " at x " << l.p.x() << ", not " << double(e.at.x));
		}
		for(size_t i : gone)
			MC_CHECK(count[i] == 1, "reports", d << ": particle " << i << " lost in " << exps[i].el << " at " << double(exps[i].pos) << " is reported " << count[i] << " times");
	}
	mc::sample(d);
	tr.reset();
	freeApertures(*model);
}
// collimators without scattering: what enters the jaws is absorbed
MC_SECTION("absorbing")
{
	double bin = mc::pick(vector<double>{0.1, 0.04, 2, 0.3});
	double L = mc::pick(vector<double>{0.25, 0.1, 1});
	bool small = mc::choose(2);
	double slope = mc::pick(vector<double>{0.004, 0.01, 0});
	mc::S d;
	d << "absorbing collimator of " << L << " bins " << bin << " slope " << slope << " small steps " << small;
	mc::note(d);
	mc::state(d);
	AcceleratorModelConstructor ctor;
	El e{'c', L, "C"};
	auto* c = make(e);
	c->SetComponentLatticePosition(0);
	ctor.AppendComponent(c);
	unique_ptr<AcceleratorModel> model(ctor.GetModel());
	ParticleBunch bunch(P0, 1);
	vector<LD> x0;
	for(int i = 0; i < 24; i++)
	{
		PSvector p(0);
		p.x() = 0.0075 + (i % 2 ? -1 : 1) * 1.234e-4 * i * i / 24;
		if(i % 4 > 1)
			p.x() = -p.x();
		p.xp() = p.x() > 0 ? slope : -slope;
		p.id() = i;
		x0.push_back(p.x());
		bunch.AddParticle(p);
	}
	Spy spy;
	{
		ParticleTracker tr(model->GetBeamline());
		auto* proc = new CollimateParticleProcess(4, COLL_AT_EXIT);
		proc->SetOutputBinSize(bin);
		proc->ScatterAtCollimator(true);
		proc->SetCollimationOutput(&spy);
		proc->SetLossThreshold(200);
		tr.AddProcess(proc);
		if(small)
			tr.AddProcess(new Small(0.03));
		tr.Track(&bunch);
	}
	map<int, vector<double> > lost;
	for(auto& l : spy.seen)
		lost[int(l.p.id())].push_back(l.pos);
	set<int> left;
	for(auto& p : bunch)
		left.insert(int(p.id()));
	MC_CHECK(left.size() == bunch.size(), "doubled", d);
	for(int i = 0; i < 24; i++)
	{
		LD z = 0;
		bool out = false, near = false;
		for(int k = 0; k * (LD) bin < L - 1e-9L; k++)
		{
			z = k * (LD) bin;
			LD x = fabsl(x0[i]) + z * slope;
			near = near || fabsl(x - 0.0075L) < 1e-12L;
			if(x > 0.0075L)
			{
				out = true;
				break;
			}
		}
		if(near)
			continue;
		MC_CHECK(left.count(i) == !out, "absorbed", d << ": particle from " << double(x0[i]) << (out ? " enters the jaw, but survives" : " stays clear of the jaw, but is lost"));
		MC_CHECK(lost[i].size() == out, "absorbed-reports", d << ": particle from " << double(x0[i]) << " is reported " << lost[i].size() << " times");
		if(out)
			MC_CHECK(fabsl(lost[i][0] - z) < 1e-9L, "absorbed-position", d << ": particle from " << double(x0[i]) << " is reported lost at " << lost[i][0] << " not " << double(z));
	}
	for(auto& p : bunch)
		MC_CHECK(fabsl(p.x() - x0[int(p.id())] - L * p.xp()) < 1e-12L && fabs(p.xp()) == slope && p.dp() == 0, "absorbed-unchanged", d << ": particle from " << double(x0[int(p.id())]) << " ends at " << p.x());
	mc::sample(d);
	freeApertures(*model);
}
// scattering in collimators, with every outcome of every interaction
struct Event
{
	int id;
	double dp, x, xp;
	int coll;
};
static vector<Event> events;
static vector<int> outcomes; // of the interactions to come: 0 absorbed, 1 passes, 2 kicked out of the jaw, 3 loses most of its energy
static size_t nextOutcome;
static vector<MaterialProperties*> mats;
static const double DEDX = 0.3; // per m, of the reference energy
static int lastMat;
static set<double> energies; // that particles' momenta are relative to in interactions
struct Proc: ScatteringProcess
{
	int who;
	explicit Proc(int i) :
		who(i)
	{
	}
	bool Scatter(PSvector& p, double E) const override
	{
		energies.insert(E);
		int o = nextOutcome < outcomes.size() ? outcomes[nextOutcome] : 1;
		nextOutcome++;
		events.push_back({int(p.id()), p.dp(), p.x(), p.xp(), who});
		if(nextOutcome >= outcomes.size())
			for(auto* m : mats)
				m->lambda = 1e60; // no more
		if(o == 2)
			p.xp() = p.x() > 0 ? -5e-3 : 5e-3;
		if(o == 3)
			p.dp() = -0.96;
		return o != 0;
	}
};
struct Model: ScatteringModel
{
	vector<int> configured;
	void Configure(MaterialProperties* m, double) override
	{
		int who = m == mats[1];
		configured.push_back(who);
		for(int i = 1; i < 6; i++)
			Processes[i] = new Proc(who);
		Xsection = {1, 0.2, 0.2, 0.2, 0.2};
	}
	~Model()
	{
		for(auto& s : saveDetails)
		{
			if(!s.second)
				continue;
			for(auto* p : s.second->Processes)
				delete p;
			delete s.second;
		}
	}
};
MC_SECTION("scattering")
{
	if(mats.empty())
		for(int i = 0; i < 2; i++)
		{
			auto* m = new MaterialProperties(63, 1, 1, 1, 1, 0, 8900, 29);
			mats.push_back(m);
		}
	const double E0 = sqrt(P0 * P0 + pow(PhysicalConstants::ProtonMassMeV * PhysicalUnits::MeV, 2));
	double bin = mc::pick(vector<double>{0.1, 0.07, 2});
	double L = mc::pick(vector<double>{0.25, 0.6});
	int ncoll = 1 + mc::choose(2);
	bool small = mc::choose(2);
	double lambda = mc::pick(vector<double>{1e-7, 0.03, 1e60});
	int seed = mc::thorough() ? 1 + mc::choose(6) : 1 + mc::choose(2);
	bool both = mc::choose(2); // both materials
	outcomes.clear();
	if(lambda < 1)
	{
		int n = 1 + mc::choose(mc::thorough() ? 4 : 3);
		for(int i = 0; i < n; i++)
			outcomes.push_back(mc::choose(4));
	}
	else if(mc::choose(2))
		outcomes.clear();
	nextOutcome = 0;
	events.clear();
	energies.clear();
	mc::S d;
	d << "scattering collimators " << ncoll << "x" << L << " bins " << bin << " path length " << lambda << " seed " << seed << " materials " << both + 1 << " small steps " << small << " outcomes";
	for(int o : outcomes)
		d << " " << o;
	mc::note(d);
	mc::state(d);
	for(auto* m : mats)
	{
		m->lambda = lambda;
		m->X0 = 1e60;
		m->SetExtra("SixtrackdEdx", DEDX * E0);
	}
	RandomNG::init(seed);
	AcceleratorModelConstructor ctor;
	double s = 0;
	for(int i = 0; i < ncoll; i++)
	{
		El e{'c', L, "C" + to_string(i)};
		auto* c = make(e);
		c->SetComponentLatticePosition(s);
		static_cast<Collimator*>(c)->SetMaterialProperties(mats[both && i]);
		s += L;
		ctor.AppendComponent(c);
		if(i < ncoll - 1)
		{
			El n{'n', 0.2, "N"};
			auto* nn = make(n);
			nn->SetComponentLatticePosition(s);
			ctor.AppendComponent(nn);
			s += 0.2;
		}
	}
	unique_ptr<AcceleratorModel> model(ctor.GetModel());
	ParticleBunch bunch(P0, 1);
	struct P
	{
		double x, xp, dp;
	};
	// clear, in the jaw, in the jaw on the other side, entering it, leaving it
	vector<P> ps{{0.001, 1e-4, 0}, {0.0085, 1e-4, 1e-3}, {-0.0085, 0, 0}, {0.00745, 7e-4, 0}, {0.0077, -3e-3, 0}};
	for(size_t i = 0; i < ps.size(); i++)
	{
		PSvector p(0);
		p.x() = ps[i].x;
		p.xp() = ps[i].xp;
		p.dp() = ps[i].dp;
		p.id() = i;
		bunch.AddParticle(p);
	}
	Spy spy;
	Model sm;
	sm.energy_loss_mode = SimpleEnergyLoss;
	auto* proc = new CollimateProtonProcess(4, COLL_AT_EXIT);
	{
		ParticleTracker tr(model->GetBeamline());
		proc->SetOutputBinSize(bin);
		proc->ScatterAtCollimator(true);
		proc->SetScatteringModel(&sm);
		proc->SetCollimationOutput(&spy);
		proc->SetLossThreshold(200);
		tr.AddProcess(proc);
		if(small)
			tr.AddProcess(new Small(0.03));
		tr.Track(&bunch);
	}
	map<int, vector<Loss> > lost;
	for(auto& l : spy.seen)
		lost[int(l.p.id())].push_back(l);
	map<int, PSvector> left;
	for(auto& p : bunch)
	{
		MC_CHECK(!left.count(int(p.id())), "doubled", d);
		left[int(p.id())] = p;
	}
	for(double e : energies)
		MC_CLOSET(e, E0, 1e-9, 0, "scatter-energy", d);
	MC_CHECK(sm.configured.size() <= 2 && (sm.configured.size() < 2 || sm.configured[0] != sm.configured[1]), "configured", d << ": scattering is configured " << sm.configured.size() << " times");
	size_t o = 0;
	map<int, vector<pair<Event, int> > > ev; // interactions of each particle with their outcome
	for(auto& e : events)
		ev[e.id].push_back({e, o < outcomes.size() ? outcomes[o] : 1}), o++;
	for(auto& l : spy.seen)
	{
		MC_CHECK(l.pos >= 0 && l.pos <= L * (1 + 1e-9), "inside", d << ": particle " << l.p.id() << " is reported lost at " << l.pos << " in a collimator of " << L);
		MC_CHECK(l.turn == 1, "turn", d);
	}
	const LD G = 0.0075L;
	for(size_t i = 0; i < ps.size(); i++)
	{
		bool alive = left.count(i);
		size_t n = lost[i].size();
		MC_CHECK(n == !alive, "conserved", d << ": particle " << i << (alive ? " survives" : " is gone") << " and is reported lost " << n << " times");
		auto& es = ev[i];
		// follow it
		LD x = ps[i].x, xp = ps[i].xp, dp = ps[i].dp, off = 0, leave = 0;
		bool leaves = false;
		size_t k = 0;
		bool end = false;
		for(int c = 0; c < ncoll && !end; c++)
		{
			int nb = int(ceill((LD) L / bin - 1e-9L));
			for(int b = 0; b < nb && !end; b++)
			{
				LD z0 = min((LD) L, b * (LD) bin), z1 = min((LD) L, (b + 1) * (LD) bin);
				if(fabsl(fabsl(x) - G) < 1e-10L)
				{
					end = true; // too close to tell
					alive = false;
					n = 0;
					break;
				}
				if(fabsl(x) < G)
				{
					x += (z1 - z0) * xp;
					continue;
				}
				// in the jaw: interactions are known by the energy lost since
				LD z = z0, in = dp;
				while(true)
				{
					if(k < es.size() && es[k].first.coll == (both && c))
					{
						LD zi = z + (in - es[k].first.dp) / DEDX;
						if(zi < z1 + 1e-9L)
						{
							// at the interaction
							MC_CHECK(zi > z - 1e-9L, "order", d << ": particle " << i << " interacts before " << double(z));
							x += (zi - z) * xp;
							MC_CHECK(fabsl(x - es[k].first.x) < 1e-8L, "interaction", d << ": particle " << i << " interacts at x " << es[k].first.x << " instead of " << double(x));
							z = zi;
							in = es[k].first.dp;
							int out = es[k].second;
							k++;
							if(out == 0 || out == 3)
							{
								end = true;
								MC_CHECK(!alive, "absorbed", d << ": particle " << i << " survives its absorption");
								MC_CHECK(fabsl(lost[i][0].pos - z) < 1e-6L && lost[i][0].el == "C" + to_string(c), "scatter-position", d << ": particle " << i << " is absorbed at " << double(z) << " of collimator " << c << ", but reported lost at " << lost[i][0].pos << " of " << lost[i][0].el);
								break;
							}
							if(out == 2)
								xp = x > 0 ? -5e-3L : 5e-3L;
							continue;
						}
					}
					break;
				}
				if(end)
					break;
				x += (z1 - z) * xp;
				dp = in - (z1 - z) * DEDX;
				// out of the jaw within the bin: no more energy is lost after the first step that ends outside
				if(fabsl(x) < G)
				{
					off = (fabsl(x) - G) / -fabsl(xp) * DEDX;
					leaves = true;
					leave = in;
				}
			}
			if(!end)
				x += c < ncoll - 1 ? 0.2L * xp : 0;
		}
		if(end)
			continue;
		MC_CHECK(k == es.size(), "unexplained", d << ": particle " << i << " has " << es.size() << " interactions, " << k << " in the jaws");
		if(dp < -0.99L)
			continue;
		MC_CHECK(alive, "lost", d << ": particle " << i << " is lost at " << (n ? lost[i][0].pos : -1) << " without being absorbed");
		// a finding: what leaves the jaw is moved too far by the last step in the jaw, which is known by its energy loss
		LD far = leaves ? (leave - left[i].dp()) / DEDX * xp : 0;
		if(leaves && fabsl(far) > 1e-8L && fabsl(left[i].x() - x - far) < 1e-8L && fabsl(left[i].xp() - xp) < 1e-12L)
		{
			mc::report("leaving-jaw-moved-too-far", mc::S() << d << ": particle " << i << " leaves the jaw and ends at x " << left[i].x() << " instead of " << double(x));
			x += far;
		}
		MC_CHECK(fabsl(left[i].x() - x) < 1e-8L && fabsl(left[i].xp() - xp) < 1e-12L, "scattered", d << ": particle " << i << " ends at x " << left[i].x() << " xp " << left[i].xp() << " instead of " << double(x) << "," << double(xp));
		MC_CHECK(left[i].dp() > dp - 1e-8L && left[i].dp() < dp + off + 1e-8L, "energy", d << ": particle " << i << " ends with dp " << left[i].dp() << " instead of " << double(dp));
	}
	mc::sample(d);
	freeApertures(*model);
}
