// P14: scheduling of physics processes along a component
#include "mc.h"
#include "MerlinIO.h"
#include "ProcessStepManager.h"
#include "BunchProcess.h"
#include "ComponentStepper.h"
#include "Components.h"
#include "ParticleBunch.h"
using namespace std;
using namespace ParticleTracking;
struct Event
{
	char what; // I init, C component, P process, D deleted
	int id;
	double ds;
	AcceleratorComponent* c;
};
static vector<Event> EV;
enum Act { always, never, onA, once };
enum Step { unlimited, fixed03, fixed1, div3, div7, div10min };
static const char* ACT[] = {"always", "never", "only on A", "first step of a component"};
static const char* STEP[] = {"unlimited", "0.3", "1", "third", "seventh", "tenth or 0.2"};
struct Mock: public BunchProcess
{
	int id;
	Act act;
	Step st;
	unique_ptr<ComponentDivider> div;
	double todo = 0;
	Mock(int i, int prio, Act a, Step s) :
		BunchProcess("M" + to_string(i), prio), id(i), act(a), st(s)
	{
		if(s == div3)
			div.reset(new ComponentDivider(3));
		if(s == div7)
			div.reset(new ComponentDivider(7));
		if(s == div10min)
			div.reset(new ComponentDivider(10, 0.2));
	}
	~Mock()
	{
		EV.push_back({'D', id, 0, nullptr});
	}
	void InitialiseProcess(Bunch&) override
	{
		EV.push_back({'I', id, 0, nullptr});
		active = false;
	}
	void SetCurrentComponent(AcceleratorComponent& c) override
	{
		BunchProcess::SetCurrentComponent(c);
		EV.push_back({'C', id, 0, currentComponent});
		active = act == always || act == once || (act == onA && c.GetName() == "A");
		if(div)
			div->SetComponent(c);
	}
	void DoProcess(double ds) override
	{
		EV.push_back({'P', id, ds, currentComponent});
		if(div)
			div->Increment(ds);
		if(act == once)
			active = false;
	}
	double GetMaxAllowedStepSize() const override
	{
		if(div)
			return div->DistanceToStepBoundary();
		return st == fixed03 ? 0.3 : st == fixed1 ? 1.0 : 1e9;
	}
};
// model of one process
struct MP
{
	int id, prio;
	Act act;
	Step st;
	bool active = false;
};
static void insert(vector<MP>& t, MP p)
{
	// documented order: ascending priority, ties in order of adding; negative priorities at the end
	if(p.prio < 0)
	{
		t.push_back(p);
		return;
	}
	size_t k = 0;
	while(k < t.size() && t[k].prio <= p.prio)
		k++;
	t.insert(t.begin() + k, p);
}
static void checktrack(ProcessStepManager& m, vector<MP>& t, AcceleratorComponent& c, const string& d)
{
	EV.clear();
	m.Track(c);
	double L = c.GetLength();
	size_t k = 0;
	for(auto& p : t)
	{
		MC_CHECK(k < EV.size() && EV[k].what == 'C' && EV[k].id == p.id && EV[k].c == &c, "component-announced", d << ": process " << p.id
			<< " not told the component, in order, before the first step");
		k++;
		p.active = p.act == always || p.act == once || (p.act == onA && c.GetName() == "A");
	}
	double s = 0;
	int nsteps = 0;
	bool any = false;
	for(auto& p : t)
		any = any || p.active;
	if(!any)
	{
		MC_CHECK(k == EV.size(), "inactive-called", d << ": inactive process called");
		return;
	}
	map<int, set<long> > bounds; // step boundaries reached (1e-9 grid)
	while(k < EV.size())
	{
		MC_CHECK(EV[k].what == 'P', "unexpected-event", d << " event " << EV[k].what);
		double ds = EV[k].ds;
		vector<MP*> act;
		for(auto& p : t)
			if(p.active)
				act.push_back(&p);
		if(act.empty())
			mc::fail("inactive-called", d + ": inactive process called");
		for(auto* p : act)
		{
			MC_CHECK(k < EV.size() && EV[k].what == 'P' && EV[k].id == p->id, "step-order", d << " step " << nsteps << ": expected process " << p->id
				<< (k < EV.size() ? " got " + to_string(EV[k].id) : " none"));
			MC_CHECK(EV[k].ds == ds, "step-same", d << " step " << nsteps << ": process " << p->id << " given " << EV[k].ds << " others " << ds);
			MC_CHECK(EV[k].c == &c, "step-component", d);
			if(p->st == fixed03)
				MC_CHECK(ds <= 0.3 + 1e-12, "step-max", d << " step " << nsteps << " " << ds << " exceeds 0.3");
			if(p->st == fixed1)
				MC_CHECK(ds <= 1 + 1e-12, "step-max", d << " step " << nsteps << " " << ds << " exceeds 1");
			k++;
		}
		for(auto& p : t)
			if(p.act == once)
				p.active = false;
		MC_CHECK(ds >= -1e-12, "step-negative", d << " step " << ds);
		// the step is as long as it may be
		double room = L - s;
		for(auto* p : act)
		{
			double r = 1e9;
			if(p->st == fixed03)
				r = 0.3;
			if(p->st == fixed1)
				r = 1;
			if(L != 0 && (p->st == div3 || p->st == div7 || p->st == div10min))
			{
				double dl = p->st == div3 ? L / 3 : p->st == div7 ? L / 7 : L / 10;
				if(p->st == div10min && dl < 0.2)
					dl = L / (int(L / 0.2) + 1);
				double nb = (floor(s / dl + 1e-9) + 1) * dl;
				r = nb - s;
			}
			room = min(room, r);
		}
		if(fabs(ds) > 1e-12 || L == 0)
			MC_CLOSET(ds, room, 1e-9, 1e-11, "step-size", d << " step " << nsteps << " at " << s);
		s += ds;
		nsteps++;
		mc::step();
	}
	bool stays = false; // is any process active to the end
	for(auto& p : t)
		stays = stays || p.active;
	if(stays)
		MC_CLOSET(s, L, 1e-12, 1e-12, "steps-sum", d << " steps do not add up to the length");
	if(L == 0)
		MC_CHECK(nsteps == 1, "zero-length", d << " zero-length component processed " << nsteps << " times");
	mc::outcome("steps" + to_string(nsteps));
}
static vector<double> LENS()
{
	vector<double> v{0, 0.3, 1, 2.5};
	if(mc::thorough())
		v.insert(v.end(), {0.1, 7.3, 10, 1e-3});
	return v;
}
static MP choosep(int id)
{
	static const int PR[] = {0, 1, 2, -1};
	MP p;
	p.id = id;
	p.prio = PR[mc::choose(4)];
	p.act = Act(mc::choose(4));
	p.st = Step(mc::choose(6));
	return p;
}
static string name(const MP& p)
{
	return mc::S() << "[" << p.id << " prio " << p.prio << " " << ACT[p.act] << " step " << STEP[p.st] << "]";
}
static void program(int np, bool allPairs)
{
	EV.clear();
	{
		ProcessStepManager m;
		vector<MP> t;
		string d;
		for(int i = 0; i < np; i++)
		{
			MP p = choosep(i);
			if(!allPairs && p.st != unlimited && p.st != fixed03 && p.st != div3)
				mc::prune();
			if(!allPairs && p.act == onA)
				mc::prune();
			d += name(p);
			m.AddProcess(new Mock(p.id, p.prio, p.act, p.st));
			insert(t, p);
		}
		mc::note(d);
		mc::state(d);
		ParticleBunch b(1, 1);
		m.Initialise(b);
		MC_CHECK(EV.size() == t.size(), "initialise", d);
		for(size_t i = 0; i < t.size(); i++)
			MC_CHECK(EV[i].what == 'I' && EV[i].id == t[i].id, "initialise", d << " initialised in order");
		auto lens = LENS();
		double tot = 0;
		MC_CHECK(m.GetIntegratedLength() == 0, "integrated-length", d);
		for(double L : lens)
			for(const char* n : {"A", "B"})
			{
				Drift c(n, L);
				checktrack(m, t, c, d + (mc::S() << " on " << n << " length " << L).o.str());
				tot += L;
				MC_CLOSE(m.GetIntegratedLength(), tot, "integrated-length", d);
			}
		EV.clear();
		m.Initialise(b);
		MC_CHECK(m.GetIntegratedLength() == 0, "integrated-length", d << " after a second Initialise");
		EV.clear();
	}
	set<int> del;
	for(auto& e : EV)
		MC_CHECK(e.what == 'D' && del.insert(e.id).second, "destruction", "a process deleted twice");
	MC_CHECK(int(del.size()) == np, "destruction", "processes not deleted with the manager");
}
MC_SECTION("one-two")
{
	program(1 + mc::choose(2), true);
}
MC_SECTION("three")
{
	program(3, mc::thorough());
}
// add / remove / clear histories
MC_SECTION("histories")
{
	EV.clear();
	ProcessStepManager m;
	vector<MP> t;
	map<int, Mock*> live;
	string d;
	int nid = 0, depth = mc::thorough() ? 6 : 5;
	ParticleBunch b(1, 1);
	Drift c("A", 1);
	for(int k = 0; k < depth; k++)
	{
		int op = mc::choose(6);
		if(op < 4)
		{
			static const int PR[] = {0, 1, 2, -1};
			MP p;
			p.id = nid++;
			p.prio = PR[op];
			p.act = always;
			p.st = k % 2 ? div3 : unlimited;
			Mock* q = new Mock(p.id, p.prio, p.act, p.st);
			d += mc::S() << "add" << p.id << "(" << p.prio << ") ";
			m.AddProcess(q);
			live[p.id] = q;
			insert(t, p);
		}
		else if(op == 4)
		{
			// remove one that is there, or one that is not
			int i = mc::choose(int(t.size()) + 1);
			if(i == int(t.size()))
			{
				Mock other(99, 0, always, unlimited);
				d += "removeOther ";
				mc::note(d);
				MC_CHECK(!m.RemoveProcess(&other), "remove-absent", d << " reports a process that was never added as removed");
			}
			else
			{
				int id = t[i].id;
				d += mc::S() << "remove" << id << " ";
				mc::note(d);
				EV.clear();
				MC_CHECK(m.RemoveProcess(live[id]), "remove-present", d << " reports a process as not present");
				MC_CHECK(EV.empty(), "remove-deletes", d << " the removed process belongs to the caller");
				delete live[id];
				live.erase(id);
				t.erase(t.begin() + i);
			}
		}
		else
		{
			d += "clear ";
			mc::note(d);
			EV.clear();
			m.ClearProcesses();
			MC_CHECK(EV.size() == t.size(), "clear-deletes", d);
			t.clear();
			live.clear();
		}
		mc::state(d);
		if(mc::fresh())
		{
			if(t.empty())
			{
				EV.clear();
				m.Track(c);
				MC_CHECK(EV.empty(), "inactive-called", d);
			}
			else
				checktrack(m, t, c, d);
		}
	}
}
// a divider on its own: equal steps that add up to the length
MC_SECTION("divider")
{
	static const vector<double> L{0, 1e-3, 0.1, 0.3, 1, 2.5, 7.3, 10, 1000. / 3, 12345.6};
	int ns = 1 + mc::choose(mc::thorough() ? 200 : 40);
	double len = mc::pick(L), mins = mc::pick(vector<double>{0, 0.05, 0.2, 3});
	string d = mc::S() << "divider " << ns << " min " << mins << " length " << len;
	mc::note(d);
	mc::state(d);
	ComponentDivider cd(ns, mins);
	Drift pre("X", 4), c("A", len);
	cd.SetComponent(pre);
	cd.Increment(cd.DistanceToStepBoundary());
	cd.SetComponent(c);
	if(len == 0)
	{
		MC_CHECK(cd.DistanceToStepBoundary() == 0, "divider-zero", d);
		return;
	}
	int n = ns;
	if(len / ns < mins)
		n = int(len / mins) + 1;
	double dl = len / n, s = 0;
	// as processes use it: the steps end where the component does
	if(mc::choose(2))
	{
		int seen = 0, steps = 0;
		do
		{
			double r = min(len - s, cd.DistanceToStepBoundary());
			seen += cd.Increment(r);
			s += r;
			MC_CHECK(++steps < 3 * n + 3, "divider-boundary", d << ": no end");
		} while(!(fabs(len - s) <= numeric_limits<double>::epsilon()));
		MC_CHECK(seen == n, "divider-boundaries", d << ": " << seen << " boundaries of " << n << " in a component");
		return;
	}
	for(int i = 0; i < n; i++)
	{
		MC_CLOSET(cd.DistanceToStepBoundary(), dl, 1e-9, 1e-10, "divider-step", d << " step " << i);
		double h = cd.DistanceToStepBoundary() / 2, before = cd.DistanceToStepBoundary();
		if(dl > 1e-9)
		{
			MC_CHECK(!cd.Increment(h), "divider-boundary", d << " half a step reported as boundary");
			MC_CLOSET(cd.DistanceToStepBoundary(), before - h, 1e-9, 1e-10, "divider-rest", d);
			s += h;
		}
		int guard = 0;
		for(;;)
		{
			double r = cd.DistanceToStepBoundary();
			s += r;
			if(cd.Increment(r))
				break;
			MC_CHECK(++guard < 5, "divider-boundary", d << " boundary not recognised");
		}
	}
	MC_CLOSET(s, len, 1e-12, 1e-12, "divider-sum", d);
}
// the whole thing terminates on awkward lengths
MC_SECTION("termination")
{
	static const vector<double> LQ{1.0 / 3, 10, 1000. / 3, 27000, 1e-9, 123.456789};
	static const vector<double> LT{1.0 / 3, 10, 1000. / 3, 27000, 1e-9, 123.456789, 6.7, 1e-15, 5e5, 0.7, 2.1};
	double len = mc::pick(mc::thorough() ? LT : LQ);
	Step a = Step(mc::choose(6)), b = Step(mc::choose(6)), c3 = Step(mc::choose(6));
	string d = mc::S() << "length " << len << " steps " << STEP[a] << "," << STEP[b] << "," << STEP[c3];
	mc::note(d);
	mc::state(d);
	ProcessStepManager m;
	vector<MP> t;
	int i = 0;
	for(Step s : {a, b, c3})
	{
		MP p;
		p.id = i++;
		p.prio = 0;
		p.act = always;
		p.st = s;
		if(len > 400 && (s == fixed03 || s == fixed1))
			mc::prune();
		m.AddProcess(new Mock(p.id, 0, always, s));
		t.push_back(p);
	}
	EV.clear();
	Drift c("A", len);
	m.Track(c);
	double s = 0;
	for(auto& e : EV)
		if(e.what == 'P' && e.id == 0)
		{
			MC_CHECK(e.ds > -1e-9, "step-negative", d << " step " << e.ds);
			s += e.ds;
		}
	MC_CLOSET(s, len, 1e-12, 1e-15, "steps-sum", d);
	MC_CHECK(EV.size() < 50000, "step-count", d << " takes " << EV.size() << " events");
}
