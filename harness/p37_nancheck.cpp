// P37: the check for invalid coordinates finds and removes exactly the invalid particles
#include "mc.h"
#include "MerlinIO.h"
#include "Components.h"
#include "AcceleratorModelConstructor.h"
#include "AcceleratorModel.h"
#include "ParticleTracker.h"
#include "NANCheckProcess.h"
#include <limits>
#include <unistd.h>
#include <sys/wait.h>
using namespace std;
using namespace ParticleTracking;
struct Capture
{
	ostringstream sink;
	streambuf* old;
	Capture(): old(cout.rdbuf(sink.rdbuf())) {}
	~Capture() { cout.rdbuf(old); }
};
static bool good(const PSvector& p)
{
	return isfinite(p.x()) && isfinite(p.xp()) && isfinite(p.y()) && isfinite(p.yp()) && isfinite(p.ct()) && isfinite(p.dp());
}
static bool same(const PSvector& a, const PSvector& b)
{
	for(int i = 0; i < 6; i++)
		if(!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i]))))
			return false;
	return a.id() == b.id();
}
struct Event
{
	int element, step, particle, coord, value;
};
// spoils coordinates of particles, before the check
struct Spoiler: public ParticleBunchProcess
{
	vector<Event> ev;
	vector<vector<PSvector>> entry;
	int el = -1, step = 0, n;
	double L = 0, at = 0;
	Spoiler(int nn): ParticleBunchProcess("SPOILER", 0), n(nn) {}
	void InitialiseProcess(Bunch& b) override
	{
		ParticleBunchProcess::InitialiseProcess(b);
		el = -1;
	}
	void SetCurrentComponent(AcceleratorComponent& c) override
	{
		active = true;
		entry.push_back(vector<PSvector>(currentBunch->begin(), currentBunch->end()));
		L = c.GetLength();
		at = 0;
		step = 0;
		el++;
	}
	void DoProcess(double ds) override
	{
		at += ds;
		if(step < n)
		{
			static const double V[] = {numeric_limits<double>::quiet_NaN(), numeric_limits<double>::infinity(), -numeric_limits<double>::infinity(), 1e300};
			for(auto& e : ev)
				if(e.element == el && e.step == step && e.particle < int(currentBunch->size()))
					(*(currentBunch->begin() + e.particle))[e.coord] = V[e.value];
			step++;
		}
	}
	double GetMaxAllowedStepSize() const override
	{
		return step < n ? (step + 1) * L / n - at : L - at;
	}
};
// sees the bunch before (high priority) and after the check
struct Spy: public ParticleBunchProcess
{
	vector<vector<PSvector>>& seen;
	Spy(int prio, vector<vector<PSvector>>& s): ParticleBunchProcess("SPY", prio), seen(s) {}
	void SetCurrentComponent(AcceleratorComponent&) override { active = true; }
	void DoProcess(double) override { seen.push_back(vector<PSvector>(currentBunch->begin(), currentBunch->end())); }
	double GetMaxAllowedStepSize() const override { return 1e9; }
};
struct Line
{
	unique_ptr<AcceleratorModel> m;
	Line()
	{
		AcceleratorModelConstructor mk;
		mk.NewModel();
		mk.AppendComponent(new Drift("D1", 0.6));
		mk.AppendComponent(new Quadrupole("Q", 0.3, 0.7));
		mk.AppendComponent(new Marker("M"));
		m.reset(mk.GetModel());
	}
};
static PSvector start(int i, int ids)
{
	PSvector p(0);
	p.x() = 1e-3 * (i + 1);
	p.xp() = 1e-4 * i;
	p.y() = -2e-3 * i;
	p.ct() = 1e-5 * (i + 2);
	p.dp() = 1e-3 * (i - 1);
	p.id() = ids == 0 ? i + 1 : ids == 1 ? 0 : i / 2 + 5000000000;
	return p;
}
static string text(const PSvector& p)
{
	ostringstream o;
	o << p;
	string s = o.str();
	while(!s.empty() && isspace(s.back()))
		s.pop_back();
	return s;
}
MC_SECTION("histories")
{
	int flags = mc::choose(4), ids = mc::choose(3), steps = 1 + mc::choose(2), nev = 1 + mc::choose(2), turns = 1 + mc::choose(2), late = 0;
	bool detailed = flags & 1, cull = flags & 2;
	if(cull)
		late = mc::choose(2); // set only after the first turn
	if(late && turns == 1)
		mc::prune();
	const int N = 3;
	vector<Event> ev;
	for(int i = 0; i < nev; i++)
	{
		int w = mc::choose(steps * 3 * N);
		int v = mc::thorough() || nev == 1 ? mc::choose(24) : (w * 7 + i * 5) % 24;
		ev.push_back(Event{w % 3, w / 3 % steps, w / 3 / steps, v % 6, v / 6});
	}
	string d = mc::S() << (detailed ? "detailed " : "") << (cull ? "culling " : "") << (late ? "from the second turn " : "") << "ids " << ids << " steps " << steps << " turns " << turns;
	for(auto& e : ev)
		d += string(mc::S() << "; element " << e.element << " step " << e.step << " particle " << e.particle << " coordinate " << e.coord << " value " << e.value);
	mc::note(d);
	mc::state(d);
	Line l;
	vector<vector<PSvector>> before, after;
	ParticleTracker tr(l.m->GetBeamline());
	Spoiler* sp = new Spoiler(steps);
	sp->ev = ev;
	NANCheckProcess* nc = new NANCheckProcess;
	nc->SetDetailed(detailed);
	nc->SetCullNAN(cull && !late);
	tr.AddProcess(sp);
	tr.AddProcess(new Spy(1, before));
	tr.AddProcess(nc);
	tr.AddProcess(new Spy(-1, after));
	set<int> told;
	for(int t = 0; t < turns; t++)
	{
		if(t)
			nc->SetCullNAN(cull);
		bool culls = cull && !(late && t == 0);
		ParticleBunch b(1, 3.0);
		for(int i = 0; i < N; i++)
			b.AddParticle(start(i, ids));
		before.clear();
		after.clear();
		string out;
		{
			Capture c;
			tr.Track(&b);
			out = c.sink.str();
		}
		vector<string> lines;
		istringstream is(out);
		for(string s; getline(is, s);)
			if(!s.empty())
				lines.push_back(s);
		size_t at = 0;
		MC_CHECK(before.size() == after.size() && !before.empty(), "steps", d << ": " << before.size() << " " << after.size());
		static const char* NAME[] = {"D1", "Q", "M"};
		// in steps; elements of length have as many, the marker one
		for(size_t s = 0; s < before.size(); s++)
		{
			string el = NAME[min<size_t>(s / steps, 2)];
			vector<PSvector> want;
			for(size_t i = 0; i < before[s].size(); i++)
			{
				const PSvector& p = before[s][i];
				if(!good(p) && !told.count(int(p.id())))
				{
					told.insert(int(p.id()));
					MC_CHECK(at < lines.size() && lines[at].find(string(mc::S() << "currentBunch[" << i << "], p.id = " << p.id() << ", at ")) != string::npos && lines[at].find("." + el) != string::npos, "not-reported",
						d << ": turn " << t << " " << el << " particle " << i << ": " << (at < lines.size() ? lines[at] : "nothing"));
					at++;
					if(detailed)
					{
						// the coordinates at the start of the element before, and of this one
						size_t now = sp->entry.size() - 3 + min<size_t>(s / steps, 2);
						for(int back = 1; back >= 0; back--)
						{
							if(now == 0 && back)
								continue;
							string want;
							for(auto& q : sp->entry[now - back])
								if(want.empty() && q.id() == p.id())
									want = text(q);
							if(want.empty())
								continue;
							MC_CHECK(at < lines.size() && lines[at].find(back ? "prev" : "start") == 0 && (ids || lines[at].find(want) != string::npos), "details", d << ": turn " << t << " " << el << " particle " << i << " was " << want << ": " << (at < lines.size() ? lines[at] : "nothing"));
							at++;
						}
					}
					MC_CHECK(at < lines.size() && lines[at].find("current") == 0 && lines[at].find(text(p)) != string::npos, "reported-other",
						d << ": turn " << t << " " << el << " particle " << i << " " << text(p) << ": " << (at < lines.size() ? lines[at] : "nothing"));
					at++;
				}
				if(!culls || good(p))
					want.push_back(p);
			}
			MC_CHECK(want.size() == after[s].size(), "kept", d << ": turn " << t << " at " << el << " " << after[s].size() << " of " << before[s].size() << " particles are left, should be " << want.size());
			for(size_t i = 0; i < want.size(); i++)
				MC_CHECK(same(want[i], after[s][i]), "kept-other", d << ": turn " << t << " at " << el << " particle " << i << " is " << text(after[s][i]) << " should be " << text(want[i]));
		}
		MC_CHECK(at == lines.size(), "reported-more", d << ": turn " << t << ": " << out);
		if(!after.back().empty())
			MC_CLOSET(b.GetTotalCharge(), 3 * double(after.back().size()), 1e-12, 0, "charge", d);
		mc::outcome(mc::S() << after.back().size() << " " << lines.size());
	}
}
// stops at once where asked for
MC_SECTION("halt")
{
	int halt = mc::choose(2), at = mc::choose(4), v = mc::choose(6);
	string d = mc::S() << (halt ? "halting" : "not halting") << " particle spoilt at " << at << " coordinate " << v;
	mc::note(d);
	mc::state(d);
	Line l;
	int fd[2];
	if(pipe(fd))
		return;
	pid_t pid = fork();
	if(pid == 0)
	{
		Capture c;
		signal(SIGABRT, SIG_DFL);
		ParticleTracker tr(l.m->GetBeamline());
		Spoiler* sp = new Spoiler(1);
		if(at < 3)
			sp->ev.push_back(Event{at, 0, 1, v, v % 3});
		NANCheckProcess* nc = new NANCheckProcess;
		nc->SetHaltNAN(halt);
		tr.AddProcess(sp);
		tr.AddProcess(nc);
		struct Count: public ParticleBunchProcess
		{
			int fd;
			Count(int f): ParticleBunchProcess("COUNT", -1), fd(f) {}
			void SetCurrentComponent(AcceleratorComponent&) override { active = true; }
			void DoProcess(double) override { if(write(fd, "x", 1) != 1) _exit(9); }
			double GetMaxAllowedStepSize() const override { return 1e9; }
		};
		tr.AddProcess(new Count(fd[1]));
		ParticleBunch b(1, 1);
		for(int i = 0; i < 3; i++)
			b.AddParticle(start(i, 0));
		tr.Track(&b);
		_exit(0);
	}
	close(fd[1]);
	int n = 0, st = 0;
	for(char c; read(fd[0], &c, 1) == 1;)
		n++;
	close(fd[0]);
	waitpid(pid, &st, 0);
	bool stop = halt && at < 3;
	MC_CHECK(stop ? WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT : WIFEXITED(st) && WEXITSTATUS(st) == 0, "halt", d << ": status " << st);
	MC_CHECK(n == (stop ? at : 3), "halt-place", d << ": " << n << " elements were passed");
}
