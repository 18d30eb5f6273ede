// P11: installing zero-length elements into the drifts of an existing model
#include "mc.h"
#include "MerlinIO.h"
#include "AcceleratorModelConstructor.h"
#include "PatchFrame.h"
#include "Components.h"
#include <sys/wait.h>
#include <unistd.h>
using namespace std;
struct Item
{
	string qname;
	double len;
	ComponentFrame* frame = nullptr;
};
static void examine(AcceleratorModel& m, vector<Item>& items, const string& d, size_t ndrift, const vector<AcceleratorComponent*>& installed, const string& what)
{
	AcceleratorModel::Beamline bl = m.GetBeamline();
	size_t i = 0;
	double s = 0, want = 0;
	for(auto f : bl)
	{
		MC_CHECK(i < items.size(), "beamline-length", d << what);
		Item& it = items[i];
		string q = f->IsComponent() ? f->GetComponent().GetQualifiedName() : f->GetQualifiedName();
		MC_CHECK(q == it.qname, "beamline-order", d << what << " element " << i << " is " << q << " expected " << it.qname);
		double l = f->IsComponent() ? f->GetComponent().GetLength() : 0;
		MC_CLOSET(l, it.len, 1e-12, 1e-12, "element-length", d << what << " element " << i << " " << q);
		MC_CLOSET(f->GetGeometryLength(), it.len, 1e-12, 1e-12, "frame-length", d << what << " element " << i << " " << q);
		MC_CHECK(!it.frame || it.frame == f, "other-elements-kept", d << what << " element " << i);
		it.frame = f;
		MC_CHECK(f->GetBeamlineIndex() == i, "frame-index", d << what << " element " << i << " has index " << f->GetBeamlineIndex());
		if(f->IsComponent())
			MC_CHECK(f->GetComponent().GetBeamlineIndex() == i, "component-index", d << what << " element " << i << " has index " << f->GetComponent().GetBeamlineIndex());
		i++;
		s += l;
		want += it.len;
	}
	MC_CHECK(i == items.size(), "beamline-length", d << what << " has " << i << " expected " << items.size());
	MC_CLOSET(s, want, 1e-12, 1e-12, "total-length", d << what);
	for(size_t k = 0; k < installed.size(); k++)
	{
		vector<AcceleratorModel::Index> idx = m.GetIndexes("*." + installed[k]->GetName());
		MC_CHECK(idx.size() == 1, "installed-found", d << what);
		AcceleratorModel::Beamline b = m.GetBeamline(idx[0], idx[0]);
		MC_CHECK(&b.First().GetComponent() == installed[k], "installed-element", d << what);
		vector<AcceleratorComponent*> v;
		MC_CHECK(m.ExtractTypedElements(v, installed[k]->GetName()) == 1 && v[0] == installed[k], "installed-in-repository", d << what);
	}
}
static bool refused(AcceleratorModel& m, AcceleratorComponent* c, double at)
{
	cout.flush();
	fflush(stdout);
	pid_t p = fork();
	if(p == 0)
	{
		atexit([]{_exit(3);});
		try
		{
			m.InstallModelElement(c, at);
		}
		catch(...)
		{
			_exit(4);
		}
		_exit(0);
	}
	int st = 0;
	waitpid(p, &st, 0);
	return WIFEXITED(st) && (WEXITSTATUS(st) == 3 || WEXITSTATUS(st) == 4);
}
struct Quiet // the library reports the position on standard output
{
	ostringstream o;
	streambuf* old;
	Quiet() :
		old(cout.rdbuf(o.rdbuf()))
	{
	}
	~Quiet()
	{
		cout.rdbuf(old);
	}
};
static string build(AcceleratorModelConstructor& ctor, vector<Item>& items, int n)
{
	string d;
	for(int i = 0; i < n; i++)
	{
		Item it;
		string nm = string(1, 'a' + i);
		switch(mc::choose(4))
		{
		case 0: ctor.AppendComponent(new Drift(nm, 1)); it = {"Drift." + nm, 1}; break;
		case 1: ctor.AppendComponent(new Quadrupole(nm, 0.5, 0.1)); it = {"Quadrupole." + nm, 0.5}; break;
		case 2: ctor.AppendComponentFrame(new PatchFrame(new GeometryPatch, nm)); it = {"PatchFrame." + nm, 0}; break;
		default: ctor.AppendComponent(new Marker(nm)); it = {"Marker." + nm, 0};
		}
		d += it.qname + " ";
		items.push_back(it);
	}
	return d;
}
MC_SECTION("installations")
{
	AcceleratorModelConstructor ctor;
	vector<Item> items;
	string d = build(ctor, items, 1 + mc::choose(mc::thorough() ? 5 : 4));
	unique_ptr<AcceleratorModel> m(ctor.GetModel());
	vector<AcceleratorComponent*> inst;
	Quiet q;
	examine(*m, items, d, 0, inst, "");
	int n = mc::thorough() ? 3 : 2;
	for(int k = 0; k < n; k++)
	{
		// every drift, at several places of it
		vector<pair<size_t, double>> places;
		double s = 0;
		for(size_t i = 0; i < items.size(); i++)
		{
			if(items[i].qname[0] == 'D' && items[i].len > 0.05)
			{
				places.push_back({i, s + 0.25 * items[i].len});
				places.push_back({i, s + 0.5 * items[i].len});
				places.push_back({i, s + items[i].len - 0.01});
			}
			s += items[i].len;
		}
		if(items[0].qname[0] == 'D' && items[0].len > 0.05)
			places.push_back({0, 0});
		if(places.empty())
			break;
		auto pl = mc::pick(places);
		AcceleratorComponent* c;
		string nm = "new" + to_string(k);
		switch(mc::choose(k ? 1 : 3))
		{
		case 0: c = new Marker(nm); break;
		case 1: c = new BPM(nm); break;
		default: c = new Quadrupole(nm, 0, 0.1);
		}
		string what = mc::S() << d << "install " << c->GetQualifiedName() << " at " << pl.second << " ";
		d = what;
		mc::note(d);
		mc::state(d);
		m->InstallModelElement(c, pl.second);
		s = 0;
		for(size_t i = 0; i < pl.first; i++)
			s += items[i].len;
		Item old = items[pl.first], e{c->GetQualifiedName(), 0}, a{old.qname + "_part1", pl.second - s}, b{old.qname + "_part2", s + old.len - pl.second};
		items[pl.first] = a;
		items.insert(items.begin() + pl.first + 1, {e, b});
		inst.push_back(c);
		examine(*m, items, d, 0, inst, "");
		auto it = m->GetBeamline().begin() + pl.first;
		double pos[3] = {s, pl.second, pl.second};
		for(int j = 0; j < 3; j++)
		{
			MC_CLOSET((*(it + j))->GetComponent().GetComponentLatticePosition(), pos[j], 1e-12, 1e-12, "lattice-position", d << " part " << j);
			MC_CLOSET((*(it + j))->GetPosition(), pos[j], 1e-12, 1e-12, "frame-position", d << " part " << j);
		}
	}
	mc::sample(d);
	mc::outcome(mc::S() << items.size());
}
MC_SECTION("refusals")
{
	AcceleratorModelConstructor ctor;
	vector<Item> items;
	string d = build(ctor, items, 1 + mc::choose(3));
	unique_ptr<AcceleratorModel> m(ctor.GetModel());
	Quiet q;
	double s = 0;
	vector<double> bad;
	for(auto& it : items)
	{
		if(it.qname[0] == 'Q')
			bad.push_back(s + 0.25);
		s += it.len;
	}
	bad.push_back(s + 0.1);
	mc::state(d);
	for(double at : bad)
	{
		Marker* mk = new Marker("x");
		MC_CHECK(refused(*m, mk, at), "refused", d << "install at " << at << " was not refused");
		delete mk;
	}
	if(items[0].qname[0] == 'D')
	{
		Drift* dr = new Drift("x", 0.1);
		MC_CHECK(refused(*m, dr, 0.5), "refused-length", d << "installing an element of finite length");
		delete dr;
	}
}
