// P09: construction of accelerator models
#include "mc.h"
#include "MerlinIO.h"
#include "AcceleratorModelConstructor.h"
#include "SequenceFrame.h"
#include "MagnetMover.h"
#include "SupportStructure.h"
#include "PatchFrame.h"
#include "Components.h"
using namespace std;
struct RefFrame
{
	string type, name; // frame's own type and name
	LatticeFrame* frame = nullptr;
	AcceleratorComponent* comp = nullptr;
	double len = 0;
	int parent = -1;
	bool seq = false;
	bool center = false;
	vector<int> kids;
	double pos = 0; // entrance along the line
};
struct Ref
{
	vector<RefFrame> f{1};
	vector<int> flat;
	vector<int> stack{0};
	set<ModelElement*> elements;
	int n = 0;
	void fill(int i)
	{
		double s = f[i].pos;
		double L = 0;
		for(int k : f[i].kids)
		{
			f[k].pos = s;
			fill(k);
			s += f[k].len;
			L += f[k].len;
		}
		if(f[i].seq)
			f[i].len = L;
	}
};
static double origin(const RefFrame& r)
{
	return r.pos + (r.center ? r.len / 2 : 0);
}
static AcceleratorComponent* make(int k, const string& n, ComponentFrame*& fr)
{
	switch(k)
	{
	case 0:
	{
		auto c = new Quadrupole(n, 0.5, 0.1);
		fr = new TComponentFrame<Quadrupole>(*c);
		return c;
	}
	case 1:
	{
		auto c = new Marker(n);
		fr = new TComponentFrame<Marker>(*c);
		return c;
	}
	default:
	{
		auto c = new SectorBend(n, 1.5, 0.2, 0.1);
		fr = new TComponentFrame<SectorBend>(*c);
		return c;
	}
	}
}
static int addleaf(Ref& r, int parent, AcceleratorComponent* c, double len)
{
	RefFrame x;
	x.comp = c;
	x.len = len;
	x.parent = parent;
	x.center = true;
	r.f.push_back(x);
	int i = r.f.size() - 1;
	r.f[parent].kids.push_back(i);
	r.flat.push_back(i);
	if(c)
		r.elements.insert(c);
	return i;
}
static SequenceFrame* newseq(int kind, const string& nm, bool& center)
{
	center = kind != 0;
	return kind == 0 ? new SequenceFrame(nm, SequenceFrame::originAtEntrance) : kind == 1 ? new MagnetMover(nm) :
		kind == 2 ? (SequenceFrame*) new GirderMount(nm) : new SimpleMount(nm);
}
static map<string, int> stats(const string& s, double& arc, int& ncomp, int& nel)
{
	map<string, int> r;
	istringstream in(s);
	string line;
	while(getline(in, line))
	{
		if(line.find("Arc length") == 0)
			arc = atof(line.c_str() + line.find(':') + 1);
		else if(line.find("Total number of components") == 0)
			ncomp = atoi(line.c_str() + line.find(':') + 1);
		else if(line.find("Total number of elements") == 0)
			nel = atoi(line.c_str() + line.find(':') + 1);
		else
		{
			istringstream l(line);
			string t;
			int k;
			if(l >> t >> k)
				r[t] = k;
		}
	}
	return r;
}
static void build(AcceleratorModelConstructor& ctor, Ref& r, string& d, int n)
{
	AcceleratorComponent* shared = nullptr;
	r.f[0].seq = true;
	for(int i = 0; i < n; i++)
	{
		int c = mc::choose(12);
		int top = r.stack.back();
		string nm = string(1, 'a' + r.n++);
		if(c == 0)
			break;
		if(c <= 3) // a component, directly after the previous one
		{
			AcceleratorComponent* a = nullptr;
			if(c == 1)
				a = ctor.AppendComponent(new Quadrupole(nm, 0.5, 0.1));
			else if(c == 2)
				a = ctor.AppendComponent(new Marker(nm));
			else
				a = ctor.AppendComponent(*new SectorBend(nm, 1.5, 0.2, 0.1));
			addleaf(r, top, a, c == 1 ? 0.5 : c == 2 ? 0 : 1.5);
			shared = a;
			d += string(" ") + "-QMB"[c];
		}
		else if(c == 4) // with a gap before
		{
			Quadrupole* q = new Quadrupole(nm, 0.5, 0.1);
			addleaf(r, top, nullptr, 0.25); // the drift, identified afterwards
			ctor.AppendComponent(q, 0.25);
			addleaf(r, top, q, 0.5);
			d += " gapQ";
		}
		else if(c == 5)
		{
			ctor.AppendDrift(0.75);
			addleaf(r, top, nullptr, 0.75);
			d += " drift";
		}
		else if(c == 6) // geometry patch
		{
			GeometryPatch* g = new GeometryPatch;
			g->TranslateX(0.01);
			PatchFrame* p = new PatchFrame(g, nm);
			ctor.AppendComponentFrame(p);
			int k = addleaf(r, top, nullptr, 0);
			r.f[k].frame = p;
			r.f[k].type = "PatchFrame";
			d += " patch";
		}
		else if(c <= 8) // open a frame
		{
			RefFrame x;
			SequenceFrame* s = newseq(c - 7 + 2 * (i % 2), nm, x.center);
			ctor.NewFrame(s);
			x.frame = s;
			x.type = s->GetType();
			x.name = nm;
			x.seq = true;
			x.parent = top;
			r.f.push_back(x);
			r.stack.push_back(r.f.size() - 1);
			MC_CHECK(&ctor.GetCurrentFrame() == s && ctor.GetCurrentFrameDepth() == int(r.stack.size()) - 1, "current-frame", d);
			r.elements.insert(s);
			d += " (" + x.type;
		}
		else if(c == 9) // close it
		{
			if(r.stack.size() < 2)
				mc::prune();
			int k = r.stack.back();
			ctor.EndFrame();
			r.stack.pop_back();
			r.f[r.stack.back()].kids.push_back(k);
			MC_CHECK(ctor.GetCurrentFrameDepth() == int(r.stack.size()) - 1, "depth", d);
			d += " )";
		}
		else if(c == 10) // a frame built elsewhere
		{
			RefFrame x, y;
			SequenceFrame* s = newseq(i % 4, nm, x.center);
			SequenceFrame* t = newseq((i + 1) % 4, nm + "s", y.center);
			ComponentFrame* f1, * f2;
			AcceleratorComponent* c1 = make(0, nm + "1", f1), * c2 = make(i % 2 ? 2 : 1, nm + "2", f2);
			s->AppendFrame(*f1);
			t->AppendFrame(*f2);
			GeometryPatch* g = new GeometryPatch;
			PatchFrame* p = new PatchFrame(g, nm + "p");
			t->AppendFrame(*p);
			s->AppendFrame(*t);
			ctor.AppendFrame(s);
			x.seq = y.seq = true;
			x.frame = s;
			y.frame = t;
			x.parent = top;
			int ix = r.f.size();
			r.f.push_back(x);
			r.f[top].kids.push_back(ix);
			int a = addleaf(r, ix, c1, 0.5);
			r.f[a].frame = f1;
			int iy = r.f.size();
			y.parent = ix;
			r.f.push_back(y);
			r.f[ix].kids.push_back(iy);
			int b = addleaf(r, iy, c2, i % 2 ? 1.5 : 0);
			r.f[b].frame = f2;
			int q = addleaf(r, iy, nullptr, 0);
			r.f[q].frame = p;
			r.f[q].type = "PatchFrame";
			r.elements.insert(s);
			r.elements.insert(t);
			d += " frame[Q(" + string(i % 2 ? "B" : "M") + "patch)]";
		}
		else // the same component object again
		{
			if(!shared)
				mc::prune();
			ctor.AppendComponent(*shared);
			addleaf(r, top, shared, shared->GetLength());
			d += " again";
		}
	}
	while(r.stack.size() > 1)
	{
		ctor.EndFrame();
		int k = r.stack.back();
		r.stack.pop_back();
		r.f[r.stack.back()].kids.push_back(k);
		d += " )";
	}
}
static void examine(AcceleratorModel& m, Ref& r, const string& d)
{
	if(r.flat.empty())
		return;
	r.fill(0);
	r.f[0].frame = &m.GetGlobalFrame();
	AcceleratorModel::Beamline bl = m.GetBeamline();
	size_t i = 0;
	set<ModelElement*> elems = r.elements;
	map<AcceleratorComponent*, size_t> lastindex;
	for(auto it = bl.begin(); it != bl.end(); ++it, ++i)
	{
		ComponentFrame* cf = *it;
		MC_CHECK(i < r.flat.size(), "beamline-too-long", d);
		RefFrame& x = r.f[r.flat[i]];
		MC_CHECK(!x.frame || x.frame == cf, "beamline-frame", d << " element " << i);
		x.frame = cf;
		if(x.type == "PatchFrame")
			MC_CHECK(!cf->IsComponent(), "patch", d << " element " << i);
		else
		{
			MC_CHECK(cf->IsComponent(), "component", d << " element " << i);
			AcceleratorComponent* a = &cf->GetComponent();
			if(!x.comp) // drift made by the constructor
			{
				MC_CHECK(dynamic_cast<Drift*>(a), "drift", d << " element " << i);
				x.comp = a;
				MC_CHECK(elems.insert(a).second, "drift-shared", d << " element " << i);
			}
			MC_CHECK(a == x.comp, "beamline-order", d << " element " << i << " is " << a->GetQualifiedName());
			lastindex[a] = i;
		}
		MC_CHECK(cf->GetBeamlineIndex() == i, "frame-index", d << " element " << i << " index " << cf->GetBeamlineIndex());
		vector<size_t> iv;
		MC_CHECK(cf->GetBeamlineIndexes(iv) == 1 && iv[0] == i, "frame-indexes", d << " element " << i);
		MC_CLOSE(cf->GetGeometryLength(), x.len, "length", d << " element " << i);
	}
	MC_CHECK(i == r.flat.size(), "beamline-too-short", d << " has " << i << " of " << r.flat.size());
	MC_CHECK(bl.first_index() == 0 && bl.last_index() == i - 1, "beamline-indexes", d);
	for(auto& p : lastindex)
		MC_CHECK(p.first->GetBeamlineIndex() == p.second, "component-index", d << " " << p.first->GetName());
	int nsup = 0;
	for(size_t k = 0; k < r.f.size(); k++)
	{
		RefFrame& x = r.f[k];
		LatticeFrame* f = x.frame;
		if(k)
		{
			elems.insert(f);
			MC_CLOSET(f->GetPosition(), origin(x), 1e-9, 1e-12, "position", d << " " << f->GetQualifiedName());
			MC_CHECK(f->GetGlobalFrame() == &m.GetGlobalFrame() && !f->IsGlobalFrame(), "global-frame", d);
			MC_CLOSET(f->GetLocalPosition(), origin(x) - origin(r.f[x.parent]), 1e-9, 1e-12, "local-position", d << " " << f->GetQualifiedName());
		}
		MC_CLOSE(f->GetGeometryLength(), x.len, "frame-length", d << " " << f->GetQualifiedName());
		nsup += f->GetType() == "GirderMount" ? 2 : f->GetType() == "SimpleMount";
		if(x.seq)
		{
			vector<size_t> want, got;
			function<void(int)> rec = [&](int q)
			{
				for(int c : r.f[q].kids)
					if(r.f[c].seq)
						rec(c);
					else
						want.push_back(find(r.flat.begin(), r.flat.end(), c) - r.flat.begin());
			};
			rec(k);
			f->GetBeamlineIndexes(got);
			MC_CHECK(got == want, "sequence-indexes", d << " " << f->GetQualifiedName());
		}
	}
	AcceleratorSupportList sl;
	MC_CHECK(m.GetAcceleratorSupports(sl) == size_t(nsup) && sl.size() == size_t(nsup), "supports", d << " found " << sl.size() << " of " << nsup);
	for(size_t k = 1; k < sl.size(); k++)
		MC_CHECK(set<AcceleratorSupport*>(sl.begin(), sl.end()).size() == sl.size(), "supports-distinct", d);
	vector<ModelElement*> v;
	m.ExtractModelElements("*", v);
	MC_CHECK(set<ModelElement*>(v.begin(), v.end()) == elems && v.size() == elems.size(), "repository", d << " holds " << v.size() << " expected " << elems.size());
	ostringstream o;
	m.ReportModelStatistics(o);
	double arc = -1;
	int nc = -1, ne = -1;
	map<string, int> got = stats(o.str(), arc, nc, ne), want;
	for(auto e : elems)
		want[e->GetType()]++;
	MC_CHECK(got == want, "statistics", d << "\n" << o.str());
	MC_CHECK(nc == int(r.flat.size()) && ne == int(elems.size()), "statistics-totals", d);
	MC_CLOSET(arc, r.f[0].len, 1e-5, 1e-9, "statistics-length", d);
	mc::outcome(o.str());
}
MC_SECTION("programs")
{
	AcceleratorModelConstructor ctor;
	Ref r;
	string d;
	build(ctor, r, d, mc::thorough() ? 5 : 4);
	mc::note(d);
	if(!mc::state(d))
		mc::prune();
	if(!r.flat.empty())
	{
		ostringstream o;
		ctor.ReportStatistics(o);
		double arc = -1;
		int nc = -1, ne = -1;
		stats(o.str(), arc, nc, ne);
		r.fill(0);
		MC_CHECK(nc == int(r.flat.size()), "constructor-statistics", d << "\n" << o.str());
		MC_CLOSET(arc, r.f[0].len, 1e-5, 1e-9, "constructor-length", d);
	}
	unique_ptr<AcceleratorModel> m(ctor.GetModel());
	examine(*m, r, d);
	mc::sample(d);
}
MC_SECTION("several_models")
{
	// one constructor building models one after another, with abandoned ones in between
	AcceleratorModelConstructor ctor;
	vector<unique_ptr<AcceleratorModel>> models;
	vector<Ref> refs;
	vector<string> ds;
	for(int i = 0; i < 2; i++)
	{
		bool abandon = mc::choose(2);
		if(abandon)
		{
			if(i || mc::choose(2))
				ctor.NewModel();
			ctor.AppendDrift(1);
			if(mc::choose(2))
			{
				// left open, frames are owned by the abandoned model
				ctor.NewFrame(new SequenceFrame("open"));
				ctor.AppendDrift(2);
			}
		}
		if(abandon || i || mc::choose(2))
			ctor.NewModel();
		Ref r;
		string d = abandon ? "after abandoned model:" : "model:";
		build(ctor, r, d, i == 0 || mc::thorough() ? 2 : 1);
		models.emplace_back(ctor.GetModel());
		refs.push_back(r);
		ds.push_back(d);
	}
	mc::note(ds[0] + " / " + ds[1]);
	mc::state(ds[0] + ds[1]);
	for(size_t i = 0; i < models.size(); i++)
		examine(*models[i], refs[i], ds[i]);
}
