// P10: selecting beamlines, components, elements and indexes
#include "mc.h"
#include "MerlinIO.h"
#include "AcceleratorModelConstructor.h"
#include "SequenceFrame.h"
#include "PatchFrame.h"
#include "Components.h"
using namespace std;
typedef AcceleratorModel AM;
static bool wild(const char* p, const char* s)
{
	if(!*p)
		return !*s;
	if(*p == '*')
		return wild(p + 1, s) || (*s && wild(p, s + 1));
	return *s == *p && wild(p + 1, s + 1);
}
static bool matches(const string& pat, const string& s)
{
	stringstream in(pat);
	string a;
	while(getline(in, a, '|'))
		if(wild(a.c_str(), s.c_str()))
			return true;
	return false;
}
struct Item
{
	string qname; // of the component, or of the patch frame
	bool comp = true;
	ComponentFrame* frame = nullptr;
};
struct World
{
	vector<Item> items;
	unique_ptr<AM> model;
	string d;
	multiset<string> elements;
};
static void build(World& w, int maxn)
{
	AcceleratorModelConstructor ctor;
	int n = 1 + mc::choose(maxn);
	for(int i = 0; i < n; i++)
	{
		int k = mc::choose(4);
		Item it;
		switch(k)
		{
		case 0: ctor.AppendComponent(new Quadrupole("A", 0.5, 0.1)); it.qname = "Quadrupole.A"; break;
		case 1: ctor.AppendComponent(new Drift("A", 1)); it.qname = "Drift.A"; break;
		case 2: ctor.AppendComponent(new Quadrupole("B1", 0.5, -0.1)); it.qname = "Quadrupole.B1"; break;
		default:
			ctor.AppendComponentFrame(new PatchFrame(new GeometryPatch, "B"));
			it.qname = "PatchFrame.B";
			it.comp = false;
		}
		w.d += it.qname + " ";
		w.items.push_back(it);
		if(it.comp)
		{
			w.elements.insert(it.qname);
			w.elements.insert("ComponentFrame." + it.qname);
		}
		else
			w.elements.insert(it.qname);
	}
	w.model.reset(ctor.GetModel());
	size_t i = 0;
	AM::Beamline bl = w.model->GetBeamline();
	for(auto f : bl)
		if(i < w.items.size())
			w.items[i++].frame = f;
	mc::note(w.d);
	mc::state(w.d);
}
static const vector<string> PATS{"*", "Quadrupole.*", "*.A", "Drift.A", "*.B*", "*.B", "*.A|*.B1", "PatchFrame.*", "nothing", "A", "", "*d*"};
static void checkline(World& w, AM::Beamline b, size_t i, size_t j, const string& what)
{
	MC_CHECK(b.first_index() == i && b.last_index() == j, "line-indexes", w.d << what << " gives " << b.first_index() << ".." << b.last_index());
	MC_CHECK(&b.First() == w.items[i].frame && &b.Last() == w.items[j].frame, "line-ends", w.d << what);
	MC_CHECK(b.IsReversed() == (i > j), "line-reversed", w.d << what);
	struct Rec
	{
		vector<ComponentFrame*> v;
		Rec() = default;
		Rec(const Rec&) = delete;
		void operator()(ComponentFrame* f)
		{
			v.push_back(f);
		}
	} rec;
	b.Track(rec);
	vector<ComponentFrame*> want;
	for(size_t k = i;; k += i > j ? -1 : 1)
	{
		want.push_back(w.items[k].frame);
		if(k == j)
			break;
	}
	MC_CHECK(rec.v == want, "line-track", w.d << what << " visits " << rec.v.size() << " expected " << want.size());
	if(i <= j)
	{
		vector<ComponentFrame*> v(b.begin(), b.end());
		MC_CHECK(v == want, "line-iteration", w.d << what);
		const AM::Beamline cb(b);
		vector<ComponentFrame*> cv(cb.begin(), cb.end());
		MC_CHECK(cv == want && &cb.First() == want[0] && &cb.Last() == want.back(), "line-iteration", w.d << what);
		for(const string& p : PATS)
		{
			vector<AM::Index> got{77}, exp;
			for(size_t k = i; k <= j; k++)
				if(w.items[k].comp && matches(p, w.items[k].qname))
					exp.push_back(k);
			MC_CHECK(w.model->GetIndexes(b, p, got) == exp.size() && got == exp, "line-getindexes", w.d << what << " pattern " << p);
		}
	}
}
MC_SECTION("ranges")
{
	World w;
	build(w, mc::thorough() ? 7 : 5);
	size_t n = w.items.size();
	checkline(w, w.model->GetBeamline(), 0, n - 1, "GetBeamline()");
	checkline(w, w.model->GetReversedBeamline(), n - 1, 0, "GetReversedBeamline()");
	for(size_t i = 0; i < n + 2; i++)
		for(size_t j = 0; j < n + 2; j++)
		{
			string what = mc::S() << "GetBeamline(" << i << "," << j << ")";
			bool thrown = false;
			try
			{
				AM::Beamline b = w.model->GetBeamline(i, j);
				if(i < n && j < n)
					checkline(w, b, i, j, what);
			}
			catch(AM::BadRange&)
			{
				thrown = true;
			}
			MC_CHECK(thrown == (i >= n || j >= n), "range-badrange", w.d << what);
		}
	for(size_t s = 0; s < n; s++)
	{
		AM::RingIterator r = w.model->GetRing(s), q = r;
		for(size_t k = 0; k < 2 * n + 1; k++)
		{
			MC_CHECK(*r == w.items[(s + k) % n].frame, "ring-forward", w.d << " from " << s << " step " << k);
			MC_CHECK((r == q) == (k % n == 0) && (r != q) == (k % n != 0), "ring-equality", w.d);
			if(k % 2)
				++r;
			else
				MC_CHECK(*r++ == w.items[(s + k) % n].frame, "ring-postfix", w.d);
		}
		r = q;
		for(size_t k = 0; k < 2 * n + 1; k++)
		{
			MC_CHECK(*r == w.items[(s + 3 * n - k) % n].frame, "ring-backward", w.d << " from " << s << " step " << k);
			if(k % 2)
				--r;
			else
				MC_CHECK(*r-- == w.items[(s + 3 * n - k) % n].frame, "ring-postfix", w.d);
		}
	}
}
MC_SECTION("patterns")
{
	World w;
	build(w, mc::thorough() ? 6 : 5);
	size_t n = w.items.size();
	for(const string& p1 : PATS)
		for(const string& p2 : PATS)
			for(int n1 = 1; n1 <= 3; n1++)
				for(int n2 = 1; n2 <= 3; n2++)
				{
					string what = mc::S() << "GetBeamline(\"" << p1 << "\",\"" << p2 << "\"," << n1 << "," << n2 << ")";
					size_t i = n, j = n;
					int c1 = 0, c2 = 0;
					for(size_t k = 0; k < n; k++)
					{
						if(matches(p1, w.items[k].qname) && ++c1 == n1)
							i = k;
						if(matches(p2, w.items[k].qname) && ++c2 == n2)
							j = k;
					}
					try
					{
						AM::Beamline b = n1 == 1 && n2 == 1 ? w.model->GetBeamline(p1, p2) : w.model->GetBeamline(p1, p2, n1, n2);
						MC_CHECK(i < n && j < n, "pattern-badrange", w.d << what << " should not be found");
						MC_CHECK(b.first_index() == i && b.last_index() == j && &b.First() == w.items[i].frame && &b.Last() == w.items[j].frame,
							"pattern-range", w.d << what << " gives " << b.first_index() << ".." << b.last_index() << " expected " << i << ".." << j);
					}
					catch(AM::BadRange&)
					{
						MC_CHECK(i == n || j == n, "pattern-found", w.d << what << " should be " << i << ".." << j);
					}
				}
	mc::sample(w.d);
}
MC_SECTION("extraction")
{
	World w;
	build(w, mc::thorough() ? 6 : 5);
	for(const string& p : PATS)
	{
		vector<ComponentFrame*> cf{nullptr}, want;
		vector<TComponentFrame<Quadrupole>*> quads;
		size_t nq = 0;
		vector<AM::Index> idx{5}, wi;
		for(size_t k = 0; k < w.items.size(); k++)
			if(matches(p, w.items[k].qname))
			{
				want.push_back(w.items[k].frame);
				nq += w.items[k].qname[0] == 'Q';
				if(w.items[k].comp)
					wi.push_back(k);
			}
		MC_CHECK(w.model->ExtractComponents(p, cf) == int(want.size()) && cf == want, "extract-components", w.d << "pattern " << p << " gives " << cf.size() << " expected " << want.size());
		w.model->ExtractTypedComponents(quads, p);
		MC_CHECK(quads.size() == nq, "extract-typed-components", w.d << "pattern " << p);
		{
			size_t k = 0;
			for(auto f : want)
				if(f->IsComponent() && f->GetComponent().GetType() == "Quadrupole")
				{
					MC_CHECK(quads[k] == f && &quads[k]->GetComponent() == &f->GetComponent(), "extract-typed-order", w.d << "pattern " << p);
					k++;
				}
		}
		MC_CHECK(w.model->GetIndexes(p, idx) == wi.size() && idx == wi && w.model->GetIndexes(p) == wi, "get-indexes", w.d << "pattern " << p);
		vector<ModelElement*> me{nullptr};
		multiset<string> we, ge;
		for(const string& e : w.elements)
			if(matches(p, e))
				we.insert(e);
		MC_CHECK(w.model->ExtractModelElements(p, me) == int(we.size()) && me.size() == we.size(), "extract-elements", w.d << "pattern " << p << " gives " << me.size() << " expected " << we.size());
		for(auto e : me)
			ge.insert(e->GetQualifiedName());
		MC_CHECK(we == ge, "extract-elements", w.d << "pattern " << p);
		// again into the same vector
		MC_CHECK(w.model->ExtractModelElements(p, me) == int(we.size()), "extract-elements-again", w.d << "pattern " << p << " gives " << me.size());
		vector<Quadrupole*> q;
		size_t wq = 0;
		for(auto& it : w.items)
			wq += it.qname[0] == 'Q' && matches(p, it.qname.substr(it.qname.find('.') + 1));
		w.model->ExtractTypedElements(q, p);
		MC_CHECK(q.size() == wq && set<Quadrupole*>(q.begin(), q.end()).size() == wq, "extract-typed-elements", w.d << "pattern " << p);
		mc::outcome(mc::S() << want.size() << we.size() << wq);
	}
}
// finding an element by name in the order of lattice positions; the statistics of a model
MC_SECTION("named")
{
	AcceleratorModelConstructor ctor;
	int n = 1 + mc::choose(mc::thorough() ? 6 : 5);
	vector<AcceleratorComponent*> cs;
	map<string, int> types;
	vector<double> pos;
	mc::S d;
	for(int i = 0; i < n; i++)
		pos.push_back(0.5 * i);
	double len = 0;
	for(int i = 0; i < n; i++)
	{
		AcceleratorComponent* c;
		string nm = "e" + to_string(i);
		switch(n <= 4 ? mc::choose(3) : (i * 2) % 3)
		{
		case 0: c = new Drift(nm, 0.5); break;
		case 1: c = new Quadrupole(nm, 0.25, 1); break;
		default: c = new Marker(nm);
		}
		// any order of positions
		int k = mc::choose(pos.size());
		c->SetComponentLatticePosition(pos[k]);
		d << c->GetQualifiedName() << " at " << pos[k] << ", ";
		pos.erase(pos.begin() + k);
		types[c->GetType()]++;
		types["ComponentFrame"]++;
		len += c->GetLength();
		cs.push_back(c);
		ctor.AppendComponent(c);
	}
	mc::note(d);
	mc::state(d);
	unique_ptr<AM> m(ctor.GetModel());
	for(auto c : cs)
	{
		int want = 0;
		for(auto o : cs)
			want += o->GetComponentLatticePosition() < c->GetComponentLatticePosition();
		int got = m->FindElementLatticePosition(c->GetName());
		MC_CHECK(got == want, "element-position", d << c->GetName() << " is element " << got << " in the order of positions, expected " << want);
	}
	ostringstream os;
	m->ReportModelStatistics(os);
	string s = os.str(), w;
	istringstream in(s);
	double l = -1;
	size_t nc = 0, ne = 0;
	while(in >> w && w != "beamline:")
		;
	in >> l;
	while(in >> w && w != "components:")
		;
	in >> nc;
	while(in >> w && w != "elements:")
		;
	in >> ne;
	while(in >> w && w.find("---") == string::npos)
		;
	MC_CLOSET(l, len, 1e-5, 1e-9, "statistics", d << "arc length");
	MC_CHECK(nc == cs.size(), "statistics", d << nc << " components");
	map<string, int> got;
	size_t total = 0;
	int k;
	while(in >> w >> k)
	{
		MC_CHECK(!got.count(w), "statistics", d << w << " twice");
		got[w] = k;
		total += k;
	}
	MC_CHECK(total == ne, "statistics", d << ne << " elements reported, " << total << " listed");
	for(auto& t : types)
		MC_CHECK(got.count(t.first) && got[t.first] == t.second, "statistics", d << got[t.first] << " of " << t.first << " expected " << t.second);
	mc::sample(d);
}
