// P29: loss maps count every loss once, in the right row, whatever the order and number of finalisations
#include "mc.h"
#include "Collimator.h"
#include "CollimationOutput.h"
#include "Components.h"
#include "DetailedCollimationOutput.h"
#include "LossMapCollimationOutput.h"
#include "StringPattern.h"
#include <cmath>
using namespace std;
using namespace ParticleTracking;
using mc::S;
struct Quiet
{
	streambuf* o;
	Quiet() :
		o(cout.rdbuf(nullptr))
	{
	}
	~Quiet()
	{
		cout.rdbuf(o);
		cout.clear();
	}
};
struct Elem
{
	AcceleratorComponent* c;
	string name, type;
	double s, len;
	int warm; // 0 outside of the warm regions, 1 inside
};
struct Machine
{
	vector<unique_ptr<AcceleratorComponent> > own;
	vector<Elem> e;
	void add(AcceleratorComponent* c, double s, int warm)
	{
		own.emplace_back(c);
		c->SetComponentLatticePosition(s);
		e.push_back({c, c->GetName(), c->GetType(), s, c->GetLength(), warm});
	}
	Machine()
	{
		add(new Drift("Z", 0.35), 0, 0);
		add(new Drift("Z", 0.2), 0.35, 0);                     // another element of the same name
		add(new Marker("M"), 0.55, 0);                         // elements at the same place
		add(new Drift("A", 0.45), 0.55, 0);
		add(new Collimator("TCP.C6L7.B1", 1.0), 1.0, 0);
		add(new Collimator("TCLA", 0.6), 2.0, 1);              // collimators stay collimators in warm regions
		add(new Drift("W", 2.0), 2.6, 1);
		add(new Drift("A.VERY.LONG.ELEMENT.NAME.OF.MORE.THAN.34.CHARACTERS", 30.0), 26000.123456789, 1);
	}
};
struct Spot
{
	int el;
	double pos;
};
static const vector<Spot> SPOTS =
{
	{0, 0}, {0, 0.05}, {0, 0.25}, {0, 0.35}, {1, 0.05}, {1, 0.15}, {2, 0}, {3, 0}, {3, 0.05}, {3, 0.45},
	{4, 0.62}, {4, 1.0}, {5, 0.31}, {6, 0.15}, {6, 1.95}, {7, 29.97}, {7, 0.02}
};
static Machine& machine()
{
	static Machine m;
	return m;
}
static vector<vector<string> > rows(const string& text, vector<string>& head)
{
	istringstream f(text);
	string l;
	vector<vector<string> > r;
	bool first = true;
	while(getline(f, l))
	{
		istringstream w(l);
		vector<string> v;
		string t;
		while(w >> t)
			v.push_back(t);
		if(v.empty())
			continue;
		if(first)
			head = v;
		else
			r.push_back(v);
		first = false;
	}
	return r;
}
struct Row
{
	int el;
	double bin, pos;
	long n;
};
static int binOf(double pos)
{
	return int(floor(pos * 10 + 1e-6));
}
// numbers of losses expected per (element, bin), (element) or (position)
static void compare(LossMapCollimationOutput& o, OutputType t, const vector<Spot>& seen)
{
	const Machine& m = machine();
	// 1: the table in memory
	long sum = 0;
	for(auto& r : o.OutputLosses)
	{
		sum += long(r.lost);
		MC_CHECK(r.lost == floor(r.lost) && r.lost > 0, "loss-count-is-whole", S() << "row " << r.ElementName << " count " << r.lost);
	}
	MC_CHECK(sum == long(seen.size()), "every-loss-is-counted-once", S() << seen.size() << " losses, sum of the rows " << sum);
	MC_CHECK(o.DeadParticles.size() == seen.size(), "all-losses-are-kept", S() << seen.size() << " losses, kept " << o.DeadParticles.size());
	vector<Row> want;
	for(auto& sp : seen)
	{
		const Elem& e = m.e[sp.el];
		bool found = false;
		for(auto& w : want)
		{
			bool same = t == nearestelement ? w.el == sp.el :
				t == precise ? fabs(w.pos - (e.s + sp.pos)) < 1e-9 :
				w.el == sp.el && binOf(w.bin) == binOf(sp.pos);
			if(same)
			{
				++w.n;
				found = true;
				break;
			}
		}
		if(!found)
			want.push_back({sp.el, sp.pos, e.s + sp.pos, 1});
	}
	MC_CHECK(o.OutputLosses.size() == want.size(), "number-of-rows", S() << want.size() << " rows expected, rows " << o.OutputLosses.size());
	vector<char> used(want.size());
	double last = -1;
	for(auto& r : o.OutputLosses)
	{
		bool hit = false;
		double place = t == precise ? r.position : t == nearestelement ? r.s : r.s + r.interval;
		if(t != tencm)
		{
			MC_CHECK(place >= last - 1e-9, "rows-are-in-the-order-of-the-ring", S() << "row at " << place << " after " << last);
		}
		else
			MC_CHECK(r.s >= last - 1e-9, "rows-are-in-the-order-of-the-ring", S() << "row at " << r.s << " after " << last);
		last = t == tencm ? r.s : place;
		for(size_t i = 0; i < want.size() && !hit; ++i)
		{
			const Elem& e = m.e[want[i].el];
			if(used[i] || r.lost != double(want[i].n))
				continue;
			if(t == precise)
				hit = fabs(r.position - want[i].pos) < 1e-9;
			else
			{
				hit = r.ElementName == e.type + "." + e.name && r.s == e.s && r.length == e.len;
				if(t == tencm)
					hit = hit && fabs(r.interval - 0.1 * binOf(want[i].bin)) < 1e-9;
				int temp = e.type == "Collimator" ? LossData::Collimator : e.warm ? LossData::Warm : LossData::Cold;
				hit = hit && r.temperature == temp;
			}
			if(hit)
				used[i] = 1;
		}
		MC_CHECK(hit, "row", S() << "no such losses: " << r.ElementName << " s " << r.s << " bin " << r.interval << " position " << r.position << " count "
			<< r.lost << " temperature " << r.temperature << " length " << r.length);
	}
	if(t == precise)
		for(auto& r : o.OutputLosses)
		{
			// the element is one in which there was a loss at that position
			bool ok = false;
			for(auto& sp : seen)
			{
				const Elem& e = m.e[sp.el];
				int temp = e.type == "Collimator" ? LossData::Collimator : e.warm ? LossData::Warm : LossData::Cold;
				ok = ok || (fabs(e.s + sp.pos - r.position) < 1e-9 && r.ElementName == e.type + "." + e.name && r.s == e.s && r.temperature == temp);
			}
			MC_CHECK(ok, "element-of-a-position", S() << r.ElementName << " s " << r.s << " position " << r.position << " temperature " << r.temperature);
		}
	// 2: the table in text
	ostringstream f;
	f.precision(17);
	o.Output(&f);
	vector<string> head;
	auto tab = rows(f.str(), head);
	static const vector<string> H[] =
	{
		{"#Name", "s", "loss", "temperature", "length"},
		{"#Name", "s", "position", "loss", "temperature"},
		{"#Name", "s", "bin_start", "loss", "temperature", "length"}
	};
	MC_CHECK(head == H[t], "columns", f.str());
	MC_CHECK(tab.size() == o.OutputLosses.size(), "rows-in-text", f.str());
	for(size_t i = 0; i < tab.size(); ++i)
	{
		auto& r = o.OutputLosses[i];
		MC_CHECK(tab[i].size() == head.size(), "columns-in-text", f.str());
		map<string, string> v;
		for(size_t k = 0; k < head.size(); ++k)
			v[head[k]] = tab[i][k];
		bool ok = v["#Name"] == r.ElementName && atof(v["loss"].c_str()) == r.lost && atoi(v["temperature"].c_str()) == int(r.temperature);
		ok = ok && fabs(atof(v["s"].c_str()) - (t == tencm ? r.s + r.interval : r.s)) <= 1e-9;
		if(t == precise)
			ok = ok && fabs(atof(v["position"].c_str()) - r.position) <= 1e-9;
		else
			ok = ok && fabs(atof(v["length"].c_str()) - r.length) <= 1e-9;
		if(t == tencm)
			ok = ok && fabs(atof(v["bin_start"].c_str()) - r.interval) <= 1e-3;
		MC_CHECK(ok, "values-in-text", f.str());
	}
}
static string show(const vector<Spot>& v)
{
	string s;
	for(auto& x : v)
		s += machine().e[x.el].name + "@" + to_string(x.pos) + " ";
	return s;
}
static void history(OutputType t, const vector<int>& q, size_t mid, int warm)
{
	Machine& m = machine();
	LossMapCollimationOutput o(t);
	if(warm == 1)
	{
		o.SetWarmRegion({90, 100});
		o.ClearWarmRegions();
		MC_CHECK(o.GetWarmRegions().empty(), "no-warm-regions", "regions are left after ClearWarmRegions");
	}
	// two regions, in either order
	pair<double, double> a(1.9, 4.0), b(26000, 26050);
	o.SetWarmRegion(warm ? b : a);
	o.SetWarmRegion(warm ? a : b);
	MC_CHECK(o.GetWarmRegions().size() == 2, "warm-regions", "two regions expected");
	vector<Spot> seen;
	for(size_t i = 0; i <= q.size(); ++i)
	{
		if(i == mid || i == q.size())
		{
			o.Finalise();
			compare(o, t, seen);
		}
		if(i == q.size())
			break;
		const Spot& sp = SPOTS[q[i]];
		PSvector p(0.0);
		p.x() = 1e-3 * (i + 1);
		o.Dispose(*m.e[sp.el].c, sp.pos, p, int(i));
		seen.push_back(sp);
		mc::step();
	}
	// the lost particles themselves
	for(size_t i = 0; i < q.size(); ++i)
	{
		const Spot& sp = SPOTS[q[i]];
		int n = 0;
		for(auto& d : o.DeadParticles)
			n += d.p.x() == 1e-3 * (i + 1) && d.s == m.e[sp.el].s && fabs(d.position - m.e[sp.el].s - sp.pos) < 1e-9;
		MC_CHECK(n == 1, "lost-particle", S() << show(seen) << ": loss " << i << " is kept " << n << " times");
	}
}
MC_SECTION("lossmap")
{
	Quiet qt;
	auto t = OutputType(mc::choose(3));
	int n = mc::choose(mc::thorough() ? 5 : 4);
	vector<int> q;
	for(int i = 0; i < n; ++i)
		q.push_back(mc::choose(int(SPOTS.size())));
	size_t mid = size_t(mc::choose(n + 1));
	int warm = n < 3 ? mc::choose(2) : 0;
	vector<Spot> s;
	for(int i : q)
		s.push_back(SPOTS[i]);
	mc::note(S() << "output type " << t << " losses " << show(s) << "finalised after " << mid);
	mc::state(S() << t << show(s) << mid << warm);
	if(n == 3)
		mc::sample(S() << "type " << t << ": " << show(s));
	history(t, q, mid, warm);
}
// long histories: all spots k times, in every rotation and both directions
MC_SECTION("many")
{
	Quiet qt;
	auto t = OutputType(mc::choose(3));
	int rot = mc::choose(int(SPOTS.size())), dir = mc::choose(2), k = 1 + mc::choose(4);
	int stride = mc::pick<int>({1, 3, 5, 7});
	vector<int> q;
	int N = int(SPOTS.size());
	for(int j = 0; j < k * N; ++j)
	{
		int i = (rot + j * stride) % N;
		q.push_back(dir ? N - 1 - i : i);
	}
	mc::note(S() << "output type " << t << " rotation " << rot << " direction " << dir << " times " << k << " stride " << stride);
	mc::state(S() << "m" << t << rot << dir << k << stride);
	history(t, q, size_t(mc::choose(3)) * N / 2, 0);
}
// bins: every place of an element
MC_SECTION("bins")
{
	Quiet qt;
	Machine& m = machine();
	int i = mc::choose(mc::thorough() ? 30000 : 3000);
	double pos = 30.0 * i / (mc::thorough() ? 30000 : 3000);
	mc::note(S() << "loss at " << pos);
	mc::state(S() << "b" << i);
	LossMapCollimationOutput o(tencm);
	PSvector p(0.0);
	o.Dispose(*m.e[7].c, pos, p, 1);
	o.Finalise();
	MC_CHECK(o.OutputLosses.size() == 1, "one-row", S() << o.OutputLosses.size());
	double b = o.OutputLosses[0].interval;
	MC_CHECK(fabs(b * 10 - round(b * 10)) < 1e-6, "bins-start-at-multiples-of-10-cm", S() << "loss at " << pos << " bin " << b);
	MC_CHECK(pos >= b - 1e-9 && pos <= b + 0.1 + 1e-9, "bin-holds-the-loss", S() << "loss at " << pos << " bin " << b);
}
static const vector<string> IDS = {"*", "Z", "TC*", "M", "*A", "NONE", "W"};
MC_SECTION("detailed")
{
	Quiet qt;
	Machine& m = machine();
	int a = mc::choose(int(IDS.size()) + 1), b = a == int(IDS.size()) ? a : mc::choose(int(IDS.size()) + 1);
	vector<string> ids;
	if(a < int(IDS.size()))
		ids.push_back(IDS[a]);
	if(b < int(IDS.size()))
		ids.push_back(IDS[b]);
	int n = mc::choose(mc::thorough() ? 4 : 3);
	vector<int> q;
	for(int i = 0; i < n; ++i)
		q.push_back(mc::choose(int(SPOTS.size())));
	int prec = mc::pick<int>({6, 17});
	DetailedCollimationOutput o;
	for(auto& s : ids)
		o.AddIdentifier(s);
	vector<int> want;
	string desc;
	for(int i = 0; i < n; ++i)
	{
		const Spot& sp = SPOTS[q[i]];
		const Elem& e = m.e[sp.el];
		PSvector p(0.0);
		p.x() = -1.234567890123456e-3 * (i + 1);
		p.xp() = 2.34567890123456e-105;
		p.y() = 3.456789012345678e-3;
		p.yp() = -4.567890123456789e-105 * (i + 1);
		p.id() = 1e6 + i;
		o.Dispose(*e.c, sp.pos, p, 100 + i);
		mc::step();
		desc += e.name + "@" + to_string(sp.pos) + " ";
		for(auto& s : ids)
		{
			size_t st = s.find('*');
			bool hit = st == string::npos ? s == e.name :
				e.name.size() + 1 >= s.size() && e.name.compare(0, st, s, 0, st) == 0 &&
				e.name.compare(e.name.size() - (s.size() - st - 1), string::npos, s, st + 1, string::npos) == 0;
			if(hit)
			{
				want.push_back(i);
				break;
			}
		}
	}
	for(auto& s : ids)
		desc += " id " + s;
	mc::note(desc);
	mc::state(desc + to_string(prec));
	o.Finalise();
	ostringstream f;
	f.precision(prec);
	o.Output(&f);
	vector<string> head;
	auto tab = rows(f.str(), head);
	MC_CHECK(tab.size() == want.size(), "detailed-losses-of-the-chosen-elements", S() << desc << "\n" << f.str());
	for(size_t j = 0; j < tab.size(); ++j)
	{
		int i = want[j];
		const Spot& sp = SPOTS[q[i]];
		const Elem& e = m.e[sp.el];
		MC_CHECK(tab[j].size() == head.size(), "detailed-a-value-for-every-column", f.str());
		map<string, string> v;
		for(size_t k = 0; k < head.size(); ++k)
			v[head[k]] = tab[j][k];
		auto num = [&](const char* c, double x) {
			MC_CHECK(v.count(c), "detailed-columns", S() << c << "\n" << f.str());
			double y = atof(v[c].c_str());
			MC_CHECK(fabs(x - y) <= (prec == 6 ? 1e-5 : 1e-16) * fabs(x), "detailed-values", S() << c << " " << x << " written " << y << "\n" << f.str());
		};
		MC_CHECK(v["#name"] == e.name, "detailed-name", f.str());
		num("s", e.s);
		num("pos", sp.pos);
		num("x", -1.234567890123456e-3 * (i + 1));
		num("xp", 2.34567890123456e-105);
		num("y", 3.456789012345678e-3);
		num("yp", -4.567890123456789e-105 * (i + 1));
		num("id", 1e6 + i);
		num("turn", 100 + i);
	}
}
