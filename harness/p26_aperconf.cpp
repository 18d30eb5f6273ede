// P26: elements get the aperture of the place they are at
#include "mc.h"
#include "MerlinIO.h"
#include "AcceleratorModel.h"
#include "AcceleratorModelConstructor.h"
#include "Components.h"
#include "Aperture.h"
#include "InterpolatedApertures.h"
#include "ApertureConfiguration.h"
#include "DataTable.h"
#include <fstream>
#include <iomanip>
#include <memory>
#include <sstream>
#include <unistd.h>
using namespace std;
typedef long double LD;
struct Ap
{
	string type;
	vector<double> a;
};
static const vector<Ap>& aps()
{
	static const vector<Ap> v{{"CIRCLE", {1, 0, 0, 0}}, {"CIRCLE", {0.4, 0, 0, 0}}, {"ELLIPSE", {0.8, 0.5, 0, 0}}, {"ELLIPSE", {0.3, 0.9, 0, 0}}, {"RECTELLIPSE", {0.5, 0.9, 0.7, 0.95}}, {"RECTELLIPSE", {0.6, 0.4, 0.65, 0.65}}, {"OCTAGON", {0.6, 0.5, 0.3, 1.2}}, {"OCTAGON", {0.9, 0.8, 0.5, 1.0}}, {"RECTANGLE", {0.7, 0.45, 0, 0}}};
	return v;
}
static LD rectg(LD w, LD h, LD x, LD y)
{
	return min((w - fabsl(x)) / w, (h - fabsl(y)) / h);
}
static LD ellg(LD a, LD b, LD x, LD y)
{
	return 1 - sqrtl(x * x / (a * a) + y * y / (b * b));
}
static LD g(const Ap& p, LD x, LD y)
{
	auto& a = p.a;
	if(p.type == "CIRCLE")
		return ellg(a[0], a[0], x, y);
	if(p.type == "ELLIPSE")
		return ellg(a[0], a[1], x, y);
	if(p.type == "RECTANGLE")
		return rectg(a[0], a[1], x, y);
	if(p.type == "RECTELLIPSE")
		return min(rectg(a[0], a[1], x, y), ellg(a[2], a[3], x, y));
	LD px = a[0], py = a[0] * tanl(a[2]), qx = a[1] / tanl(a[3]), qy = a[1];
	LD ux = qx - px, uy = qy - py;
	return min(rectg(a[0], a[1], x, y), (ux * (fabsl(y) - py) - uy * (fabsl(x) - px)) / (uy * px - ux * py));
}
static Ap asRectEllipse(const Ap& p)
{
	if(p.type == "CIRCLE")
		return {"RECTELLIPSE", {p.a[0], p.a[0], p.a[0], p.a[0]}};
	if(p.type == "ELLIPSE")
		return {"RECTELLIPSE", {p.a[0], p.a[1], p.a[0], p.a[1]}};
	return p;
}
static Ap mix(const Ap& p, const Ap& q, double t)
{
	Ap r = p, s = q;
	if(p.type != q.type)
	{
		r = asRectEllipse(p);
		s = asRectEllipse(q);
	}
	for(int i = 0; i < 4; i++)
		r.a[i] += t * (s.a[i] - r.a[i]);
	return r;
}
static string str(const Ap& p)
{
	mc::S s;
	s << p.type << "(" << p.a[0] << "," << p.a[1] << "," << p.a[2] << "," << p.a[3] << ")";
	return s;
}
// compares an aperture with the shapes it may have at z; inner: what is in both must be inside, and nothing else is known
static void compare(const Aperture& a, double z, const vector<Ap>& may, const vector<Ap>* both, const string& d)
{
	static const vector<double> R = mc::thorough() ? vector<double>{0.05, 0.3, 0.39, 0.41, 0.45, 0.5, 0.55, 0.6, 0.65, 0.7, 0.75, 0.8, 0.85, 0.9, 0.95, 0.99, 1.01, 1.2} : vector<double>{0.05, 0.5, 0.8, 1.2};
	const int N = mc::thorough() ? 24 : 12;
	for(int i = 0; i < N; i++)
	{
		double t = 2 * M_PI * i / N + (i % 2 ? 0.01 : 0);
		vector<double> rs = R;
		// close to the boundaries of the candidates
		for(auto& p : may)
		{
			// 1 - g is proportional to the distance from the axis
			LD lo = 1 / (1 - g(p, cosl(t), sinl(t)));
			rs.push_back(double(lo) * (1 - 1e-6));
			rs.push_back(double(lo) * (1 + 1e-6));
		}
		for(double r : rs)
		{
			mc::step();
			double x = r * cos(t), y = r * sin(t);
			bool in = a.CheckWithinApertureBoundaries(x, y, z);
			if(both)
			{
				bool all = true;
				for(auto& p : *both)
					all = all && g(p, x, y) > 1e-9L;
				MC_CHECK(!all || in, "inside-both", d << " z " << z << ": point " << x << "," << y << " is inside of the apertures before and after, but lost");
				continue;
			}
			bool ok = false, near = false;
			for(auto& p : may)
			{
				LD v = g(p, x, y);
				near = near || fabsl(v) < 1e-7L;
				ok = ok || (v > 0) == in;
			}
			MC_CHECK(ok || near, in ? "passed-outside" : "stopped-inside", d << " z " << z << ": point " << x << "," << y << " taken as " << (in ? "inside" : "outside") << " of " << str(may[0]) << (may.size() > 1 ? " or " + str(may[1]) : string()));
		}
	}
}
struct Row
{
	double s;
	Ap a;
};
// the apertures that may be meant at s: two at a jump
static vector<pair<Ap, vector<Ap> > > at(const vector<Row>& t, double s)
{
	const double eps = 2e-7;
	vector<pair<Ap, vector<Ap> > > r;
	for(auto& row : t)
		if(fabs(row.s - s) <= eps)
			r.push_back({row.a, {}});
	if(!r.empty())
		return r;
	for(size_t i = 1; i < t.size(); i++)
		if(t[i - 1].s < s && s < t[i].s)
			r.push_back({mix(t[i - 1].a, t[i].a, (s - t[i - 1].s) / (t[i].s - t[i - 1].s)), {t[i - 1].a, t[i].a}});
	return r;
}
static bool exact(const Ap& p, const Ap& q)
{
	return (p.type != "RECTANGLE" && q.type != "RECTANGLE") || (p.type == q.type && p.a == q.a);
}
static bool supported(const vector<Row>& t)
{
	bool oct = false, other = false, rect = false, rectdiff = false;
	for(auto& r : t)
	{
		if(r.a.type == "OCTAGON")
			oct = true;
		else
			other = true;
		if(r.a.type == "RECTANGLE")
			rect = true;
	}
	(void) rect;
	(void) rectdiff;
	return !(oct && other);
}
MC_SECTION("configuration")
{
	// table
	int lay = mc::choose(4);
	static const vector<vector<pair<double, double> > > layouts{{{1, 1}, {2, 1}, {3, 1}}, {{0.5, 0.5}, {2, 1}, {3, 0.5}}, {{0, 0}, {1.25, 0}, {3, 0}}, {{1, 1}, {3, 2}, {3, 0}}};
	double scale = mc::thorough() ? mc::pick(vector<double>{1, 0.1, 1. / 3}) : mc::pick(vector<double>{1, 1. / 3});
	vector<Row> table;
	vector<int> k;
	mc::S d;
	d << "scale " << scale << " table";
	struct L
	{
		double s, l;
		Ap k;
	};
	vector<L> lines;
	// any three apertures, or the same one with some of its parameters changed
	bool some = mc::choose(2);
	vector<Ap> var;
	if(some)
	{
		auto ty = mc::pick(vector<Ap>{{"CIRCLE", {0.7, 0, 0, 0}}, {"ELLIPSE", {0.8, 0.5, 0, 0}}, {"RECTELLIPSE", {0.6, 0.5, 0.7, 0.6}}, {"OCTAGON", {0.7, 0.6, 0.4, 1.1}}});
		int np = ty.type == "CIRCLE" ? 1 : ty.a[2] == 0 ? 2 : 4, mask = 1 + mc::choose((1 << np) - 1);
		int place = mc::choose(mc::thorough() ? 7 : 3);
		Ap ch = ty;
		for(int i = 0; i < np; i++)
			if(mask & (1 << i))
				ch.a[i] *= 0.92;
		static const int where[] = {2, 1, 4, 3, 5, 6, 7};
		for(int i = 0; i < 3; i++)
			var.push_back(where[place] & (1 << i) ? ch : ty);
	}
	size_t vi = 0;
	for(auto& p : layouts[lay])
	{
		// without the second ellipse and octagon, quickly
		static const vector<int> few{0, 1, 2, 5, 6, 8};
		Ap a = some ? var[vi++] : aps()[mc::thorough() ? mc::choose(aps().size()) : mc::pick(few)];
		lines.push_back({p.first, p.second, a});
		for(double s : {p.first - p.second, p.first})
			table.push_back({s * scale, a});
		d << " [" << (p.first - p.second) << "," << p.first << "] " << str(a);
	}
	if(!supported(table))
		return mc::prune();
	// lattice
	int lat = mc::choose(5);
	static const vector<vector<pair<char, double> > > lattices{{{'d', 3}}, {{'d', 1}, {'q', 1}, {'d', 1}}, {{'q', 0.5}, {'d', 0.75}, {'q', 0.25}, {'d', 1.5}}, {{'d', 0.25}, {'m', 0}, {'d', 2.25}, {'q', 0.5}}, {{'x', 1}, {'d', 1.125}, {'d', 0.875}}};
	AcceleratorModelConstructor ctor;
	double s = 0;
	int n = 0;
	d << " lattice";
	CircularAperture* own = nullptr;
	for(auto& e : lattices[lat])
	{
		AcceleratorComponent* c;
		double len = e.second * scale;
		string nm = string(1, e.first) + to_string(n++);
		if(e.first == 'd' || e.first == 'x')
			c = new Drift(nm, len);
		else if(e.first == 'q')
			c = new Quadrupole(nm, len, 0);
		else
			c = new Marker(nm);
		if(e.first == 'x')
			c->SetAperture(own = new CircularAperture(0.123));
		c->SetComponentLatticePosition(s);
		s += len;
		ctor.AppendComponent(c);
		d << " " << e.first << e.second;
	}
	mc::note(d);
	mc::state(d);
	unique_ptr<AcceleratorModel> model(ctor.GetModel());
	char path[] = "/tmp/mcapXXXXXX";
	close(mkstemp(path));
	{
		ofstream f(path);
		f << setprecision(17) << "* KEYWORD NAME PARENT S L APER_1 APER_2 APER_3 APER_4 APERTYPE\n$ %s %s %s %le %le %le %le %le %le %s\n";
		f << " MARKER M0 MARKER 0 0 0 0 0 0 \"CIRCLE\"\n";
		for(auto& l : lines)
		{
			f << " DRIFT D DRIFT " << l.s * scale << " " << l.l * scale;
			for(double x : l.k.a)
				f << " " << x;
			f << " \"" << l.k.type << "\"\n";
		}
	}
	ApertureConfiguration conf(path);
	unlink(path);
	ostringstream log;
	conf.SetLogFile(log);
	conf.ConfigureElementApertures(model.get());
	vector<AcceleratorComponent*> els;
	model->ExtractTypedElements(els, "*");
	MC_CHECK(els.size() == lattices[lat].size(), "elements", d);
	for(auto* c : els)
	{
		string dd = string(d) + ": " + c->GetName();
		Aperture* a = c->GetAperture();
		char t = c->GetName()[0];
		if(t == 'm')
		{
			MC_CHECK(a == nullptr, "zero-length", dd << " has an aperture");
			continue;
		}
		if(t == 'x')
		{
			MC_CHECK(a == own, "kept", dd << " lost its aperture");
			continue;
		}
		MC_CHECK(a != nullptr, "none", dd << " has no aperture");
		double p = c->GetComponentLatticePosition(), len = c->GetLength();
		if(t == 'q')
		{
			// that of the first entry at or after the entrance
			vector<Ap> may;
			double first = 1e9;
			for(auto& r : table)
				if(r.s >= p - 1e-9)
				{
					// within rounding of the entrance, either
					if(first > 1e8 || fabs(r.s - p) < 1e-9 || (fabs(first - p) < 1e-9 && (r.s <= p + 1e-9 || may.size() == 1)))
						may.push_back(r.a);
					if(first > 1e8)
						first = r.s;
					if(r.s > p + 1e-9)
						break;
				}
			for(double z : {0., len / 2, len})
				compare(*a, z, may, nullptr, dd + " (magnet)");
			continue;
		}
		vector<double> zs{0, len, len / 2, len / 7, 0.83 * len};
		for(auto& r : table)
			for(double dz : {-1e-3, 0., 1e-3})
				if(r.s + dz > p && r.s + dz < p + len)
					zs.push_back(r.s + dz - p);
		for(double z : zs)
		{
			auto v = at(table, p + z);
			MC_CHECK(!v.empty(), "table", dd);
			vector<Ap> may;
			bool ex = true;
			for(auto& m : v)
			{
				may.push_back(m.first);
				if(!m.second.empty() && !exact(m.second[0], m.second[1]))
					ex = false;
			}
			compare(*a, z, may, ex ? nullptr : &v[0].second, dd);
		}
	}
	string l = log.str();
	for(auto* c : els)
		MC_CHECK(l.find(c->GetName()) != string::npos || c->GetName()[0] == 'm' || c->GetName()[0] == 'x', "log", d << ": " << c->GetName() << " is not logged");
	{
		// the list of what was configured
		ostringstream list;
		list << setprecision(17);
		conf.OutputConfiguredAperture(model.get(), list);
		istringstream in(list.str());
		string line;
		size_t row = 0;
		for(auto* c : els)
		{
			if(!c->GetAperture())
				continue;
			MC_CHECK(bool(getline(in, line)), "list", d << ": " << c->GetName() << " is not in the list of configured apertures");
			istringstream ls(line);
			size_t nr = 0, i1 = 0, i2 = 0;
			string nm, qn, em, ty;
			double p = -1, len = -1;
			ls >> nr >> i1 >> nm >> qn >> em >> ty >> p >> len >> i2;
			MC_CHECK(ls && nr == ++row && nm == c->GetName() && qn == c->GetQualifiedName() && ty == c->GetType() && fabs(p - c->GetComponentLatticePosition()) < 1e-12
				&& fabs(len - c->GetLength()) < 1e-12, "list", d << ": row of " << c->GetName() << " is \"" << line << "\"");
		}
		MC_CHECK(!getline(in, line), "list", d << ": more rows than configured apertures");
	}
	if(lay == 0)
	{
		// configuring again changes nothing
		vector<Aperture*> was;
		for(auto* c : els)
			was.push_back(c->GetAperture());
		conf.ConfigureElementApertures(model.get());
		for(size_t i = 0; i < els.size(); i++)
			MC_CHECK(els[i]->GetAperture() == was[i], "again", d << ": aperture replaced by configuring again");
	}
	conf.DeleteAllApertures(model.get());
	for(auto* c : els)
		MC_CHECK(c->GetAperture() == nullptr, "deleted", d << ": " << c->GetName() << " still has an aperture");
	mc::sample(d);
}
// interpolated apertures by themselves
MC_SECTION("interpolated")
{
	string type = mc::pick(vector<string>{"CIRCLE", "ELLIPSE", "RECTELLIPSE", "OCTAGON"});
	vector<Ap> pool;
	for(auto& p : aps())
		if(p.type == type)
			pool.push_back(p);
	{
		Ap t = pool[0];
		t.a[0] *= 0.7;
		if(type != "CIRCLE")
			t.a[1] *= 1.1;
		pool.push_back(t);
	}
	int n = 2 + mc::choose(3);
	static const vector<vector<double> > pos{{-0.5, 1, 2, 2.5}, {0, 1.5, 1.5, 3}, {0, 0, 0.25, 1}, {0, 1, 2, 3}};
	auto& ps = mc::pick(pos);
	DataTable dt;
	dt.AddColumn("APERTYPE", 's');
	dt.AddColumn("S", 'd');
	for(string c : {"APER_1", "APER_2", "APER_3", "APER_4"})
		dt.AddColumn(c, 'd');
	vector<Row> table;
	mc::S d;
	for(int i = 0; i < n; i++)
	{
		const Ap& p = mc::pick(pool);
		dt.AddRow();
		dt.Set("APERTYPE", i, type);
		dt.Set_d("S", i, ps[i]);
		for(int k = 0; k < 4; k++)
			dt.Set_d("APER_" + to_string(k + 1), i, p.a[k]);
		table.push_back({ps[i], p});
		d << ps[i] << ":" << str(p) << " ";
	}
	mc::note(d);
	mc::state(d);
	unique_ptr<Aperture> a(InterpolatorFactory::GetInstance(dt));
	MC_CHECK(a != nullptr && a->GetType() == type + "-interpolated", "type", d);
	// z increasing, decreasing and out of the range
	vector<double> zs{0, 0.1, 0.25, 0.9, 1, 1.2, 1.5, 1.7, 2, 2.4, 2.9, 3, 5, 2.2, 1.5, 0.3, 0, -0.2};
	for(double z : zs)
	{
		double s = max(z, 0.);
		vector<Ap> may;
		if(s > table.back().s)
			may.push_back(table.back().a);
		else
			for(auto& m : at(table, s))
				may.push_back(m.first);
		compare(*a, z, may, nullptr, d);
	}
	mc::sample(d);
}
