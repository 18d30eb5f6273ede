// P27: collimators are set as their database says
#include "mc.h"
#include "MerlinIO.h"
#include "AcceleratorModel.h"
#include "AcceleratorModelConstructor.h"
#include "Components.h"
#include "Collimator.h"
#include "CollimatorAperture.h"
#include "CollimatorDatabase.h"
#include "CorrectorDipoles.h"
#include "LatticeFunctions.h"
#include "MaterialData.h"
#include "PhysicalConstants.h"
#include <fcntl.h>
#include <fstream>
#include <iomanip>
#include <memory>
#include <set>
#include <sstream>
#include <unistd.h>
using namespace std;
typedef long double LD;
struct Ring
{
	unique_ptr<AcceleratorModel> model;
	unique_ptr<LatticeFunctionTable> twiss;
	vector<Collimator*> coll;
	vector<size_t> row;
	vector<double> len;
};
static const double P0 = 100;
// a FODO cell with four collimators: first element, after a marker, next to another, and last
static int current = 0;
static const vector<string>& names() // all three one sided collimators have their names
{
	static const vector<string> v[3]{{"TCP.A", "TCS.B", "TCDQA.B4R6.B1", "TCLA.D"}, {"TCP.A", "TCS.B", "TCDQA.C4R6.B1", "TCLA.D"}, {"TCP.A", "TCS.B", "TCDQA.A4R6.B1", "TCLA.D"}};
	return v[current % 3];
}
static Ring& ring(int kind)
{
	static Ring rings[4];
	current = kind;
	Ring& r = rings[kind];
	if(r.model)
		return r;
	bool orbit = kind & 1, shared = kind & 2;
	AcceleratorModelConstructor ctor;
	double s = 0, brho = P0 / PhysicalConstants::SpeedOfLight * 1e9;
	size_t n = 0;
	auto add = [&](AcceleratorComponent* c) {
		c->SetComponentLatticePosition(s);
		s += c->GetLength();
		ctor.AppendComponent(c);
		n++;
	};
	vector<double> lens{0.6, 1, 1.3, 0.75};
	auto col = [&](int i) {
		r.row.push_back(n);
		r.len.push_back(lens[i]);
		add(new Collimator(names()[i], lens[i]));
	};
	col(0);
	add(new Drift("D1", 0.4));
	add(new Quadrupole("QF", 0.5, 0.35 * brho));
	if(orbit)
	{
		add(new XCor("HX", 0.1, 1e-3 * brho));
		add(new YCor("VX", 0.1, -2e-3 * brho));
	}
	add(new Marker("M1"));
	col(1);
	col(2);
	add(new Drift("D2", 0.3));
	add(new Quadrupole("QD", 0.5, -0.36 * brho));
	add(new Marker("M2"));
	add(new Marker("M3"));
	add(new Drift("D3", 0.7));
	col(3);
	if(shared)
		add(new Marker("END"));
	r.model.reset(ctor.GetModel());
	vector<Collimator*> cs;
	r.model->ExtractTypedElements(cs, "*");
	for(auto& nm : names())
		for(auto* c : cs)
			if(c->GetName() == nm)
				r.coll.push_back(c);
	r.twiss.reset(new LatticeFunctionTable(r.model.get(), P0));
	auto& t = *r.twiss;
	t.RemoveAllFunctions();
	t.AddFunction(1, 0, 0);
	t.AddFunction(3, 0, 0);
	t.AddFunction(1, 1, 1);
	t.AddFunction(3, 3, 2);
	// the calculation writes files where it is
	int here = open(".", O_RDONLY);
	char dir[] = "/tmp/mccdXXXXXX";
	if(!mkdtemp(dir) || chdir(dir))
		abort();
	t.Calculate();
	unlink("TransferMatrix.dat");
	if(fchdir(here))
		abort();
	close(here);
	rmdir(dir);
	return r;
}
static void file(const string& text, char* path)
{
	int fd = mkstemp(path);
	if(fd < 0 || write(fd, text.data(), text.size()) != (ssize_t) text.size())
		abort();
	close(fd);
}
static MaterialData& materials()
{
	static MaterialData* m = nullptr;
	if(!m)
	{
		m = new MaterialData;
		for(string s : {"Cu", "C", "W"})
			m->property[s] = new MaterialProperties(63, 1, 1, 1, 1, 0, 8900, 29);
	}
	return *m;
}
struct Line
{
	string name;
	double nx, ny, tilt;
	string mat;
};
struct Want
{
	LD cx, cy, w, h;     // entrance
	LD cx2, cy2, w2, h2; // exit
	double tilt;
	string mat, type;
};
static void close(LD a, LD b, const char* key, const string& d)
{
	MC_CHECK(fabsl(a - b) <= 1e-12L * (1e-3L + fabsl(b)), key, d << ": is " << double(a) << ", should be " << double(b));
}
static void check(Collimator* c, const Want* w, double len, const string& dd)
{
	string d = dd + ": " + c->GetName();
	if(!w)
	{
		MC_CHECK(c->GetAperture() == nullptr && c->GetMaterialProperties() == nullptr, "untouched", d << " is not in the database, but was set");
		return;
	}
	auto* a = dynamic_cast<CollimatorAperture*>(c->GetAperture());
	MC_CHECK(a != nullptr, "aperture", d << " has no collimator aperture");
	MC_CHECK(c->GetMaterialProperties() == materials().property[w->mat], "material", d << " has the wrong material");
	MC_CHECK(a->GetType() == w->type, "type", d << " has type " << a->GetType() << ", not " << w->type);
	MC_CHECK(a->GetCollimatorTilt() == w->tilt, "tilt", d << " has tilt " << a->GetCollimatorTilt());
	MC_CHECK(a->GetCollimatorLength() == len, "length", d << " has length " << a->GetCollimatorLength());
	close(a->GetFullEntranceWidth(), w->w, "width", d + " width");
	close(a->GetFullEntranceHeight(), w->h, "height", d + " height");
	close(a->GetEntranceXOffset(), w->cx, "x", d + " x offset");
	close(a->GetEntranceYOffset(), w->cy, "y", d + " y offset");
	if(w->type != "COLLIMATOR")
	{
		// parallel jaws
		LD ct = cosl(w->tilt), st = sinl(w->tilt);
		for(double z : {0., len / 2, len})
			for(double f : {0.999, 1.001})
				for(int k = 0; k < 4; k++)
				{
					LD u = k < 2 ? (k ? -f : f) * w->w / 2 : 0, v = k < 2 ? 0 : (k == 2 ? f : -f) * w->h / 2;
					bool in = a->CheckWithinApertureBoundaries(double(w->cx + u * ct - v * st), double(w->cy + u * st + v * ct), z);
					bool should = f < 1 || (k == 1 && w->type == "ONE-SIDED COLLIMATOR");
					MC_CHECK(in == should, "jaws", d << " jaw " << k << " at z " << z << ": " << (in ? "passes" : "stops") << " what is " << f << " of the opening away");
				}
		return;
	}
	close(a->GetFullExitWidth(), w->w2, "exit-width", d + " exit width");
	close(a->GetFullExitHeight(), w->h2, "exit-height", d + " exit height");
	close(a->GetExitXOffset(), w->cx2, "exit-x", d + " exit x offset");
	close(a->GetExitYOffset(), w->cy2, "exit-y", d + " exit y offset");
}
static Want want(const Ring& r, int i, const Line& l, LD ex, LD ey, bool match)
{
	Want w;
	w.tilt = l.tilt;
	w.mat = l.mat;
	LD c = cosl(l.tilt), s = sinl(l.tilt);
	size_t n = r.row[i];
	auto& t = *r.twiss;
	LD cx[2], cy[2], gw[2], gh[2];
	for(int e = 0; e < 2; e++)
	{
		LD bx = t.Value(1, 1, 1, n + e), by = t.Value(3, 3, 2, n + e);
		cx[e] = t.Value(1, 0, 0, n + e);
		cy[e] = t.Value(3, 0, 0, n + e);
		gw[e] = l.nx * sqrtl(bx * ex * c * c + by * ey * s * s);
		gh[e] = l.ny * sqrtl(bx * ex * s * s + by * ey * c * c);
	}
	if(match)
	{
		w.type = "COLLIMATOR";
		w.cx = cx[0];
		w.cy = cy[0];
		w.cx2 = cx[1];
		w.cy2 = cy[1];
		w.w = 2 * gw[0];
		w.h = 2 * gh[0];
		w.w2 = 2 * gw[1];
		w.h2 = 2 * gh[1];
		return w;
	}
	// jaws clear the envelope at both ends
	w.type = l.name.find("TCDQA") == 0 ? "ONE-SIDED COLLIMATOR" : "UNALIGNED COLLIMATOR";
	LD up = -1e9L, um = 1e9L, vp = -1e9L, vm = 1e9L;
	for(int e = 0; e < 2; e++)
	{
		LD u = cx[e] * c + cy[e] * s, v = -cx[e] * s + cy[e] * c;
		up = max(up, u + gw[e]);
		um = min(um, u - gw[e]);
		vp = max(vp, v + gh[e]);
		vm = min(vm, v - gh[e]);
	}
	w.w = up - um;
	w.h = vp - vm;
	LD u = (up + um) / 2, v = (vp + vm) / 2;
	w.cx = u * c - v * s;
	w.cy = u * s + v * c;
	return w;
}
static void reset(Ring& r)
{
	set<Aperture*> old;
	for(auto* c : r.coll)
	{
		old.insert(c->GetAperture());
		c->SetAperture(nullptr);
		c->SetMaterialProperties(nullptr);
	}
	for(auto* a : old)
		delete a;
}
static const vector<double>& tilts()
{
	static const vector<double> v{0, M_PI / 2, 0.7, -2.2};
	return v;
}
MC_SECTION("in-sigmas")
{
	int kind = mc::choose(4);
	Ring& r = ring(kind);
	reset(r);
	// each collimator of the ring is in the database or not; lines for what is not in the ring; order
	int mask = mc::choose(16);
	bool other = mc::choose(2), rev = mc::choose(2), match = mc::choose(2), logs = mc::choose(2);
	int var = mc::choose(mc::thorough() ? 12 : 6);
	auto em = mc::pick(vector<pair<double, double> >{{1e-8, 1e-8}, {3e-9, 5e-8}, {2e-8, 4e-10}});
	vector<Line> lines;
	for(int i = 0; i < 4; i++)
		if(mask & (1 << i))
			lines.push_back({names()[i], 5. + i + var, 99. - 40 * (i % 2) - 7 * var, tilts()[(i + var) % 4], i % 2 ? "C" : "W"});
	if(other)
		lines.insert(lines.begin() + lines.size() / 2, {"TCX.NOT.HERE", 1, 1, 0, "Cu"});
	if(rev)
		reverse(lines.begin(), lines.end());
	mc::S d;
	d << "ring " << kind << " match " << match << " emittances " << em.first << "," << em.second;
	ostringstream f;
	f << setprecision(17);
	for(auto& l : lines)
	{
		f << l.name << "\t" << l.nx << "  " << l.ny << " " << l.tilt << "\t" << l.mat << "\n";
		d << " [" << l.name << " " << l.nx << " " << l.ny << " " << l.tilt << " " << l.mat << "]";
	}
	int primary = mc::choose(3); // none, first line, not there
	double impact = 1e-6;
	mc::note(d);
	mc::state(string(d) + char('0' + primary));
	char path[] = "/tmp/mccollXXXXXX";
	file(f.str(), path);
	CollimatorDatabase db(path, &materials(), true);
	unlink(path);
	MC_CHECK(db.number_collimators == lines.size(), "count", d << ": " << db.number_collimators << " collimators read");
	db.MatchBeamEnvelope(match);
	ostringstream log, err;
	db.SetLogFile(log);
	db.EnableLogging(logs);
	db.SetErrorLogFile(err);
	db.EnableErrorLogging(logs);
	string prim;
	if(primary == 1 && !lines.empty())
		prim = lines[0].name;
	if(primary == 2)
		prim = "NOWHERE";
	if(primary)
		db.SelectImpactFactor(prim, impact);
	double got = db.ConfigureCollimators(r.model.get(), em.first, em.second, r.twiss.get());
	LD expect = 1;
	for(int i = 0; i < 4; i++)
	{
		const Line* l = nullptr;
		for(auto& x : lines)
			if(x.name == names()[i])
				l = &x;
		Want w;
		if(l)
		{
			w = want(r, i, *l, em.first, em.second, match);
			if(l->name == prim)
			{
				Want m = want(r, i, *l, em.first, em.second, true);
				expect = l->nx + impact / (m.w / 2 / l->nx);
			}
		}
		check(r.coll[i], l ? &w : nullptr, r.len[i], d);
		if(l && logs)
			MC_CHECK(log.str().find(l->name) != string::npos, "log", d << ": " << l->name << " is not logged");
	}
	close(got, expect, "impact", string(d) + " sigma of the impact");
	mc::sample(d);
	reset(r);
}
// configuring again replaces what was there
MC_SECTION("histories")
{
	Ring& r = ring(mc::choose(2));
	reset(r);
	vector<Line> lines;
	for(int i = 0; i < 4; i++)
		lines.push_back({names()[i], 6. + i, 20, tilts()[i], i % 2 ? "C" : "W"});
	ostringstream f;
	f << setprecision(17);
	for(auto& l : lines)
		f << l.name << " " << l.nx << " " << l.ny << " " << l.tilt << " " << l.mat << endl;
	char path[] = "/tmp/mccollXXXXXX";
	file(f.str(), path);
	CollimatorDatabase db(path, &materials(), true);
	unlink(path);
	bool match = true;
	mc::S d;
	vector<Aperture*> old;
	for(int n = 0; n < (mc::thorough() ? 5 : 4); n++)
	{
		static const vector<double> E{1e-8, 4e-8};
		int op = mc::choose(5);
		if(op < 2)
			db.MatchBeamEnvelope(match = op);
		else if(op == 2)
			db.SelectImpactFactor(lines[n % 4].name, 1e-5);
		else
		{
			for(auto* c : r.coll)
				old.push_back(c->GetAperture());
			double ex = E[op - 3], ey = E[4 - op];
			d << " configure " << ex << "," << ey << " match " << match;
			mc::note(d);
			db.ConfigureCollimators(r.model.get(), ex, ey, r.twiss.get());
			for(int i = 0; i < 4; i++)
			{
				Want w = want(r, i, lines[i], ex, ey, match);
				check(r.coll[i], &w, r.len[i], d);
			}
		}
	}
	for(auto* a : old)
		delete a;
	mc::state(d);
	reset(r);
}
MC_SECTION("in-metres")
{
	Ring& r = ring(mc::choose(2));
	reset(r);
	int mask = mc::choose(16);
	bool rev = mc::choose(2), other = mc::choose(2);
	int var = mc::choose(4);
	bool nl = mc::choose(2);
	struct L
	{
		string name, text, mat;
		double x, y, tilt;
	};
	vector<L> lines;
	for(int i = 0; i < 4; i++)
		if(mask & (1 << i))
		{
			L l{names()[i], "", i % 2 ? "C" : "Cu", 1e-3 * (i + 1 + var), 0.02 / (1 + var + i), tilts()[(i + var) % 4]};
			lines.push_back(l);
		}
	if(other)
		lines.push_back({"NOT.HERE", "", "W", 1, 1, 0});
	if(rev)
		reverse(lines.begin(), lines.end());
	ostringstream f;
	f << setprecision(17);
	mc::S d;
	for(auto& l : lines)
	{
		ostringstream o;
		o << setprecision(17) << l.name << " " << l.x << " " << l.y << " " << l.tilt << " 0 0 0 0 1 " << l.mat;
		f << (&l == &lines[0] ? "" : "\n") << o.str();
		d << " [" << o.str() << "]";
	}
	if(nl)
		f << "\n\n";
	mc::note(d);
	mc::state(d);
	char path[] = "/tmp/mccollXXXXXX";
	file(f.str(), path);
	CollimatorDatabase db(path, &materials(), false);
	unlink(path);
	MC_CHECK(db.number_collimators == lines.size(), "count", d << ": " << db.number_collimators << " collimators read");
	ostringstream log;
	db.SetLogFile(log);
	db.EnableLogging(nl);
	db.ConfigureCollimators(r.model.get());
	for(int i = 0; i < 4; i++)
	{
		const L* l = nullptr;
		for(auto& x : lines)
			if(x.name == names()[i])
				l = &x;
		Want w;
		if(l)
			w = {0, 0, l->x, l->y, 0, 0, l->x, l->y, l->tilt, l->mat, "COLLIMATOR"};
		check(r.coll[i], l ? &w : nullptr, r.len[i], d);
	}
	mc::sample(d);
	reset(r);
}
