// P30: a lattice file gives the model it describes
#include "mc.h"
#include "MerlinIO.h"
#include "Components.h"
#include "AcceleratorModelConstructor.h"
#include "AcceleratorModel.h"
#include "SequenceFrame.h"
#include "MagnetMover.h"
#include "SupportStructure.h"
#include "PatchFrame.h"
#include "MADInterface.h"
#include "ParticleTracker.h"
#include "ParticleBunch.h"
#include "PhysicalConstants.h"
#include "PhysicalUnits.h"
#include "HollowElectronLens.h"
#include "CrabMarker.h"
#include "TransverseRFStructure.h"
#include <fstream>
#include <unistd.h>
using namespace std;
using namespace ParticleTracking;
using namespace PhysicalConstants;
using namespace PhysicalUnits;
static const char* COLS[] = {"L", "ANGLE", "K0L", "K1L", "K2L", "K3L", "E1", "E2", "TILT", "KS", "HKICK", "VKICK", "FREQ", "LAG", "VOLT", "MUX", "MUY"};
struct Row
{
	string kw, name;
	map<string, double> v;
	double operator[](const string& k) const
	{
		auto i = v.find(k);
		return i == v.end() ? 0 : i->second;
	}
};
static string table(const vector<Row>& rows, const set<string>& without = {})
{
	mc::S h, t, s;
	h << "@ TYPE %08s \"OPTICS\"\n* NAME KEYWORD";
	t << "$ %s %s";
	for(auto c : COLS)
		if(!without.count(c))
		{
			h << " " << c;
			t << " %le";
		}
	string r = string(h) + "\n" + string(t) + "\n";
	for(auto& x : rows)
	{
		r += "\"" + x.name + "\" \"" + x.kw + "\"";
		for(auto c : COLS)
			if(!without.count(c))
			{
				char b[40];
				snprintf(b, sizeof b, " %.15g", x[c]);
				r += b;
			}
		r += "\n";
	}
	return r;
}
struct Silence
{
	ofstream null;
	streambuf* o, * e, * w;
	Silence() :
		null("/dev/null"), o(cout.rdbuf(null.rdbuf())), e(cerr.rdbuf(null.rdbuf())), w(clog.rdbuf(null.rdbuf()))
	{
	}
	~Silence()
	{
		cout.rdbuf(o);
		cerr.rdbuf(e);
		clog.rdbuf(w);
	}
};
static double brho(double p)
{
	return p / eV / SpeedOfLight;
}
static vector<AcceleratorComponent*> comps(AcceleratorModel& m)
{
	vector<AcceleratorComponent*> r;
	auto bl = m.GetBeamline();
	for(auto i = bl.begin(); i != bl.end(); ++i)
		if((*i)->IsComponent())
			r.push_back(&(*i)->GetComponent());
	return r;
}
static PSvector track(AcceleratorComponent* c, double p0, PSvector z)
{
	ParticleBunch b(p0, 1);
	b.AddParticle(z);
	ParticleComponentTracker ct;
	ct.SetBunch(b);
	c->PrepareTracker(ct);
	ct.TrackStep(c->GetLength());
	z = b.GetParticles()[0];
	z.dp() = b.GetReferenceMomentum() * (1 + z.dp()) / p0 - 1;
	return z;
}
struct Kind
{
	string kw, type; // type "" : no element
};
static const vector<Kind> KINDS{{"DRIFT", "Drift"}, {"RBEND", "SectorBend"}, {"SBEND", "SectorBend"}, {"QUADRUPOLE", "Quadrupole"}, {"SKEWQUAD", "SkewQuadrupole"}, {"SEXTUPOLE", "Sextupole"}, {"SKEWSEXT", "SkewSextupole"}, {"OCTUPOLE", "Octupole"},
	{"YCOR", "YCor"}, {"XCOR", "XCor"}, {"VKICKER", "YCor"}, {"HKICKER", "XCor"}, {"SOLENOID", "Solenoid"}, {"RFCAVITY", "SWRFStructure"}, {"LCAV", "SWRFStructure"}, {"CRABMARKER", "CrabMarker"}, {"CRABRF", "TransverseRFStructure"},
	{"COLLIMATOR", "Collimator"}, {"RCOLLIMATOR", "Collimator"}, {"ECOLLIMATOR", "Collimator"}, {"HEL", "HollowElectronLens"}, {"MONITOR", "BPM"}, {"MONITOR", "RMSProfileMonitor"}, {"MARKER", "Marker"},
	{"INSTRUMENT", "Drift"}, {"PLACEHOLDER", "Drift"}, {"VMONITOR", "Drift"}, {"HMONITOR", "Drift"}, {"KICKER", "Drift"}, {"TKICKER", "Drift"}, {"MATRIX", "Drift"}};
static Row row(const string& kw, const string& name, double L)
{
	Row r;
	r.kw = kw;
	r.name = name;
	r.v["L"] = L;
	return r;
}
MC_SECTION("elements")
{
	int k = mc::choose(KINDS.size());
	const Kind& kind = KINDS[k];
	string kw = kind.kw;
	double P = mc::pick(vector<double>{1, 7000}), L = mc::pick(vector<double>{0.8, 2.5, 0});
	int a = mc::choose(3), b = mc::choose(3), cols = mc::choose(3);
	Row r = row(kw, kind.type == "RMSProfileMonitor" ? "WS.1" : "EL.1", L);
	bool bend = kw == "RBEND" || kw == "SBEND", rf = kind.type == "SWRFStructure", quad = kind.type == "Quadrupole" || kind.type == "SkewQuadrupole";
	bool single = rf && mc::choose(2);
	set<string> without;
	const double nb[] = {0, 1, -1};
	if(bend)
	{
		double ang = nb[a] * 0.02;
		if(cols == 1)
			without.insert("K0L"); // as MAD8 writes
		if(cols == 2) // bends given by K0L
		{
			without.insert("ANGLE");
			if(a == 0)
				mc::prune();
		}
		r.v["ANGLE"] = ang;
		r.v["K0L"] = cols == 0 && b == 1 ? 0 : ang;
		r.v["K1L"] = nb[b] * 0.1;
		int e = mc::choose(4);
		r.v["E1"] = e & 1 ? 0.01 : 0;
		r.v["E2"] = e & 2 ? -0.015 : 0;
		r.v["TILT"] = mc::choose(2) ? 0.3 : 0;
		if(ang == 0 && r["TILT"] != 0)
			mc::prune(); // quadrupoles are not tilted
	}
	else if(cols)
		mc::prune();
	if(quad)
		r.v["K1L"] = nb[a] * 0.15;
	if(kind.type == "Sextupole" || kind.type == "SkewSextupole")
		r.v["K2L"] = nb[a] * 0.4;
	if(kind.type == "Octupole")
		r.v["K3L"] = nb[a] * 5;
	if(kw == "VKICKER")
		r.v["VKICK"] = nb[a] * 1e-4;
	if(kw == "HKICKER")
		r.v["HKICK"] = nb[a] * 1e-4;
	if(kw == "SOLENOID")
		r.v["KS"] = nb[a] * 0.2;
	double freq = 400, cell = SpeedOfLight / (freq * 1e6) / 2;
	if(rf)
	{
		r.v["FREQ"] = freq;
		r.v["VOLT"] = 12;
		r.v["LAG"] = a * 0.25;
		r.v["L"] = L = b == 2 ? cell * 5 : cell * (1 + b);
	}
	if(kw == "CRABMARKER")
	{
		r.v["MUX"] = 0.1 * a;
		r.v["MUY"] = 0.2 * b;
	}
	if(!bend && kw != "CRABMARKER" && !rf && b)
		mc::prune();
	if(kind.type == "Marker")
		L = r.v["L"] = 0;
	bool thick = bend || quad || kind.type == "Sextupole" || kind.type == "SkewSextupole" || kind.type == "Octupole" || kw == "SOLENOID" || kw == "CRABRF";
	if(L == 0 && thick)
		mc::prune(); // the strengths of thin elements are not defined
	mc::S d;
	d << kw << " of length " << L << " momentum " << P << (single ? " single cell" : "") << " without " << (without.empty() ? "nothing" : *without.begin()) << " row " << table({r}, without).substr(table({}, without).size());
	mc::note(d);
	mc::state(d);
	Silence q;
	stringstream in(table({row("DRIFT", "D1", 1.25), r, row("DRIFT", "D2", 0.5)}, without));
	MADInterface mad(&in, P);
	mad.SetSingleCellRF(single);
	unique_ptr<AcceleratorModel> m;
	try
	{
		m.reset(mad.ConstructModel());
	}
	catch(exception& e)
	{
		mc::report("refused", d << ": " << e.what());
		return;
	}
	auto cs = comps(*m);
	size_t n = 1;
	string type = kind.type;
	if((type == "Drift" || kw == "RCOLLIMATOR") && L == 0)
		n = 0;
	if(single)
		n = L > cell * 1.01 || cs.size() == 4 ? 2 : 1; // a drift of no length makes no difference
	MC_CHECK(cs.size() == n + 2, "element-count", d << " gives " << cs.size() << " elements");
	MC_CHECK(cs[0]->GetName() == "D1" && cs[0]->GetLength() == 1.25 && cs[0]->GetComponentLatticePosition() == 0 && cs[n + 1]->GetName() == "D2", "neighbours", d);
	MC_CLOSE(cs[n + 1]->GetComponentLatticePosition(), 1.25 + (n ? L : 0), "position-after", d);
	if(n == 0)
		return;
	AcceleratorComponent* c = cs[1];
	MC_CHECK(c->GetName() == r.name, "name", d << " is called " << c->GetName());
	MC_CLOSE(c->GetComponentLatticePosition(), 1.25, "position", d);
	double len = single ? cell : L;
	MC_CLOSET(c->GetLength(), len, 1e-9, 1e-12, "length", d);
	MC_CLOSET(m->GetGlobalFrame().GetGeometryLength(), 1.75 + L, 1e-9, 0, "model-length", d);
	if(n == 2)
		MC_CHECK(cs[2]->GetType() == "Drift" && fabs(cs[2]->GetLength() - (L - cell)) < 1e-9 && fabs(cs[2]->GetComponentLatticePosition() - 1.25 - cell) < 1e-9, "drift-after-cell", d << " " << cs[2]->GetType() << " " << cs[2]->GetLength());
	double h = r["ANGLE"] / L, k1 = r["K1L"] / L, B = brho(P);
	if(!bend || h != 0) // what a bend that is off is made of does not matter
		MC_CHECK(c->GetType() == type, "type", d << " is a " << c->GetType());
	PSvector z(0), w;
	if(bend && h != 0)
	{
		SectorBend* s = dynamic_cast<SectorBend*>(c);
		MC_CLOSE(s->GetGeometry().GetCurvature(), h, "curvature", d);
		MC_CLOSE(s->GetGeometry().GetTilt(), r["TILT"], "tilt", d);
		MC_CLOSE(s->GetB0(), B * h, "bend-field", d);
		MC_CLOSE(s->GetB1(), B * k1, "bend-gradient", d);
		auto& pf = s->GetPoleFaceInfo();
		MC_CHECK((pf.entrance ? pf.entrance->rot : 0) == r["E1"] && (pf.exit ? pf.exit->rot : 0) == r["E2"], "pole-faces", d << " are " << (pf.entrance ? pf.entrance->rot : 0) << " and " << (pf.exit ? pf.exit->rot : 0));
		MC_CLOSE(s->GetMatchedMomentum(1), P, "bend-momentum", d);
	}
	if(bend || quad || type == "Drift" || type == "Collimator" || type == "Marker" || type == "BPM" || type == "RMSProfileMonitor" || kw == "XCOR" || kw == "YCOR")
	{
		// on the reference orbit nothing happens
		w = track(c, P, z);
		for(int i = 0; i < 6; i++)
			MC_CLOSET(w[i], 0.0, 0, 1e-14, "on-axis", d << " coordinate " << i);
	}
	if(bend && h == 0)
	{
		// acts as a quadrupole of its gradient or a drift
		z.x() = 1e-6;
		z.y() = 1e-6;
		w = track(c, P, z);
		double f = sqrt(fabs(k1)), x = k1 > 0 ? cos(f * L) : cosh(f * L), y = k1 > 0 ? cosh(f * L) : cos(f * L), xp = -k1 * L * (k1 > 0 ? sin(f * L) : sinh(f * L)) / (f * L + (f == 0)), yp = k1 * L * (k1 > 0 ? sinh(f * L) : sin(f * L)) / (f * L + (f == 0));
		MC_CLOSET(w.x() / 1e-6, x, 1e-5, 0, "off-bend", d);
		MC_CLOSET(w.y() / 1e-6, y, 1e-5, 0, "off-bend", d);
		MC_CLOSET(w.xp() / 1e-6, xp, 1e-4, 1e-7, "off-bend", d);
		MC_CLOSET(w.yp() / 1e-6, yp, 1e-4, 1e-7, "off-bend", d);
	}
	if(quad)
	{
		z.x() = 1e-6;
		w = track(c, P, z);
		double t = kw == "QUADRUPOLE" ? w.xp() : w.yp();
		MC_CHECK(r["K1L"] == 0 ? t == 0 : (kw == "QUADRUPOLE" ? t / 1e-6 / -r["K1L"] > 0.9 && t / 1e-6 / -r["K1L"] < 1.1 : fabs(t / 1e-6 / r["K1L"]) > 0.9 && fabs(t / 1e-6 / r["K1L"]) < 1.1), "focusing", d << " gives " << t);
	}
	if(quad)
	{
		double got = dynamic_cast<RectMultipole*>(c)->GetFieldStrength(), kn = r["K1L"] / L * B;
		MC_CLOSET(fabs(got), fabs(kn), 1e-9, 1e-12, "strength", d);
		if(kw == "QUADRUPOLE")
			MC_CLOSET(got, kn, 1e-9, 1e-12, "strength-sign", d);
	}
	if(type == "SkewSextupole")
	{
		z.x() = 1e-3;
		w = track(c, P, z);
		MC_CLOSET(w.xp(), 0.0, 0, 2e-2 * fabs(r["K2L"]) * 5e-7 + 1e-12, "skew-kick", d);
		MC_CLOSET(fabs(w.yp()), fabs(r["K2L"]) * 5e-7, 2e-2, 1e-12, "skew-kick", d);
	}
	if(type == "Sextupole" || type == "Octupole")
	{
		double x = 1e-3;
		z.x() = x;
		w = track(c, P, z);
		double want = type == "Sextupole" ? -r["K2L"] * x * x / 2 : -r["K3L"] * x * x * x / 6;
		MC_CLOSET(w.xp(), want, 2e-2, 1e-12, "kick", d);
		z = PSvector(0);
		z.y() = x;
		w = track(c, P, z);
		MC_CLOSET(w.xp(), type == "Sextupole" ? -want : 0.0, 2e-2, 1e-12, "kick-vertical", d);
	}
	if(kw == "VKICKER" || kw == "HKICKER")
	{
		w = track(c, P, z);
		MC_CLOSET(w.xp(), r["HKICK"], 1e-6, 1e-12, "horizontal-kick", d);
		MC_CLOSET(w.yp(), r["VKICK"], 1e-6, 1e-12, "vertical-kick", d);
	}
	if(kw == "SOLENOID")
	{
		double bz = dynamic_cast<Solenoid*>(c)->GetBz();
		MC_CHECK(fabs(bz - r["KS"] * B) < 1e-9 * B || fabs(bz - r["KS"] * B / L) < 1e-9 * B, "solenoid", d << " " << bz);
	}
	if(rf)
	{
		// the energy gain of a particle that arrives on time
		w = track(c, P, z);
		double gain = P * w.dp(), want = 12e-3 * sin(2 * pi * r["LAG"]);
		MC_CLOSET(gain, want, 5e-3, 1e-6, "energy-gain", d);
		// and later particles see the wave move on
		MC_CLOSET(dynamic_cast<SWRFStructure*>(c)->GetFrequency(), freq * 1e6, 1e-12, 0, "frequency", d);
	}
	if(kw == "CRABMARKER")
		MC_CHECK(dynamic_cast<CrabMarker*>(c)->GetMuX() == r["MUX"] && dynamic_cast<CrabMarker*>(c)->GetMuY() == r["MUY"], "crab-phases", d);
	mc::outcome(mc::S() << kw << c->GetType());
}
// every sequence of rows: order, nesting and positions
struct Want
{
	string type, name;
	double len, pos;
	int frame; // innermost
};
struct WFrame
{
	string type, name;
	int parent;
	vector<size_t> idx;
};
MC_SECTION("sequences")
{
	int n = 1 + mc::choose(mc::thorough() ? 5 : 4), structs = mc::choose(3); // 0 only marked structures, 1 all, 2 none
	vector<Row> rows;
	vector<string> open;
	vector<Want> want;
	vector<WFrame> fr{{"", "", -1, {}}};
	vector<int> stack{0};
	string desc;
	double pos = 0;
	bool again = false;
	int made = 0;
	for(int i = 0; i < n; i++)
	{
		int c = mc::choose(9);
		string nm = "E" + to_string(i);
		auto elem = [&](const string& type, const string& name, double len){
				want.push_back({type, name, len, pos, stack.back()});
				for(int f = stack.back(); f > 0; f = fr[f].parent)
					fr[f].idx.push_back(want.size() - 1);
				pos += len;
			};
		if(c == 0)
		{
			rows.push_back(row("QUADRUPOLE", nm, 0.5));
			elem("Quadrupole", nm, 0.5);
		}
		else if(c == 1)
		{
			rows.push_back(row("MARKER", nm, 0));
			elem("Marker", nm, 0);
		}
		else if(c == 2)
		{
			rows.push_back(row("DRIFT", "D", 0.75));
			elem("Drift", "D", 0.75);
		}
		else if(c == 3) // nothing is made of these
		{
			int what = i % 3;
			rows.push_back(row(what == 0 ? "DRIFT" : what == 1 ? "RCOLLIMATOR" : "VMONITOR", nm, 0));
		}
		else if(c == 4) // rotation of the axes
		{
			rows.push_back(row("SROT", nm, 0.1 * (i + 1)));
			elem("PatchFrame", nm, 0);
			pos += 0;
		}
		else if(c == 5) // end of the innermost line
		{
			if(open.empty())
				mc::prune();
			rows.push_back(row("LINE", open.back(), 0));
			string f = open.back();
			open.pop_back();
			bool frame = structs == 1 || (structs == 0 && f[1] == '_');
			if(frame)
				stack.pop_back();
			desc += " )";
			again = true;
			continue;
		}
		else // start of a line
		{
			string f = c == 6 ? (i % 2 ? "CELL" : "HALF") : c == 7 ? (i % 2 ? "S_A" : "F_A") : (i % 2 ? "G_B" : "M_B");
			if(!open.empty() && find(open.begin(), open.end(), f) != open.end())
				mc::prune();
			rows.push_back(row("LINE", f, 0));
			open.push_back(f);
			bool frame = structs == 1 || (structs == 0 && f[1] == '_');
			if(frame)
			{
				WFrame w;
				w.parent = stack.back();
				w.name = f[1] == '_' ? f.substr(2) : f;
				w.type = f[1] != '_' || f[0] == 'F' ? "SequenceFrame" : f[0] == 'S' ? "SimpleMount" : f[0] == 'G' ? "GirderMount" : "MagnetMover";
				stack.push_back(fr.size());
				fr.push_back(w);
				made++;
			}
			desc += " " + f + "(";
			continue;
		}
		desc += string(" ") + "QMD0R"[c];
	}
	while(!open.empty())
	{
		rows.push_back(row("LINE", open.back(), 0));
		if(structs == 1 || (structs == 0 && open.back()[1] == '_'))
			stack.pop_back();
		open.pop_back();
		desc += " )";
	}
	mc::S d;
	d << desc << (structs == 0 ? "" : structs == 1 ? ", all lines as frames" : ", flat");
	mc::note(d);
	if(want.empty())
		mc::prune();
	if(structs && desc.find('(') == string::npos)
		mc::prune();
	mc::state(d);
	Silence q;
	stringstream in(table(rows));
	MADInterface mad(&in, 10);
	mad.HonourMadStructure(structs == 1);
	mad.ConstructFlatLattice(structs == 2);
	ostringstream log;
	mad.SetLogFile(log);
	if(n % 2)
		mad.SetLoggingOn();
	else
		mad.SetLoggingOff();
	unique_ptr<AcceleratorModel> m(mad.ConstructModel());
	auto bl = m->GetBeamline();
	size_t i = 0;
	double s = 0;
	for(auto it = bl.begin(); it != bl.end(); ++it, ++i)
	{
		MC_CHECK(i < want.size(), "too-many-elements", d);
		ComponentFrame* cf = *it;
		const Want& w = want[i];
		if(w.type == "PatchFrame")
		{
			MC_CHECK(!cf->IsComponent() && cf->GetName() == w.name, "rotation", d << " element " << i);
			double ang = 0;
			for(auto& r : rows)
				if(r.name == w.name)
					ang = r["L"];
			GeometryPatch g;
			g.RotateZ(ang);
			const Transform3D* t = cf->GetEntranceGeometryPatch();
			MC_CHECK(t, "rotation-angle", d << " element " << i);
			for(auto& v : {Vector3D(1, 0, 0), Vector3D(0, 1, 0), Vector3D(0, 0, 1)})
			{
				Vector3D a = t->R()(v), b = g.GetTransformation()->R()(v);
				MC_CHECK(fabs(a.x - b.x) + fabs(a.y - b.y) + fabs(a.z - b.z) < 1e-12, "rotation-angle", d << " element " << i);
			}
			continue;
		}
		MC_CHECK(cf->IsComponent(), "element", d << " element " << i);
		AcceleratorComponent& c = cf->GetComponent();
		MC_CHECK(c.GetType() == w.type && c.GetName() == w.name, "element-order", d << " element " << i << " is " << c.GetQualifiedName() << " should be " << w.type << "." << w.name);
		MC_CLOSE(c.GetLength(), w.len, "element-length", d << " element " << i);
		MC_CLOSET(c.GetComponentLatticePosition(), w.pos, 1e-12, 1e-12, "element-position", d << " element " << i);
		s += w.len;
	}
	MC_CHECK(i == want.size(), "too-few-elements", d << " " << i);
	MC_CLOSET(m->GetGlobalFrame().GetGeometryLength(), pos, 1e-12, 1e-12, "model-length", d);
	vector<ModelElement*> els;
	m->ExtractModelElements("*", els);
	multiset<string> got, exp;
	for(auto* e : els)
		if(auto* f = dynamic_cast<SequenceFrame*>(e))
			if(f != &m->GetGlobalFrame())
			{
				vector<size_t> ix;
				f->GetBeamlineIndexes(ix);
				mc::S o;
				o << f->GetType() << "." << f->GetName() << ":";
				for(auto k : ix)
					o << " " << k;
				got.insert(o);
			}
	for(size_t k = 1; k < fr.size(); k++)
	{
		mc::S o;
		o << fr[k].type << "." << fr[k].name << ":";
		for(auto x : fr[k].idx)
			o << " " << x;
		exp.insert(o);
	}
	auto show = [](const multiset<string>& x){
			mc::S o;
			for(auto& y : x)
				o << "[" << y << "]";
			return string(o);
		};
	MC_CHECK(got == exp, "frames", d << " frames are " << show(got) << " should be " << show(exp));
	mc::outcome(mc::S() << want.size() << made << again);
}
// types that are treated as drifts or ignored when they have no length
MC_SECTION("type-settings")
{
	vector<string> kws{"QUADRUPOLE", "MARKER", "MONITOR", "COLLIMATOR", "RCOLLIMATOR", "VKICKER", "DRIFT", "MULTIPOLE"};
	string set1 = mc::pick(kws);
	int how = mc::choose(3);
	mc::S d;
	d << set1 << (how == 0 ? " as drift" : how == 1 ? " ignored without length" : " both");
	mc::note(d);
	mc::state(d);
	vector<Row> rows;
	vector<tuple<string, string, double> > want;
	for(auto& k : kws)
		for(double L : {0.0, 1.5})
		{
			if(k == "MARKER" && L > 0)
				continue;
			if(k == "QUADRUPOLE" && L == 0 && set1 != k)
				continue;
			string nm = k.substr(0, 3) + (L > 0 ? "L" : "0") + to_string(rows.size()), type = k == "QUADRUPOLE" ? "Quadrupole" : k == "MARKER" ? "Marker" : k == "MONITOR" ? "BPM" : k == "COLLIMATOR" || k == "RCOLLIMATOR" ? "Collimator" : k == "VKICKER" ? "YCor" : k == "DRIFT" ? "Drift" : "";
			bool ignore = L == 0 && (k == "RCOLLIMATOR" || (how >= 1 && k == set1));
			if(how != 1 && k == set1)
				type = "Drift";
			if(k == "MULTIPOLE" && type == "" && L > 0)
				continue; // types without an element
			rows.push_back(row(k, nm, L));
			if(ignore || type == "" || (type == "Drift" && L == 0))
				continue;
			want.push_back(make_tuple(type, nm, L));
		}
	Silence q;
	stringstream in(table(rows));
	MADInterface mad(&in, 10);
	if(how != 1)
		mad.TreatTypeAsDrift(set1);
	if(how != 0)
		mad.IgnoreZeroLengthType(set1);
	unique_ptr<AcceleratorModel> m(mad.ConstructModel());
	auto cs = comps(*m);
	mc::S got, exp;
	double pos = 0;
	for(auto* c : cs)
		got << c->GetType() << "." << c->GetName() << " " << c->GetLength() << " at " << c->GetComponentLatticePosition() << "; ";
	for(auto& w : want)
	{
		exp << get<0>(w) << "." << get<1>(w) << " " << get<2>(w) << " at " << pos << "; ";
		pos += get<2>(w);
	}
	MC_CHECK(string(got) == string(exp), "types", d << " gives " << got << " should be " << exp);
}
// with synchrotron radiation the magnets follow the energy
MC_SECTION("radiation-scaling")
{
	int n = 1 + mc::choose(5);
	bool on = mc::choose(2), k0 = mc::choose(2);
	double P = mc::pick(vector<double>{5, 45}), p = P;
	vector<Row> rows;
	vector<double> mom;
	string desc;
	const double Cg = 8.846e-5;
	for(int i = 0; i < n; i++)
	{
		int c = mc::choose(4);
		string nm = "E" + to_string(i);
		Row r;
		mom.push_back(p);
		if(c == 0)
		{
			r = row("QUADRUPOLE", nm, 0.5);
			r.v["K1L"] = 0.2;
		}
		else if(c == 1 || c == 2)
		{
			r = row(c == 1 ? "SBEND" : "RBEND", nm, 2.0);
			r.v["ANGLE"] = i % 2 ? -0.05 : 0.08;
			if(k0)
				r.v["K0L"] = r.v["ANGLE"];
			if(on)
				p -= Cg / (2 * pi) * pow(p, 4) * r.v["ANGLE"] * r.v["ANGLE"] / 2.0;
		}
		else
		{
			r = row("VKICKER", nm, 0.25);
			r.v["VKICK"] = 1e-3;
		}
		rows.push_back(r);
		desc += "QSRV"[c];
	}
	mc::S d;
	d << desc << " at " << P << (on ? " with radiation" : "") << (k0 ? " K0L given" : "");
	mc::note(d);
	mc::state(d);
	Silence q;
	stringstream in(table(rows));
	MADInterface mad(&in, P);
	mad.ScaleForSynchRad(on);
	unique_ptr<AcceleratorModel> m(mad.ConstructModel());
	auto cs = comps(*m);
	MC_CHECK(cs.size() == rows.size(), "element-count", d);
	for(int i = 0; i < n; i++)
	{
		double want = brho(mom[i]), got;
		if(auto* b = dynamic_cast<SectorBend*>(cs[i]))
			got = b->GetB0() / (rows[i]["ANGLE"] / 2.0);
		else if(auto* y = dynamic_cast<YCor*>(cs[i]))
			got = y->GetFieldStrength() * 0.25 / 1e-3;
		else
			got = dynamic_cast<Quadrupole*>(cs[i])->GetFieldStrength() / 0.4;
		// the constant is known to about 1e-3 of the loss
		MC_CLOSET(fabs(got), want, 1e-9 + (on ? 3e-3 * (P - mom[i]) / P : 0), 0, "rigidity", d << " element " << i);
	}
	MC_CLOSET(mad.GetMomentum(), p, 1e-9 + 3e-3 * (P - p) / P, 0, "final-momentum", d);
	mc::outcome(mc::S() << on << (p < P));
}
// several files one after the other
struct Files
{
	vector<string> f;
	~Files()
	{
		for(auto& x : f)
			unlink(x.c_str());
	}
	string add(const string& text)
	{
		char t[] = "/tmp/mcmad.XXXXXX";
		int fd = mkstemp(t);
		if(fd < 0 || write(fd, text.data(), text.size()) != ssize_t(text.size()))
			abort();
		close(fd);
		f.push_back(t);
		return t;
	}
};
MC_SECTION("append")
{
	int n = 2 + mc::choose(2);
	bool twice = mc::choose(2);
	mc::S d;
	vector<vector<Row> > files;
	vector<pair<string, double> > want; // name, momentum
	vector<double> P;
	for(int i = 0; i < n; i++)
	{
		P.push_back(mc::pick(vector<double>{10, 20}));
		int k = 1 + mc::choose(3);
		vector<Row> rows;
		for(int j = 0; j < k; j++)
		{
			Row r = row(j == 1 ? "DRIFT" : "QUADRUPOLE", "F" + to_string(i) + "E" + to_string(j), 0.5 + j);
			r.v["K1L"] = 0.1;
			rows.push_back(r);
		}
		files.push_back(rows);
		d << k << " elements at " << P[i] << "; ";
	}
	d << (twice ? "and the same again" : "");
	mc::note(d);
	mc::state(d);
	Silence q;
	Files tmp;
	string first = tmp.add(table(files[0]));
	MADInterface mad(first, P[0]);
	double z0 = 0;
	for(int rep = 0; rep < (twice ? 2 : 1); rep++)
	{
		for(int i = 0; i < n; i++)
			mad.AppendModel(tmp.add(table(files[i])), P[i]);
		unique_ptr<AcceleratorModel> m(mad.GetModel());
		auto cs = comps(*m);
		size_t k = 0;
		double pos = 0;
		for(int i = 0; i < n; i++)
			for(auto& r : files[i])
			{
				MC_CHECK(k < cs.size(), "appended-count", d << " has " << cs.size());
				if(k == 0)
					z0 = cs[k]->GetComponentLatticePosition();
				MC_CHECK(cs[k]->GetName() == r.name, "appended-order", d << " element " << k << " is " << cs[k]->GetName());
				MC_CLOSET(cs[k]->GetComponentLatticePosition(), z0 + pos, 1e-12, 1e-12, "appended-position", d << " element " << k);
				if(auto* qd = dynamic_cast<Quadrupole*>(cs[k]))
					MC_CLOSET(qd->GetFieldStrength(), brho(P[i]) * 0.1 / r["L"], 1e-9, 0, "appended-strength", d << " element " << k);
				pos += r["L"];
				k++;
			}
		MC_CHECK(k == cs.size(), "appended-count", d << " has " << cs.size());
		if(rep == 0)
			MC_CHECK(z0 == 0, "appended-start", d << " starts at " << z0);
	}
}
// files that cannot be used are reported, and the interface can be used again
MC_SECTION("bad-files")
{
	int what = mc::choose(6);
	mc::S d;
	d << "bad file " << what;
	mc::note(d);
	mc::state(d);
	Silence q;
	string thrown = "no";
	vector<Row> good{row("DRIFT", "A", 1), row("QUADRUPOLE", "B", 0.5)};
	try
	{
		if(what == 0)
		{
			MADInterface mad("/nonexistent/file", 10);
			unique_ptr<AcceleratorModel> m(mad.ConstructModel());
		}
		else
		{
			stringstream in;
			if(what == 1)
				in.str("nonsense\n");
			else if(what == 2)
				in.str(table(good, {"K1L"}));
			else if(what == 3)
				in.str(table(good, {"L"}));
			else if(what == 4)
				in.str(table(good).substr(0, table(good).size() - 8) + "\n");
			else
				in.str(" ");
			MADInterface mad(&in, 10);
			try
			{
				unique_ptr<AcceleratorModel> m(mad.ConstructModel());
			}
			catch(exception& e)
			{
				thrown = e.what();
			}
			in.clear();
			in.str(table(good));
			unique_ptr<AcceleratorModel> m(mad.ConstructModel());
			auto cs = comps(*m);
			MC_CHECK(cs.size() == 2 && cs[0]->GetName() == "A" && cs[1]->GetName() == "B", "use-after-failure", d << " gives " << cs.size() << " elements");
		}
	}
	catch(exception& e)
	{
		thrown = e.what();
	}
	MC_CHECK(thrown != "no", "not-refused", d);
}
