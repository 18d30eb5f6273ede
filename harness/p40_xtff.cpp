// P40: an XTFF file gives the beamline it lists, with magnets for the energy the beam has there
#include "mc.h"
#include "MerlinIO.h"
#include "Components.h"
#include "AcceleratorModelConstructor.h"
#include "AcceleratorModel.h"
#include "SequenceFrame.h"
#include "SupportStructure.h"
#include "MagnetMover.h"
#include "PatchFrame.h"
#include "XTFFInterface.h"
#include "TransverseRFStructure.h"
#include "RMSProfileMonitor.h"
#include "Aperture.h"
#include "PhysicalConstants.h"
#include "ParticleTracker.h"
#include <fstream>
#include <unistd.h>
using namespace std;
static const double C = 299792458., QE = 1.602176487e-19;
struct Rec
{
	string kw, name;
	double l = 0, p[11] = {0};
	string type, fdn;
	Rec(const string& k, const string& n, double len = 0): kw(k), name(n), l(len) {}
	// numbered as the columns of the file: 1-3 first line, 4 aperture, 5 energy, 6- second line
	Rec& set(int i, double v) { p[i] = v; return *this; }
};
static string str(const Rec& r)
{
	char a[400], b[400];
	snprintf(a, sizeof a, "%-4s%-16s%12.6f%16.9E%16.9E%16.9E%16.9E %-16s %16.9E\n", r.kw.c_str(), r.name.c_str(), r.l, r.p[1], r.p[2], r.p[3], r.p[4], r.type.c_str(), r.p[5]);
	snprintf(b, sizeof b, "%16.9E%16.9E%16.9E%16.9E%16.9E %-24s\n", r.p[6], r.p[7], r.p[8], r.p[9], r.p[10], r.fdn.c_str());
	return string(a) + b;
}
struct File
{
	double f[15] = {1.5, 10, 0, 0.25, -0.125, -2.5, 20, 0, -0.0625, 0.03125, 1e-3, -2e-4, 3e-3, 4e-4, 0};
	double p0 = 15;
	vector<Rec> recs;
};
static string funcs(const double* f)
{
	string s;
	char b[40];
	for(int i = 0; i < 15; i++)
	{
		snprintf(b, sizeof b, "%16.9E", f[i]);
		s += b;
		if(i % 5 == 4)
			s += "\n";
	}
	return s;
}
static string str(const File& f)
{
	char h[200];
	snprintf(h, sizeof h, "%-8s%-8s%-8s%-8s%-8s%8d%8s%8d\n", "8.51/15S", "  XTFF", "01/01/01", "12.00.00", "JOB", 1, "F", int(f.recs.size()) + 1);
	string s = string(h) + "a title\n" + str(Rec("    ", "INITIAL").set(5, f.p0)) + funcs(f.f);
	double z[15] = {9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9};
	for(auto& r : f.recs)
		s += str(r) + funcs(z);
	return s;
}
static string write(const File& f, int n = 0)
{
	string name = mc::S() << "p40-" << getpid() << "-" << n << ".xtff";
	ofstream o(name);
	o << str(f);
	return name;
}
struct Quiet
{
	ostringstream sink;
	streambuf* old;
	Quiet(): old(cerr.rdbuf(sink.rdbuf())) {}
	~Quiet() { cerr.rdbuf(old); }
};
struct Beam
{
	double E, q; // GeV, charges in the bunch
};
static bool near(double a, double b)
{
	return fabs(a - b) <= 2e-8 * fabs(b) + 1e-12;
}
// the field of a straight magnet: multipole n (1 quadrupole) of strength k, upright or skew in the sense of the library
static void field(AcceleratorComponent& c, double brho, int n, double k, bool skew, const string& d)
{
	RectMultipole* m = dynamic_cast<RectMultipole*>(&c);
	MC_CHECK(m, "class", d << ": " << c.GetType());
	for(int i = 0; i < 8; i++)
	{
		double r = 0.01, t = 0.3 + 0.77 * i;
		Vector3D B = m->GetField().GetBFieldAt(Point3D(r * cos(t), r * sin(t), 0));
		double f = brho * k;
		for(int j = 1; j <= n; j++)
			f *= r / j;
		double a = n * t + (skew ? M_PI / 2 : 0), by = f * cos(a), bx = f * sin(a);
		MC_CHECK(fabs(B.y - by) < 2e-8 * fabs(f) + 1e-15 && fabs(B.x - bx) < 2e-8 * fabs(f) + 1e-15, "field", d << ": field " << B.x << " " << B.y << " should be " << bx << " " << by);
	}
}
static bool inside(AcceleratorComponent& c, double x, double y)
{
	return !c.GetAperture() || c.GetAperture()->CheckWithinApertureBoundaries(x, y, 0);
}
// compares and moves the energy on
static void compare(const Rec& r, AcceleratorComponent& c, Beam& b, bool apertures, bool drift, const string& d0)
{
	string d = mc::S() << d0 << ": " << r.kw << " " << r.name;
	double brho = b.E * 1e9 / C;
	MC_CHECK(c.GetName() == r.name, "name", d << ": got " << c.GetName());
	string k = drift ? "DRIF" : r.kw;
	if(k != "RBEN" && k != "MARK")
		MC_CHECK(near(c.GetLength(), r.l), "length", d << ": " << c.GetLength() << " should be " << r.l);
	if(k == "QUAD" || k == "SEXT" || k == "OCTU" || k == "DECA")
	{
		int n = k == "QUAD" ? 1 : k == "SEXT" ? 2 : k == "OCTU" ? 3 : 4;
		field(c, brho, n, n < 3 ? r.p[n + 1] : r.p[7], r.p[6] != 0, d);
	}
	else if(k == "SBEN" || k == "RBEN")
	{
		SectorBend* s = dynamic_cast<SectorBend*>(&c);
		MC_CHECK(s, "class", d << ": " << c.GetType());
		double ang = r.p[1], e1 = r.p[7], e2 = r.p[8], len = r.l, h = ang / len;
		if(k == "RBEN")
		{
			// straight: the length is that of the chord, the faces are parallel
			e1 = e2 = ang / 2;
			if(ang)
			{
				h = 2 * sin(ang / 2) / r.l;
				len = ang / h;
			}
		}
		MC_CHECK(near(c.GetLength(), len), "length", d << ": " << c.GetLength() << " should be " << len);
		MC_CHECK(near(s->GetGeometry().GetCurvature(), h), "curvature", d << ": " << s->GetGeometry().GetCurvature() << " should be " << h);
		MC_CHECK(near(s->GetGeometry().GetTilt(), r.p[6]), "tilt", d << ": " << s->GetGeometry().GetTilt());
		MC_CHECK(near(s->GetB0(), brho * h) && near(s->GetB1(), brho * r.p[2]), "bend-field", d << ": " << s->GetB0() << " " << s->GetB1() << " should be " << brho * h << " " << brho * r.p[2]);
		auto& pf = s->GetPoleFaceInfo();
		MC_CHECK(near(pf.entrance ? pf.entrance->rot : 0, e1) && near(pf.exit ? pf.exit->rot : 0, e2), "faces", d << ": " << (pf.entrance ? pf.entrance->rot : 0) << " " << (pf.exit ? pf.exit->rot : 0));
		MC_CHECK((!pf.entrance || near(pf.entrance->hgap, r.p[4])) && (!pf.exit || near(pf.exit->hgap, r.p[4])), "gaps", d);
		MC_CHECK((!pf.entrance || pf.entrance->fint == 0) && (!pf.exit || pf.exit->fint == 0), "fringe-integral", d);
	}
	else if(k == "SOLE")
	{
		Solenoid* s = dynamic_cast<Solenoid*>(&c);
		MC_CHECK(s && near(s->GetBz(), brho * r.p[7]), "solenoid", d << ": " << (s ? s->GetBz() : 0) << " should be " << brho * r.p[7]);
	}
	else if(k == "LCAV" && r.name.substr(0, 4) == "CRAB")
	{
		TransverseRFStructure* s = dynamic_cast<TransverseRFStructure*>(&c);
		MC_CHECK(s, "class", d << ": " << c.GetType());
		MC_CHECK(near(s->GetFrequency(), r.p[7] * 1e6) && near(s->GetVoltage(), r.p[8] * 1e-3) && near(s->GetPhase(), 2 * M_PI * r.p[9]) && near(s->GetFieldOrientation(), r.name[4] == 'V' ? M_PI / 2 : 0), "crab-cavity",
			d << ": " << s->GetFrequency() << " " << s->GetVoltage() << " " << s->GetPhase() << " " << s->GetFieldOrientation());
	}
	else if(k == "LCAV")
	{
		TWRFStructure* s = dynamic_cast<TWRFStructure*>(&c);
		MC_CHECK(s, "class", d << ": " << c.GetType());
		MC_CHECK(near(s->GetFrequency(), r.p[7] * 1e6) && near(s->GetVoltage(), r.p[8] * 1e-3) && near(s->GetPhase(), 2 * M_PI * r.p[9]), "cavity", d << ": " << s->GetFrequency() << " " << s->GetVoltage() << " " << s->GetPhase());
		// a particle on crest gains what the magnets behind expect
		b.E += r.p[8] * 1e-3 * cos(2 * M_PI * r.p[9]) - r.p[10] * 1e-9 * b.q * QE;
	}
	else if(k == "HKIC")
		MC_CHECK(dynamic_cast<XCor*>(&c), "class", d << ": " << c.GetType());
	else if(k == "VKIC")
		MC_CHECK(dynamic_cast<YCor*>(&c), "class", d << ": " << c.GetType());
	else if(k == "MONI" || k == "HMON" || k == "VMON")
		MC_CHECK(dynamic_cast<BPM*>(&c), "class", d << ": " << c.GetType());
	else if(k == "WIRE")
		MC_CHECK(dynamic_cast<RMSProfileMonitor*>(&c), "class", d << ": " << c.GetType());
	else if(k == "MARK")
		MC_CHECK(dynamic_cast<Marker*>(&c), "class", d << ": " << c.GetType());
	else
		MC_CHECK(c.GetType() == "Drift", "class", d << ": " << c.GetType());
	if(!apertures || (r.p[4] == 0 && k != "RCOL"))
		MC_CHECK(!c.GetAperture(), "aperture", d << ": has one");
	else if(k == "RCOL")
	{
		double x = r.p[6], y = r.p[7];
		for(int i = 0; i < 4; i++)
			MC_CHECK(inside(c, 0.99 * x * (i & 1 ? 1 : -1), 0.99 * y * (i & 2 ? 1 : -1)) && !inside(c, 1.01 * x * (i & 1 ? 1 : -1), 0) && !inside(c, 0, 1.01 * y * (i & 2 ? 1 : -1)), "collimator", d);
	}
	else
		for(int i = 0; i < 6; i++)
			MC_CHECK(inside(c, 0.99 * r.p[4] * cos(i), 0.99 * r.p[4] * sin(i)) && !inside(c, 1.01 * r.p[4] * cos(i), 1.01 * r.p[4] * sin(i)), "aperture", d);
}
static const double S4 = 0.78539816, S6 = 0.52359878;
static Rec element(int e, int v)
{
	static const double K[] = {0.7, -1.3, 0}, T[] = {0, 1, 0};
	switch(e)
	{
	case 0: return Rec("DRIF", "D1", 1.25);
	case 1: return Rec("QUAD", "Q1", 0.3).set(2, K[v]).set(6, 0);
	case 2: return Rec("QUAD", "Q2", 0.3).set(2, K[v]).set(6, S4);
	case 3: return Rec("SEXT", "S1", 0.2).set(3, 10 * K[v]);
	case 4: return Rec("SEXT", "S2", 0.2).set(3, 10 * K[v]).set(6, S6);
	case 5: return Rec("OCTU", "O1", 0.1).set(7, 100 * K[v]);
	case 6: return Rec("DECA", "DE1", 0.1).set(7, 1000 * K[v]);
	case 7: return Rec("SBEN", "B1", 1.5).set(1, 0.05 * (v - 1) + 0.02).set(2, 0.1 * v).set(6, T[v]).set(7, 0.02 * v).set(8, v == 1 ? 0 : -0.01).set(4, v == 2 ? 0 : 0.012);
	case 8: return Rec("RBEN", "B2", 1.5).set(1, 0.1 * (v - 1)).set(2, v == 1 ? 0 : -0.1).set(6, T[v]).set(4, v == 1 ? 0.02 : 0);
	case 9: return Rec("LCAV", "CAV", 1).set(7, 1300).set(8, 25).set(9, 0.1 * (v - 1)).set(10, v == 2 ? 0 : 5e15);
	case 10: return Rec("LCAV", v == 1 ? "CRABV1" : "CRABH1", 0.5).set(7, 3900).set(8, 2).set(9, 0.25 * v);
	case 11: return Rec("SOLE", "SO", 0.8).set(7, K[v]);
	case 12: return Rec("HKIC", "XC", 0.1 * v);
	case 13: return Rec("VKIC", "YC", 0.1 * v);
	case 14: return Rec(v == 0 ? "MONI" : v == 1 ? "HMON" : "VMON", "BP", 0.1 * v);
	case 15: return Rec("WIRE", "WS", 0.1 * v);
	case 16: return Rec("MARK", "MA");
	case 17: return Rec("RCOL", "RC", 0.5).set(6, 0.002).set(7, 0.003);
	case 18: return Rec(v == 0 ? "ECOL" : v == 1 ? "INST" : "PROF", "U1", 0.25 * v);
	}
	return Rec("DRIF", "NAME_OF_16_CHARS", 0.000125);
}
// each element behind cavities, with pipes
MC_SECTION("elements")
{
	int e = mc::choose(20), v = mc::choose(3), cav = mc::choose(3), pipe = mc::choose(2), ap = mc::choose(2), nb = mc::choose(2), drift = mc::choose(2), give = mc::choose(2);
	File f;
	f.p0 = cav == 1 ? 5 : 15;
	for(int i = 0; i < cav; i++)
		f.recs.push_back(element(9, 1 - i));
	Rec r = element(e, v);
	if(pipe && r.kw != "RCOL" && r.kw != "SBEN" && r.kw != "RBEN")
		r.set(4, 0.03);
	r.type = "SOMETYPE";
	r.fdn = "SOMEWHERE";
	f.recs.push_back(r);
	f.recs.push_back(element(1, 0));
	string d = mc::S() << "behind " << cav << " cavities" << (ap ? "" : " without apertures") << (nb ? " loaded" : "") << (drift ? " treated as drift" : "") << (give ? " of given energy" : "");
	mc::note(d + str(r));
	mc::state(mc::S() << d << r.kw << r.name << r.p[2] << v << pipe);
	string n = write(f);
	Quiet quiet;
	XTFFInterface x(n, nb ? 1e10 : 0);
	if(!ap)
		x.IncludeApertures(false);
	string type = r.kw;
	transform(type.begin(), type.end(), type.begin(), ::tolower);
	bool td = drift && r.kw != "LCAV" && r.kw != "QUAD";
	if(td)
		x.TreatTypeAsDrift(type);
	auto mb = give ? x.Parse(42) : x.Parse();
	unlink(n.c_str());
	unique_ptr<AcceleratorModel> m(mb.first);
	unique_ptr<BeamData> b(mb.second);
	MC_CHECK(m && b, "nothing", d);
	vector<ComponentFrame*> fr;
	m->ExtractComponents("*", fr);
	MC_CHECK(fr.size() == f.recs.size(), "count", d << ": " << fr.size() << " components of " << f.recs.size());
	Beam be{give ? 42 : f.p0, nb ? 1e10 : 0};
	for(size_t i = 0; i < fr.size(); i++)
		compare(f.recs[i], fr[i]->GetComponent(), be, ap, td && (f.recs[i].kw == r.kw), d);
	MC_CHECK(near(b->p0, f.p0), "momentum", d << ": " << b->p0);
	MC_CHECK(near(b->alpha_x, f.f[0]) && near(b->beta_x, f.f[1]) && near(b->Dx, f.f[3]) && near(b->Dxp, f.f[4]) && near(b->alpha_y, f.f[5]) && near(b->beta_y, f.f[6]) && near(b->Dy, f.f[8]) && near(b->Dyp, f.f[9]), "functions", d);
	MC_CHECK(near(b->x0, f.f[10]) && near(b->xp0, f.f[11]) && near(b->y0, f.f[12]) && near(b->yp0, f.f[13]) && near(b->charge, nb ? 1e10 : 0), "beam", d);
}
// a particle on crest has the energy for which the magnets are made
MC_SECTION("acceleration")
{
	using namespace ParticleTracking;
	int cav = 1 + mc::choose(4), lag = mc::choose(3);
	string d = mc::S() << cav << " cavities at lag " << lag;
	mc::note(d);
	mc::state(d);
	File f;
	for(int i = 0; i < cav; i++)
	{
		f.recs.push_back(element(9, lag).set(10, 0));
		f.recs.push_back(element(7, 1).set(2, 0).set(6, 0).set(7, 0).set(8, 0));
	}
	string n = write(f);
	XTFFInterface x(n);
	auto mb = x.Parse();
	unlink(n.c_str());
	unique_ptr<AcceleratorModel> m(mb.first);
	unique_ptr<BeamData> b(mb.second);
	ParticleTracker tr(m->GetBeamline());
	ParticleBunch pb(f.p0, 1);
	PSvector p(0);
	pb.AddParticle(p);
	tr.Track(&pb);
	double E = f.p0 + cav * 0.025 * cos(2 * M_PI * 0.1 * (lag - 1));
	p = *pb.begin();
	MC_CLOSET(pb.GetReferenceMomentum() * (1 + p.dp()), E, 1e-6, 0, "energy", d);
	// and is bent as the design says
	MC_CHECK(fabs(p.x()) < 1e-6 && fabs(p.xp()) < 1e-6, "off-axis", d << ": " << p.x() << " " << p.xp());
}
// girders, rotations and nests
MC_SECTION("frames")
{
	int girders = mc::choose(2), n = 5 + (mc::thorough() ? 2 : 0);
	File f;
	string d = girders ? "girders" : "no girders";
	vector<string> open, want;
	vector<string> kinds;
	Beam be{f.p0, 0};
	vector<Rec> comps;
	int made = 0;
	auto path = [&]{ string s; for(auto& o : open) s += (girders ? o.substr(2) + "/" : ""); return s; };
	vector<pair<string, string>> frames; // name, type
	double srot = 0;
	for(int i = 0; i < n; i++)
	{
		int op = mc::choose(5);
		if(op == 0)
		{
			Rec r("DRIF", mc::S() << "D" << i, 0.5);
			f.recs.push_back(r);
			comps.push_back(r);
			want.push_back(path() + r.name);
			d += "; drift";
		}
		else if(op == 1)
		{
			static const char T[] = "GFSM";
			string name = mc::S() << T[made % 4] << "_N" << made;
			made++;
			f.recs.push_back(Rec("MARK", name));
			if(girders)
				frames.push_back({name.substr(2), name[0] == 'G' ? "GirderMount" : name[0] == 'F' ? "SequenceFrame" : name[0] == 'S' ? "SimpleMount" : "MagnetMover"});
			else
			{
				comps.push_back(f.recs.back());
				want.push_back(name);
			}
			open.push_back(name);
			d += "; open " + name;
		}
		else if(op == 2)
		{
			if(open.empty() || f.recs.back().name == open.back())
				mc::prune();
			f.recs.push_back(Rec("MARK", open.back()));
			if(!girders)
			{
				comps.push_back(f.recs.back());
				want.push_back(open.back());
			}
			d += "; close " + open.back();
			open.pop_back();
		}
		else if(op == 3)
		{
			f.recs.push_back(Rec("SROT", mc::S() << "R" << i).set(7, 0.1 * (i + 1)));
			srot += 0.1 * (i + 1);
			want.push_back(path() + f.recs.back().name);
			d += "; rotation";
		}
		else
		{
			Rec r("MARK", "VPIV");
			f.recs.push_back(r);
			comps.push_back(r);
			want.push_back(path() + "VPIV");
			want.push_back(path() + "VPIV");
			d += "; pivot";
		}
	}
	while(!open.empty())
	{
		if(f.recs.back().name == open.back())
			mc::prune();
		f.recs.push_back(Rec("MARK", open.back()));
		if(!girders)
		{
			comps.push_back(f.recs.back());
			want.push_back(open.back());
		}
		open.pop_back();
	}
	// something in every girder only: empty frames are not made
	mc::note(d);
	mc::state(d);
	string nm = write(f);
	Quiet quiet;
	XTFFInterface x(nm);
	x.ConstructGirders(girders);
	auto mb = x.Parse();
	unlink(nm.c_str());
	unique_ptr<AcceleratorModel> m(mb.first);
	unique_ptr<BeamData> b(mb.second);
	// what each frame holds
	map<string, vector<size_t>> holds;
	for(auto& s : frames)
	{
		vector<ModelElement*> el;
		m->ExtractModelElements("*." + s.first, el);
		MC_CHECK(el.size() == 1 && el[0]->GetType() == s.second, "frame-type", d << ": " << s.first << " should be one " << s.second << ", found " << el.size() << (el.empty() ? "" : el[0]->GetType()));
		dynamic_cast<SequenceFrame*>(el[0])->AppendBeamlineIndexes(holds[s.first]);
	}
	// all component frames in order with what they are in
	vector<string> got;
	auto bl = m->GetBeamline();
	double turn = 0;
	for(auto i = bl.begin(); i != bl.end(); i++)
	{
		got.push_back("");
		for(auto& s : frames)
		{
			// the frames of a kind that hold this element, outermost first
			auto& in = holds[s.first];
			if(find(in.begin(), in.end(), got.size() - 1) != in.end())
				got.back() += s.first + "/";
		}
		got.back() += (*i)->IsComponent() ? (*i)->GetComponent().GetName() : (*i)->GetName();
		if((*i)->GetEntranceGeometryPatch() && !(*i)->IsComponent())
		{
			Vector3D e = (*i)->GetEntranceGeometryPatch()->R()(Vector3D(1, 0, 0));
			turn += fabs(atan2(e.y, e.x));
		}
	}
	string g, w;
	for(auto& s : got)
		g += " " + s;
	for(auto& s : want)
		w += " " + s;
	MC_CHECK(g == w, "order", d << ": got" << g << " should be" << w);
	MC_CLOSET(turn, srot, 1e-9, 1e-9, "rotation", d);
	vector<ComponentFrame*> fr;
	for(auto i = bl.begin(); i != bl.end(); i++)
		if((*i)->IsComponent())
			fr.push_back(*i);
	MC_CHECK(fr.size() == comps.size(), "count", d);
	for(size_t i = 0; i < fr.size(); i++)
		compare(comps[i], fr[i]->GetComponent(), be, true, false, d);
	AcceleratorSupportList sup;
	size_t ns = 0;
	for(auto& s : frames)
		ns += s.second != "SequenceFrame";
	m->GetAcceleratorSupports(sup);
	MC_CHECK(ns ? !sup.empty() : sup.empty(), "supports", d << ": " << sup.size() << " supports of " << ns);
}
// models from several files, with one or two interfaces, and files that fail
MC_SECTION("histories")
{
	int depth = mc::thorough() ? 5 : 4;
	string d;
	File f[3];
	f[0].recs = {element(1, 0), element(9, 0), element(1, 1), element(9, 1)};
	f[1].recs = {element(3, 0), element(9, 2), element(3, 1), element(0, 0)};
	f[1].p0 = 77;
	f[1].f[1] = 33;
	f[2].recs = {element(11, 0)};
	f[2].p0 = 3;
	string n[3] = {write(f[0], 0), write(f[1], 1), write(f[2], 2)};
	struct Clean
	{
		string* n;
		~Clean() { for(int i = 0; i < 3; i++) unlink(n[i].c_str()); }
	} clean{n};
	struct Side
	{
		double nb;
		unique_ptr<XTFFInterface> x;
		vector<Rec> recs;
		Beam be{0, 0}, at{0, 0};
		double p0 = 0, beta = 0;
		bool any = false;
	} s[2];
	ostringstream log;
	s[0].nb = 2e10;
	s[1].nb = 0;
	for(auto& q : s)
		q.x.reset(new XTFFInterface(q.nb, &log));
	Quiet quiet;
	auto take = [&](Side& q, pair<AcceleratorModel*, BeamData*> mb)
	{
		unique_ptr<AcceleratorModel> m(mb.first);
		unique_ptr<BeamData> b(mb.second);
		MC_CHECK(m && b, "nothing", d);
		vector<ComponentFrame*> fr;
		m->ExtractComponents("*", fr);
		MC_CHECK(fr.size() == q.recs.size(), "count", d << ": " << fr.size() << " components of " << q.recs.size());
		for(size_t i = 0; i < fr.size(); i++)
			compare(q.recs[i], fr[i]->GetComponent(), q.be, true, false, d);
		MC_CHECK(near(b->p0, q.p0) && near(b->beta_x, q.beta) && near(b->charge, q.nb), "beam", d << ": " << b->p0 << " " << b->beta_x << " " << b->charge);
		q.any = false;
		q.recs.clear();
	};
	for(int i = 0; i < depth; i++)
	{
		int op = mc::choose(5), side = mc::choose(2);
		Side& q = s[side];
		if(op < 3)
		{
			d += string(mc::S() << "; " << side << " appends " << op);
			mc::note(d);
			if(!q.any)
			{
				q.be = Beam{f[op].p0, q.nb};
				q.p0 = f[op].p0;
				q.beta = f[op].f[1];
				q.any = true;
			}
			q.recs.insert(q.recs.end(), f[op].recs.begin(), f[op].recs.end());
			q.x->AppendModel(n[op]);
		}
		else if(op == 3)
		{
			if(!q.any)
				mc::prune();
			d += string(mc::S() << "; " << side << " is taken");
			mc::note(d);
			take(q, q.x->GetModel());
		}
		else
		{
			d += string(mc::S() << "; " << side << " fails");
			mc::note(d);
			bool thrown = false;
			try
			{
				q.x->AppendModel("p40-not-there.xtff");
			}
			catch(exception&)
			{
				thrown = true;
			}
			MC_CHECK(thrown, "no-error", d);
		}
		mc::state(d);
	}
	for(auto& q : s)
		if(q.any)
		{
			d += "; taken";
			take(q, q.x->GetModel());
		}
	s[0].x.reset();
	s[1].x.reset();
	mc::sample(d);
}
