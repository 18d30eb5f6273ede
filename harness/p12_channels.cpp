// P12: channels read and write exactly the parameters they name
#include "mc.h"
#include "MerlinIO.h"
#include "AcceleratorModelConstructor.h"
#include "AcceleratorModel.h"
#include "Components.h"
#include "Solenoid.h"
#include "MagnetMover.h"
#include "CorrectorWinding.h"
#include "Channels.h"
#include "BPMChannel.h"
#include "RWChannelState.h"
#include "ParticleBunch.h"
using namespace std;
using namespace ParticleTracking;
#include "ChannelServer.h"
#include "ElementRepository.h"
extern ChannelServer* ConstructChannelServer();
static const double PI2 = 8 * atan(1.0), CL = 2.99792458e8;
static bool glob(const char* p, const char* s)
{
	if(!*p)
		return !*s;
	if(*p == '*')
		return glob(p + 1, s) || (*s && glob(p, s + 1));
	return *p == *s && glob(p + 1, s + 1);
}
static bool glob(const string& p, const string& s)
{
	return glob(p.c_str(), s.c_str());
}
static const map<string, vector<string> > KEYS{{"Solenoid", {"Bz"}}, {"Quadrupole", {"B1"}}, {"Sextupole", {"B2"}}, {"Octupole", {"B3"}}, {"SkewQuadrupole", {"B1"}}, {"SkewSextupole", {"B2"}},
	{"XCor", {"B0"}}, {"YCor", {"B0"}}, {"SectorBend", {"B0", "B1"}}, {"MagnetMover", {"X", "Y", "Roll"}}, {"TWRFStructure", {"E", "Phi", "Lambda", "K"}}, {"SWRFStructure", {"E", "Phi", "Lambda", "K"}},
	{"TransverseRFStructure", {"E", "Phi", "Lambda", "K", "ROLL"}}, {"CorrectorWinding", {"X", "Y"}}, {"BPM", {"X", "Y"}}};
struct Lattice
{
	unique_ptr<AcceleratorModel> m;
	vector<ModelElement*> e; // everything with a name, beamline order first
	vector<AcceleratorComponent*> line;
	map<string, ModelElement*> by;
	void add(AcceleratorModelConstructor& c, AcceleratorComponent* a)
	{
		c.AppendComponent(a);
		line.push_back(a);
		e.push_back(a);
		by[a->GetQualifiedName()] = a;
	}
	Lattice(bool small = false)
	{
		AcceleratorModelConstructor c;
		add(c, new BPM("B1"));
		add(c, new Quadrupole("Q1", 1, 2));
		add(c, new Drift("D", 1));
		if(!small)
		{
			add(c, new Quadrupole("Q.2", 1, -3));
			add(c, new Sextupole("Q1", 0.5, 40));
			add(c, new XCor("C1", 0.2, 0.01));
			add(c, new YCor("C1", 0.2, 0.02));
			add(c, new Octupole("O1", 0.3, 60));
			add(c, new SkewQuadrupole("SQ", 0.3, 6));
			add(c, new SkewSextupole("SS", 0.3, 70));
			add(c, new Solenoid("S1", 1, 0.6));
			add(c, new SWRFStructure("SW", 3, 1.3e9, 0.03, 0.2));
			add(c, new TransverseRFStructure("CRAB.A", 0.7, 4e8, 0.04, 0.1, 0.5));
		}
		MagnetMover* mv = new MagnetMover(small ? "M1" : "M.1");
		c.NewFrame(mv);
		add(c, new Quadrupole("QM", 1, 5));
		add(c, new BPM("B.M"));
		c.EndFrame();
		add(c, new SectorBend("H1", 2, 0.1, 1.5));
		static_cast<SectorBend*>(line.back())->SetB1(0.7);
		add(c, new TWRFStructure("TW", 1, 3e9, 0.02, 0.3));
		m.reset(c.GetModel());
		e.push_back(mv);
		by[mv->GetQualifiedName()] = mv;
		// corrector windings are model elements of their own
		RectMultipole* q = static_cast<RectMultipole*>(by["Quadrupole.QM"]);
		CorrectorWinding* w = new CorrectorWinding(*q);
		m->AddModelElement(w);
		e.push_back(w);
		by[w->GetQualifiedName()] = w;
	}
};
// reference values by channel id
typedef map<string, double> Values;
static Values initial(const Lattice& l)
{
	Values v;
	for(auto p : l.by)
	{
		ModelElement* e = p.second;
		string t = e->GetType(), q = p.first + ".";
		if(auto r = dynamic_cast<RFStructure*>(e))
		{
			v[q + "E"] = r->GetAmplitude();
			v[q + "Phi"] = r->GetPhase();
			v[q + "Lambda"] = CL / r->GetFrequency();
			v[q + "K"] = PI2 * r->GetFrequency() / CL;
			if(auto tr = dynamic_cast<TransverseRFStructure*>(e))
				v[q + "ROLL"] = tr->GetFieldOrientation();
		}
		else if(t == "SectorBend")
		{
			auto b = static_cast<SectorBend*>(e);
			v[q + "B0"] = b->GetField().GetComponent(0).real();
			v[q + "B1"] = b->GetField().GetComponent(1).real();
		}
		else if(t == "Solenoid")
			v[q + "Bz"] = static_cast<Solenoid*>(e)->GetField().GetStrength();
		else if(t == "MagnetMover")
		{
			auto m = static_cast<MagnetMover*>(e);
			v[q + "X"] = m->GetX();
			v[q + "Y"] = m->GetY();
			v[q + "Roll"] = m->GetRoll();
		}
		else if(t == "BPM")
			v[q + "X"] = v[q + "Y"] = 0;
		else if(t == "CorrectorWinding")
		{
			auto m = static_cast<RectMultipole*>(l.by.at("Quadrupole.QM"));
			v[q + "X"] = m->GetField().GetComponent(0).real() * m->GetLength();
			v[q + "Y"] = m->GetField().GetComponent(0).imag() * m->GetLength();
		}
		else if(auto r = dynamic_cast<RectMultipole*>(e))
			v[q + KEYS.at(t)[0]] = r->GetField().GetFieldScale();
	}
	return v;
}
static void write(Values& v, const string& id, double x)
{
	size_t n = id.rfind('.');
	string q = id.substr(0, n + 1), k = id.substr(n + 1);
	if(k == "Lambda")
		v[q + "K"] = PI2 / x;
	if(k == "K")
		v[q + "Lambda"] = PI2 / x;
	if(id.compare(0, 11, "SectorBend.") == 0 && k == "B0")
		v[q + "B1"] *= x / v[q + "B0"];
	if(id == "Quadrupole.QM.B1") // the windings are a part of the magnet's field
		for(const char* w : {"X", "Y"})
			v[string("CorrectorWinding.QM.") + w] *= x / v[id];
	v[id] = x;
}
static void sameValues(Lattice& l, const Values& ref, const string& d)
{
	Values now = initial(l);
	for(auto& p : now)
		if(p.first.compare(0, 4, "BPM.") != 0)
			MC_CLOSET(p.second, ref.at(p.first), 1e-12, 1e-14, "parameter", d << ": parameter " << p.first);
	vector<ROChannel*> ch;
	l.m->GetROChannels("*.*.*", ch);
	ROChannelArray a(ch);
	MC_CHECK(a.Size() == ref.size(), "all-channels", d << ": " << a.Size() << " channels, expected " << ref.size());
	for(size_t i = 0; i < a.Size(); i++)
	{
		auto p = ref.find(a[i].GetID());
		MC_CHECK(p != ref.end(), "channel-id", d << ": unexpected channel " << a[i].GetID());
		MC_CLOSET(a[i].Read(), p->second, 1e-12, 1e-14, "read", d << ": " << a[i].GetID() << " reads");
	}
}
MC_SECTION("lookup")
{
	static Lattice l;
	static const vector<string> T{"*", "Quadrupole", "*Quadrupole", "S*", "BPM", "MagnetMover", "TransverseRFStructure", "Drift", "*RF*", "Nothing"}, I{"*", "Q1", "Q.2", "Q*", "B*", "*1", "M.1", "CRAB.A", "C1", "zz"},
		K{"*", "B1", "B*", "X", "E", "ROLL", "R*", "Lambda", "b1"};
	string t = mc::pick(T), i = mc::pick(I), k = mc::pick(K), id = t + "." + i + "." + k;
	bool rw = mc::choose(2);
	int from = mc::choose(4);
	string d = mc::S() << (rw ? "RW" : "RO") << " channels " << id << (from == 0 ? " in the model" : from == 1 ? " in the whole beamline" : from == 2 ? " in elements 1-6" : " in elements 8-14");
	mc::note(d);
	mc::state(d);
	vector<string> expect;
	auto visit = [&](ModelElement* e)
		{
			auto ks = KEYS.find(e->GetType());
			if(ks == KEYS.end() || !glob(t + "." + i, e->GetQualifiedName()) || (rw && e->GetType() == "BPM"))
				return;
			for(auto& key : ks->second)
				if(glob(k, key))
					expect.push_back(e->GetQualifiedName() + "." + key);
		};
	size_t lo = from == 2 ? 1 : from == 3 ? 8 : 0, hi = from == 2 ? 6 : from == 3 ? 14 : l.line.size() - 1;
	if(from == 0)
		for(auto e : l.e)
			visit(e);
	else
		for(size_t n = lo; n <= hi; n++)
			visit(l.line[n]);
	vector<string> got;
	size_t n;
	AcceleratorModel::Beamline bl = from < 2 ? l.m->GetBeamline() : l.m->GetBeamline(lo, hi);
	if(rw)
	{
		vector<RWChannel*> ch;
		n = from ? l.m->GetRWChannels(bl, id, ch) : l.m->GetRWChannels(id, ch);
		MC_CHECK(n == ch.size(), "count", d << ": returned " << n << " for " << ch.size());
		for(auto c : ch)
		{
			MC_CHECK(c, "null-channel", d << ": null channel");
			got.push_back(c->GetID());
		}
		// further channels are appended
		n = from ? l.m->GetRWChannels(bl, id, ch) : l.m->GetRWChannels(id, ch);
		MC_CHECK(n == got.size() && ch.size() == 2 * n, "append", d << ": second call " << n << " of " << ch.size());
		for(auto c : ch)
			delete c;
	}
	else
	{
		vector<ROChannel*> ch;
		n = from ? l.m->GetROChannels(bl, id, ch) : l.m->GetROChannels(id, ch);
		MC_CHECK(n == ch.size(), "count", d << ": returned " << n << " for " << ch.size());
		for(auto c : ch)
		{
			MC_CHECK(c, "null-channel", d << ": null channel");
			got.push_back(c->GetID());
			delete c;
		}
	}
	if(from)
		for(size_t a = 0; a + 1 < min(got.size(), expect.size()); a++)
			MC_CHECK(got[a].substr(0, got[a].rfind('.')) == expect[a].substr(0, expect[a].rfind('.')), "order", d << ": channel " << a << " is " << got[a] << " expected " << expect[a]);
	sort(got.begin(), got.end());
	sort(expect.begin(), expect.end());
	mc::S g;
	for(auto& s : got)
		g << " " << s;
	MC_CHECK(got == expect, "channels", d << ": found" << g << ", expected " << expect.size());
	mc::outcome(g);
	mc::sample(d);
}
MC_SECTION("write-read")
{
	bool small = mc::choose(2);
	Lattice l(small);
	Values v = initial(l);
	vector<string> ids;
	for(auto& p : v)
		if(p.first.compare(0, 4, "BPM.") != 0)
			ids.push_back(p.first);
	mc::S d;
	sameValues(l, v, "initial");
	// all histories over all channels of the large lattice to depth 2, of the small one to depth 3
	int depth = (small ? 3 : 2) - (mc::thorough() ? 0 : 1);
	for(int i = 0; i < depth + 1; i++)
	{
		string id = mc::pick(ids);
		int op = i == depth ? 1 : mc::choose(2);
		if(i == depth && !small)
			mc::prune();
		vector<RWChannel*> ch;
		MC_CHECK(l.m->GetRWChannels(id, ch) == 1, "single", d << ": " << ch.size() << " channels " << id);
		unique_ptr<RWChannel> c(ch[0]);
		MC_CHECK(c->GetID() == id, "id", d << ": channel " << c->GetID() << " for " << id);
		double x = op ? v[id] + 0.25 : 0.37 + 0.1 * i;
		if(op)
		{
			d << " " << id << "+=.25";
			mc::note(d);
			MC_CLOSET(c->Increment(0.25), x, 1e-12, 1e-14, "increment", d << ": increment returns");
		}
		else
		{
			d << " " << id << "=" << x;
			mc::note(d);
			c->Write(x);
		}
		write(v, id, x);
		MC_CLOSET(c->Read(), x, 1e-12, 1e-14, "read-back", d << ": reads");
		sameValues(l, v, d);
	}
	mc::state(d);
	mc::sample(d);
}
MC_SECTION("arrays")
{
	Lattice l(true);
	Values v = initial(l);
	string pat = mc::pick(vector<string>{"Quadrupole.*.B1", "*.*.B*", "MagnetMover.*.*", "TWRFStructure.TW.E"});
	vector<RWChannel*> ch;
	l.m->GetRWChannels(pat, ch);
	vector<string> ids;
	for(auto c : ch)
		ids.push_back(c->GetID());
	size_t n = ids.size();
	MC_CHECK(n > 0, "found", pat);
	unique_ptr<RWChannelArray> a(new RWChannelArray(ch));
	vector<RWChannel*> ch2;
	l.m->GetRWChannels(pat, ch2);
	RWChannelState st(ch2);
	vector<string> ids2; // same channels in the same order
	Values saved = v;
	mc::S d;
	d << pat;
	bool bend = pat == "*.*.B*"; // B0 and B1 of a bend are coupled by scaling: written in array order
	int depth = mc::thorough() ? 4 : 3;
	for(int i = 0; i < depth; i++)
	{
		int op = mc::choose(10);
		switch(op)
		{
		case 0:
			a->Write(n - 1, 0.9);
			write(v, ids[n - 1], 0.9);
			d << " write last .9";
			break;
		case 1:
			a->WriteAll(0.4);
			for(auto& s : ids)
				write(v, s, 0.4);
			d << " all=.4";
			break;
		case 2:
		{
			RealVector x(n);
			for(size_t k = 0; k < n; k++)
				x[k] = 0.1 + 0.1 * k;
			a->WriteAll(x);
			for(size_t k = 0; k < n; k++)
				write(v, ids[k], x[k]);
			d << " all=vector";
			break;
		}
		case 3:
			a->Increment(0, 0.3);
			write(v, ids[0], v[ids[0]] + 0.3);
			d << " first+=.3";
			break;
		case 4:
			a->IncrementAll(0.2);
			for(auto& s : ids)
				write(v, s, v[s] + 0.2);
			d << " all+=.2";
			break;
		case 5:
		{
			RealVector x(n);
			for(size_t k = 0; k < n; k++)
				x[k] = 0.16 + 0.1 * k;
			a->IncrementAll(x);
			for(size_t k = 0; k < n; k++)
				write(v, ids[k], v[ids[k]] + x[k]);
			d << " all+=vector";
			break;
		}
		case 6:
			st.Reset();
			for(auto& s : ids)
				write(v, s, saved[s]);
			d << " reset";
			if(bend) // written in order, coupled
				for(auto& s : ids)
					v[s] = saved[s];
			break;
		case 7:
			st.CacheCurrentState();
			saved = v;
			d << " cache";
			break;
		case 8:
		{
			// moving the channels into another array
			unique_ptr<RWChannelArray> b(new RWChannelArray(*a));
			MC_CHECK(a->Size() == 0 && b->Size() == n, "move", d << ": sizes " << a->Size() << " " << b->Size());
			a = move(b);
			d << " move";
			break;
		}
		case 9:
			for(size_t k = 0; k < n; k++)
			{
				// a change that is small on any scale
				a->Increment(k, (k % 2 ? -1 : 1) * 1e-10);
				write(v, ids[k], v[ids[k]] + (k % 2 ? -1 : 1) * 1e-10);
			}
			d << " all+=1e-10";
			break;
		}
		mc::note(d);
		if(bend && op != 7 && op != 8)
		{
			// order of B0 and B1 within a bend is free: take B1 as read if B0 was written after it
			size_t p0 = find(ids.begin(), ids.end(), "SectorBend.H1.B0") - ids.begin(), p1 = find(ids.begin(), ids.end(), "SectorBend.H1.B1") - ids.begin();
			if(p0 > p1)
				v["SectorBend.H1.B1"] = static_cast<SectorBend*>(l.by["SectorBend.H1"])->GetB1();
		}
		RealVector r = *a;
		MC_CHECK(r.size() == n && a->Size() == n, "size", d);
		for(size_t k = 0; k < n; k++)
		{
			MC_CLOSET(r[k], v[ids[k]], 1e-12, 1e-14, "array-read", d << ": " << ids[k] << " reads");
			MC_CLOSET(a->Read(k), v[ids[k]], 1e-12, 1e-14, "array-read", d << ": " << ids[k] << " reads");
		}
		sameValues(l, v, d);
	}
	ostringstream os;
	a->Print(os);
	istringstream is(os.str());
	for(size_t k = 0; k < n; k++)
	{
		string id, eq;
		double x;
		is >> id >> eq >> x;
		MC_CHECK(is && id == ids[k] && eq == "=" && fabs(x - v[ids[k]]) < 1e-4 * (1 + fabs(x)), "print", d << ": printed " << os.str());
	}
	mc::state(d);
	mc::sample(d);
}
MC_SECTION("bpm")
{
	// readings follow the last measurement of their own BPM, plus their own offset
	BPM::generate_noise = false;
	unique_ptr<Lattice> l(new Lattice(true));
	const char* NM[2] = {"B1", "B.M"};
	double m[2][2] = {{0, 0}, {0, 0}}, off[2][2] = {{0, 0}, {0, 0}};
	bool have[2][2] = {{0, 0}, {0, 0}};
	vector<unique_ptr<ROChannel> > ch[2][2];
	mc::S d;
	auto get = [&](int b, int p)
		{
			vector<ROChannel*> c;
			string id = mc::S() << "BPM." << NM[b] << "." << "XY"[p];
			size_t n = l->m->GetROChannels(id, c);
			MC_CHECK(n == 1 && c[0]->GetID() == id, "bpm-id", d << ": " << id << " gives " << n << " channels");
			ch[b][p].emplace_back(c[0]);
			if(!have[b][0] && !have[b][1])
				m[b][0] = m[b][1] = 0; // data are recorded from now on
			have[b][p] = true;
		};
	for(int i = 0; i < (mc::thorough() ? 6 : 5); i++)
	{
		int op = mc::choose(6);
		if(op < 2)
		{
			int p = mc::choose(2);
			get(op, p);
			d << " get " << NM[op] << "XY"[p];
		}
		else if(op < 4)
		{
			int b = op - 2;
			ParticleBunch bunch(1, 1);
			PSvector z(0);
			z.x() = m[b][0] = 1e-3 * (i + 1);
			z.y() = m[b][1] = -2e-3 * (i + 1);
			bunch.AddParticle(z);
			static_cast<BPM*>(l->by[string("BPM.") + NM[b]])->MakeMeasurement(bunch);
			d << " measure " << NM[b];
		}
		else if(op == 4)
		{
			int b = mc::choose(2), p = mc::choose(2);
			if(ch[b][p].empty())
				mc::prune();
			static_cast<BPMChannel*>(ch[b][p][0].get())->SetBPMOffset(off[b][p] = 0.01 * (i + 1));
			d << " offset " << NM[b] << "XY"[p];
		}
		else
		{
			// another model in place of this one
			for(auto& r : ch)
				for(auto& c : r)
					c.clear();
			l.reset();
			l.reset(new Lattice(true));
			memset(m, 0, sizeof m);
			memset(off, 0, sizeof off);
			memset(have, 0, sizeof have);
			d << " new model";
		}
		mc::note(d);
		for(int b = 0; b < 2; b++)
			for(int p = 0; p < 2; p++)
				for(auto& c : ch[b][p])
					MC_CLOSET(c->Read(), m[b][p] + off[b][p], 1e-13, 1e-16, "bpm-read", d << ": BPM " << NM[b] << "." << "XY"[p] << " reads");
	}
	mc::state(d);
	mc::sample(d);
}
// BPMs constructed one after another at the same address
MC_SECTION("bpm-reused-address")
{
	BPM::generate_noise = false;
	alignas(BPM) static char mem[sizeof(BPM)];
	int n = 2 + mc::choose(2), off = mc::choose(2);
	string d = mc::S() << n << " BPMs in turn at one address" << (off ? " with offsets" : "");
	mc::note(d);
	mc::state(d);
	for(int i = 0; i < n; i++)
	{
		BPM* b = new(mem) BPM(string("B") + char('0' + i));
		{
			static vector<ElementRepository*> keep; // a repository would delete the BPM
			keep.push_back(new ElementRepository);
			ElementRepository& rep = *keep.back();
			vector<ROChannel*> ch;
			unique_ptr<ChannelServer> srv(ConstructChannelServer());
			rep.Add(b);
			srv->SetRepository(&rep);
			srv->GetROChannels("BPM.*.*", ch);
			ROChannelArray a(ch);
			MC_CHECK(a.Size() == 2, "found", d);
			for(size_t k = 0; k < 2; k++)
			{
				MC_CHECK(a.Read(k) == 0, "stale-data", d << ": " << a[k].GetID() << " reads " << a.Read(k) << " before any measurement");
				MC_CHECK(a[k].GetID().substr(0, 6) == string("BPM.B") + char('0' + i), "stale-id", d << ": id " << a[k].GetID());
			}
			ParticleBunch bunch(1, 1);
			PSvector z(0);
			z.x() = 1e-3 * (i + 1);
			z.y() = -2e-3 * (i + 1);
			bunch.AddParticle(z);
			b->MakeMeasurement(bunch);
			for(size_t k = 0; k < 2; k++)
			{
				bool x = a[k].GetID().back() == 'X';
				MC_CLOSET(a.Read(k), x ? z.x() : z.y(), 1e-13, 0, "stale-buffer", d << ": " << a[k].GetID());
			}
			if(off)
				static_cast<BPMChannel&>(a[0]).SetBPMOffset(5);
		}
		b->~BPM();
	}
}
