// P45: the aperture survey reports the apertures that are there; the selection of stable orbits names exactly the
// particles that survive
#include "mc.h"
#include "MerlinIO.h"
#include "ApertureSurvey.h"
#include "StableOrbits.h"
#include "AcceleratorModelConstructor.h"
#include "Components.h"
#include "Collimator.h"
#include "Aperture.h"
#include "CollimatorAperture.h"
#include "InterpolatedApertures.h"
#include "ParticleMapComponent.h"
#include "LinearParticleMap.h"
#include "CollimateParticleProcess.h"
#include <memory>
#include <fstream>
#include <unistd.h>
#include <sys/stat.h>
using namespace std;
using namespace ParticleTracking;
// an aperture with four different limits that vary along the element
struct Lopsided: public Aperture
{
	double b;
	explicit Lopsided(double b0) :
		b(b0)
	{
	}
	double lim(int dir, double z) const
	{
		return b + 0.05 * dir + (dir % 2 ? 0.01 : -0.02) * z;
	}
	bool CheckWithinApertureBoundaries(double x, double y, double z) const
	{
		return x <= lim(0, z) && x >= -lim(1, z) && y <= lim(2, z) && y >= -lim(3, z);
	}
	string GetType()
	{
		return "LOPSIDED";
	}
};
struct Elem
{
	AcceleratorComponent* c;
	double s0, len;
	function<double(int, double)> lim;
};
static vector<unique_ptr<Aperture> > owned;
static Elem make(int kind, int n, double& s)
{
	Elem e;
	e.s0 = s;
	string nm = mc::S() << "E" << n;
	e.lim = [](int, double) {
			return 1.0;
		};
	Aperture* a = nullptr;
	switch(kind)
	{
	case 0:
		e.c = new Drift(nm, e.len = 1);
		break;
	case 1:
		e.c = new Quadrupole(nm, e.len = 2, 0.1);
		a = new RectangularAperture(0.0625, 0.03);
		e.lim = [](int d, double) {
				return d < 2 ? 0.0625 : 0.03;
			};
		break;
	case 2:
		e.c = new Drift(nm, e.len = 0.625);
		a = new Lopsided(0.3);
		e.lim = [a](int d, double z) {
				return static_cast<Lopsided*>(a)->lim(d, z);
			};
		break;
	case 3:
		e.c = new Marker(nm);
		e.len = 0;
		a = new CircularAperture(0.01);
		break;
	case 4:
		e.c = new Collimator(nm, e.len = 0.6);
		a = new CircularAperture(1.5);
		break;
	default:
		e.c = new SectorBend(nm, e.len = 1.5, 0.01, 0.01);
		a = new EllipticalAperture("ELLIPSE", 0, 0.08, 1.0);
		e.lim = [](int d, double) {
				return d < 2 ? 0.08 : 1.0;
			};
		break;
	}
	if(a)
	{
		owned.emplace_back(a);
		e.c->SetAperture(a);
	}
	e.c->SetComponentLatticePosition(s);
	s += e.len;
	return e;
}
static vector<string> split(const string& l)
{
	vector<string> r;
	string t;
	istringstream is(l);
	while(getline(is, t, '\t'))
		r.push_back(t);
	return r;
}
MC_SECTION("survey")
{
	owned.clear();
	const int n = 1 + mc::choose(mc::thorough() ? 4 : 3);
	double s = 0;
	vector<Elem> es;
	string d = "elements";
	AcceleratorModelConstructor ctor;
	for(int i = 0; i < n; i++)
	{
		const int k = mc::choose(6);
		es.push_back(make(k, i, s));
		ctor.AppendComponent(es.back().c);
		d += mc::S() << " " << k;
	}
	const double total = s;
	unique_ptr<AcceleratorModel> model(ctor.GetModel());
	const int mode = mc::choose(3);
	const double step = mode == 0 ? mc::pick(vector<double>{1, 2, 3, 5}) : mc::pick(vector<double>{0.25, 0.3, 1, 1.75, 10});
	d += mc::S() << ", mode " << mode << ", step " << step;
	mc::state(d);
	mc::sample(d);
	// expected positions, per element
	vector<pair<size_t, double> > want;
	long k = 0;
	for(size_t i = 0; i < es.size(); i++)
	{
		const double L = es[i].len;
		if(L == 0)
			continue;
		if(mode == 0)
			for(int p = 0; p < int(step); p++)
				want.push_back({i, step == 1 ? 0 : p * L / (step - 1)});
		else if(mode == 1)
		{
			for(int p = 0; p * step < L - 1e-9; p++)
				want.push_back({i, p * step});
			want.push_back({i, L});
		}
		else
			for(; k * step < es[i].s0 + L - 1e-9; k++)
				want.push_back({i, k * step - es[i].s0});
	}
	ostringstream out;
	out.precision(15);
	typedef ApertureSurvey::SurveyType ST;
	const ST modes[3] = {ApertureSurvey::points_per_element, ApertureSurvey::distance, ApertureSurvey::abs_distance};
	ApertureSurvey::ApertureSurvey(model.get(), &out, modes[mode], step);
	istringstream is(out.str());
	string line;
	getline(is, line);
	MC_CHECK(line == "#name\ttype\ts_end\tlength\ts\tap_px\tap_mx\tap_py\tap_my", "header", d << " header " << line);
	size_t w = 0;
	pair<size_t, double> last(size_t(-1), 0);
	while(getline(is, line))
	{
		vector<string> f = split(line);
		MC_CHECK(f.size() == 9, "row", d << " row " << line);
		const double at = atof(f[4].c_str());
		// the same point once more at the end of an element does no harm; in the last mode a point at the joint of two
		// elements is a point of either
		if(mode == 1 && last.first < es.size() && f[0] == es[last.first].c->GetName() && fabs(at - es[last.first].s0 - last.second) < 1e-9)
			continue;
		// rounding decides whether a point at the very end of the model is still inside
		if(mode == 2 && w == want.size() && fabs(at - total) < 1e-9)
			continue;
		MC_CHECK(w < want.size(), "rows", d << ": one row more than there are points: " << line);
		size_t i = want[w].first;
		if(mode == 2 && f[0] != es[i].c->GetName())
			for(size_t j = 0; j < es.size(); j++)
				if(es[j].c->GetName() == f[0] && at > es[j].s0 - 1e-9 && at < es[j].s0 + es[j].len + 1e-9)
					i = j;
		const Elem& e = es[i];
		MC_CHECK(f[0] == e.c->GetName() && f[1] == e.c->GetType(), "element", d << " row " << line << " expected element " << e.c->GetName());
		MC_CLOSET(atof(f[2].c_str()), e.s0 + e.len, 1e-12, 1e-9, "end", d << " row " << line);
		MC_CLOSET(atof(f[3].c_str()), e.len, 1e-12, 0, "length", d << " row " << line);
		MC_CLOSET(at, es[want[w].first].s0 + want[w].second, 1e-12, 1e-9, "position", d << " row " << line);
		for(int c = 0; c < 4; c++)
			MC_CLOSET(atof(f[5 + c].c_str()), e.lim(c, at - e.s0), 0, 1.1e-6, "limit", d << " row " << line << " direction " << c);
		last = want[w];
		w++;
		mc::step();
	}
	MC_CHECK(w == want.size(), "rows", d << ": " << w << " points, expected " << want.size() << " up to " << total);
	mc::outcome(mc::S() << "points " << w);
	// the same to a file
	char dir[] = "/tmp/mcsvXXXXXX";
	if(!mkdtemp(dir))
		mc::prune();
	const string path = string(dir) + "/survey";
	ostringstream plain;
	ApertureSurvey::ApertureSurvey(model.get(), &plain, modes[mode], step);
	ApertureSurvey::ApertureSurvey(model.get(), path, modes[mode], step);
	ifstream in(path);
	stringstream got;
	got << in.rdbuf();
	unlink(path.c_str());
	rmdir(dir);
	MC_CHECK(got.str() == plain.str(), "file", d << ": the file differs from the stream");
}
// ---------------------------------------------------------------------------------------------------------------------
MC_SECTION("stable")
{
	owned.clear();
	typedef long double LD;
	// a ring: drifts with apertures, and a map that rotates both planes
	const int layout = mc::choose(3);
	const double phase = mc::pick(vector<double>{0.4, 1.9});
	const int turns = mc::pick(vector<int>{1, 2, 5});
	const int obs = mc::choose(4);
	const int np = mc::pick(vector<int>{1, 4});
	const int set = mc::choose(np == 1 ? 4 : 8);
	const bool twice = mc::choose(2);
	string d = mc::S() << "layout " << layout << ", phase " << phase << ", " << turns << " turns from " << obs << ", particles " << np << "/" << set
		<< (twice ? ", twice" : "");
	mc::state(d);
	LinearParticleMap map;
	RealMatrix R(6, 6, 0.0);
	R(0, 0) = R(1, 1) = cos(phase);
	R(0, 1) = sin(phase);
	R(1, 0) = -sin(phase);
	R(2, 2) = R(3, 3) = cos(2 * phase);
	R(2, 3) = sin(2 * phase);
	R(3, 2) = -sin(2 * phase);
	R(4, 4) = R(5, 5) = 1;
	map.R = RMtrx(R);
	struct E
	{
		double len, hx, hy;
		bool isMap;
	};
	vector<E> ring;
	const E dr{0.5, 0.004, 0.003, false}, open{1, 0, 0, false}, tight{0.25, 0.003, 0.01, false}, mp{0, 0, 0, true};
	if(layout == 0)
		ring = {dr, mp, open, tight};
	else if(layout == 1)
		ring = {mp, tight, dr, mp};
	else
		ring = {open, dr, mp, dr};
	AcceleratorModelConstructor ctor;
	int n = 0;
	for(auto& e : ring)
	{
		string nm = mc::S() << "E" << n++;
		if(e.isMap)
			ctor.AppendComponent(new ParticleMapComponent(nm, &map));
		else
		{
			auto* c = new Drift(nm, e.len);
			if(e.hx)
			{
				owned.emplace_back(new RectangularAperture(e.hx, e.hy));
				c->SetAperture(owned.back().get());
			}
			ctor.AppendComponent(c);
		}
	}
	unique_ptr<AcceleratorModel> model(ctor.GetModel());
	ParticleBunch b(10, 1e-9);
	vector<array<LD, 4> > x;
	for(int i = 0; i < np; i++)
	{
		static const double AMP[4] = {1.0, 3.2, 0.3, 2.3};
		const double a = AMP[(i + set) % 4] * 1e-3, c = AMP[(i * 3 + set / 2) % 4] * 1e-3 * (set % 3 ? 0.8 : 0.2);
		Particle p(0);
		p.x() = a;
		p.xp() = -0.3 * a;
		p.y() = i % 2 ? -c : c;
		p.yp() = 0.2 * c;
		p.id() = 50 + i;
		b.AddParticle(p);
		x.push_back({{p.x(), p.xp(), p.y(), p.yp()}});
	}
	StableOrbits so(model.get());
	MC_CHECK(so.SetTurns(turns) == 1 && so.SetObservationPoint(obs) == 0, "defaults", d);
	MC_CHECK(so.SetTurns(turns) == turns && so.SetObservationPoint(obs) == obs, "settings", d);
	const vector<array<LD, 4> > x0 = x;
	const ParticleBunch before(b);
	for(int pass = 0; pass < (twice ? 2 : 1); pass++)
	{
		x = x0;
		// which survive
		vector<size_t> keep;
		bool doubtful = false;
		for(size_t i = 0; i < x.size(); i++)
		{
			bool alive = true;
			auto& v = x[i];
			for(int t = 0; t < turns && alive; t++)
				for(size_t k = 0; k < ring.size() && alive; k++)
				{
					const E& e = ring[(k + obs) % ring.size()];
					if(e.isMap)
					{
						array<LD, 4> w;
						for(int r = 0; r < 4; r++)
						{
							w[r] = 0;
							for(int c = 0; c < 4; c++)
								w[r] += R(r, c) * v[c];
						}
						v = w;
						continue;
					}
					v[0] += e.len / 2 * v[1];
					v[2] += e.len / 2 * v[3];
					if(e.hx)
					{
						if(fabsl(fabsl(v[0]) - e.hx) < 1e-12 || fabsl(fabsl(v[2]) - e.hy) < 1e-12)
							doubtful = true;
						alive = fabsl(v[0]) < e.hx && fabsl(v[2]) < e.hy;
					}
					v[0] += e.len / 2 * v[1];
					v[2] += e.len / 2 * v[3];
				}
			if(alive)
			{
				keep.push_back(i);
			}
		}
		if(doubtful)
			mc::prune();
		list<size_t> index{99, 98};
		bool thrown = false;
		try
		{
			so.SelectStable(b, &index);
		}
		catch(ExcessiveParticleLoss&)
		{
			thrown = true;
		}
		mc::outcome(mc::S() << "kept " << keep.size() << " of " << x.size());
		if(thrown)
		{
			MC_CHECK(keep.empty() && index.empty(), "thrown", d << ": " << keep.size() << " particles survive, but all were reported lost");
		}
		MC_CHECK(vector<size_t>(index.begin(), index.end()) == keep, "index", d << ": index of " << index.size() << " particles expected "
				<< keep.size());
		MC_CHECK(b.size() == before.size(), "bunch", d << ": the bunch to choose from was changed");
		auto o = before.begin();
		for(auto& p : b)
		{
			for(int c = 0; c < 6; c++)
				MC_CHECK(p[c] == (*o)[c], "bunch", d << ": the bunch to choose from was changed");
			++o;
		}
	}
}
