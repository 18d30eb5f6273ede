// P21: bunches and particles written are read back the same
#include "mc.h"
#include "MerlinIO.h"
#include "ParticleBunch.h"
#include "SMPBunch.h"
#include "SliceMacroParticle.h"
#include "PSvector.h"
#include <fstream>
#include <sstream>
#include <iomanip>
#include <unistd.h>
#include <cfloat>
using namespace std;
using namespace ParticleTracking;
using SMPTracking::SMPBunch;
using SMPTracking::SliceMacroParticle;
static const vector<double> VAL{0, 1.5e-3, -1. / 3, 1e-300, -2.2250738585072014e-308, 1e300, -123456789.123456789, 1e-17, 1 + DBL_EPSILON, -0.1};
static const vector<double> SMALL{0, -1. / 3, 1.25e-12, -7e5};
MC_SECTION("bunch")
{
	int n = mc::choose(4), sty = mc::choose(3);
	double t0 = mc::pick(vector<double>{0, 1. / 7, -3e8}), p0 = mc::pick(vector<double>{1. / 3, 7000.123456789012});
	bool header = mc::choose(2);
	ParticleBunch b(p0, 1);
	b.SetReferenceTime(t0);
	mc::S d;
	d << n << " particles, reference " << t0 << "," << p0 << (header ? "" : ", no header") << ", stream state " << sty << ", values";
	vector<PSvector> v;
	for(int i = 0; i < n; i++)
	{
		PSvector p(0);
		int a = mc::choose(i == 0 ? VAL.size() : SMALL.size());
		for(int k = 0; k < 6; k++)
			p[k] = i == 0 ? VAL[(a + k) % VAL.size()] : SMALL[(a * (k + 1) + k) % SMALL.size()];
		p.id() = i * 1000 + 1;
		d << " " << a;
		v.push_back(p);
		b.AddParticle(p);
	}
	mc::note(d);
	mc::state(d);
	stringstream os;
	if(sty == 1)
		os << fixed << setprecision(2);
	if(sty == 2)
		os << scientific << showpos << setprecision(4) << left;
	auto fl = os.flags();
	auto pr = os.precision();
	if(header && mc::choose(2))
		b.Output(os);
	else
		b.Output(os, header);
	MC_CHECK(os.flags() == fl && os.precision() == pr, "stream-state", d << ": writing changed the state of the stream");
	int lines = 0;
	{
		istringstream is(os.str());
		string l;
		while(getline(is, l))
			lines++;
	}
	MC_CHECK(lines == n + header, "lines", d << ": " << lines << " lines");
	ParticleBunch c(99, 5);
	int pre = mc::choose(2); // added to the particles there already
	if(pre)
		c.AddParticle(PSvector(4));
	c.Input(6, os);
	MC_CHECK(int(c.size()) == n + pre, "count", d << ": " << c.size() << " particles read");
	if(n)
		MC_CHECK(c.GetReferenceMomentum() == p0 && c.GetReferenceTime() == t0, "reference", d << ": read reference " << c.GetReferenceTime() << "," << c.GetReferenceMomentum());
	if(n + pre)
		MC_CLOSET(c.GetTotalCharge(), 6., 1e-12, 0, "charge", d << ": charge");
	for(int i = 0; i < n; i++)
	{
		const PSvector& q = *(c.begin() + i + pre);
		for(int k = 0; k < 6; k++)
			MC_CHECK(q[k] == v[i][k], "value", d << ": particle " << i << " coordinate " << k << " " << v[i][k] << " read as " << q[k]);
		ostringstream o;
		b.OutputIndexParticle(o, i);
		istringstream is(o.str());
		double x;
		for(int k = 0; k < 6; k++)
			MC_CHECK((is >> x) && x == v[i][k], "index-particle", d << ": particle " << i << " coordinate " << k << " written as " << o.str());
		MC_CHECK(!(is >> x), "index-particle", d << ": more than six values");
	}
	mc::sample(d);
}
// comments and empty lines are skipped
MC_SECTION("comments")
{
	mc::S f, d;
	int n = 0;
	for(int i = 0; i < 4; i++)
		switch(mc::choose(4))
		{
		case 0:
			f << "# 1 2 3 4 5 6 7 8\n";
			d << "#";
			break;
		case 1:
			f << "\n";
			d << "-";
			break;
		case 2:
			f << "2 3 " << n << " 1 2 3 4 5\n";
			d << "p";
			n++;
			break;
		case 3:
			f << "  2\t3   " << n << " 1 2 3 4 5  \n";
			d << "P";
			n++;
			break;
		}
	mc::note(d);
	mc::state(d);
	istringstream is{string(f)};
	ParticleBunch c(9, 1);
	c.Input(1, is);
	MC_CHECK(int(c.size()) == n, "comments", string(d) << ": " << c.size() << " particles");
	for(int i = 0; i < n; i++)
		MC_CHECK((c.begin() + i)->x() == i && (c.begin() + i)->dp() == 5, "comments", string(d) << ": particle " << i);
	mc::sample(d);
}
MC_SECTION("particles")
{
	int n = 1 + mc::choose(3), a = mc::choose(VAL.size());
	vector<PSvector> v;
	mc::S d;
	d << n << " particles, values " << a << " ids";
	for(int i = 0; i < n; i++)
	{
		PSvector p(0);
		for(int k = 0; k < 6; k++)
			p[k] = VAL[(a + k + i) % VAL.size()];
		p.id() = mc::pick(vector<int64_t>{0, 7, -3, 123456789012345});
		d << " " << p.id();
		v.push_back(p);
	}
	mc::note(d);
	mc::state(d);
	stringstream os;
	for(auto& p : v)
		os << p;
	string text = os.str();
	ParticleBunch b(5, 2, os);
	MC_CHECK(int(b.size()) == n, "psvector-count", d << ": read " << b.size() << " particles from " << text);
	MC_CLOSET(b.GetTotalCharge(), 2., 1e-12, 0, "psvector-charge", d << ": charge");
	stringstream o2(text);
	for(int i = 0; i < n; i++)
	{
		PSvector p;
		o2 >> p;
		MC_CHECK(bool(o2), "psvector-read", d << ": cannot read " << text);
		for(auto& q : {p, *(b.begin() + i)})
		{
			for(int k = 0; k < 6; k++)
				MC_CLOSET(q[k], v[i][k], 6e-11, 1e-307, "psvector-value", d << ": particle " << i << " coordinate " << k);
			MC_CHECK(q.id() == v[i].id(), "psvector-id", d << ": id " << v[i].id() << " read as " << q.id());
		}
	}
	mc::sample(d);
}
MC_SECTION("macroparticles")
{
	int n = mc::choose(4);
	char dir[] = "/tmp/mcsmpXXXXXX";
	if(!mkdtemp(dir))
		abort();
	string f = string(dir) + "/b";
	double p0 = mc::pick(vector<double>{5, 0.123456}), t0 = mc::pick(vector<double>{0, -12.5});
	SMPBunch b(p0, 1);
	b.SetReferenceTime(t0);
	mc::S d;
	d << n << " slices, reference " << p0 << "," << t0 << ":";
	vector<SliceMacroParticle> v;
	double Q = 0;
	for(int i = 0; i < n; i++)
	{
		int a = mc::choose(4);
		PSmoments S;
		for(int k = 0; k < 4; k++)
		{
			S[k] = SMALL[(a + k) % 4];
			for(int j = 0; j <= k; j++)
				S(k, j) = k == j ? 1e-6 * (k + 1 + a) * (k + 1) : 1e-7 * (k - 3 * j + a);
		}
		double q = a == 1 ? -0.5 : 1.5 + a;
		v.push_back(SliceMacroParticle(S, 0.1 * ((i * 2) % 3), 1e-3 * (a - 1), q));
		b.AddParticle(v.back());
		Q += q;
		d << " " << a;
	}
	mc::note(d);
	mc::state(d);
	{
		ofstream os(f);
		b.Output(os);
	}
	SMPBunch c(f);
	unlink(f.c_str());
	rmdir(dir);
	MC_CHECK(int(c.Size()) == n, "smp-count", d << ": read " << c.Size() << " slices");
	MC_CLOSET(c.GetReferenceMomentum(), p0, 1e-5, 0, "smp-reference", d << ": momentum");
	MC_CLOSET(c.GetReferenceTime(), t0, 1e-5, 0, "smp-reference", d << ": time");
	MC_CLOSET(c.GetTotalCharge(), Q, 1e-5, 1e-9, "smp-charge", d << ": charge");
	MC_CHECK(c.GetChargeSign() == (fabs(Q) < 1e-9 ? 0 : Q > 0 ? 1 : -1), "smp-sign", d << ": charge sign " << c.GetChargeSign());
	stable_sort(v.begin(), v.end());
	for(int i = 0; i < n; i++)
	{
		auto& s = c.Get(i);
		auto& e = v[i];
		MC_CLOSET(s.Q(), e.Q(), 1e-6, 0, "smp-slice", d << ": charge of slice " << i);
		for(int k = 0; k < 6; k++)
			MC_CLOSET(s.mean(k), e.mean(k), 1e-6, 1e-15, "smp-slice", d << ": mean " << k << " of slice " << i);
		for(int k = 0; k < 4; k++)
			for(int j = 0; j <= k; j++)
				MC_CLOSET(s.sig(k, j), e.sig(k, j), 3e-6, 1e-20, "smp-slice", d << ": sigma " << k << "," << j << " of slice " << i);
	}
	mc::sample(d);
}
