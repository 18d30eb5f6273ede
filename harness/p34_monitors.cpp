// P34: monitors measure the beam at their measurement point, once per passage
#include "mc.h"
#include "MerlinIO.h"
#include "Components.h"
#include "BPM.h"
#include "RMSProfileMonitor.h"
#include "ParticleTracker.h"
#include "ParticleBunch.h"
#include "ParticleComponentTracker.h"
#include "MonitorProcess.h"
#include "RandomNG.h"
#include <fstream>
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>
using namespace std;
using namespace ParticleTracking;
struct Rec: public BPM::Buffer
{
	vector<BPM::Data> d;
	vector<const BPM*> who;
	void Record(const BPM& b, const BPM::Data& x) override
	{
		d.push_back(x);
		who.push_back(&b);
	}
};
struct RecP: public RMSProfileMonitor::Buffer
{
	vector<RMSProfileMonitor::Data> d;
	void Record(const RMSProfileMonitor&, const RMSProfileMonitor::Data& x) override
	{
		d.push_back(x);
	}
};
static vector<PSvector> parts(int n)
{
	vector<PSvector> v;
	for(int i = 0; i < n; i++)
	{
		PSvector p(0);
		p.x() = 1e-3 * (i * i - 2 * i + 1.5);
		p.xp() = 1e-4 * (3 - i);
		p.y() = -2e-3 * (i - 0.4) * (i % 2 ? 1 : -0.3);
		p.yp() = 2e-4 * (i - 2.2);
		p.ct() = 1e-3 * i;
		p.dp() = 1e-3 * (i - 1);
		v.push_back(p);
	}
	return v;
}
MC_SECTION("measurement-point")
{
	// lengths in units of 1/8 so that steps are exact as well as thirds and tenths that are not
	double L = mc::pick(vector<double>{0, 1, 0.3, 2.5}), f = mc::pick(vector<double>{0, -0.5, 0.5, 0.25, -0.2, 1. / 6}), mp = L * f;
	int n = 1 + mc::choose(mc::thorough() ? 16 : 8), np = mc::pick(vector<int>{1, 3}), pass = 1 + mc::choose(2);
	bool uneven = mc::choose(2);
	if(L == 0 && (f != 0 || n > 1 || uneven))
		mc::prune();
	if(n == 1 && uneven)
		mc::prune();
	string d = mc::S() << "BPM length " << L << " measuring at " << mp << " from the centre, " << n << (uneven ? " uneven" : "") << " steps, " << np << " particles, " << pass << " passages";
	mc::note(d);
	mc::state(d);
	BPM b("B", L, mp);
	Rec r;
	b.AddBuffer(&r);
	ParticleBunch bunch(5, 1);
	vector<PSvector> v = parts(np);
	for(auto& p : v)
		bunch.AddParticle(p);
	bunch.SetReferenceTime(7.5);
	ParticleComponentTracker ct;
	ct.SetBunch(bunch);
	double s = L / 2 + mp;
	for(int k = 0; k < pass; k++)
	{
		double cx = 0, cy = 0;
		for(auto& p : v)
		{
			cx += (p.x() + (k * L + s) * p.xp()) / np;
			cy += (p.y() + (k * L + s) * p.yp()) / np;
		}
		b.PrepareTracker(ct);
		double done = 0;
		for(int i = 0; i < n; i++)
		{
			double ds = i == n - 1 ? ct.GetRemainingLength() : uneven ? (L - done) / (i % 2 ? 3 : 1.5) : L / n;
			ct.TrackStep(ds);
			done += ds;
		}
		MC_CHECK(r.d.size() == size_t(k + 1), "once", d << ": " << r.d.size() << " measurements after passage " << k + 1);
		auto& m = r.d.back();
		MC_CHECK(r.who.back() == &b, "bpm", d);
		MC_CLOSET(m.x.value, cx, 1e-12, 1e-16, "x", d << ": measured x");
		MC_CLOSET(m.y.value, cy, 1e-12, 1e-16, "y", d << ": measured y");
		MC_CHECK(m.x.error == 0 && m.y.error == 0, "error", d);
		MC_CHECK(m.ct > 7.5 + k * L - 1e-9 && m.ct < 7.5 + (k + 1) * L + 1e-9, "time", d << ": time " << m.ct << " in passage " << k); // within the monitor
	}
	int i = 0;
	for(auto& p : bunch)
	{
		MC_CLOSET(p.x(), v[i].x() + pass * L * v[i].xp(), 1e-12, 1e-15, "drift", d << ": x behind the monitor");
		MC_CLOSET(p.y(), v[i].y() + pass * L * v[i].yp(), 1e-12, 1e-15, "drift", d << ": y behind the monitor");
		MC_CHECK(p.xp() == v[i].xp() && p.yp() == v[i].yp() && p.ct() == v[i].ct() && p.dp() == v[i].dp(), "unchanged", d);
		i++;
	}
	mc::sample(d);
}
struct Shift: public BPM::Response
{
	void Apply(BPM::Data* d) override
	{
		d->x.value += 10;
		d->y.value *= 2;
	}
};
MC_SECTION("settings")
{
	// histories of buffers, activity, scale and response
	BPM::generate_noise = false;
	BPM::SetDefaultBuffer(nullptr);
	Monitor::all_inactive = false;
	unique_ptr<BPM> b(new BPM("B"));
	MC_CHECK(!b->IsReflected() && b->IsActive(), "initial", "new BPM reflected " << b->IsReflected() << " active " << b->IsActive());
	Rec a[2], def;
	Shift sh;
	bool on[2] = {false, false}, dflt = false, active = true, all = true, resp = false;
	double sx = 1, sy = 1, rx = 0, ry = 0;
	size_t cnt[3] = {0, 0, 0};
	mc::S d;
	ParticleBunch bunch(5, 1);
	vector<PSvector> v = parts(3);
	double cx = 0, cy = 0;
	for(auto& p : v)
	{
		bunch.AddParticle(p);
		cx += p.x() / 3;
		cy += p.y() / 3;
	}
	int depth = mc::thorough() ? 5 : 4;
	for(int i = 0; i < depth; i++)
	{
		switch(mc::choose(12))
		{
		case 0:
			b->AddBuffer(&a[0]);
			on[0] = true;
			d << " add 0";
			break;
		case 1:
			b->AddBuffer(&a[1]);
			on[1] = true;
			d << " add 1";
			break;
		case 2:
		{
			bool rv = b->RemoveBuffer(&a[0]);
			d << " remove 0";
			MC_CHECK(rv == on[0], "remove", d << ": RemoveBuffer returned " << rv);
			on[0] = false;
			break;
		}
		case 3:
			b->ClearAllBuffers();
			on[0] = on[1] = false;
			d << " clear";
			break;
		case 4:
			dflt = !dflt;
			BPM::SetDefaultBuffer(dflt ? &def : nullptr);
			d << (dflt ? " default" : " no default");
			break;
		case 5:
		{
			bool rv = b->SetActive(!active);
			d << (active ? " inactive" : " active");
			MC_CHECK(rv == active, "set-active", d);
			active = !active;
			break;
		}
		case 6:
			Monitor::all_inactive = all;
			all = !all;
			d << (all ? " all on" : " all off");
			break;
		case 7:
			b->SetScale(sx = 2.5, sy = -1);
			d << " scale";
			break;
		case 8:
			MC_CHECK(b->SetResponse(resp ? nullptr : &sh) == (resp ? &sh : nullptr), "response", d);
			resp = !resp;
			d << " response " << resp;
			break;
		case 9:
			b->SetResolution(rx = 3e-6, ry = 4e-6);
			d << " resolution";
			break;
		case 10:
			b->SetRes(rx = ry = 5e-6);
			d << " res";
			break;
		case 11:
			b->RotateY180();
			b->RotateY180();
			MC_CHECK(!b->IsReflected(), "reflected", d);
			d << " reflect twice";
			break;
		}
		mc::note(d);
		b->MakeMeasurement(bunch);
		bool take = active && all;
		MC_CHECK(b->IsActive() == take, "active", d << ": active " << b->IsActive());
		Rec* rr[3] = {&a[0], &a[1], &def};
		bool want[3] = {on[0], on[1], dflt};
		for(int k = 0; k < 3; k++)
		{
			cnt[k] += take && want[k];
			MC_CHECK(rr[k]->d.size() == cnt[k], "recorded", d << ": buffer " << k << " has " << rr[k]->d.size() << " records, expected " << cnt[k]);
			if(take && want[k])
			{
				auto& m = rr[k]->d.back();
				MC_CLOSET(m.x.value, cx * sx + (resp ? 10 : 0), 1e-12, 0, "value", d << ": x");
				MC_CLOSET(m.y.value, cy * sy * (resp ? 2 : 1), 1e-12, 0, "value", d << ": y");
				MC_CHECK(m.x.error == rx && m.y.error == ry, "error", d << ": errors " << m.x.error << " " << m.y.error);
			}
		}
	}
	BPM::SetDefaultBuffer(nullptr);
	Monitor::all_inactive = false;
	mc::state(d);
	mc::sample(d);
}
MC_SECTION("noise")
{
	// resolution only adds noise to its own plane; noise is reproducible from the seed
	double rx = mc::pick(vector<double>{0, 1e-3}), ry = mc::pick(vector<double>{0, 2e-3});
	bool gen = mc::choose(2);
	string d = mc::S() << "resolution " << rx << "," << ry << " noise " << gen;
	mc::note(d);
	mc::state(d);
	BPM::generate_noise = gen;
	double val[2][2];
	for(int k = 0; k < 2; k++)
	{
		RandomNG::init(17);
		BPM b("B");
		b.SetResolution(rx, ry);
		Rec r;
		b.AddBuffer(&r);
		ParticleBunch bunch(5, 1);
		PSvector p(0);
		p.x() = 1;
		p.y() = 2;
		bunch.AddParticle(p);
		b.MakeMeasurement(bunch);
		MC_CHECK(r.d.size() == 1, "recorded", d);
		val[k][0] = r.d[0].x.value - 1;
		val[k][1] = r.d[0].y.value - 2;
		MC_CHECK(r.d[0].x.error == rx && r.d[0].y.error == ry, "error", d);
	}
	for(int p = 0; p < 2; p++)
	{
		double res = p ? ry : rx;
		MC_CHECK((val[0][p] != 0) == (gen && res != 0), "noise", d << ": plane " << p << " noise " << val[0][p]);
		MC_CHECK(fabs(val[0][p]) < 8 * res + 1e-15, "noise-size", d << ": plane " << p << " noise " << val[0][p]);
		MC_CHECK(val[0][p] == val[1][p], "reproducible", d);
	}
	// the scale applies to what is measured, noise included; the noise has the resolution as its standard deviation
	for(double sc : {1., -2.5})
	{
		RandomNG::init(17);
		BPM b("B");
		b.SetResolution(rx, ry);
		b.SetScale(sc, 2 * sc);
		Rec r;
		b.AddBuffer(&r);
		ParticleBunch bunch(5, 1);
		PSvector p(0);
		p.x() = 1;
		p.y() = 2;
		bunch.AddParticle(p);
		const int n = 2000;
		double sx = 0, sy = 0, mx = 0, my = 0;
		for(int k = 0; k < n; k++)
		{
			b.MakeMeasurement(bunch);
			double nx = r.d.back().x.value / sc - 1, ny = r.d.back().y.value / (2 * sc) - 2;
			mx += nx / n, my += ny / n, sx += nx * nx / n, sy += ny * ny / n;
		}
		// seven standard errors of the mean and of the standard deviation
		double ex = gen ? rx : 0, ey = gen ? ry : 0;
		MC_CHECK(fabs(mx) <= ex * 0.16 + 1e-14 && fabs(my) <= ey * 0.16 + 1e-14, "noise-mean", d << ": mean noise " << mx << "," << my);
		MC_CHECK(fabs(sqrt(sx) - ex) <= ex * 0.12 + 1e-14 && fabs(sqrt(sy) - ey) <= ey * 0.12 + 1e-14, "noise-rms", d << ": rms noise " << sqrt(sx) << "," << sqrt(sy) << " with scale " << sc);
	}
	BPM::generate_noise = true;
}
MC_SECTION("profile")
{
	double u = mc::pick(vector<double>{atan(1.0), 0, 2 * atan(1.0), 0.3, -0.6, 2.0});
	int n = 1 + mc::choose(5), tilt = mc::choose(3);
	double L = mc::pick(vector<double>{0, 1.5});
	int steps = L ? 1 + mc::choose(3) : 1;
	RMSProfileMonitor m("P", u, L, 0);
	RecP r;
	string d = mc::S() << "profile monitor at angle " << u << " length " << L << " in " << steps << " steps, " << n << " particles, variant " << tilt;
	mc::note(d);
	mc::state(d);
	m.AddBuffer(&r);
	vector<PSvector> v = parts(n);
	double mx = 0, my = 0, xx = 0, xy = 0, yy = 0;
	ParticleBunch bunch(5, 1);
	for(auto& p : v)
	{
		if(tilt == 1)
			swap(p.x(), p.y());
		if(tilt == 2)
			p.y() = 0.3 * p.x();
		bunch.AddParticle(p);
		double x = p.x() + L / 2 * p.xp(), y = p.y() + L / 2 * p.yp();
		mx += x / n;
		my += y / n;
	}
	for(auto& p : v)
	{
		double x = p.x() + L / 2 * p.xp() - mx, y = p.y() + L / 2 * p.yp() - my;
		xx += x * x / n;
		xy += x * y / n;
		yy += y * y / n;
	}
	ParticleComponentTracker ct;
	ct.SetBunch(bunch);
	m.PrepareTracker(ct);
	for(int i = 0; i < steps; i++)
		ct.TrackStep(L / steps);
	MC_CHECK(r.d.size() == 1, "profile-once", d << ": " << r.d.size() << " measurements");
	auto& z = r.d[0];
	double c = cos(u), s = sin(u);
	MC_CLOSET(z.x0.value, mx, 1e-12, 1e-15, "profile-x0", d << ": x0");
	MC_CLOSET(z.y0.value, my, 1e-12, 1e-15, "profile-y0", d << ": y0");
	MC_CLOSET(z.xrms.value, sqrt(xx), 1e-10, 1e-12, "profile-xrms", d << ": xrms");
	MC_CLOSET(z.yrms.value, sqrt(yy), 1e-10, 1e-12, "profile-yrms", d << ": yrms");
	// the sense of the u axis at 90 degrees is free
	double u0 = c * mx - s * my;
	MC_CLOSET(fabs(fabs(u - 2 * atan(1.0)) < 1e-9 ? fabs(z.u0.value) - fabs(u0) : z.u0.value - u0), 0., 0, 1e-14, "profile-u0", d << ": u0 " << z.u0.value);
	MC_CLOSET(z.urms.value, sqrt(max(0., c * c * xx - 2 * c * s * xy + s * s * yy)), 1e-7, 1e-11, "profile-urms", d << ": urms");
	MC_CHECK(z.x0.error == 0 && z.urms.error == 0, "profile-error", d);
	mc::sample(d);
}
// noise of profile monitors, replayed from the state of the generator
MC_SECTION("profile-noise")
{
	vector<double> rs{0, 1e-3, 1e-7, 4e-9};
	double rx = mc::pick(rs), ry = mc::pick(rs), ru = mc::pick(rs), u = mc::pick(vector<double>{atan(1.0), 0, 0.3});
	int n = 1 + mc::choose(3);
	string d = mc::S() << "profile monitor with resolutions " << rx << "," << ry << "," << ru << " at angle " << u;
	mc::note(d);
	mc::state(d);
	RMSProfileMonitor m("P", u, 0, 0), clean("C", u, 0, 0);
	RecP r, c;
	m.SetResolution(rx, ry, ru);
	m.AddBuffer(&r);
	clean.AddBuffer(&c);
	ParticleBunch bunch(5, 1);
	for(auto& p : parts(4))
		bunch.AddParticle(p);
	RandomNG::init(23);
	clean.MakeMeasurement(bunch);
	for(int i = 0; i < n; i++)
	{
		auto before = RandomNG::getGenerator();
		vector<double> draws;
		double err[6] = {rx, ry, ru, rx, ry, ru};
		for(double e : err)
			if(e != 0)
				draws.push_back(RandomNG::normal(0, 1));
		RandomNG::getGenerator() = before;
		m.MakeMeasurement(bunch);
		auto &z = r.d.back(), &w = c.d[0];
		const Measurement* a[6] = {&z.x0, &z.y0, &z.u0, &z.xrms, &z.yrms, &z.urms};
		const Measurement* b[6] = {&w.x0, &w.y0, &w.u0, &w.xrms, &w.yrms, &w.urms};
		vector<double> got;
		for(int k = 0; k < 6; k++)
		{
			MC_CHECK(a[k]->error == err[k], "profile-error", d << ": value " << k);
			if(err[k] == 0)
				MC_CHECK(a[k]->value == b[k]->value, "profile-no-noise", d << ": value " << k);
			else
				got.push_back(fabs(a[k]->value - b[k]->value) / err[k]);
		}
		for(auto& v : draws)
			v = fabs(v);
		sort(draws.begin(), draws.end());
		sort(got.begin(), got.end());
		for(size_t k = 0; k < got.size(); k++)
			MC_CLOSET(got[k], draws[k], 1e-6, 1e-6, "profile-noise", d << ": of " << got.size());
	}
	MC_CHECK(r.d.size() == size_t(n), "recorded", d);
	mc::outcome(mc::S() << (rx > 0) << (ry > 0) << (ru > 0));
}
// bunch dumps of the monitor process: one file per passage of each listed element
MC_SECTION("dumps")
{
	char dir[] = "/tmp/mcdumpXXXXXX";
	if(!mkdtemp(dir))
		abort();
	string pre = string(dir) + "/x_";
	MonitorProcess p("MON", 0, mc::choose(2) ? pre : "");
	p.SetPrefix(pre);
	vector<string> names{"A", "B", "AB"};
	mc::S d;
	set<string> listed;
	d << "dump at";
	for(auto& n : names)
		if(mc::choose(2))
		{
			p.AddElement(n);
			listed.insert(n);
			d << " " << n;
		}
	vector<unique_ptr<Drift> > line;
	for(auto& n : names)
		line.emplace_back(new Drift(n, 1));
	ParticleBunch bunch(5, 1);
	for(auto& q : parts(2))
		bunch.AddParticle(q);
	p.InitialiseProcess(bunch);
	d << " passing";
	map<string, double> want;
	int count = 0;
	streambuf* old = cout.rdbuf(nullptr);
	for(int i = 0; i < 4; i++)
	{
		int k = mc::choose(3);
		d << " " << names[k];
		p.SetCurrentComponent(*line[k]);
		bool on = listed.count(names[k]);
		MC_CHECK(p.IsActive() == on, "dump-active", d << ": active " << p.IsActive());
		if(on)
		{
			bunch.GetParticles()[0].x() = 0.125 * (i + 1);
			p.DoProcess(0);
			want[mc::S() << "x_" << names[k] << "_" << ++count] = 0.125 * (i + 1);
		}
	}
	cout.rdbuf(old);
	cout.clear();
	mc::note(d);
	mc::state(d);
	set<string> got;
	DIR* h = opendir(dir);
	while(dirent* e = readdir(h))
		if(e->d_name[0] != '.')
			got.insert(e->d_name);
	closedir(h);
	for(auto& w : want)
	{
		MC_CHECK(got.count(w.first), "dump-file", d << ": no file " << w.first);
		ifstream f(string(dir) + "/" + w.first);
		double x;
		string line;
		// each line ends with the six coordinates
		size_t lines = 0;
		bool found = false;
		while(getline(f, line))
		{
			lines++;
			istringstream is(line);
			while(is >> x)
				found = found || fabs(x - w.second) < 1e-12;
		}
		MC_CHECK(lines >= 2 && found, "dump-content", d << ": " << w.first << " has " << lines << " lines");
	}
	MC_CHECK(got.size() == want.size(), "dump-count", d << ": " << got.size() << " files, expected " << want.size());
	for(auto& g : got)
		unlink((string(dir) + "/" + g).c_str());
	rmdir(dir);
}
