// P13: a linear feedback steers its signals to their set points
#include "mc.h"
#include "LinearFBSystem.h"
#include "Channels.h"
#include "RWChannelState.h"
#include "AcceleratorModelConstructor.h"
#include "AcceleratorModel.h"
#include "Components.h"
#include "BPM.h"
#include "BPMChannel.h"
#include "MagnetMover.h"
#include "ParticleTracker.h"
#include "ParticleBunch.h"
#include "PhysicalUnits.h"
using namespace std;
using namespace TLAS;
using namespace ParticleTracking;
typedef long double LD;
typedef vector<LD> Vec;
typedef vector<Vec> Mat;
static Vec mul(const Mat& m, const Vec& v)
{
	Vec r(m.size(), 0);
	for(size_t i = 0; i < m.size(); i++)
		for(size_t j = 0; j < v.size(); j++)
			r[i] += m[i][j] * v[j];
	return r;
}
// Greville: the pseudo-inverse column by column
static Mat pinv(const Mat& a)
{
	size_t n = a.size(), m = a[0].size();
	Mat p; // k x n
	for(size_t k = 0; k < m; k++)
	{
		Vec col(n), d(k, 0), c(n);
		for(size_t i = 0; i < n; i++)
			col[i] = a[i][k];
		for(size_t j = 0; j < k; j++)
			for(size_t i = 0; i < n; i++)
				d[j] += p[j][i] * col[i];
		LD cc = 0, sc = 0, dd = 0;
		for(size_t i = 0; i < n; i++)
		{
			c[i] = col[i];
			for(size_t j = 0; j < k; j++)
				c[i] -= a[i][j] * d[j];
			cc += c[i] * c[i];
			sc += col[i] * col[i];
		}
		for(LD x : d)
			dd += x * x;
		Vec b(n, 0);
		if(cc > 1e-24L * sc)
			for(size_t i = 0; i < n; i++)
				b[i] = c[i] / cc;
		else
			for(size_t i = 0; i < n; i++)
				for(size_t j = 0; j < k; j++)
					b[i] += d[j] * p[j][i] / (1 + dd);
		for(size_t j = 0; j < k; j++)
			for(size_t i = 0; i < n; i++)
				p[j][i] -= d[j] * b[i];
		p.push_back(b);
	}
	return p;
}
static Mat matrix(int k)
{
	switch(k)
	{
	case 0: return {{2}};
	case 1: return {{1, 2}, {-0.5L, 3}};
	case 2: return {{1, 0.25L}, {2, -1}, {0.5L, 4}}; // more signals
	case 3: return {{1, 2, -1}, {0, 0.5L, 3}};       // more actuators
	case 4: return {{1, 2}, {2, 4}};                 // degenerate
	case 5: return {{1, 2}, {2, 4}, {-1, -2}};
	case 6: return {{0, 3}, {0, 1}};                 // an actuator without effect
	default: return {{1, 0.5L, 0}, {-2, 1, 1}, {0.25L, 0, 3}};
	}
}
static RealMatrix put(const Mat& a)
{
	RealMatrix m(a.size(), a[0].size());
	for(size_t i = 0; i < a.size(); i++)
		for(size_t j = 0; j < a[0].size(); j++)
			m(i, j) = double(a[i][j]);
	return m;
}
static RealVector put(const Vec& v)
{
	RealVector r(v.size());
	for(size_t i = 0; i < v.size(); i++)
		r(i) = double(v[i]);
	return r;
}
static string str(const Vec& v)
{
	mc::S s;
	s << "(";
	for(LD x : v)
		s << " " << double(x);
	return string(s << " )");
}
/// a machine whose signals answer its actuators linearly, on top of a disturbance
struct Machine
{
	Mat M;
	vector<double> act, dist;
	int alive = 0, writes = 0, reads = 0;
	double signal(size_t i) const
	{
		double s = dist[i];
		for(size_t j = 0; j < act.size(); j++)
			s += double(M[i][j]) * act[j];
		return s;
	}
};
struct Sig: public ROChannel
{
	Machine& m;
	size_t i;
	Sig(Machine& mm, size_t ii): m(mm), i(ii) { m.alive++; }
	~Sig() { m.alive--; }
	string GetID() const override { return "sig"; }
	double Read() const override { m.reads++; return m.signal(i); }
};
struct Act: public RWChannel
{
	Machine& m;
	size_t i;
	Act(Machine& mm, size_t ii): m(mm), i(ii) { m.alive++; }
	~Act() { m.alive--; }
	string GetID() const override { return "act"; }
	double Read() const override { return m.act[i]; }
	void Write(double v) override { m.writes++; m.act[i] = v; }
};
static double rms(const Vec& v)
{
	LD s = 0;
	for(LD x : v)
		s += x * x;
	return sqrt(double(s / v.size()));
}
MC_SECTION("histories")
{
	int k = mc::choose(8), ctor = mc::choose(2), start = mc::choose(2);
	Machine m;
	m.M = matrix(k);
	size_t ns = m.M.size(), na = m.M[0].size();
	for(size_t i = 0; i < ns; i++)
		m.dist.push_back(0.5 - 0.75 * i);
	for(size_t j = 0; j < na; j++)
		m.act.push_back(start ? 0.25 * (j + 1) * (j % 2 ? 1 : -1) : 0);
	string d = mc::S() << "matrix " << k << (ctor ? " from arrays" : "") << (start ? ", actuators set" : "");
	{
		vector<ROChannel*> sv;
		vector<RWChannel*> av;
		for(size_t i = 0; i < ns; i++)
			sv.push_back(new Sig(m, i));
		for(size_t j = 0; j < na; j++)
			av.push_back(new Act(m, j));
		unique_ptr<LinearFBSystem> fb;
		if(ctor)
		{
			ROChannelArray s(sv);
			RWChannelArray a(av);
			fb.reset(new LinearFBSystem(s, a, put(m.M)));
			MC_CHECK(s.Size() == 0 && a.Size() == 0, "array-keeps-channels", d << ": the arrays given up still hold channels that the feedback owns");
		}
		else
			fb.reset(new LinearFBSystem(sv, av, put(m.M)));
		// the model
		Vec set(ns, 0), acts(m.act.begin(), m.act.end()), cache;
		vector<Vec> pending;
		LD gain = 1;
		Mat inv = pinv(m.M);
		MC_CHECK(fb->GetNumSignals() == int(ns) && fb->GetNumActuators() == int(na), "sizes", d << ": " << fb->GetNumSignals() << " " << fb->GetNumActuators());
		MC_CHECK(fb->GetGain() == 1, "initial-gain", d << ": " << fb->GetGain());
		int depth = mc::thorough() ? 5 : 4;
		for(int step = 0; step < depth; step++)
		{
			bool last = step + 1 == depth; // ends with an application or a restoration
			int op = !last ? mc::choose(12) : cache.empty() ? 0 : 7 * mc::choose(2);
			m.writes = 0;
			int writes = 0;
			auto sig = [&]{
				Vec s = mul(m.M, acts);
				for(size_t i = 0; i < ns; i++)
					s[i] += m.dist[i];
				return s;
			};
			switch(op)
			{
			case 0:
			case 1: // once or twice in a row
			{
				for(int rep = 0; rep <= op; rep++)
				{
					d += "; apply";
					mc::note(d);
					fb->Apply();
					Vec s = sig();
					for(size_t i = 0; i < ns; i++)
						s[i] -= set[i];
					Vec da = mul(inv, s), na_ = acts;
					for(size_t j = 0; j < na; j++)
						na_[j] -= gain * da[j];
					pending.push_back(na_);
					acts = pending.front();
					pending.erase(pending.begin());
					writes += na;
				}
				break;
			}
			case 2:
			case 3:
				gain = op == 2 ? 0.5L : -0.25L;
				d += mc::S() << "; gain " << double(gain);
				fb->SetGain(double(gain));
				break;
			case 4:
				d += "; set points from signals";
				fb->SignalsToSetpoints();
				set = sig();
				break;
			case 5:
			{
				d += "; set points";
				for(size_t i = 0; i < ns; i++)
					set[i] = 1.5L - i;
				const RealVector v = put(set);
				fb->SetSetpoints(v);
				break;
			}
			case 6:
				d += "; store";
				fb->StoreActuators();
				cache = acts;
				break;
			case 7:
				if(cache.empty())
					mc::prune();
				d += "; restore";
				fb->RestoreActuators();
				acts = cache;
				writes = na;
				break;
			case 8:
			case 9:
			{
				int n = op == 8 ? 2 : 3;
				d += mc::S() << "; pulse delay " << n;
				fb->SetPulseDelay(n);
				pending.assign(n - 1, acts); // what the actuators get until the first correction arrives
				break;
			}
			case 10:
				d += "; no pulse delay";
				fb->SetPulseDelay(1);
				pending.clear();
				break;
			default:
			{
				// the machine changes and its response is measured again
				d += "; new response";
				Mat n = matrix(k);
				for(auto& r : n)
					for(LD& x : r)
						x *= -2;
				if(m.M == n)
					n = matrix(k);
				m.M = n;
				for(double& x : m.dist)
					x += 0.125;
				inv = pinv(n);
				RealMatrix M = put(n);
				fb->SetResponseMatrix(M);
				break;
			}
			}
			if(!mc::fresh())
				continue;
			mc::note(d);
			MC_CHECK(m.writes == writes, "writes", d << ": wrote " << m.writes << " times instead of " << writes);
			LD sc = 1e-11L;
			for(LD x : acts)
				sc += 1e-11L * fabsl(x);
			for(size_t j = 0; j < na; j++)
				MC_CHECK(fabsl(m.act[j] - acts[j]) <= sc, "actuators", d << ": actuator " << j << " is " << m.act[j] << " should be " << str(acts));
			Vec s = sig();
			for(size_t i = 0; i < ns; i++)
				s[i] -= set[i];
			MC_CLOSET(fb->GetSignalRMS(), rms(s), 1e-9, double(10 * sc) + 1e-10, "signal-rms", d);
			MC_CLOSET(fb->GetActuatorRMS(), rms(acts), 1e-9, double(sc), "actuator-rms", d);
			MC_CHECK(fb->GetGain() == double(gain), "gain", d << ": gain " << fb->GetGain());
			MC_CHECK(m.alive == int(ns + na), "channel-lost", d << ": " << m.alive << " channels are left");
			mc::state(d);
		}
		mc::outcome(mc::S() << k << " " << pending.size() << " " << (rms(acts) > 0));
		mc::sample(d);
	}
	MC_CHECK(m.alive == 0, "channels-leaked", d << ": " << m.alive << " channels outlive the feedback");
}
// convergence: the residual after n applications is that part of the disturbance that no actuator reaches, plus (1-g)^n of the rest
MC_SECTION("convergence")
{
	int k = mc::choose(8), n = 1 + mc::choose(mc::thorough() ? 12 : 6), delay = 1 + mc::choose(3);
	double g = mc::pick(vector<double>{1, 0.5, 0.25, 1.5, 0});
	if(delay > 1 && g > 0.25)
		g /= 4;
	Machine m;
	m.M = matrix(k);
	size_t ns = m.M.size(), na = m.M[0].size();
	string d = mc::S() << "matrix " << k << " gain " << g << " delay " << delay << ", " << n << " pulses";
	mc::note(d);
	mc::state(d);
	for(size_t i = 0; i < ns; i++)
		m.dist.push_back(i % 2 ? -1.5 : 2.25);
	for(size_t j = 0; j < na; j++)
		m.act.push_back(0.5 + j);
	vector<ROChannel*> sv;
	vector<RWChannel*> av;
	for(size_t i = 0; i < ns; i++)
		sv.push_back(new Sig(m, i));
	for(size_t j = 0; j < na; j++)
		av.push_back(new Act(m, j));
	LinearFBSystem fb(sv, av, put(m.M));
	fb.SetGain(g);
	fb.SetPulseDelay(delay);
	// the reachable part of the signals
	Mat inv = pinv(m.M);
	Vec s(ns), reach;
	for(size_t i = 0; i < ns; i++)
		s[i] = m.signal(i);
	reach = mul(m.M, mul(inv, s));
	vector<LD> f(1, 1); // how much of it is left before each pulse
	vector<LD> queue(delay - 1, 1);
	for(int i = 0; i < n; i++)
	{
		queue.push_back(f.back() - g * f.back());
		f.push_back(queue.front());
		queue.erase(queue.begin());
		fb.Apply();
		for(size_t j = 0; j < ns; j++)
			MC_CHECK(fabsl(m.signal(j) - (s[j] - reach[j] + f.back() * reach[j])) < 1e-10L, "residual",
				d << ": signal " << j << " is " << m.signal(j) << " should be " << double(s[j] - reach[j] + f.back() * reach[j]) << " after pulse " << i + 1);
	}
}
// a feedback on the orbit of a real line
MC_SECTION("orbit")
{
	const int kind = mc::choose(4), nb = 2 + mc::choose(2), delay = 1 + mc::choose(2);
	const bool arrays = mc::choose(2), offs = mc::choose(2);
	const double P0 = 5 * PhysicalUnits::GeV;
	BPM::generate_noise = false;
	AcceleratorModelConstructor mk;
	mk.NewModel();
	const double brho = P0 / PhysicalUnits::eV / PhysicalConstants::SpeedOfLight;
	for(int i = 0; i < nb; i++)
	{
		mk.AppendDrift(0.5);
		string n = mc::S() << "C" << i;
		if(kind == 0)
			mk.AppendComponent(new XCor(n, 0.2));
		if(kind == 1)
			mk.AppendComponent(new YCor(n, 0.2));
		if(kind == 2)
		{
			mk.AppendComponent(new XCor(n, 0.2));
			mk.AppendComponent(new YCor(n, 0));
		}
		if(kind == 3)
		{
			mk.NewFrame(new MagnetMover(string("M") + char('0' + i)));
			mk.AppendComponent(new Quadrupole(n, 0.4, (i % 2 ? -0.6 : 0.8) * brho));
			mk.EndFrame();
		}
		mk.AppendDrift(1.0);
		mk.AppendComponent(new Quadrupole(string("Q") + char('0' + i), 0.3, (i % 2 ? 0.5 : -0.7) * brho));
		mk.AppendDrift(0.7);
		mk.AppendComponent(new BPM(string("B") + char('0' + i), 0));
	}
	unique_ptr<AcceleratorModel> model(mk.GetModel());
	string d = mc::S() << "correctors " << kind << " with " << nb << " cells, delay " << delay << (arrays ? " arrays" : "") << (offs ? " BPM offsets" : "");
	mc::note(d);
	mc::state(d);
	vector<ROChannel*> sv;
	vector<RWChannel*> av;
	const char* spat = kind == 0 ? "BPM.*.X" : kind == 1 ? "BPM.*.Y" : "BPM.*.*";
	const char* apat = kind == 0 ? "XCor.*.B0" : kind == 1 ? "YCor.*.B0" : kind == 2 ? "{X,Y}Cor.*.B0" : "MagnetMover.*.{X,Y}";
	model->GetROChannels(spat, sv);
	if(kind == 2)
	{
		vector<RWChannel*> a2;
		model->GetRWChannels("XCor.*.B0", av);
		model->GetRWChannels("YCor.*.B0", a2);
		av.insert(av.end(), a2.begin(), a2.end());
	}
	else if(kind == 3)
	{
		vector<RWChannel*> a2;
		model->GetRWChannels("MagnetMover.*.X", av);
		model->GetRWChannels("MagnetMover.*.Y", a2);
		av.insert(av.end(), a2.begin(), a2.end());
	}
	else
		model->GetRWChannels(apat, av);
	size_t want = kind < 2 ? nb : 2 * nb;
	MC_CHECK(sv.size() == want && av.size() == want, "channels", d << ": " << sv.size() << " signals and " << av.size() << " actuators instead of " << want);
	PSvector z(0);
	z.x() = 3e-4;
	z.yp() = -2e-4;
	z.y() = 1e-4;
	ParticleTracker tr(model->GetBeamline());
	auto pulse = [&]{
		ParticleBunch b(P0, 1);
		b.AddParticle(z);
		tr.Track(&b);
		return vector<double>();
	};
	if(offs)
		for(size_t i = 0; i < sv.size(); i++)
			static_cast<BPMChannel*>(sv[i])->SetBPMOffset(1e-4 * (i + 1));
	// the measured response
	RealMatrix M(sv.size(), av.size());
	pulse();
	vector<double> s0;
	for(ROChannel* c : sv)
		s0.push_back(c->Read());
	for(size_t j = 0; j < av.size(); j++)
	{
		double step = kind == 3 ? 1e-4 : 1e-4;
		av[j]->Write(step);
		pulse();
		for(size_t i = 0; i < sv.size(); i++)
			M(i, j) = (sv[i]->Read() - s0[i]) / step;
		av[j]->Write(0);
	}
	pulse();
	RealMatrix Mcopy(M);
	unique_ptr<LinearFBSystem> fb;
	if(arrays)
	{
		ROChannelArray s(sv);
		RWChannelArray a(av);
		fb.reset(new LinearFBSystem(s, a, M));
	}
	else
		fb.reset(new LinearFBSystem(sv, av, M));
	double r0 = fb->GetSignalRMS();
	MC_CHECK(r0 > 1e-5 && fb->GetActuatorRMS() == 0, "initial", d << ": rms " << r0);
	if(delay > 1)
		fb->SetPulseDelay(delay);
	fb->StoreActuators();
	for(int i = 0; i < delay; i++)
	{
		fb->Apply();
		pulse();
		double r = fb->GetSignalRMS();
		if(i + 1 < delay)
			MC_CLOSET(r, r0, 1e-9, 0, "orbit-delay", d << ": rms after pulse " << i + 1);
		else
			MC_CHECK(r < 1e-6 * r0, "orbit-not-corrected", d << ": rms " << r0 << " becomes " << r);
	}
	// the element parameters really are what was written
	MC_CHECK(fb->GetActuatorRMS() > 0, "orbit-actuators", d);
	fb->RestoreActuators();
	pulse();
	MC_CLOSET(fb->GetSignalRMS(), r0, 1e-9, 0, "orbit-restored", d);
	mc::outcome(mc::S() << kind << (fb->GetActuatorRMS() == 0));
}
