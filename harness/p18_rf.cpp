// P18: RF structures and klystrons
#include "mc.h"
#include "MerlinIO.h"
#include "Components.h"
#include "Klystron.h"
#include "ParticleTracker.h"
#include "ParticleBunch.h"
#include "StdIntegrators.h"
#include "SymplecticIntegrators.h"
using namespace std;
using namespace ParticleTracking;
typedef array<double, 6> Z;
typedef complex<double> C;
enum Set { TR, TL, SY };
static const char* SETN[] = {"TRANSPORT", "THIN_LENS", "SYMPLECTIC"};
static const double PI2 = 8 * atan(1.0), CL = 2.99792458e8;
static const ParticleComponentTracker::ISetBase& iset(int s)
{
	static TRANSPORT::StdISet tr;
	static THIN_LENS::StdISet tl;
	static SYMPLECTIC::StdISet sy;
	return s == TR ? (const ParticleComponentTracker::ISetBase&) tr : s == TL ? (const ParticleComponentTracker::ISetBase&) tl : (const ParticleComponentTracker::ISetBase&) sy;
}
static const vector<Z>& probes()
{
	static vector<Z> v;
	if(v.empty())
	{
		const double A[6] = {7e-3, 5e-4, 6e-3, 4e-4, 0.02, 8e-3};
		for(int n = 0; n < 729; n++)
		{
			Z z;
			int m = n;
			for(int k = 0; k < 6; k++)
			{
				z[k] = A[k] * (m % 3 - 1) * (m % 3 == 2 ? 0.8 : 1);
				m /= 3;
			}
			v.push_back(z);
		}
	}
	return v;
}
typedef function<void(Z&, double&)> Op; // particle, reference momentum
static void compare(int s, AcceleratorComponent& c, double P0, double q, int nsteps, const vector<Op>& ref, const string& d, const char* key, array<double, 6> tol)
{
	ParticleComponentTracker ct(iset(s));
	ParticleBunch b(P0, q);
	for(const Z& z : probes())
	{
		Particle p(0);
		for(int k = 0; k < 6; k++)
			p[k] = z[k];
		b.AddParticle(p);
	}
	ct.SetBunch(b);
	c.PrepareTracker(ct);
	for(int i = 0; i < nsteps; i++)
		ct.TrackStep(c.GetLength() / nsteps);
	static const char* NM[] = {"x", "x'", "y", "y'", "ct", "dp"};
	MC_CHECK(b.size() == probes().size(), "particle-lost", d);
	size_t n = 0;
	double P = P0;
	for(auto& p : b)
	{
		Z z = probes()[n++], in = z;
		P = P0;
		for(auto& o : ref)
			o(z, P);
		for(int k = 0; k < 6; k++)
			MC_CHECK(fabs(p[k] - z[k]) <= tol[k], (string(key) + "-" + NM[k]).c_str(), d << ": " << NM[k] << " of particle (" << in[0] << "," << in[1] << "," << in[2] << "," << in[3] << "," << in[4] << "," << in[5]
				<< ") is " << p[k] << " expected " << z[k]);
	}
	MC_CLOSET(b.GetReferenceMomentum(), P, 1e-12, 0, (string(key) + "-reference").c_str(), d << " reference momentum");
	MC_CHECK(b.GetChargeSign() == q, "charge", d);
}
static Op drift(int s, double L)
{
	return [=](Z& z, double&)
		   {
			   if(s == SY)
			   {
				   double k = sqrt((1 + z[5]) * (1 + z[5]) - z[1] * z[1] - z[3] * z[3]);
				   z[0] += L * z[1] / k;
				   z[2] += L * z[3] / k;
				   z[4] += L - L * (1 + z[5]) / k;
				   return;
			   }
			   z[0] += L * z[1];
			   z[2] += L * z[3];
			   if(s == TR)
				   z[4] -= L * (z[1] * z[1] + z[3] * z[3]) / 2;
		   };
}
static const array<double, 6> TIGHT{{1e-13, 1e-13, 1e-13, 1e-13, 1e-13, 1e-13}};
MC_SECTION("travelling-wave")
{
	int s = mc::choose(3);
	double L = mc::pick(vector<double>{1.0, 0.4}), f = mc::pick(vector<double>{3e9, 4e8}), g = mc::pick(vector<double>{0, 0.02, -0.015, 0.3}), phi = mc::pick(vector<double>{0, 0.7, -2.0, PI2 / 4});
	bool full = mc::choose(2);
	double q = mc::choose(2) ? -1 : 1, P0 = mc::pick(mc::thorough() ? vector<double>{5, 50, 1} : vector<double>{5, 50});
	int n = 1 + mc::choose(mc::thorough() ? 4 : 2);
	if(s == SY && !full)
		mc::prune();
	TWRFStructure c("C", L, f, g, phi);
	c.GetField().SetFullAcceleration(full);
	string d = mc::S() << SETN[s] << " travelling wave cavity L " << L << " f " << f << " g " << g << " phi " << phi << " full " << full << " charge " << q << " P0 " << P0 << " steps " << n;
	mc::note(d);
	mc::state(d);
	double k = PI2 * f / CL, l = L / n;
	vector<Op> r;
	array<double, 6> tol = TIGHT;
	if(g == 0)
	{
		// cavities without voltage are drifts (without path length in the linear integrators)
		r.push_back(drift(s == SY ? SY : TL, L));
		tol[0] = tol[2] = tol[4] = 1e-12;
	}
	else if(s == SY)
		for(int i = 0; i < n; i++)
		{
			r.push_back(drift(SY, l / 2));
			r.push_back([=](Z& z, double& P) { z[5] += g * l / P * cos(phi - k * z[4]); });
			r.push_back(drift(SY, l / 2));
		}
	else
	{
		auto edge = [=](double sg) -> Op
			{
				return [=](Z& z, double& P)
					   {
						   double a = -sg * g / 2 / (P * (1 + z[5])) * cos(phi - k * z[4]);
						   z[1] += a * z[0];
						   z[3] += a * z[2];
					   };
			};
		r.push_back(edge(1));
		for(int i = 0; i < n; i++)
			if(full)
				r.push_back([=](Z& z, double& P)
					{
						double E = P * (1 + z[5]), dE = g * l * cos(phi - k * z[4]), u = dE / E, r12 = fabs(u) < 1e-8 ? l : l * log1p(u) / u;
						z[0] += r12 * z[1];
						z[2] += r12 * z[3];
						z[1] /= 1 + u;
						z[3] /= 1 + u;
						P += g * l * cos(phi);
						z[5] = (E + dE) / P - 1;
					});
			else
				r.push_back([=](Z& z, double& P)
					{
						z[5] += g * l / P * cos(phi - k * z[4]);
						z[0] += l * z[1];
						z[2] += l * z[3];
					});
		r.push_back(edge(-1));
		if(full)
		{
			// the linear map drifts by L(1-u/2): second order in the relative energy gain u left open
			double u = fabs(g) * l / (P0 - 2 * fabs(g) * L) * 1.02, slope = 6e-4 + fabs(g) / (P0 - 2 * fabs(g) * L) * 0.5 * 9e-3;
			double dx = n * l * u * u / 2.5 * slope;
			tol[0] = tol[2] = 1e-13 + dx;
			tol[1] = tol[3] = 1e-13 + dx * fabs(g) / (P0 - 2 * fabs(g) * L);
		}
	}
	compare(s, c, P0, q, n, r, d, "travelling-wave", tol);
	unique_ptr<ModelElement> cp(c.Copy());
	compare(s, *static_cast<TWRFStructure*>(cp.get()), P0, q, n, r, d + " (copy)", "travelling-wave-copy", tol);
	mc::sample(d);
}
// Rosenzweig-Serafini: ponderomotive focusing of a pure standing wave, integrated
static void rs(double L, double g, double phi, double P0, double M[2][2])
{
	double gp = g * cos(phi);
	for(int c = 0; c < 2; c++)
	{
		double x = c == 0, xp = c == 1;
		xp -= gp / 2 / P0 * x;
		// x'' = -(P'/P) x' - (1/8) (g/P)^2 x
		auto F = [&](double s, double x, double xp, double& dx, double& dxp)
			{
				double P = P0 + gp * s;
				dx = xp;
				dxp = -gp / P * xp - g * g / (8 * P * P) * x;
			};
		const int N = 400;
		double h = L / N;
		for(int i = 0; i < N; i++)
		{
			double s = i * h, a1, b1, a2, b2, a3, b3, a4, b4;
			F(s, x, xp, a1, b1);
			F(s + h / 2, x + h / 2 * a1, xp + h / 2 * b1, a2, b2);
			F(s + h / 2, x + h / 2 * a2, xp + h / 2 * b2, a3, b3);
			F(s + h, x + h * a3, xp + h * b3, a4, b4);
			x += h / 6 * (a1 + 2 * a2 + 2 * a3 + a4);
			xp += h / 6 * (b1 + 2 * b2 + 2 * b3 + b4);
		}
		xp += gp / 2 / (P0 + gp * L) * x;
		M[0][c] = x;
		M[1][c] = xp;
	}
}
MC_SECTION("standing-wave")
{
	int s = mc::choose(2) ? SY : TR;
	int cells = mc::pick(vector<int>{1, 2, 9, 15});
	double f = mc::pick(vector<double>{1.3e9, 4e8, 2.9987e9}), g = mc::pick(vector<double>{0, 0.02, -0.015, 0.2}), phi = mc::pick(vector<double>{0, 0.7, -2.0, PI2 / 4, -PI2 / 4, PI2 / 2});
	double q = mc::choose(2) ? -1 : 1, P0 = mc::pick(mc::thorough() ? vector<double>{5, 50, 2} : vector<double>{5, 50});
	SWRFStructure c("C", cells, f, g, phi);
	double L = c.GetLength(), k = PI2 * f / CL;
	string d = mc::S() << SETN[s] << " standing wave cavity cells " << cells << " f " << f << " g " << g << " phi " << phi << " charge " << q << " P0 " << P0;
	mc::note(d);
	mc::state(d);
	MC_CLOSET(L, cells * CL / f / 2, 1e-14, 0, "length", d << " length");
	vector<Op> r;
	array<double, 6> tol{{3e-12, 3e-12, 3e-12, 3e-12, 1e-12, 1e-13}};
	if(g == 0)
		r.push_back(drift(s == SY ? SY : TL, L));
	else
	{
		double M[2][2];
		rs(L, g, phi, P0, M);
		array<double, 4> m{{M[0][0], M[0][1], M[1][0], M[1][1]}};
		r.push_back([=](Z& z, double& P)
			{
				double c0 = cos(phi), v = g * L / P, kz = s == SY ? sqrt((1 + z[5]) * (1 + z[5]) - z[1] * z[1] - z[3] * z[3]) : 1;
				double x = z[0], xp = z[1] / kz, y = z[2], yp = z[3] / kz;
				z[0] = m[0] * x + m[1] * xp;
				z[1] = m[2] * x + m[3] * xp;
				z[2] = m[0] * y + m[1] * yp;
				z[3] = m[2] * y + m[3] * yp;
				z[5] = (1 + z[5] + v * cos(phi - k * z[4])) / (1 + v * c0) - 1;
				P += g * L * c0;
				if(s == SY) // conversion from slopes
				{
					double k1 = sqrt((1 + z[5]) * (1 + z[5]) - z[1] * z[1] - z[3] * z[3]);
					z[1] *= k1;
					z[3] *= k1;
				}
			});
	}
	compare(s, c, P0, q, 1, r, d, "standing-wave", tol);
	unique_ptr<ModelElement> cp(c.Copy());
	compare(s, *static_cast<SWRFStructure*>(cp.get()), P0, q, 1, r, d + " (copy)", "standing-wave-copy", tol);
	mc::sample(d);
}
MC_SECTION("transverse")
{
	int s = mc::choose(2);
	double L = mc::pick(vector<double>{1.0, 0.4}), f = mc::pick(vector<double>{3e9, 4e8}), g = mc::pick(vector<double>{0, 0.02, -0.015}), phi = mc::pick(vector<double>{0, 0.7, -2.0, PI2 / 4}),
		th = mc::pick(vector<double>{0, PI2 / 4, 0.4, -1.2});
	double q = mc::choose(2) ? -1 : 1, P0 = mc::pick(vector<double>{5, 50});
	int n = 1 + mc::choose(mc::thorough() ? 4 : 2);
	TransverseRFStructure c("C", L, f, g, phi, th);
	string d = mc::S() << SETN[s] << " transverse cavity L " << L << " f " << f << " g " << g << " phi " << phi << " orientation " << th << " charge " << q << " P0 " << P0 << " steps " << n;
	mc::note(d);
	mc::state(d);
	double k = PI2 * f / CL;
	vector<Op> r;
	array<double, 6> tol = TIGHT;
	if(g == 0)
		r.push_back(drift(TR, L));
	else // uniform force along the cavity
		r.push_back([=](Z& z, double& P)
			{
				double a = g * L / (P * (1 + z[5])) * cos(phi - k * z[4]);
				z[0] += L * z[1] + a * L / 2 * cos(th);
				z[2] += L * z[3] + a * L / 2 * sin(th);
				z[1] += a * cos(th);
				z[3] += a * sin(th);
			});
	compare(s, c, P0, q, n, r, d, "transverse", tol);
	unique_ptr<ModelElement> cp(c.Copy());
	compare(s, *static_cast<TransverseRFStructure*>(cp.get()), P0, q, n, r, d + " (copy)", "transverse-copy", tol);
	mc::sample(d);
}
// setting and reading cavity parameters
struct Cav
{
	double L, f, g, phi, th;
};
static void verify(RFStructure& c, const Cav& m, const string& d)
{
	MC_CLOSET(c.GetLength(), m.L, 1e-14, 0, "length", d << ": length");
	MC_CLOSET(c.GetFrequency(), m.f, 1e-13, 0, "frequency", d << ": frequency");
	MC_CLOSET(c.GetWavelength(), CL / m.f, 1e-13, 0, "wavelength", d << ": wavelength");
	MC_CLOSET(c.GetK(), PI2 * m.f / CL, 1e-13, 0, "k", d << ": wave number");
	MC_CLOSET(c.GetAmplitude(), m.g, 1e-13, 1e-16, "amplitude", d << ": amplitude");
	MC_CLOSET(c.GetVoltage(), m.g * m.L, 1e-13, 1e-16, "voltage", d << ": voltage");
	MC_CLOSET(c.GetBeamVoltage(), m.g * m.L * cos(m.phi), 1e-13, 1e-15, "beam-voltage", d << ": beam voltage");
	MC_CLOSET(cos(c.GetPhase() - m.phi), 1., 1e-13, 0, "phase", d << ": phase " << c.GetPhase() << " expected " << m.phi);
	MC_CHECK(abs(c.GetVoltagePhasor() - polar(1., m.phi) * (m.g * m.L)) < 1e-13, "phasor", d << ": phasor " << c.GetVoltagePhasor());
	if(auto t = dynamic_cast<TransverseRFStructure*>(&c))
		MC_CLOSET(t->GetFieldOrientation(), m.th, 1e-13, 0, "orientation", d << ": orientation");
}
MC_SECTION("settings")
{
	int type = mc::choose(3);
	Cav m{0.6, 1.3e9, 0.02, 0.3, 0.2};
	unique_ptr<RFStructure> c;
	if(type == 0)
		c.reset(new TWRFStructure("C", m.L, m.f, m.g, m.phi));
	if(type == 1)
	{
		c.reset(new SWRFStructure("C", 9, m.f, m.g, m.phi));
		m.L = 9 * CL / m.f / 2;
	}
	if(type == 2)
		c.reset(new TransverseRFStructure("C", m.L, m.f, m.g, m.phi, m.th));
	string d = c->GetType();
	verify(*c, m, d);
	int depth = mc::thorough() ? 4 : 3;
	for(int i = 0; i < depth; i++)
	{
		int op = mc::choose(11);
		mc::S t;
		switch(op)
		{
		case 0:
			c->SetAmplitude(m.g = 0.05);
			t << " amplitude .05";
			break;
		case 1:
			c->SetVoltage(0.09);
			m.g = 0.09 / m.L;
			t << " voltage .09";
			break;
		case 2:
			c->SetPhase(m.phi = -2.5);
			t << " phase -2.5";
			break;
		case 3:
			c->SetVoltagePhasor(polar(0.03, 1.1));
			m.g = 0.03 / m.L;
			m.phi = 1.1;
			t << " phasor .03,1.1";
			break;
		case 4:
			c->SetFrequency(m.f = 5e8);
			t << " f 5e8";
			break;
		case 5:
			c->SetWavelength(0.7);
			m.f = CL / 0.7;
			t << " wavelength .7";
			break;
		case 6:
			c->SetK(11.0);
			m.f = CL * 11 / PI2;
			t << " k 11";
			break;
		case 7:
			if(type != 2)
				mc::prune();
			static_cast<TransverseRFStructure*>(c.get())->SetFieldOrientation(m.th = -0.9);
			t << " orientation -.9";
			break;
		case 8:
		{
			unique_ptr<RFStructure> n(static_cast<RFStructure*>(c->Copy()));
			// copies are independent
			c->SetAmplitude(7);
			c->SetPhase(5);
			c->SetFrequency(1);
			MC_CHECK(n->GetName() == "C" && n->GetType() == c->GetType(), "copy", d << t << ": copy is " << n->GetQualifiedName());
			c = move(n);
			t << " copy";
			break;
		}
		case 9:
			c->SetVoltage(0);
			m.g = 0;
			t << " voltage 0";
			break;
		case 10:
			c->SetAmplitude(m.g = -0.04);
			t << " amplitude -.04";
			break;
		}
		d += t;
		mc::note(d);
		verify(*c, m, d);
	}
	mc::state(d);
	mc::sample(d);
}
MC_SECTION("klystron")
{
	bool bal = mc::choose(2);
	int n = 1 + mc::choose(3);
	static const vector<pair<double, double> > INIT{{0.05, 0.2}, {0, 0}, {0.03, -1.5}, {0.08, 2.5}};
	vector<unique_ptr<RFStructure> > own;
	vector<RFStructure*> cav;
	vector<C> z; // reference phasors
	mc::S d;
	d << (bal ? "balanced" : "vector sum") << " klystron:";
	for(int i = 0; i < n; i++)
	{
		auto q = mc::pick(INIT);
		if(i == 1)
			own.emplace_back(new SWRFStructure("S", 3, 1.3e9, 0, q.second));
		else
			own.emplace_back(new TWRFStructure("T", 0.5 + i, 3e9, 0, q.second));
		own.back()->SetVoltage(q.first);
		cav.push_back(own.back().get());
		z.push_back(polar(q.first, q.second));
		d << " (" << q.first << "," << q.second << ")";
	}
	Klystron k("K", cav, bal ? Klystron::balanced : Klystron::vector_sum);
	C sum = accumulate(z.begin(), z.end(), C(0));
	if(bal)
		fill(z.begin(), z.end(), sum / double(n));
	auto verify = [&]()
		{
			MC_CHECK(abs(k.GetVoltagePhasor() - sum) < 1e-12, "phasor", d << ": klystron phasor " << k.GetVoltagePhasor() << " expected " << sum);
			MC_CHECK(abs(polar(1., k.GetPhase()) * k.GetVoltage() - sum) < 1e-12, "voltage-phase", d << ": klystron " << k.GetVoltage() << "," << k.GetPhase() << " expected " << sum);
			for(int i = 0; i < n; i++)
				MC_CHECK(abs(cav[i]->GetVoltagePhasor() - z[i]) < 1e-12, "cavity", d << ": cavity " << i << " has " << cav[i]->GetVoltagePhasor() << " expected " << z[i]);
			MC_CHECK(k.GetNumberOfCavities() == size_t(n), "count", d);
		};
	verify();
	for(int i = 0; i < (mc::thorough() ? 4 : 3); i++)
	{
		int op = mc::choose(6);
		if(abs(sum) < 1e-12 && abs(sum) > 0)
			mc::prune(); // phase undefined up to rounding
		C old = sum;
		double ph = k.GetPhase(), v = k.GetVoltage(); // relation to sum checked above
		switch(op)
		{
		case 0:
			k.SetVoltage(0.2);
			sum = polar(0.2, ph);
			d << " voltage .2";
			break;
		case 1:
			k.SetPhase(1.0);
			sum = polar(v, 1.0);
			d << " phase 1";
			break;
		case 2:
			k.SetVoltagePhasor(C(-0.1, 0.05));
			sum = C(-0.1, 0.05);
			d << " phasor (-.1,.05)";
			break;
		case 3:
			k.SetVoltage(0);
			sum = 0;
			d << " voltage 0";
			break;
		case 4:
			k.SetPhase(-0.4);
			sum = polar(v, -0.4);
			d << " phase -.4";
			break;
		case 5:
			k.SetVoltagePhasor(k.GetVoltagePhasor());
			d << " phasor again";
			break;
		}
		mc::note(d);
		if(op == 1 || op == 4)
			MC_CLOSET(cos(k.GetPhase() - (op == 1 ? 1.0 : -0.4)), 1., 1e-13, 0, "phase", d << ": phase " << k.GetPhase());
		if(bal)
			fill(z.begin(), z.end(), sum / double(n));
		else if(old == C(0) || v == 0) // nothing to scale: the total must be right
		{
			C t = 0;
			for(int j = 0; j < n; j++)
				t += z[j] = cav[j]->GetVoltagePhasor();
			MC_CHECK(abs(t - sum) < 1e-12, "vector-sum", d << ": cavities add up to " << t << " expected " << sum);
		}
		else
			for(auto& c : z)
				c *= sum / old;
		verify();
	}
	mc::state(d);
	mc::sample(d);
}
