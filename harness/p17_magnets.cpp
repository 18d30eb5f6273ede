// P17: magnets act on particles as their fields do (default, thin lens and symplectic integrators)
#include "mc.h"
#include "jet.h"
#include "MerlinIO.h"
#include "Components.h"
#include "ParticleTracker.h"
#include "ParticleBunch.h"
#include "StdIntegrators.h"
#include "SymplecticIntegrators.h"
#include "Solenoid.h"
using namespace std;
using namespace ParticleTracking;
typedef array<double, 6> Z;
typedef complex<double> C;
typedef function<void(Z&)> Op;
static const double EC = 0.299792458;
enum Set { TR, TL, SY };
static const char* SETN[] = {"TRANSPORT", "THIN_LENS", "SYMPLECTIC"};
static const ParticleComponentTracker::ISetBase& iset(int s)
{
	static TRANSPORT::StdISet tr;
	static THIN_LENS::StdISet tl;
	static SYMPLECTIC::StdISet sy;
	return s == TR ? (const ParticleComponentTracker::ISetBase&) tr : s == TL ? (const ParticleComponentTracker::ISetBase&) tl : (const ParticleComponentTracker::ISetBase&) sy;
}
static const vector<Z>& probes()
{
	static vector<Z> v;
	if(v.empty())
	{
		const double A[6] = {7e-3, 5e-3, 6e-3, 4e-3, 1e-3, 8e-3};
		for(int n = 0; n < 243; n++)
		{
			Z z;
			int m = n;
			for(int k : {0, 1, 2, 3, 5})
			{
				z[k] = A[k] * (m % 3 - 1) * (m % 3 == 2 ? 0.8 : 1);
				m /= 3;
			}
			z[4] = A[4];
			v.push_back(z);
		}
	}
	return v;
}
// --- reference operations
static Op rot(double a) // frame rotation by a: x -> x cos a - y sin a
{
	double c = cos(a), s = sin(a);
	return [=](Z& z)
		   {
			   Z r = z;
			   r[0] = c * z[0] - s * z[2];
			   r[1] = c * z[1] - s * z[3];
			   r[2] = s * z[0] + c * z[2];
			   r[3] = s * z[1] + c * z[3];
			   z = r;
		   };
}
static Op applyjet(const JetMap& m, bool path = true)
{
	const JetMap* p = &m;
	return [=](Z& z)
		   {
			   Z r;
			   double in[6];
			   copy(z.begin(), z.end(), in);
			   in[4] = 0;
			   for(int i = 0; i < 6; i++)
				   r[i] = (*p)[i](in);
			   r[4] = path ? z[4] + r[4] : z[4];
			   r[5] = z[5];
			   z = r;
		   };
}
static Op scaled(double Er, Op o)
{
	return [=](Z& z)
		   {
			   double d = z[5];
			   z[5] = Er * (1 + d) - 1;
			   o(z);
			   z[5] = d;
		   };
}
static Op linearchromatic(double L, double k1) // R + T dp, transverse only
{
	const JetMap* p = &jetmap(slopes, L, 0, k1, 0);
	return [=](Z& z)
		   {
			   Z r = z;
			   for(int i = 0; i < 4; i++)
			   {
				   r[i] = 0;
				   for(int j = 0; j < 4; j++)
					   r[i] += ((*p)[i].l[j] + 2 * (*p)[i].q[6 * j + 5] * z[5]) * z[j];
			   }
			   z = r;
		   };
}
static Op linearmap(double L, double h, double k1)
{
	const JetMap* p = &jetmap(slopes, L, h, k1, 0);
	return [=](Z& z)
		   {
			   Z r = z;
			   for(int i = 0; i < 5; i++)
			   {
				   r[i] = i == 4 ? z[4] : 0;
				   for(int j : {0, 1, 2, 3, 5})
					   r[i] += (*p)[i].l[j] * z[j];
			   }
			   z = r;
		   };
}
static Op expandedmap(double L, double h, double k1)
{
	return [=](Z& z)
		   {
			   const JetMap& m = jetmap(expanded, L, h, k1, 0, z[5]);
			   double in[6] = {z[0], z[1], z[2], z[3], 0, 0};
			   Z r = z;
			   for(int i = 0; i < 4; i++)
				   r[i] = m[i](in);
			   r[4] += m[4](in);
			   z = r;
		   };
}
static Op drift(Set s, double L)
{
	if(s == SY)
		return [=](Z& z)
			   {
				   double k = sqrt((1 + z[5]) * (1 + z[5]) - z[1] * z[1] - z[3] * z[3]);
				   z[0] += L * z[1] / k;
				   z[2] += L * z[3] / k;
				   z[4] += L - L * (1 + z[5]) / k;
			   };
	return [=](Z& z)
		   {
			   z[0] += L * z[1];
			   z[2] += L * z[3];
			   if(s == TR)
				   z[4] -= L * (z[1] * z[1] + z[3] * z[3]) / 2;
		   };
}
// integrated field b_n (T m^(1-n)) kick
static Op kick(Set s, vector<C> b, double L, double q, double P0)
{
	return [=](Z& z)
		   {
			   C w(z[0], z[2]), f = 0, p = 1;
			   for(C c : b)
			   {
				   f += c * p;
				   p *= w;
			   }
			   f *= q * L * EC / P0;
			   if(s != SY)
				   f /= 1 + z[5];
			   z[1] -= f.real();
			   z[3] += f.imag();
		   };
}
static void run(const vector<Op>& ops, Z& z)
{
	for(auto& o : ops)
		o(z);
}
static void track(ParticleComponentTracker& ct, AcceleratorComponent& c, ParticleBunch& b, int nsteps)
{
	ct.SetBunch(b);
	c.PrepareTracker(ct);
	double L = c.GetLength();
	for(int i = 0; i < nsteps; i++)
		ct.TrackStep(L / nsteps);
}
static ParticleBunch bunch(double P0, double q, double amp = 1)
{
	ParticleBunch b(P0, q);
	for(const Z& z : probes())
	{
		Particle p(0);
		for(int k = 0; k < 6; k++)
			p[k] = k == 4 ? z[k] : amp * z[k];
		b.AddParticle(p);
	}
	return b;
}
static void compare(int s, AcceleratorComponent& c, double P0, double q, int nsteps, const vector<Op>& ref, const string& d, const string& key, bool path = true, double tol = 5e-11,
	double amp = 1, ParticleComponentTracker* use = nullptr)
{
	unique_ptr<ParticleComponentTracker> own;
	if(!use)
	{
		own.reset(new ParticleComponentTracker(iset(s)));
		use = own.get();
	}
	ParticleBunch b = bunch(P0, q, amp);
	track(*use, c, b, nsteps);
	static const char* NM[] = {"x", "x'", "y", "y'", "ct", "dp"};
	size_t n = 0;
	MC_CHECK(b.size() == probes().size(), "particle-lost", d);
	for(auto& p : b)
	{
		Z z = probes()[n++];
		for(int k = 0; k < 6; k++)
			if(k != 4)
				z[k] *= amp;
		Z in = z;
		run(ref, z);
		for(int k = 0; k < 6; k++)
		{
			if(k == 4 && !path)
				continue;
			MC_CHECK(fabs(p[k] - z[k]) <= tol * amp, (key + "-" + NM[k]).c_str(), d << ": " << NM[k] << " of particle (" << in[0] << "," << in[1] << "," << in[2] << "," << in[3] << "," << in[4] << "," << in[5]
				<< ") is " << p[k] << " expected " << z[k]);
		}
	}
	MC_CHECK(b.GetReferenceMomentum() == P0, "reference-momentum", d);
}
static void fields(MultipoleField& f, const vector<C>& b)
{
	f = MultipoleField(2.0, b.size());
	for(size_t n = 0; n < b.size(); n++)
		f.SetCoefficient(n, b[n] / 2.0);
}
static double fact(int n)
{
	return n < 2 ? 1 : n * fact(n - 1);
}
// reference for one step of a straight multipole
static vector<Op> multipole(Set s, vector<C> b, double L, double q, double P0)
{
	vector<Op> r;
	if(L == 0)
	{
		r.push_back(kick(s, b, 1, q, P0));
		return r;
	}
	double brho = P0 / EC;
	b.resize(max<size_t>(b.size(), 3));
	C k1 = q * b[1] / brho, k2 = q * fact(2) * b[2] / brho;
	int main = k1 != 0. ? 1 : k2 != 0. && s == TR ? 2 : -1;
	vector<C> other = b;
	if(main >= 0)
		other[main] = 0;
	bool split = false;
	for(C c : other)
		split = split || c != 0.;
	double len = split ? L / 2 : L;
	vector<Op> body;
	if(main < 0)
		body.push_back(drift(s, len));
	else
	{
		C k = main == 1 ? k1 : k2;
		double kr = k.imag() == 0 ? k.real() : abs(k), phi = k.imag() == 0 ? 0 : -arg(k) / (main + 1);
		body.push_back(rot(-phi));
		if(s == TR)
			body.push_back(main == 1 ? applyjet(jetmap(slopes, len, 0, kr, 0)) : applyjet(jetmap(slopes, len, 0, 0, kr)));
		else
			body.push_back(linearchromatic(len, kr));
		body.push_back(rot(phi));
	}
	r = body;
	if(split)
	{
		r.push_back(kick(s, other, L, q, P0));
		r.insert(r.end(), body.begin(), body.end());
	}
	return r;
}
static vector<Op> times(const vector<Op>& o, int n)
{
	vector<Op> r;
	for(int i = 0; i < n; i++)
		r.insert(r.end(), o.begin(), o.end());
	return r;
}
MC_SECTION("multipoles")
{
	int s = mc::choose(3);
	static const vector<C> B0{0, 2e-3, C(0, -3e-3)}, B1{0, 12, -12, C(0, 10), C(8, 6), C(-7, -9)}, B2{0, 150, C(0, -120), C(-90, 80)}, B3{0, C(4000, -3000)};
	vector<C> b{mc::pick(B0), mc::pick(B1), mc::pick(B2), mc::pick(B3)};
	while(b.size() > 1 && b.back() == 0.)
		b.pop_back();
	double L = mc::pick(vector<double>{0.6, 0});
	double q = mc::choose(2) ? -1 : 1;
	double P0 = mc::pick(mc::thorough() ? vector<double>{10, 77, 1} : vector<double>{10});
	int n = mc::choose(mc::thorough() ? 3 : 2) + 1;
	if(L == 0 && n > 1)
		mc::prune();
	Quadrupole m("M", L, 1);
	fields(m.GetField(), b);
	mc::S d;
	d << SETN[s] << " multipole length " << L << " field";
	for(C c : b)
		d << " " << c;
	d << " charge " << q << " P0 " << P0 << " steps " << n;
	mc::note(d);
	mc::state(d);
	vector<Op> ref = times(multipole(Set(s), b, L / n, q, P0), n);
	compare(s, m, P0, q, n, ref, d, "multipole");
	// tracking leaves the magnet's field as it was
	for(size_t k = 0; k < b.size(); k++)
		MC_CHECK(abs(m.GetField().GetComponent(k) - b[k]) <= 1e-12 * abs(b[k]), "field-restored", string(d) << " component " << k << " changed to " << m.GetField().GetComponent(k));
	mc::sample(d);
}
// the named magnets have the field their constructors state
MC_SECTION("named-magnets")
{
	int s = mc::choose(3), t = mc::choose(9), form = mc::choose(2);
	double L = mc::pick(vector<double>{0.5, 0}), sgn = mc::choose(2) ? -1 : 1, q = mc::choose(2) ? -1 : 1, P0 = 20, r0 = 0.1;
	unique_ptr<AcceleratorComponent> c;
	vector<C> b(5);
	const double v[] = {0.01, 0.02, 15, 13, 200, 180, 5000, 4000, 1e5};
	const int np[] = {0, 0, 1, 1, 2, 2, 3, 0, 4};
	double B = sgn * v[t];
	int n = np[t];
	// form 0: derivative B^(n); form 1: field at radius r0
	double dn = form ? B * fact(n) / pow(r0, n) : B;
	if(form == 1)
	{
		B = sgn * 0.3;
		dn = B * fact(n) / pow(r0, n);
	}
	string nm;
#define MAKE(k, T, skew) if(t == k) { nm = #T; c.reset(form ? new T(nm, L, B, r0) : new T(nm, L, B)); b[n] = (skew ? C(0, 1) : C(1, 0)) * (dn / fact(n)); }
	if(t == 0 || t == 1)
	{
		if(form)
			mc::prune();
		c.reset(t ? (AcceleratorComponent*) new YCor("YCor", L, B) : (AcceleratorComponent*) new XCor("XCor", L, B));
		b[0] = t ? C(0, B) : C(B, 0);
		nm = t ? "YCor" : "XCor";
	}
	MAKE(2, Quadrupole, false)
	MAKE(3, SkewQuadrupole, true)
	MAKE(4, Sextupole, false)
	MAKE(5, SkewSextupole, true)
	MAKE(6, Octupole, false)
	MAKE(8, Decapole, false)
	if(!c)
		mc::prune();
	while(b.size() > 1 && b.back() == 0.)
		b.pop_back();
	string d = mc::S() << SETN[s] << " " << nm << " length " << L << " strength " << B << (form ? " at r0" : "") << " charge " << q;
	mc::note(d);
	mc::state(d);
	if(form == 1 && L != 0)
		mc::prune(); // only to be seen as an integrated kick (too strong for a body)
	compare(s, *c, P0, q, 1, multipole(Set(s), b, L, q, P0), d, "named", true, form ? 1e-7 : 5e-11);
}
// --- bends
static Op faceop(int s, double h, double k1, double beta, double fint, double hgap, bool entr)
{
	double t = tan(beta), sb = sin(beta), psi = 2 * fint * hgap * h * (1 + sb * sb) / cos(beta), sec2 = 1 + t * t;
	double g = entr ? 1 : -1;
	return [=](Z& z)
		   {
			   Z r = z;
			   double x = z[0], a = z[1], y = z[2], b = z[3];
			   r[1] += h * t * x;
			   r[3] -= h * tan(beta - psi) * y;
			   if(s == TR)
			   {
				   // SLAC-75 / TRANSPORT second order fringe, straight pole faces; n h^2 = -k1
				   double n = -k1;
				   r[0] += g * (-h / 2 * t * t * x * x + h / 2 * sec2 * y * y);
				   r[2] += g * h * t * t * x * y;
				   r[1] += g * (h * t * t * x * a - h * t * t * y * b);
				   r[3] += g * (-h * t * t * x * b - h * sec2 * a * y);
				   if(entr)
				   {
					   r[1] += -n * t * x * x + (n + h * h * (0.5 + t * t)) * t * y * y;
					   r[3] += 2 * n * t * x * y;
				   }
				   else
				   {
					   r[1] += -(n + h * h * t * t / 2) * t * x * x + (n - h * h * t * t / 2) * t * y * y;
					   r[3] += (2 * n + h * h * sec2) * t * x * y;
				   }
			   }
			   z = r;
		   };
}
struct BendSpec
{
	double L, h, q, P0, Er, k1r, k1i, b0i, b2, tilt;
	int faces, n;
	string d;
};
static vector<Op> bendref(int s, const BendSpec& e, bool ef = false)
{
	double Pref = e.P0 / e.Er, brho = Pref / EC;
	double beta[2] = {0.15, -0.1}, fint[2] = {0.5, 0.4}, hg[2] = {0.02, 0.03};
	// k1r, k1i are given at the matched momentum
	C b1 = C(e.k1r, e.k1i) * brho / e.q;
	double k1P0 = e.k1r / e.Er;
	vector<Op> r;
	if(e.tilt)
		r.push_back(rot(-e.tilt));
	bool f1 = e.faces & 1, f2 = e.faces & 2;
	if(s == TR || f1)
		r.push_back(faceop(s, e.h, k1P0, f1 ? beta[0] : 0, f1 ? fint[0] : 0, f1 ? hg[0] : 0, true));
	bool split = e.k1i || e.b0i || e.b2;
	double len = e.L / e.n;
	for(int i = 0; i < e.n; i++)
	{
		double l = split ? len / 2 : len;
		Op body;
		if(s == TR)
			body = applyjet(jetmap(e.k1r == 0 ? canonical : slopes, l, e.h, e.k1r, 0), e.k1r == 0);
		else if(s == TL)
			body = linearmap(l, e.h, k1P0);
		else
			body = expandedmap(l, e.h, e.k1r);
		if(s != SY && e.Er != 1)
			body = scaled(e.Er, body);
		r.push_back(body);
		if(split)
		{
			r.push_back(kick(Set(s), {C(0, e.b0i), C(0, b1.imag()), C(e.b2, 0)}, len, e.q, e.P0));
			r.push_back(body);
		}
	}
	if(s == TR || f2)
		r.push_back(faceop(s, e.h, k1P0, f2 ? beta[1] : 0, f2 ? fint[1] : 0, f2 ? hg[1] : 0, false));
	if(e.tilt)
		r.push_back(rot(e.tilt));
	return r;
}
static SectorBend* bend(const BendSpec& e)
{
	double Pref = e.P0 / e.Er, brho = Pref / EC;
	double B0 = e.h * brho / e.q;
	SectorBend* s = new SectorBend("B", e.L, e.h, B0);
	if(e.k1r || e.k1i)
		s->GetField().SetComponent(1, e.k1r * brho / e.q, e.k1i * brho / e.q);
	if(e.b0i)
		s->GetField().SetComponent(0, B0, e.b0i);
	if(e.b2)
		s->GetField().SetComponent(2, e.b2);
	SectorBend::PoleFace* f1 = e.faces & 1 ? new SectorBend::PoleFace(0.15, 0.5, 0.02) : nullptr;
	SectorBend::PoleFace* f2 = e.faces & 2 ? new SectorBend::PoleFace(-0.1, 0.4, 0.03) : nullptr;
	if(e.faces)
		s->SetPoleFaceInfo(f1, f2);
	if(e.tilt)
		s->GetGeometry().SetTilt(e.tilt);
	return s;
}
static BendSpec choosebend(int s)
{
	BendSpec e;
	e.L = 1.2;
	e.h = mc::choose(2) ? -0.1 : 0.1;
	e.q = mc::choose(2) ? -1 : 1;
	e.P0 = 500;
	e.Er = s == SY ? 1 : mc::choose(2) ? 1.02 : 1;
	e.k1r = mc::pick(vector<double>{0, 0.3, -0.005, -0.4, -0.01});
	e.k1i = mc::choose(2) * 0.1;
	e.b0i = mc::choose(2) * 2.0;
	e.b2 = mc::choose(2) * 50.0;
	e.tilt = mc::pick(vector<double>{0, 0.4});
	e.faces = mc::choose(4);
	e.n = 1 + mc::choose(2);
	if(!mc::thorough() && (e.k1i != 0) + (e.b0i != 0) + (e.b2 != 0) > 1)
		mc::prune();
	e.d = mc::S() << SETN[s] << " bend L " << e.L << " h " << e.h << " charge " << e.q << " momentum ratio " << e.Er << " k1 " << e.k1r << "+i" << e.k1i << " b0 imag " << e.b0i << " b2 "
				   << e.b2 << " tilt " << e.tilt << " faces " << e.faces << " steps " << e.n;
	if(s != SY && e.k1r == -0.01)
		mc::prune(); // see bends-cancelled
	mc::note(e.d);
	mc::state(e.d);
	return e;
}
MC_SECTION("bends")
{
	int s = mc::choose(3);
	BendSpec e = choosebend(s);
	unique_ptr<SectorBend> b(bend(e));
	vector<Op> ref = bendref(s, e);
	double tol = 2e-10;
	bool path = s != TR || e.k1r == 0;
	compare(s, *b, e.P0, e.q, e.n, ref, e.d, "bend", path, tol);
	MC_CLOSET(b->GetB0(), e.h * e.P0 / e.Er / EC / e.q, 1e-12, 0, "field-restored", e.d);
	MC_CHECK(fabs(b->GetB1() - e.k1r * e.P0 / e.Er / EC / e.q) < 1e-9, "field-restored", e.d << " B1 " << b->GetB1());
	// a copy and a second passage act the same
	unique_ptr<SectorBend> b2(static_cast<SectorBend*>(b->Copy()));
	compare(s, *b2, e.P0, e.q, e.n, ref, e.d + " (copy)", "bend-copy", path, tol);
	mc::sample(e.d);
}
// path length of combined function bends, linear part
MC_SECTION("bend-path-linear")
{
	BendSpec e;
	e.L = 1.2;
	e.q = 1;
	e.P0 = 500;
	e.Er = 1;
	e.h = mc::choose(2) ? -0.1 : 0.1;
	e.k1r = mc::pick(vector<double>{0.3, -0.005, -0.4, 0.02});
	e.k1i = e.b0i = e.b2 = e.tilt = 0;
	e.faces = 0;
	e.n = 1 + mc::choose(2);
	e.d = mc::S() << "combined function bend h " << e.h << " k1 " << e.k1r << " steps " << e.n << " (linear path length)";
	mc::note(e.d);
	mc::state(e.d);
	unique_ptr<SectorBend> b(bend(e));
	vector<Op> ref;
	for(int i = 0; i < e.n; i++)
		ref.push_back(linearmap(e.L / e.n, e.h, e.k1r));
	compare(TR, *b, e.P0, e.q, e.n, ref, e.d, "bend-path-linear", true, 2e-4, 1e-4);
}
// path length of combined function bends, second order
MC_SECTION("bend-path-second-order")
{
	BendSpec e;
	e.L = 1.2;
	e.q = 1;
	e.P0 = 500;
	e.Er = 1;
	e.h = 0.1;
	e.k1r = 0.3;
	string d = "combined function bend h 0.1 k1 0.3";
	mc::note(d);
	mc::state(d);
	e.k1i = e.b0i = e.b2 = e.tilt = 0;
	e.faces = 0;
	e.n = 1;
	unique_ptr<SectorBend> b(bend(e));
	vector<Op> ref{faceop(TR, e.h, e.k1r, 0, 0, 0, true), applyjet(jetmap(slopes, e.L, e.h, e.k1r, 0)), faceop(TR, e.h, e.k1r, 0, 0, 0, false)};
	compare(TR, *b, e.P0, e.q, e.n, ref, d, "bend-path");
}
// a gradient which cancels the weak focusing
MC_SECTION("bends-cancelled")
{
	int s = mc::choose(2) ? SY : TR;
	BendSpec e;
	e.L = 1.2;
	e.q = 1;
	e.P0 = 500;
	e.Er = 1;
	e.h = 0.1;
	e.k1r = mc::pick(vector<double>{-0.01, -0.0101, -0.0099});
	e.d = mc::S() << SETN[s] << " bend h 0.1 k1 " << e.k1r;
	mc::note(e.d);
	mc::state(e.d);
	e.k1i = e.b0i = e.b2 = e.tilt = 0;
	e.faces = 0;
	e.n = 1;
	unique_ptr<SectorBend> b(bend(e));
	compare(s == SY ? SY : TR, *b, e.P0, e.q, e.n, bendref(s, e), e.d, e.k1r == -0.01 && s == TR ? "bend-cancelled" : "bend-nearly-cancelled", s == SY, 2e-8);
}
// exact-fringe ("ef") sector bend: exact motion
MC_SECTION("bends-exact")
{
	BendSpec e;
	e.L = 1.2;
	e.h = mc::choose(2) ? -0.1 : 0.1;
	e.q = mc::choose(2) ? -1 : 1;
	e.P0 = 500;
	e.Er = 1;
	e.k1r = e.k1i = 0;
	e.b0i = mc::choose(2) * 2.0;
	e.b2 = mc::choose(2) * 50.0;
	e.tilt = mc::choose(2) * 0.4;
	e.faces = mc::choose(4);
	e.n = 1 + mc::choose(2);
	e.d = mc::S() << "exact bend h " << e.h << " charge " << e.q << " b0 imag " << e.b0i << " b2 " << e.b2 << " tilt " << e.tilt << " faces " << e.faces << " steps " << e.n;
	mc::note(e.d);
	mc::state(e.d);
	unique_ptr<SectorBend> b(bend(e));
	ParticleComponentTracker ct(iset(SY));
	ct.Register(new SYMPLECTIC::SectorBendCI_ef);
	vector<Op> r;
	r.push_back(rot(-e.tilt));
	if(e.faces & 1)
		r.push_back(faceop(SY, e.h, 0, 0.15, 0.5, 0.02, true));
	for(int i = 0; i < e.n; i++)
	{
		bool split = e.b0i || e.b2;
		double len = e.L / e.n, l = split ? len / 2 : len;
		Op body = [=](Z& z)
			{
				Six<double> w = z;
				z = rk4(w, [&](const Six<double>& m) { return exactEOM(m, e.h, 0, 0); }, l, 24);
			};
		r.push_back(body);
		if(split)
		{
			r.push_back(kick(SY, {C(0, e.b0i), 0, e.b2}, len, e.q, e.P0));
			r.push_back(body);
		}
	}
	if(e.faces & 2)
		r.push_back(faceop(SY, e.h, 0, -0.1, 0.4, 0.03, false));
	r.push_back(rot(e.tilt));
	compare(SY, *b, e.P0, e.q, e.n, r, e.d, "bend-exact", true, 2e-10, 1, &ct);
}
MC_SECTION("solenoids-drifts")
{
	int s = mc::choose(3), kind = mc::choose(4), n = 1 + mc::choose(3);
	double q = mc::choose(2) ? -1 : 1, P0 = mc::choose(2) ? 40 : 2, L = mc::pick(vector<double>{0, 0.7, 2.3});
	if(kind == 0)
	{
		double Bz = mc::pick(vector<double>{0, 1.5, -2.5, 1e-13, -1e-8, 1e-17});
		if(L == 0)
			mc::prune();
		Solenoid so("S", L, Bz);
		string d = mc::S() << SETN[s] << " solenoid " << L << " Bz " << Bz << " charge " << q << " P0 " << P0 << " steps " << n;
		mc::note(d);
		mc::state(d);
		vector<Op> r;
		r.push_back([=](Z& z)
			{
				double ks = q * Bz * EC / P0 / (1 + z[5]);
				z[1] += ks / 2 * z[2];
				z[3] -= ks / 2 * z[0];
				Six<double> w = z;
				z = rk4(w, [&](const Six<double>& m) { return Six<double>{m[1], ks* m[3], m[3], -ks * m[1], 0, 0}; }, L, 60);
				z[1] -= ks / 2 * z[2];
				z[3] += ks / 2 * z[0];
			});
		compare(s, so, P0, q, n, r, d, "solenoid");
		return;
	}
	mc::choose(1);
	unique_ptr<AcceleratorComponent> c;
	if(kind == 1)
		c.reset(new Drift("D", L));
	if(kind == 2)
	{
		if(L != 0)
			mc::prune();
		c.reset(new Marker("M"));
	}
	if(kind == 3)
		c.reset(new BPM("B", L));
	string d = mc::S() << SETN[s] << " " << c->GetType() << " " << L << " steps " << n;
	mc::note(d);
	mc::state(d);
	vector<Op> r;
	// monitors drift without path length
	if(L != 0)
		r.push_back(drift(kind == 3 ? TL : Set(s), L));
	compare(s, *c, P0, q, n, r, d, "drift");
}
// magnets of any orientation deflect as the force of their own field says
MC_SECTION("force")
{
	int s = mc::choose(3), n = 1 + mc::choose(3);
	static const vector<C> B{{12, 0}, {0, 12}, {0, -12}, {8, 6}, {-7, 9}, {-7, -9}, {6, -11}};
	C c = mc::pick(B);
	double L = mc::pick(vector<double>{1e-3, 0}), q = mc::choose(2) ? -1 : 1, P0 = 10;
	bool more = mc::choose(2); // another multipole too
	vector<C> b(n + 1 + more);
	b[n] = c * pow(100., n - 1);
	if(more)
		b[n + 1] = C(-3, 7) * pow(100., n);
	Quadrupole m("M", L, 1);
	fields(m.GetField(), b);
	mc::S d;
	d << SETN[s] << " multipole length " << L << " field";
	for(C x : b)
		d << " " << x;
	d << " charge " << q;
	mc::note(d);
	mc::state(d);
	double brho = P0 / EC;
	for(int k = 0; k < 8; k++)
	{
		ParticleBunch pb(P0, q);
		double x = 0.01 * cos(0.3 + k * M_PI / 4), y = 0.01 * sin(0.3 + k * M_PI / 4);
		PSvector p(0);
		p.x() = x;
		p.y() = y;
		pb.AddParticle(p);
		ParticleComponentTracker ct(iset(s));
		track(ct, m, pb, 1);
		Vector3D F = m.GetField().GetForceAt(Point3D(x, y, 0), Vector3D(0, 0, 1), q, 0);
		double len = L ? L : 1;
		PSvector o = pb.GetParticles()[0];
		double wx = F.x * len / brho, wy = F.y * len / brho, w = hypot(wx, wy);
		MC_CHECK(hypot(o.xp() - wx, o.yp() - wy) < 0.01 * w + 1e-15, "force", d << ": deflection of a particle at " << x << "," << y << " is " << o.xp() << "," << o.yp() << " expected " << wx << "," << wy << " from the force");
	}
	mc::sample(d);
}
