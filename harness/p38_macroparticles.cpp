// P38: slice macroparticles move as the particles they stand for
#include "mc.h"
#include "MerlinIO.h"
#include "AcceleratorModelConstructor.h"
#include "Components.h"
#include "BPM.h"
#include "RMSProfileMonitor.h"
#include "SMPBunch.h"
#include "SMPComponentTracker.h"
#include "SMPTracker.h"
#include "SMPTransform3D.h"
#include "ParticleTracker.h"
#include "ParticleBunch.h"
#include "RectMultipole.h"
#include "Solenoid.h"
#include "TWRFStructure.h"
#include "LatticeFrame.h"
#include "SequenceFrame.h"
using namespace std;
using namespace SMPTracking;
typedef array<double, 6> Z;
typedef function<void(Z&)> Op;
typedef complex<double> C;
static const double EC = 0.299792458;
// a linear system integrated exactly: z' = G z, the seventh component being 1
typedef array<array<double, 7>, 7> G7;
static Op flow(double L, const G7& g)
{
	array<array<double, 7>, 7> m{}, t{};
	for(int i = 0; i < 7; i++)
		m[i][i] = t[i][i] = 1;
	// exp(L g/32)^32
	double h = L / 32;
	for(int k = 1; k < 14; k++)
	{
		array<array<double, 7>, 7> u{};
		for(int i = 0; i < 7; i++)
			for(int j = 0; j < 7; j++)
				for(int l = 0; l < 7; l++)
					u[i][j] += t[i][l] * g[l][j] * h / k;
		t = u;
		for(int i = 0; i < 7; i++)
			for(int j = 0; j < 7; j++)
				m[i][j] += t[i][j];
	}
	for(int k = 0; k < 5; k++)
	{
		array<array<double, 7>, 7> u{};
		for(int i = 0; i < 7; i++)
			for(int j = 0; j < 7; j++)
				for(int l = 0; l < 7; l++)
					u[i][j] += m[i][l] * m[l][j];
		m = u;
	}
	return [m](Z& z)
		   {
			   Z r{};
			   for(int i = 0; i < 6; i++)
			   {
				   r[i] = m[i][6];
				   for(int j = 0; j < 6; j++)
					   r[i] += m[i][j] * z[j];
			   }
			   z = r;
		   };
}
static G7 body(C k1)
{
	G7 g{};
	g[0][1] = g[2][3] = 1;
	g[1][0] = -k1.real();
	g[1][2] = k1.imag();
	g[3][0] = k1.imag();
	g[3][2] = k1.real();
	return g;
}
static Op kick(C k0, C k1)
{
	return [=](Z& z)
		   {
			   C f = k0 + k1 * C(z[0], z[2]);
			   z[1] -= f.real();
			   z[3] += f.imag();
		   };
}
static Op rot(double a)
{
	double c = cos(a), s = sin(a);
	return [=](Z& z)
		   {
			   Z r = z;
			   r[0] = c * z[0] - s * z[2];
			   r[1] = c * z[1] - s * z[3];
			   r[2] = s * z[0] + c * z[2];
			   r[3] = s * z[1] + c * z[3];
			   z = r;
		   };
}
// the moments a macroparticle has, as numbers
struct M
{
	Z m;
	double s[4][4];
	double q;
};
static M get(const SliceMacroParticle& p)
{
	M r;
	for(int i = 0; i < 6; i++)
		r.m[i] = p.mean(i);
	for(int i = 0; i < 4; i++)
		for(int j = 0; j < 4; j++)
			r.s[i][j] = p.sig(i, j);
	r.q = p.Q();
	return r;
}
// moments behind an affine operation (for this ct and dp)
static M behind(const M& a, const Op& op)
{
	M r = a;
	op(r.m);
	double A[4][4];
	Z z0 = a.m;
	for(int i = 0; i < 4; i++)
		z0[i] = 0;
	Z f0 = z0;
	op(f0);
	for(int j = 0; j < 4; j++)
	{
		Z z = z0;
		z[j] = 1;
		op(z);
		for(int i = 0; i < 4; i++)
			A[i][j] = z[i] - f0[i];
	}
	for(int i = 0; i < 4; i++)
		for(int j = 0; j < 4; j++)
		{
			r.s[i][j] = 0;
			for(int k = 0; k < 4; k++)
				for(int l = 0; l < 4; l++)
					r.s[i][j] += A[i][k] * a.s[k][l] * A[j][l];
		}
	return r;
}
static SliceMacroParticle mkslice(const Z& z, int kind, double q)
{
	SliceMacroParticle p(q);
	for(int i = 0; i < 6; i++)
		p.mean(i) = z[i];
	// one of the ten moments alone, or all
	static const double all[4][4] = {{2, 0.3, 0.5, -0.2}, {0.3, 1.5, 0.1, 0.4}, {0.5, 0.1, 1.8, -0.35}, {-0.2, 0.4, -0.35, 1.1}};
	int n = 0;
	for(int i = 0; i < 4; i++)
		for(int j = 0; j <= i; j++, n++)
			p.sig(i, j) = kind == 10 ? 1e-6 * all[i][j] : kind == n ? 1e-6 : 0;
	return p;
}
// slices of every moment, and of several times, energies and centroids
static void fill(SMPBunch& b, double q, double ctscale = 1e-3)
{
	const double A[4] = {7e-3, 5e-3, -6e-3, 4e-3};
	int n = 0;
	for(double dp : {0., 0.02, -0.01})
		for(double ct : {0., -1., 0.7})
			for(int k = 0; k < 11; k++, n++)
			{
				Z z{};
				for(int i = 0; i < 4; i++)
					z[i] = A[i] * (n % 6 == 5 ? 0.8 : n % 6 == i);
				z[4] = ct * ctscale;
				z[5] = dp;
				b.AddParticle(mkslice(z, k, q * (1 + n)));
			}
}
static void compare(const SMPBunch& b, const vector<M>& want, double tol, const string& d)
{
	MC_CHECK(b.Size() == want.size(), "slices", d << b.Size() << " slices of " << want.size());
	static const char* N[] = {"x", "xp", "y", "yp", "ct", "dp"};
	for(size_t n = 0; n < want.size(); n++)
	{
		M g = get(b.Get(n));
		const M& w = want[n];
		MC_CHECK(g.q == w.q, "charge", d << "slice " << n << " has charge " << g.q << " not " << w.q);
		for(int i = 0; i < 6; i++)
			MC_CLOSET(g.m[i], w.m[i], tol, i == 5 ? 1e-12 : 1e-2 * tol, i < 4 ? "centroid" : i == 4 ? "ct" : "dp", d << "slice " << n << " mean " << N[i]);
		for(int i = 0; i < 4; i++)
			for(int j = 0; j <= i; j++)
				MC_CLOSET(g.s[i][j], w.s[i][j], tol, 1e-6 * tol * 10, "covariance", d << "slice " << n << " (of moments " << n % 11 << ") covariance of " << N[i] << " and " << N[j]);
	}
}
struct Silent // warnings of ignored fields
{
	ostringstream o;
	ostream* old;
	Silent() :
		old(MerlinIO::std_warn)
	{
		MerlinIO::std_warn = &o;
	}
	~Silent()
	{
		MerlinIO::std_warn = old;
	}
};
// tracks in steps, with what each step does, before and behind all
static void run(AcceleratorComponent& c, SMPBunch& b, const vector<double>& steps, function<void(vector<M>&, int)> ref, double tol, const string& d)
{
	Silent quiet;
	vector<M> want;
	for(auto& p : b)
		want.push_back(get(p));
	SMPComponentTracker t;
	t.SetBunch(b);
	double t0 = b.GetReferenceTime(), s = 0;
	c.PrepareTracker(t);
	for(size_t k = 0; k < steps.size(); k++)
	{
		t.TrackStep(k + 1 == steps.size() ? t.GetRemainingLength() : steps[k]);
		s += steps[k];
		ref(want, k);
		compare(b, want, tol, mc::S() << d << " behind step " << k + 1 << " of " << steps.size() << ": ");
		MC_CLOSET(b.GetReferenceTime(), t0 + s, 1e-12, 1e-12, "time", d);
	}
}
static vector<double> choosesteps(double L)
{
	switch(mc::choose(L == 0 ? 1 : 4))
	{
	case 0: return {L};
	case 1: return {L / 2, L / 2};
	case 2: return {L / 4, L * 3 / 4};
	default: return {L / 8, L / 2, L * 3 / 8};
	}
}
static string str(const vector<double>& s)
{
	mc::S o;
	o << " in " << s.size() << " steps";
	return o;
}
static void each(vector<M>& v, function<Op(const M&)> f)
{
	for(auto& m : v)
		m = behind(m, f(m));
}
MC_SECTION("multipoles")
{
	double L = mc::pick(vector<double>{1.2, 0, 0.3});
	int q = mc::choose(2) ? -1 : 1;
	double P0 = mc::pick(vector<double>{500, 4});
	C k0 = mc::pick(vector<C>{{0, 0}, {0.01, 0}, {0, -0.02}, {0.015, 0.008}}), k1 = mc::pick(vector<C>{{0, 0}, {0.4, 0}, {-0.7, 0}, {0, 0.5}, {0, -0.3}, {0.3, 0.45}, {-0.2, 0.3}, {-0.25, -0.4}, {0.2, -0.35}});
	double k2 = mc::choose(2) * 3;
	if(mc::thorough() == false && k2 != 0 && (L != 1.2 || P0 != 500))
		mc::prune();
	vector<double> st = choosesteps(L);
	string d = mc::S() << "multipole L " << L << " charge " << q << " P0 " << P0 << " k0 " << k0 << " k1 " << k1 << " k2 " << k2 << str(st);
	mc::note(d);
	mc::state(d);
	double brho = P0 / EC;
	RectMultipole* c = new Quadrupole("R", L, 0.);
	unique_ptr<RectMultipole> own(c);
	vector<C> k{k0, k1, k2 / 2};
	while(k.size() > 1 && k.back() == 0.)
		k.pop_back();
	c->GetField() = MultipoleField(2.0, k.size());
	for(size_t n = 0; n < k.size(); n++)
		c->GetField().SetCoefficient(n, k[n] * brho / double(q) / 2.0);
	SMPBunch b(P0, q);
	fill(b, q);
	run(*c, b, st, [&](vector<M>& v, int k)
	{
		each(v, [&](const M& m) -> Op
		{
			double e = 1 + m.m[5];
			if(L == 0)
				return kick(k0 / e, k1 / e);
			Op h = flow(st[k] / 2, body(k1 / e)), n = kick(k0 * st[k] / e, 0);
			return [=](Z& z) { h(z); n(z); h(z); };
		});
	}, 1e-9, d);
	mc::sample(d);
}
// the components by their own constructors
MC_SECTION("components")
{
	int kind = mc::choose(10), q = mc::choose(2) ? -1 : 1;
	double P0 = mc::pick(vector<double>{500, 4}), brho = P0 / EC, L = mc::pick(vector<double>{0.5, 2});
	double B = mc::pick(vector<double>{0.3, -0.2}) * brho * q;
	unique_ptr<AcceleratorComponent> c;
	C k0 = 0, k1 = 0;
	double ks = 0;
	string nm;
	double b = B / brho * q; // as this charge sees it
	switch(kind)
	{
	case 0: c.reset(new Drift("D", L)); nm = "drift"; break;
	case 1: c.reset(new Quadrupole("Q", L, B)); k1 = b; nm = "quadrupole"; break;
	case 2: c.reset(new SkewQuadrupole("S", L, B)); k1 = C(0, b); nm = "skew quadrupole"; break;
	case 3: c.reset(new XCor("X", L, B * 0.1)); k0 = b * 0.1; nm = "x corrector"; break;
	case 4: c.reset(new YCor("Y", L, B * 0.1)); k0 = C(0, b * 0.1); nm = "y corrector"; break;
	case 5: c.reset(new Sextupole("S", L, B)); nm = "sextupole"; break;
	case 6: c.reset(new Solenoid("S", L, B)); ks = b; nm = "solenoid"; break;
	case 7: c.reset(new BPM("B", L)); nm = "BPM"; break;
	case 8: c.reset(new RMSProfileMonitor("P", 0.3, L)); nm = "profile monitor"; break;
	case 9: c.reset(new Marker("M")); L = 0; nm = "marker"; break;
	}
	vector<double> st = choosesteps(L);
	string d = mc::S() << nm << " L " << L << " charge " << q << " P0 " << P0 << " B " << B << str(st);
	mc::note(d);
	mc::state(d);
	SMPBunch bunch(P0, q);
	fill(bunch, q);
	run(*c, bunch, st, [&](vector<M>& v, int k)
	{
		each(v, [&](const M& m) -> Op
		{
			double e = 1 + m.m[5], ds = st[k];
			if(ks)
			{
				// the solenoid with its edges
				G7 g{};
				g[0][1] = g[2][3] = 1;
				g[1][3] = ks / e;
				g[3][1] = -ks / e;
				Op f = flow(ds, g);
				double h = ks / e / 2;
				return [=](Z& z) { z[1] += h * z[2]; z[3] -= h * z[0]; f(z); z[1] -= h * z[2]; z[3] += h * z[0]; };
			}
			Op h = flow(ds / 2, body(k1 / e)), n = kick(k0 * ds / e, 0);
			return [=](Z& z) { h(z); n(z); h(z); };
		});
	}, 1e-9, d);
	mc::sample(d);
}
MC_SECTION("bends")
{
	double L = 1.2, h = mc::choose(2) ? -0.1 : 0.1, P0 = 500, Er = mc::choose(2) ? 1.02 : 1;
	int q = mc::choose(2) ? -1 : 1;
	double k1 = mc::pick(vector<double>{0, 0.3, -0.005, -0.4, -0.01}), tilt = mc::pick(vector<double>{0, 0.4, -1e-3, M_PI / 2});
	int faces = mc::choose(4);
	vector<double> st = choosesteps(L);
	string d = mc::S() << "bend h " << h << " k1 " << k1 << " tilt " << tilt << " faces " << faces << " charge " << q << " momentum ratio " << Er << str(st);
	mc::note(d);
	mc::state(d);
	double Pref = P0 / Er, brho = Pref / EC;
	SectorBend s("B", L, h, h * brho / q);
	if(k1)
		s.SetB1(k1 * brho / q);
	if(faces)
		s.SetPoleFaceInfo(faces & 1 ? new SectorBend::PoleFace(0.15, 0.5, 0.02) : nullptr, faces & 2 ? new SectorBend::PoleFace(-0.1, 0.4, 0.03) : nullptr);
	if(tilt)
		s.GetGeometry().SetTilt(tilt);
	SMPBunch b(P0, q);
	fill(b, q);
	auto face = [&](double rot, double fint, double hgap)
		{
			double phi = 2 * fint * hgap * h * (1 + sin(rot) * sin(rot)) / cos(rot), a = h * tan(rot), c = -h * tan(rot - phi);
			return [=](Z& z) { z[1] += a * z[0]; z[3] += c * z[2]; };
		};
	double K = k1 / Er; // as the bunch sees it
	vector<M> start;
	for(auto& p : b)
		start.push_back(get(p));
	Silent quiet;
	SMPComponentTracker t;
	t.SetBunch(b);
	s.PrepareTracker(t);
	for(size_t k = 0; k < st.size(); k++)
		t.TrackStep(k + 1 == st.size() ? t.GetRemainingLength() : st[k]);
	G7 g{};
	g[0][1] = g[2][3] = 1;
	g[1][0] = -h * h - K;
	g[1][5] = h;
	g[3][2] = K;
	g[4][0] = -h;
	Op f = flow(L, g), e1 = face(0.15, 0.5, 0.02), e2 = face(-0.1, 0.4, 0.03), r1 = rot(-tilt), r2 = rot(tilt);
	each(start, [&](const M&) -> Op
	{
		return [=](Z& z)
			   {
				   double dp = z[5];
				   r1(z);
				   if(faces & 1)
					   e1(z);
				   z[5] = Er * (1 + dp) - 1;
				   f(z);
				   z[5] = dp;
				   if(faces & 2)
					   e2(z);
				   r2(z);
			   };
	});
	compare(b, start, 1e-9, d + ": ");
	mc::sample(d);
}
MC_SECTION("cavities")
{
	double L = 3, P0 = mc::pick(vector<double>{5, 0.1, 50}), V = mc::pick(vector<double>{0.02, 0.06, 0}), phi = mc::pick(vector<double>{0, 0.3, -0.5, 2.8}), freq = mc::pick(vector<double>{1.3e9, 2.856e9});
	int q = mc::choose(2) ? -1 : 1;
	int ns = 1 + mc::choose(3);
	string d = mc::S() << "cavity field " << V << " phase " << phi << " frequency " << freq << " P0 " << P0 << " charge " << q << " steps " << ns;
	if(P0 + V * L * cos(phi) < 0.03)
		mc::prune();
	mc::note(d);
	mc::state(d);
	TWRFStructure c("C", L, freq, V, phi);
	SMPBunch b(P0, q);
	fill(b, q, 0.02);
	double p = P0, k = 2 * M_PI * freq / (EC * 1e9);
	vector<double> st(ns, L / ns);
	run(c, b, st, [&](vector<M>& v, int i)
	{
		double ds = st[i], dE0 = V * ds * cos(phi);
		each(v, [&](const M& m) -> Op
		{
			double E0 = p * (1 + m.m[5]), g = V * cos(phi - k * m.m[4]), E1 = E0 + g * ds, r = fabs(g * ds) < 1e-9 * E0 ? ds : E0 / g * log(E1 / E0), pn = p + dE0;
			bool first = i == 0, last = i == ns - 1;
			return [=](Z& z)
				   {
					   for(int j : {0, 2})
					   {
						   if(first)
							   z[j + 1] -= g / (2 * E0) * z[j];
						   z[j] += r * z[j + 1];
						   z[j + 1] *= E0 / E1;
						   if(last)
							   z[j + 1] += g / (2 * E1) * z[j];
					   }
					   z[5] = E1 / pn - 1;
				   };
		});
		p += dE0;
		MC_CLOSET(b.GetReferenceMomentum(), p, 1e-12, 0, "reference-momentum", d << " behind step " << i + 1);
	}, 1e-9, d);
	mc::sample(d);
}
MC_SECTION("transformations")
{
	double x = mc::pick(vector<double>{0, 2e-3, -1e-3}), y = mc::pick(vector<double>{0, -3e-3}), z = mc::pick(vector<double>{0, 0.02, -0.3}), roll = mc::pick(vector<double>{0, 1e-3, -5e-4, 0.3, -M_PI / 2, M_PI, -2.5}), pitch = mc::pick(vector<double>{0, 1e-7, -2e-7}),
		yaw = mc::pick(vector<double>{0, -3e-7});
	int order = mc::choose(2);
	string d = mc::S() << "shift " << x << "," << y << "," << z << " roll " << roll << " pitch " << pitch << " yaw " << yaw << " order " << order;
	mc::note(d);
	mc::state(d);
	Transform3D tr = Transform3D::translation(x, y, z), rz = Transform3D::rotationZ(roll), rx = Transform3D::rotationX(pitch), ry = Transform3D::rotationY(yaw);
	Transform3D t = order ? tr * rz * rx * ry : ry * rx * rz * tr;
	SMPBunch b(5, 1);
	fill(b, 1);
	ParticleTracking::ParticleBunch pb(5, 1);
	vector<M> want;
	for(auto& s : b)
		want.push_back(get(s));
	// to first order, what happens to particles in the frame
	auto op = [&](Z& v)
		{
			Point3D X = t(Point3D(v[0], v[2], 0));
			Vector3D V = t(Vector3D(v[1], v[3], 1));
			v[0] = X.x - X.z * V.x;
			v[2] = X.y - X.z * V.y;
			v[1] = V.x;
			v[3] = V.y;
		};
	// the same, made affine, since the products of offsets and angles are of second order
	auto lin = [&](Z& v)
		{
			Z r = v, o{};
			op(o);
			for(int i = 0; i < 4; i++)
				r[i] = o[i];
			for(int j = 0; j < 4; j++)
			{
				Z e{};
				e[j] = 1e-5;
				op(e);
				for(int i = 0; i < 4; i++)
					r[i] += (e[i] - o[i]) / 1e-5 * v[j];
			}
			v = r;
		};
	each(want, [&](const M&) -> Op { return lin; });
	MC_CHECK(b.ApplyTransformation(t), "transformation", d);
	// angles and products of them and offsets are neglected
	compare(b, want, 3e-6, d + ": ");
	mc::sample(d);
}
// misaligned elements: as tracked particles
MC_SECTION("misaligned")
{
	int kind = mc::choose(5);
	double L = 0.8, P0 = 500, brho = P0 / EC;
	int q = mc::choose(2) ? -1 : 1;
	AcceleratorComponent* c;
	string nm;
	switch(kind)
	{
	case 0: c = new Quadrupole("Q", L, 0.5 * brho); nm = "quadrupole"; break;
	case 1: c = new SkewQuadrupole("Q", L, 0.5 * brho); nm = "skew quadrupole"; break;
	case 2: c = new Solenoid("S", L, 0.3 * brho); nm = "solenoid"; break;
	case 3: c = new SectorBend("B", L, 0.05, 0.05 * brho / q); nm = "bend"; break;
	default: c = new XCor("X", L, 0.001 * brho); nm = "corrector"; break;
	}
	double mv[6];
	static const double A[6] = {1e-4, -2e-4, 0.01, 1e-4, 3e-4, -1e-4};
	int which = mc::choose(7 + 15), n = 0;
	for(int i = 0; i < 6; i++)
		mv[i] = which == i ? A[i] : 0;
	n = 7;
	for(int i = 0; i < 6; i++)
		for(int j = 0; j < i; j++, n++)
			if(which == n)
				mv[i] = A[i], mv[j] = A[j];
	AcceleratorModelConstructor ctor;
	ctor.AppendDrift(0.7);
	ComponentFrame* f = nullptr;
	ctor.AppendComponent(c);
	ctor.AppendDrift(0.6);
	unique_ptr<AcceleratorModel> m(ctor.GetModel());
	for(auto* k : m->GetBeamline())
		if(k->IsComponent() && &k->GetComponent() == c)
			f = k;
	f->Translate(mv[0], mv[1], mv[2]);
	f->RotateX(mv[3]);
	f->RotateY(mv[4]);
	f->RotateZ(mv[5]);
	mc::S d;
	d << nm << " charge " << q << " moved by";
	for(double v : mv)
		d << " " << v;
	mc::note(d);
	mc::state(d);
	SMPBunch* b = new SMPBunch(P0, q);
	Z z{};
	z[0] = 2e-5, z[1] = -1e-5, z[2] = 3e-5, z[3] = 1.5e-5;
	b->AddParticle(mkslice(z, 10, q));
	b->AddParticle(mkslice(z, 2, q));
	vector<M> in;
	for(auto& p : *b)
		in.push_back(get(p));
	Silent quiet;
	SMPTracker st(m->GetBeamline(), b);
	SMPBunch& out = static_cast<SMPBunch&>(st.Run());
	// particles about the centroid
	auto track = [&](const Z& v)
		{
			auto* pb = new ParticleTracking::ParticleBunch(P0, q);
			PSvector p(0);
			for(int i = 0; i < 6; i++)
				p[i] = v[i];
			pb->AddParticle(p);
			ParticleTracking::ParticleTracker pt(m->GetBeamline(), pb);
			ParticleTracking::ParticleBunch& o = static_cast<ParticleTracking::ParticleBunch&>(pt.Run());
			Z r{};
			for(int i = 0; i < 6; i++)
				r[i] = o.GetParticles()[0][i];
			return r;
		};
	double J[4][4];
	for(int j = 0; j < 4; j++)
	{
		Z a = z, c2 = z;
		a[j] += 1e-5;
		c2[j] -= 1e-5;
		a = track(a);
		c2 = track(c2);
		for(int i = 0; i < 4; i++)
			J[i][j] = (a[i] - c2[i]) / 2e-5;
	}
	Z zc = track(z);
	// all but terms of second order in the displacements
	for(int s = 0; s < 2; s++)
	{
		M g = get(out.Get(s));
		for(int i = 0; i < 4; i++)
			MC_CLOSET(g.m[i], zc[i], 0, 3e-7, "misaligned-centroid", d << ": slice " << s << " mean " << i);
		for(int i = 0; i < 4; i++)
			for(int j = 0; j <= i; j++)
			{
				double w = 0;
				for(int k = 0; k < 4; k++)
					for(int l = 0; l < 4; l++)
						w += J[i][k] * in[s].s[k][l] * J[j][l];
				MC_CLOSET(g.s[i][j], w, 0, 4e-10, "misaligned-covariance", d << ": slice " << s << " moment " << i << "," << j);
			}
	}
	mc::sample(d);
}
struct Rec: public BPM::Buffer
{
	vector<BPM::Data> d;
	void Record(const BPM&, const BPM::Data& x) override
	{
		d.push_back(x);
	}
};
MC_SECTION("monitors")
{
	double L = mc::pick(vector<double>{0, 1, 0.3}), f = mc::pick(vector<double>{0, -0.5, 0.5, 0.25, 1. / 6}), mp = f * L;
	int n = 1 + mc::choose(mc::thorough() ? 12 : 6), pass = 1 + mc::choose(2);
	if(L == 0 && (f != 0 || n > 1))
		mc::prune();
	string d = mc::S() << "BPM length " << L << " measuring at " << mp << " in " << n << " steps, " << pass << " passages";
	mc::note(d);
	mc::state(d);
	BPM b("B", L, mp);
	Rec r;
	b.AddBuffer(&r);
	SMPBunch bunch(5, 1);
	fill(bunch, 1);
	double Q = 0, x = 0, y = 0, xp = 0, yp = 0;
	for(auto& p : bunch)
	{
		Q += p.Q();
		x += p.Q() * p.x();
		y += p.Q() * p.y();
		xp += p.Q() * p.xp();
		yp += p.Q() * p.yp();
	}
	SMPComponentTracker t;
	t.SetBunch(bunch);
	for(int k = 0; k < pass; k++)
	{
		b.PrepareTracker(t);
		for(int i = 0; i < n; i++)
			t.TrackStep(i == n - 1 ? t.GetRemainingLength() : L / n);
		MC_CHECK(r.d.size() == size_t(k + 1), "monitor-once", d << ": " << r.d.size() << " measurements after passage " << k + 1);
		double s = k * L + L / 2 + mp;
		MC_CLOSET(r.d.back().x.value, (x + s * xp) / Q, 1e-10, 1e-14, "monitor-x", d);
		MC_CLOSET(r.d.back().y.value, (y + s * yp) / Q, 1e-10, 1e-14, "monitor-y", d);
	}
	mc::sample(d);
}
// along a line: element by element, all slices, reference momentum and time carried
MC_SECTION("lines")
{
	int n = 1 + mc::choose(mc::thorough() ? 4 : 3), q = mc::choose(2) ? -1 : 1;
	double P0 = 5, brho = P0 / EC;
	AcceleratorModelConstructor ctor;
	vector<AcceleratorComponent*> cs;
	mc::S d;
	d << "charge " << q << " line";
	double L = 0;
	for(int i = 0; i < n; i++)
	{
		AcceleratorComponent* c;
		switch(mc::choose(6))
		{
		case 0: c = new Drift("D", 0.5); break;
		case 1: c = new Quadrupole("Q", 0.5, 0.4 * brho); break;
		case 2: c = new SkewQuadrupole("K", 0.3, -0.6 * brho); break;
		case 3: c = new SectorBend("B", 1, 0.1, 0.1 * brho / q); break;
		case 4: c = new TWRFStructure("C", 1, 1.3e9, 0.02, 0.3); break;
		default: c = new Solenoid("S", 0.4, 0.5 * brho);
		}
		d << " " << c->GetQualifiedName();
		cs.push_back(c);
		L += c->GetLength();
		ctor.AppendComponent(c);
	}
	mc::note(d);
	mc::state(d);
	unique_ptr<AcceleratorModel> m(ctor.GetModel());
	SMPBunch* b = new SMPBunch(P0, q);
	fill(*b, q);
	b->SetReferenceTime(3);
	SMPBunch ref(P0, q);
	fill(ref, q);
	Silent quiet;
	bool refused = false;
	string what;
	SMPTracker st(m->GetBeamline(), b);
	if(mc::choose(2))
	{
		st.InitStepper(b);
		bool more;
		do
			more = st.StepComponent();
		while(more);
	}
	else
		st.Run();
	SMPBunch& out = st.GetTrackedBunch();
	SMPComponentTracker t;
	t.SetBunch(ref);
	for(auto c : cs)
	{
		c->PrepareTracker(t);
		t.Track();
	}
	vector<M> want;
	for(auto& p : ref)
		want.push_back(get(p));
	compare(out, want, 1e-12, mc::S() << d << ": ");
	MC_CLOSET(out.GetReferenceMomentum(), ref.GetReferenceMomentum(), 1e-13, 0, "line-momentum", d);
	MC_CLOSET(out.GetReferenceTime(), 3 + L, 1e-12, 0, "line-time", d);
	MC_CLOSET(out.GetTotalCharge(), ref.GetTotalCharge(), 1e-13, 0, "line-charge", d);
	(void) refused;
	mc::sample(d);
}
