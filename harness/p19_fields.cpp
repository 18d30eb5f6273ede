// P19: magnetic fields are what was set
#include "mc.h"
#include "MerlinIO.h"
#include "Components.h"
#include "Solenoid.h"
#include "CorrectorWinding.h"
#include "MultipoleField.h"
#include "BzField.h"
using namespace std;
typedef complex<double> C;
static double fact(int n)
{
	return n < 2 ? 1 : n * fact(n - 1);
}
static bool near(C a, C b, double tol = 1e-12)
{
	return abs(a - b) <= tol * (1 + abs(b));
}
static const vector<pair<double, double> > POINTS{{0, 0}, {0.3, 0}, {0, -0.2}, {0.4, 0.5}, {-0.7, 0.1}, {-0.2, -0.9}};
// reference: components (field = sum c_n (x+iy)^n, By + i Bx)
static void verify(const MultipoleField& f, const vector<C>& c, double scale, const string& d)
{
	int top = -1, low = -1;
	for(int n = 0; n < int(c.size()); n++)
		if(c[n] != 0.)
		{
			top = n;
			if(low < 0)
				low = n;
		}
	if(top >= 0 && scale != 0)
	{
		MC_CHECK(f.HighestMultipole() >= top, "highest", d << ": highest multipole " << f.HighestMultipole() << " expected " << top);
		MC_CHECK(f.LowestMultipole() == low, "lowest", d << ": lowest multipole " << f.LowestMultipole() << " expected " << low);
	}
	else
		f.LowestMultipole();
	MC_CLOSET(f.GetFieldScale(), scale, 1e-13, 0, "scale", d << ": scale");
	int h = f.HighestMultipole();
	for(size_t n = 0; n < c.size() + 3; n++)
	{
		C e = n < c.size() ? c[n] : 0.;
		for(double r0 : {1., 0.05})
		{
			C g = f.GetComponent(n, r0);
			MC_CHECK(near(g, e * pow(r0, n)), "component", d << ": component " << n << " at radius " << r0 << " is " << g << " expected " << e * pow(r0, n));
			if(scale != 0)
			{
				g = f.GetCoefficient(n, r0);
				MC_CHECK(near(g, e * pow(r0, n) / scale), "coefficient", d << ": coefficient " << n << " at radius " << r0 << " is " << g << " expected " << e * pow(r0, n) / scale);
			}
		}
		C k = f.GetKn(n, 20.0);
		MC_CHECK(near(k, fact(n) * e / 20.0), "kn", d << ": K" << n << " is " << k << " expected " << fact(n) * e / 20.0);
	}
	for(auto& p : POINTS)
	{
		C w(p.first, p.second);
		for(int ex = -1; ex < int(c.size()) + 2; ex++)
		{
			C b = 0;
			for(int n = ex + 1; n < int(c.size()); n++)
				b += c[n] * pow(w, n);
			if(ex == -1 && w == 0.)
				b = c.empty() ? 0. : c[0];
			else if(w == 0.)
				b = 0;
			C g = f.GetField2D(p.first, p.second, ex);
			MC_CHECK(near(g, b), "field2d", d << ": field at " << w << " without terms to " << ex << " is " << g << " expected " << b);
			if(ex == -1)
			{
				MC_CHECK(near(f.GetField2D(p.first, p.second), b), "field2d", d << " field at " << w);
				Vector3D B = f.GetBFieldAt(Point3D(p.first, p.second, 2.0), 3.0);
				MC_CHECK(near(C(B.y, B.x), b) && B.z == 0, "bfield", d << ": B at " << w << " is (" << B.x << "," << B.y << "," << B.z << ") expected By+iBx = " << b);
				Vector3D E = f.GetEFieldAt(Point3D(p.first, p.second, 2.0), 3.0);
				MC_CHECK(E.x == 0 && E.y == 0 && E.z == 0, "efield", d << ": electric field");
				for(auto v : {Vector3D(0, 0, 1), Vector3D(0.2, -0.3, 0.9), Vector3D(1, 0, 0), Vector3D(0, 2, 0)})
					for(double q : {1., -1.5})
					{
						Vector3D F = f.GetForceAt(Point3D(p.first, p.second, -1.0), v, q);
						double bx = b.imag(), by = b.real(), fx = -q * v.z * by, fy = q * v.z * bx, fz = q * (v.x * by - v.y * bx), t = 1e-12 * (1 + abs(b));
						MC_CHECK(fabs(F.x - fx) <= t && fabs(F.y - fy) <= t && fabs(F.z - fz) <= t, "force", d << ": force at " << w << " v (" << v.x << "," << v.y << "," << v.z << ") q " << q << " is ("
							<< F.x << "," << F.y << "," << F.z << ") expected (" << fx << "," << fy << "," << fz << ")");
					}
			}
		}
	}
	MC_CHECK(f.HighestMultipole() == h, "read-changes", d << ": reading the field changed its highest multipole from " << h << " to " << f.HighestMultipole());
	MC_CHECK(f.IsNullField() == (scale == 0), "null", d << ": IsNullField " << f.IsNullField());
}
MC_SECTION("constructors")
{
	int form = mc::choose(4), n = mc::choose(16);
	double b = mc::pick(vector<double>{1.5, -0.4, 0}), a = mc::pick(vector<double>{0, 0.7, -2}), r0 = mc::pick(vector<double>{1, 0.03, 2});
	bool skew = mc::choose(2);
	vector<C> c(n + 1);
	mc::S d;
	unique_ptr<MultipoleField> f;
	switch(form)
	{
	case 0:
		if(a || r0 != 1 || skew)
			mc::prune();
		d << "MultipoleField(scale " << b << ", terms " << n << ")";
		f.reset(new MultipoleField(b, size_t(n)));
		c.clear();
		break;
	case 1:
		if(skew)
			mc::prune();
		d << "MultipoleField(" << n << ", bn " << b << ", an " << a << ", r0 " << r0 << ")";
		f.reset(new MultipoleField(n, b, a, r0));
		c[n] = C(b, a) / pow(r0, n);
		break;
	case 2:
		if(a)
			mc::prune();
		d << "MultipoleField(" << n << ", bn " << b << ", r0 " << r0 << ", skew " << skew << ")";
		f.reset(new MultipoleField(n, b, r0, skew));
		c[n] = (skew ? C(0, 1) : C(1, 0)) * b / pow(r0, n);
		break;
	case 3:
		if(a || r0 != 1)
			mc::prune();
		d << "MultipoleField(" << n << ", derivative " << b << ", skew " << skew << ")";
		f.reset(new MultipoleField(n, b, skew));
		c[n] = (skew ? C(0, 1) : C(1, 0)) * b / fact(n);
		break;
	}
	mc::note(d);
	mc::state(d);
	double scale = form == 0 ? b : form == 1 ? hypot(b, a) / pow(r0, n) : form == 2 ? b / pow(r0, n) : b / fact(n);
	verify(*f, c, scale, d);
	if(form != 0 && scale == 0)
	{
		// the primary component comes back when scaled
		f->SetFieldScale(2);
		C g = f->GetComponent(n);
		MC_CHECK(abs(abs(g) - 2) < 1e-12, "rescale", d << ": scaled to 2 the component is " << g);
	}
	mc::sample(d);
}
MC_SECTION("histories")
{
	double scale = 2;
	MultipoleField f(scale, size_t(mc::choose(2) * 3));
	vector<C> c; // coefficients / scale
	mc::S d;
	int depth = mc::thorough() ? 5 : 4;
	auto at = [&](size_t n) -> C&
		{
			if(c.size() <= n)
				c.resize(n + 1);
			return c[n];
		};
	for(int i = 0; i < depth; i++)
	{
		switch(mc::choose(10))
		{
		case 0:
			f.SetCoefficient(2, C(0.3, -0.4));
			at(2) = C(0.3, -0.4);
			d << " coefficient 2";
			break;
		case 1:
			f.SetCoefficient(1, C(-5, 0), 0.1);
			at(1) = C(-50, 0);
			d << " coefficient 1 at r0 .1";
			break;
		case 2:
			if(scale == 0)
				mc::prune();
			f.SetComponent(3, 4, -6, 0.5);
			at(3) = C(4, -6) / 0.125 / scale;
			d << " component 3 at r0 .5";
			break;
		case 3:
			if(scale == 0)
				mc::prune();
			f.SetComponent(0, 0.7);
			at(0) = 0.7 / scale;
			d << " component 0";
			break;
		case 4:
			f.SetFieldScale(scale = -1.5);
			d << " scale -1.5";
			break;
		case 5:
			f.SetFieldScale(scale = 0);
			d << " scale 0";
			break;
		case 6:
		{
			MultipoleField g(f);
			f.SetCoefficient(4, 9.);
			f.SetFieldScale(77);
			f = g;
			d << " copy";
			break;
		}
		case 7:
			f.SetCoefficient(2, 0);
			at(2) = 0;
			d << " coefficient 2 = 0";
			break;
		case 8:
			// twice 180 degrees about the vertical
			f.RotateY180();
			f.RotateY180();
			d << " rotate twice";
			break;
		case 9:
			f.SetCoefficient(14, C(1, 2), 0.5);
			at(14) = C(1, 2) * pow(2., 14);
			d << " coefficient 14 at r0 .5";
			break;
		}
		mc::note(d);
		vector<C> e = c;
		for(auto& x : e)
			x *= scale;
		verify(f, e, scale, d);
	}
	mc::state(d);
	mc::sample(d);
}
// rotation about the vertical keeps the magnitude of every component
MC_SECTION("rotation")
{
	vector<C> c{mc::pick(vector<C>{0, 1, C(0.3, -2)}), mc::pick(vector<C>{0, C(0, 1.5), -4}), mc::pick(vector<C>{0, C(2, 3)}), mc::pick(vector<C>{0, C(-2, 1)})};
	MultipoleField f(1.5, 4);
	mc::S d;
	d << "rotation of";
	for(size_t n = 0; n < 4; n++)
	{
		f.SetComponent(n, c[n].real(), c[n].imag());
		d << " " << c[n];
	}
	mc::note(d);
	mc::state(d);
	f.RotateY180();
	// bends keep bending towards the beam's side and quadrupoles their focusing when the line is reversed; skew terms alternate
	for(size_t n = 0; n < 4; n++)
	{
		C e = conj(c[n]) * (n % 2 ? 1. : -1.);
		MC_CHECK(near(f.GetComponent(n), e), "rotated", d << ": component " << n << " is " << f.GetComponent(n) << " expected " << e);
	}
}
MC_SECTION("magnets")
{
	int t = mc::choose(8), form = mc::choose(2);
	double L = mc::pick(vector<double>{0.5, 2}), B = mc::pick(vector<double>{0.8, -3}), r0 = 0.1;
	unique_ptr<RectMultipole> m;
	static const int NP[] = {0, 0, 1, 1, 2, 2, 3, 4};
	static const bool SK[] = {0, 1, 0, 1, 0, 1, 0, 0};
	if(t < 2 && form)
		mc::prune();
	switch(t)
	{
	case 0: m.reset(new XCor("M", L, B)); break;
	case 1: m.reset(new YCor("M", L, B)); break;
#define T(k, X) case k: m.reset(form ? new X("M", L, B, r0) : new X("M", L, B)); break;
	T(2, Quadrupole) T(3, SkewQuadrupole) T(4, Sextupole) T(5, SkewSextupole) T(6, Octupole) T(7, Decapole)
	}
	int n = NP[t];
	C unit = SK[t] ? C(0, 1) : C(1, 0);
	double s = form ? B / pow(r0, n) : B / fact(n);
	mc::S d;
	d << m->GetType() << " length " << L << " strength " << B << (form ? " at r0 .1" : " derivative");
	mc::note(d);
	auto check = [&](RectMultipole& x)
		{
			vector<C> c(n + 1);
			c[n] = unit * s;
			verify(x.GetField(), c, s, d);
			MC_CLOSET(x.GetFieldStrength(), s, 1e-13, 0, "strength", d << ": field strength");
			MC_CHECK(x.GetPrimaryPoleNo() == n, "pole-number", d << ": primary pole number " << x.GetPrimaryPoleNo() << " expected " << n);
			MC_CLOSET(x.GetLength(), L, 1e-14, 0, "length", d << ": length");
			MC_CHECK(x.GetName() == "M", "name", d);
		};
	check(*m);
	for(int i = 0; i < 3; i++)
	{
		switch(mc::choose(4))
		{
		case 0:
			m->SetFieldStrength(s = 0.25);
			d << " set .25";
			break;
		case 1:
			m->SetFieldStrength(s = -7);
			d << " set -7";
			break;
		case 2:
			m->SetFieldStrength(s = 0);
			d << " set 0";
			break;
		case 3:
		{
			unique_ptr<RectMultipole> c(static_cast<RectMultipole*>(m->Copy()));
			MC_CHECK(c->GetType() == m->GetType() && c->GetIndex() == m->GetIndex(), "copy", d << " type of copy");
			m->SetFieldStrength(99);
			m = move(c);
			d << " copy";
			break;
		}
		}
		mc::note(d);
		check(*m);
	}
	mc::state(d);
	mc::sample(d);
}
MC_SECTION("bends-solenoids")
{
	mc::S d;
	if(mc::choose(2))
	{
		double Bz = mc::pick(vector<double>{2.5, -1, 0}), L = 1.5;
		unique_ptr<Solenoid> s(new Solenoid("S", L, Bz));
		d << "Solenoid " << Bz;
		for(int i = 0; i < 3; i++)
		{
			switch(mc::choose(4))
			{
			case 0:
				s->SetBz(Bz = -0.5);
				d << " set -.5";
				break;
			case 1:
				s->SetFieldStrength(Bz = 3);
				d << " strength 3";
				break;
			case 2:
			{
				unique_ptr<Solenoid> c(static_cast<Solenoid*>(s->Copy()));
				s->SetBz(8);
				s = move(c);
				d << " copy";
				break;
			}
			case 3:
				s->RotateY180();
				Bz = -Bz;
				d << " rotate";
				break;
			}
			mc::note(d);
			MC_CHECK(s->GetBz() == Bz && s->GetFieldStrength() == Bz && s->GetField().GetStrength() == Bz, "solenoid", d << ": " << s->GetBz());
			Vector3D B = s->GetField().GetBFieldAt(Point3D(0.1, 0.2, 0.3)), E = s->GetField().GetEFieldAt(Point3D(0.1, 0.2, 0.3));
			MC_CHECK(B.x == 0 && B.y == 0 && B.z == Bz && E.x == 0 && E.y == 0 && E.z == 0, "solenoid-field", d);
		}
		mc::state(d);
		return;
	}
	double h = mc::pick(vector<double>{0.1, -0.2}), b0 = mc::pick(vector<double>{0.7, -0.3}), b1 = 0, L = 2;
	unique_ptr<SectorBend> b(new SectorBend("B", L, h, b0));
	d << "SectorBend h " << h << " B0 " << b0;
	for(int i = 0; i < 3; i++)
	{
		switch(mc::choose(4))
		{
		case 0:
			b->SetB1(b1 = 4);
			d << " B1 4";
			break;
		case 1:
			b1 *= 0.9 / b0; // the field is scaled
			b->SetB0(b0 = 0.9);
			d << " B0 .9";
			break;
		case 2:
			b1 *= -0.4 / b0;
			b->SetFieldStrength(b0 = -0.4);
			d << " strength -.4";
			break;
		case 3:
		{
			unique_ptr<SectorBend> c(static_cast<SectorBend*>(b->Copy()));
			b->SetB0(5);
			b->SetB1(6);
			b->GetGeometry().SetTilt(1);
			b = move(c);
			d << " copy";
			break;
		}
		}
		mc::note(d);
		MC_CLOSET(b->GetB0(), b0, 1e-13, 0, "b0", d << ": B0");
		MC_CLOSET(b->GetFieldStrength(), b0, 1e-13, 0, "b0", d << ": strength");
		MC_CLOSET(b->GetB1(), b1, 1e-13, 1e-15, "b1", d << ": B1");
		for(double q : {1., -1.})
			MC_CLOSET(b->GetMatchedMomentum(q), 0.299792458 * b0 / h / q, 1e-13, 0, "matched", d << ": matched momentum for charge " << q);
		MC_CLOSET(b->GetGeometry().GetCurvature(), h, 1e-13, 0, "curvature", d << ": curvature");
		MC_CHECK(b->GetGeometry().GetTilt() == 0, "tilt", d);
		verify(b->GetField(), {b0, b1}, b0, d);
	}
	mc::state(d);
	mc::sample(d);
}
MC_SECTION("corrector-windings")
{
	int t = mc::choose(3);
	unique_ptr<RectMultipole> m;
	double L = 0.5;
	if(t == 0)
		m.reset(new Quadrupole("M", L, 5.0));
	if(t == 1)
		m.reset(new SkewSextupole("M", L, -30.0));
	if(t == 2)
		m.reset(new Octupole("M", L, 600.0));
	vector<C> c(4);
	const MultipoleField& f = m->GetField();
	for(int n = 0; n < 4; n++)
		c[n] = f.GetComponent(n);
	double scale = f.GetFieldScale();
	CorrectorWinding w(*m);
	mc::S d;
	d << "windings on " << m->GetType();
	double bx = 0, by = 0;
	for(int i = 0; i < 4; i++)
	{
		switch(mc::choose(4))
		{
		case 0:
			w.SetBx(bx = 0.01);
			d << " Bx .01";
			break;
		case 1:
			w.SetBy(by = -0.03);
			d << " By -.03";
			break;
		case 2:
			w.SetBx(bx = -0.02);
			d << " Bx -.02";
			break;
		case 3:
			w.SetBy(by = 0);
			d << " By 0";
			break;
		}
		mc::note(d);
		c[0] = C(by, bx) / L;
		MC_CLOSET(w.GetBx(), bx, 1e-12, 1e-15, "bx", d << ": Bx");
		MC_CLOSET(w.GetBy(), by, 1e-12, 1e-15, "by", d << ": By");
		verify(f, c, scale, d);
	}
	MC_CHECK(w.GetName() == "M" && w.GetType() == "CorrectorWinding", "name", d);
	mc::state(d);
	mc::sample(d);
}
