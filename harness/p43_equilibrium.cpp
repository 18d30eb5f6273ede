// P43: the equilibrium of radiation damping and quantum excitation in a ring
#include "mc.h"
#include "MerlinIO.h"
#include "Components.h"
#include "AcceleratorModelConstructor.h"
#include "AcceleratorModel.h"
#include "EquilibriumDistribution.h"
#include "ParticleBunch.h"
#include "ParticleTracker.h"
#include "TransferMatrix.h"
#include "LinearAlgebra.h"
#include "PhysicalUnits.h"
#include <unistd.h>
using namespace std;
using namespace ParticleTracking;
using namespace PhysicalUnits;
static const double EC = 1.602176487e-19, HP = 6.62606896e-34, CL = 299792458., PI = acos(-1.), ME = 0.51099891e-3, RE = 2.8179402894e-15;
typedef complex<double> C;
typedef array<array<double, 6>, 6> M6;
typedef array<C, 6> V6;
static M6 zero()
{
	M6 m;
	for(auto& r : m)
		r.fill(0);
	return m;
}
static M6 operator*(const M6& a, const M6& b)
{
	M6 m = zero();
	for(int i = 0; i < 6; i++)
		for(int k = 0; k < 6; k++)
			for(int j = 0; j < 6; j++)
				m[i][j] += a[i][k] * b[k][j];
	return m;
}
static M6 operator+(const M6& a, const M6& b)
{
	M6 m = a;
	for(int i = 0; i < 6; i++)
		for(int j = 0; j < 6; j++)
			m[i][j] += b[i][j];
	return m;
}
static M6 tr(const M6& a)
{
	M6 m;
	for(int i = 0; i < 6; i++)
		for(int j = 0; j < 6; j++)
			m[i][j] = a[j][i];
	return m;
}
static double S(int i, int j)
{
	return i / 2 == j / 2 ? j - i : 0;
}
// determinant of a complex matrix
static C det(vector<vector<C> > a)
{
	C d = 1;
	int n = a.size();
	for(int i = 0; i < n; i++)
	{
		int p = i;
		for(int j = i; j < n; j++)
			if(abs(a[j][i]) > abs(a[p][i]))
				p = j;
		if(a[p][i] == 0.)
			return 0;
		if(p != i)
		{
			swap(a[p], a[i]);
			d = -d;
		}
		d *= a[i][i];
		for(int j = i + 1; j < n; j++)
		{
			C f = a[j][i] / a[i][i];
			for(int k = i; k < n; k++)
				a[j][k] -= f * a[i][k];
		}
	}
	return d;
}
static C charpoly(const M6& m, C l)
{
	vector<vector<C> > a(6, vector<C>(6));
	for(int i = 0; i < 6; i++)
		for(int j = 0; j < 6; j++)
			a[i][j] = m[i][j] - (i == j ? l : 0.);
	return det(a);
}
static M6 inverse(const M6& m)
{
	double a[6][12] = {};
	for(int i = 0; i < 6; i++)
	{
		for(int j = 0; j < 6; j++)
			a[i][j] = m[i][j];
		a[i][6 + i] = 1;
	}
	for(int i = 0; i < 6; i++)
	{
		int p = i;
		for(int j = i; j < 6; j++)
			if(fabs(a[j][i]) > fabs(a[p][i]))
				p = j;
		swap(a[p], a[i]);
		for(int j = 0; j < 6; j++)
			if(j != i)
			{
				double f = a[j][i] / a[i][i];
				for(int k = 0; k < 12; k++)
					a[j][k] -= f * a[i][k];
			}
	}
	M6 r;
	for(int i = 0; i < 6; i++)
		for(int j = 0; j < 6; j++)
			r[i][j] = a[i][6 + j] / a[i][i];
	return r;
}
static M6 from(const RealMatrix& m)
{
	M6 r;
	for(int i = 0; i < 6; i++)
		for(int j = 0; j < 6; j++)
			r[i][j] = m(i, j);
	return r;
}
struct Ring
{
	double P0, V, freq, kq, ang, tilt, face, grad, skew;
	int cells, flip;
};
// the bends whole or in slices
static AcceleratorModel* make(const Ring& r, int slices, vector<double>* curv, vector<double>* len)
{
	const double R = r.P0 / eV / CL;
	AcceleratorModelConstructor c;
	auto note = [&](double h, double l)
	{
		if(curv)
		{
			curv->push_back(h);
			len->push_back(l);
		}
	};
	auto bend = [&](const string& nm, double L, double ang, double tilt)
	{
		for(int i = 0; i < slices; i++)
		{
			double h = ang / L, l = L / slices;
			auto* b = new SectorBend(nm, l, h, h * R);
			if(r.grad != 0)
				b->SetB1(r.grad * R);
			auto* in = i == 0 && r.face != 0 ? new SectorBend::PoleFace(r.face) : nullptr;
			auto* out = i == slices - 1 && r.face != 0 ? new SectorBend::PoleFace(-r.face / 2) : nullptr;
			if(in || out)
				b->SetPoleFaceInfo(in, out);
			if(tilt != 0)
				(*b).GetGeometry().SetTilt(tilt);
			c.AppendComponent(b);
			note(h, l);
		}
	};
	for(int i = 0; i < r.cells; i++)
	{
		c.AppendComponent(new Quadrupole("F", 0.4, r.kq * R));
		note(0, 0.4);
		c.AppendDrift(0.3);
		note(0, 0.3);
		bend("b", 1, r.ang, i % 2 ? -r.tilt : r.tilt);
		c.AppendComponent(new Quadrupole("D", 0.4, -r.kq * R));
		note(0, 0.4);
		if(r.skew != 0 && i == 0)
		{
			c.AppendComponent(new SkewQuadrupole("S", 0.1, r.skew * R));
			note(0, 0.1);
		}
		bend("c", 1.2, r.flip ? -r.ang / 5 : r.ang, 0);
		c.AppendDrift(0.2);
		note(0, 0.2);
	}
	c.AppendComponent(new TWRFStructure("R", 0.5, r.freq, r.V / 0.5, PI / 2));
	note(0, 0.5);
	return c.GetModel();
}

struct Scratch
{
	string d;
	Scratch()
	{
		char t[] = "/tmp/mceq.XXXXXX";
		d = mkdtemp(t);
		if(chdir(d.c_str()))
			abort();
	}
	~Scratch()
	{
		unlink((d + "/matrix.dat").c_str());
		if(chdir("/"))
			abort();
		rmdir(d.c_str());
	}
};
struct Quiet
{
	streambuf* old;
	ostringstream o;
	Quiet() :
		old(cout.rdbuf(o.rdbuf()))
	{
	}
	~Quiet()
	{
		cout.rdbuf(old);
	}
};
// where six particles around the orbit are after each component
static void follow(AcceleratorModel* m, double P0, const PSvector& orbit, vector<M6>& T, vector<string>& name)
{
	const double d = 1e-6;
	vector<AcceleratorComponent*> all;
	ParticleBunch b(P0, 1);
	for(int i = 0; i < 13; i++)
	{
		PSvector p = orbit;
		if(i)
			p[(i - 1) / 2] += i % 2 ? d : -d;
		b.push_back(p);
	}
	ParticleTracker t(m->GetBeamline(), &b, false);
	t.InitStepper();
	bool more = true;
	auto look = [&]()
	{
		M6 r;
		const ParticleBunch& q = t.GetTrackedBunch();
		auto k = q.begin();
		vector<PSvector> v(k, q.end());
		for(int j = 0; j < 6; j++)
			for(int i = 0; i < 6; i++)
				r[i][j] = (v[1 + 2 * j][i] - v[2 + 2 * j][i]) / (2 * d);
		T.push_back(r);
	};
	M6 id = zero();
	for(int i = 0; i < 6; i++)
		id[i][i] = 1;
	T.push_back(id);
	while(more)
	{
		name.push_back(t.GetCurrentComponent().GetName());
		more = t.StepComponent();
		look();
	}
}
static Ring choosering(int kind)
{
	Ring r;
	r.tilt = r.face = r.grad = r.skew = 0;
	r.flip = 0;
	r.kq = mc::pick(mc::thorough() ? vector<double>{0.7, 0.85, 1.0} : vector<double>{0.7, 0.95});
	r.P0 = mc::pick(vector<double>{6, 11});
	r.ang = mc::pick(vector<double>{0.1, -0.15});
	r.cells = mc::pick(mc::thorough() ? vector<int>{1, 2, 3, 4} : vector<int>{2, 3});
	switch(kind)
	{
	case 1:
		r.grad = mc::pick(vector<double>{0.02, -0.02});
		break;
	case 2:
		r.face = mc::pick(vector<double>{0.4, -0.5});
		r.ang *= 4;
		r.P0 /= 3;
		break;
	case 3:
		r.flip = 1;
		r.P0 *= 1.2;
		break;
	case 4:
		r.skew = 0.3;
		break;
	case 5:
		r.tilt = mc::pick(vector<double>{PI / 2, 0.3});
		break;
	case 6:
		r.ang *= 6;
		r.P0 /= 3.5;
		break;
	case 7:
		r.face = 0.2;
		r.grad = -0.01;
		r.tilt = 0.4;
		break;
	}
	r.freq = mc::pick(vector<double>{2e8, 5e8});
	double I2 = r.cells * (r.ang * r.ang + pow(r.flip ? r.ang / 5 : r.ang, 2) / 1.2);
	double U = 8.846e-5 * pow(r.P0, 4) * I2 / (2 * PI);
	r.V = mc::pick(vector<double>{10, 40}) * U;
	return r;
}
static string show(int kind, const Ring& r)
{
	return mc::S() << "kind " << kind << ", " << r.cells << " cells, " << r.P0 << " GeV, quadrupoles " << r.kq << ", angle " << r.ang << ", gradient " << r.grad << ", faces " << r.face << ", tilt " << r.tilt << ", skew " << r.skew << ", cavity " << r.V << " at " << r.freq;
}
// the excitation of a mode along one bend
MC_SECTION("integral")
{
	double P0 = mc::pick(vector<double>{3, 45}), R = P0 / eV / CL, h = mc::pick(vector<double>{0.1, -0.4, 0.02}), L = mc::pick(vector<double>{0.3, 2.5});
	int g = mc::choose(5);
	double k1 = g == 0 ? 0 : g == 1 ? 0.3 : g == 2 ? -0.7 : g == 3 ? -h * h : 1e-4;
	int faces = mc::choose(4);
	double tilt = mc::pick(vector<double>{0, 0.4, -PI / 2, PI});
	int v = mc::choose(7);
	string d = mc::S() << "bend of " << L << " curvature " << h << " gradient " << k1 << " tilt " << tilt << " faces " << faces << " at " << P0 << " vector " << v;
	mc::note(d);
	mc::state(d);
	SectorBend b("b", L, h, h * R);
	b.SetB1(k1 * R);
	auto* in = faces & 1 ? new SectorBend::PoleFace(0.35) : nullptr;
	auto* out = faces & 2 ? new SectorBend::PoleFace(-0.6) : nullptr;
	if(faces)
		b.SetPoleFaceInfo(in, out);
	b.GetGeometry().SetTilt(tilt);
	ComplexVector E(6);
	for(int i = 0; i < 6; i++)
		E(i) = v < 6 ? C(i == v, 0) : C(0.4 * i - 1, cos(1.3 * i));
	double got;
	// without focusing at all the general formulae divide by zero
	if(g == 3)
	{
		IntegrateZeroGradient q;
		got = q.Integral(E, &b, P0);
	}
	else
	{
		IntegrateWithGradient q;
		got = q.Integral(E, &b, P0);
	}
	C x0 = cos(tilt) * E(0) + sin(tilt) * E(2), p0 = cos(tilt) * E(1) + sin(tilt) * E(3);
	if(faces & 1)
		p0 += h * tan(0.35) * x0;
	C k = sqrt(C(h * h + k1, 0));
	auto z = [&](double s)
	{
		C r = E(4);
		// minus h times the integral of x
		C S1 = g == 3 ? s : sin(k * s) / k, C2 = g == 3 ? s * s / 2 : (1. - cos(k * s)) / (k * k), S3 = g == 3 ? s * s * s / 6 : (s - S1) / (k * k);
		r -= h * (x0 * S1 + p0 * C2 + h * E(5) * S3);
		return norm(r);
	};
	const int n = 400;
	double want = 0;
	for(int i = 0; i <= n; i++)
		want += z(L * i / n) * (i == 0 || i == n ? 1 : i % 2 ? 4 : 2) * L / n / 3;
	MC_CLOSET(got, want, 2e-7, 1e-22, "integral", d);
}
MC_SECTION("equilibrium")
{
	int kind = mc::choose(8);
	Ring r = choosering(kind);
	string d = show(kind, r);
	mc::note(d);
	mc::state(d);
	vector<double> curv, len;
	unique_ptr<AcceleratorModel> whole(make(r, 1, nullptr, nullptr)), sliced(make(r, 24, &curv, &len));
	Quiet q;
	Scratch here;
	RealMatrix N(6);
	PSvector o(0), orad(0);
	try
	{
		TransferMatrix t(whole.get(), r.P0);
		t.FindClosedOrbitTM(N, o);
	}
	catch(TLAS::ConvergenceFailure&)
	{
		mc::outcome("no orbit");
		mc::prune();
	}
	vector<M6> T, Tw;
	vector<string> names, wn;
	follow(sliced.get(), r.P0, o, T, names);
	follow(whole.get(), r.P0, o, Tw, wn);
	const M6 M = T.back();
	for(int i = 0; i < 6; i++)
		for(int j = 0; j < 6; j++)
			if(!(fabs(M[i][j] - Tw.back()[i][j]) < 1e-4 * (1 + fabs(M[i][j]))))
				mc::outcome("slices differ");
	// modes
	RealMatrix MM(6);
	for(int i = 0; i < 6; i++)
		for(int j = 0; j < 6; j++)
			MM(i, j) = M[i][j];
	ComplexVector lam(3);
	ComplexMatrix E(3, 6);
	bool stable = false;
	try
	{
		stable = EigenSystem(MM, lam, E);
	}
	catch(TLAS::SingularMatrix&)
	{
		// an unstable mode
	}
	for(int k = 0; k < 3; k++)
		stable = stable && fabs(abs(lam[k]) - 1) < 1e-5 && fabs(lam[k].imag()) > (k == 2 ? 0.02 : 0.25);
	// the planes modes belong to are clear only while the synchrotron tune is small
	stable = stable && fabs(arg(lam[2])) < 2 * PI * 0.2;
	for(int k = 0; k < 3; k++)
		for(int l = 0; l < 3; l++)
			if(k != l)
				stable = stable && abs(lam[k] - lam[l]) > 0.2 && abs(lam[k] - conj(lam[l])) > 0.2;
	if(!stable)
	{
		mc::outcome("unstable");
		mc::prune();
	}
	for(int k = 0; k < 3; k++)
	{
		double res = 0;
		C norm = 0;
		for(int i = 0; i < 6; i++)
		{
			C v = -lam[k] * E(k, i);
			for(int j = 0; j < 6; j++)
			{
				v += M[i][j] * E(k, j);
				norm += conj(E(k, i)) * S(i, j) * E(k, j);
			}
			res += abs(v);
		}
		MC_CHECK(res < 1e-5 && abs(norm - C(0, 1)) < 1e-6, "modes", d << ": mode " << k << " residual " << res << " norm " << norm);
	}
	// damped map
	RealMatrix Q(6);
	{
		TransferMatrix t(whole.get(), r.P0);
		t.Radiation(true);
		t.SetRadStepSize(0.1);
		t.SetDelta(1e-7);
		t.FindClosedOrbitTM(Q, orad);
	}
	M6 Mr = from(Q);
	EquilibriumDistribution e(whole.get(), r.P0);
	for(int k = 0; k < 3; k++)
		MC_CHECK(e.DampingConstant(k) == 0 && e.Emittance(k) == 0 && e.Tune(k) == 0 && e.SynchronousTime() == 0, "before", d);
	e.CalculateDampingConstants();
	C lr[3];
	double sum = 0, L = 0;
	for(double l : len)
		L += l;
	for(int k = 0; k < 3; k++)
	{
		double a = e.DampingConstant(k), nu = e.Tune(k);
		lr[k] = polar(exp(-a), 2 * PI * nu);
		sum += a;
		MC_CHECK(nu >= 0 && nu <= 1, "tune-range", d << ": tune " << nu);
		MC_CHECK(abs(lr[k] - lam[k]) < 0.02, "tune", d << ": mode " << k << " tune " << nu << " damping " << a << ", without radiation " << arg(lam[k]) / (2 * PI));
		if(a != 0)
			MC_CLOSET(e.DampingTime(k), L / CL / a, 1e-9, 0, "damping-time", d << " mode " << k);
	}
	MC_CLOSET(e.SynchronousTime(), orad.ct() / CL, 1e-5, 1e-17, "synchronous-time", d);
	// every one an eigenvalue
	for(int k = 0; k < 3; k++)
	{
		C rest = 1;
		for(int l = 0; l < 3; l++)
		{
			if(l != k)
				rest *= (lr[l] - lr[k]) * (conj(lr[l]) - lr[k]);
		}
		rest *= conj(lr[k]) - lr[k];
		double off = abs(charpoly(Mr, lr[k]) / rest);
		MC_CHECK(off < 1e-5, "eigenvalue", d << ": mode " << k << " " << lr[k] << " is " << off << " from an eigenvalue");
	}
	C all = charpoly(Mr, 0);
	MC_CLOSET(sum, -0.5 * log(all.real()), 0.01, 1e-6, "total-damping", d);
	bool damped = true;
	double fast = 0, slow = 1;
	for(int k = 0; k < 3; k++)
	{
		fast = max(fast, e.DampingConstant(k));
		slow = min(slow, e.DampingConstant(k));
	}
	for(int k = 0; k < 3; k++)
		damped = damped && e.DampingConstant(k) > 3e-5 && e.DampingConstant(k) < 0.003;
	if(!damped)
	{
		mc::outcome("not damped");
		mc::prune();
	}
	mc::outcome(mc::S() << "kind " << kind);
	// diffusion from energies radiated along the bends, carried to the end of the turn
	const double g = r.P0 / ME, q0 = 55 / (24 * sqrt(3.)) * RE * (HP * CL / (2 * PI) / EC * 1e-9 / ME) * pow(g, 5);
	M6 D = zero();
	if(curv.size() != names.size())
		abort();
	for(size_t i = 0; i < curv.size(); i++)
	{
		if(curv[i] == 0)
			continue;
		for(int end = 0; end < 2; end++)
		{
			// a change of energy here is this at the end
			M6 A = M * inverse(T[i + end]);
			for(int a = 0; a < 6; a++)
				for(int b = 0; b < 6; b++)
					D[a][b] += 0.5 * A[a][5] * A[b][5] * q0 * pow(fabs(curv[i]), 3) * len[i];
		}
	}
	M6 Sg = D, P = Mr;
	for(int n = 0; n < 30; n++)
	{
		Sg = Sg + P * Sg * tr(P);
		P = P * P;
	}
	double ek[3], big = 0;
	for(int k = 0; k < 3; k++)
	{
		C a = 0;
		V6 v;
		for(int i = 0; i < 6; i++)
		{
			v[i] = 0;
			for(int j = 0; j < 6; j++)
				v[i] += S(j, i) * conj(E(k, j));
		}
		for(int i = 0; i < 6; i++)
			for(int j = 0; j < 6; j++)
				a += v[i] * Sg[i][j] * conj(v[j]);
		ek[k] = a.real();
		big = max(big, ek[k]);
	}
	e.CalculateEmittance();
	for(int k = 0; k < 3; k++)
		MC_CLOSET(e.Emittance(k), ek[k], 0.008 + 12 * fast + 2e-6 / slow, (1e-4 + 3 * fast) * big, "emittance", d << ": mode " << k << " damping " << e.DampingConstant(0) << " " << e.DampingConstant(1) << " " << e.DampingConstant(2) << " tunes " << e.Tune(0) << " " << e.Tune(1) << " " << e.Tune(2));
	// second moments anywhere
	int at = mc::choose(2) * 4;
	const M6 X = Tw[at] * Sg * tr(Tw[at]), Ma = Tw[at] * M * inverse(Tw[at]);
	// which plane a mode belongs to is only defined while the coupling is not too strong
	for(int k = 0; k < 3; k++)
		for(int l = 0; l < 3; l++)
		{
			double own = (Ma[2 * k][2 * k] + Ma[2 * k + 1][2 * k + 1]) / 2;
			if(l != k && fabs(own - lam[k].real()) > 0.3 * fabs(own - lam[l].real()))
				mc::prune();
		}
	static const int IJ[12][2] = {{0, 0}, {1, 1}, {2, 2}, {3, 3}, {4, 4}, {5, 5}, {0, 1}, {5, 0}, {1, 2}, {3, 2}, {4, 5}, {0, 4}};
	for(auto& ij : IJ)
	{
		int i = ij[0], j = ij[1];
		MC_CLOSET(e.BeamMoment(i, j, at), X[i][j], 0, (0.02 + 25 * fast + 2e-6 / slow) * sqrt(X[i][i] * X[j][j]) + 1e-4 * big, "moment", d << ": " << i << "," << j << " at " << at);
	}
}
