// P24: beam parameters and sigma matrices describe the same beam
#include "mc.h"
#include "MerlinIO.h"
#include "PSmoments.h"
#include "BeamData.h"
#include "NormalTransform.h"
#include "RMap.h"
#include "MatrixMaps.h"
#include <map>
using namespace std;
typedef long double LD;
struct M6
{
	LD a[6][6];
	M6()
	{
		for(auto& r : a)
			for(auto& x : r)
				x = 0;
	}
};
static M6 id6()
{
	M6 m;
	for(int i = 0; i < 6; i++)
		m.a[i][i] = 1;
	return m;
}
static M6 operator*(const M6& x, const M6& y)
{
	M6 r;
	for(int i = 0; i < 6; i++)
		for(int j = 0; j < 6; j++)
			for(int k = 0; k < 6; k++)
				r.a[i][j] += x.a[i][k] * y.a[k][j];
	return r;
}
static M6 tr(const M6& x)
{
	M6 r;
	for(int i = 0; i < 6; i++)
		for(int j = 0; j < 6; j++)
			r.a[i][j] = x.a[j][i];
	return r;
}
// the coupling is the exponential of its generator
static M6 refC(LD a, LD b, LD c, LD d)
{
	M6 g;
	g.a[0][2] = a;
	g.a[0][3] = b;
	g.a[1][2] = -c;
	g.a[1][3] = -d;
	g.a[2][0] = d;
	g.a[2][1] = b;
	g.a[3][0] = -c;
	g.a[3][1] = -a;
	M6 r = id6(), t = id6();
	for(int n = 1; n < 40; n++)
	{
		t = t * g;
		for(auto& row : t.a)
			for(auto& x : row)
				x /= n;
		for(int i = 0; i < 6; i++)
			for(int j = 0; j < 6; j++)
				r.a[i][j] += t.a[i][j];
	}
	return r;
}
static M6 refN(const BeamData& t)
{
	M6 D = id6(), BA = id6();
	D.a[0][5] = t.Dx;
	D.a[1][5] = t.Dxp;
	D.a[2][5] = t.Dy;
	D.a[3][5] = t.Dyp;
	BA.a[0][0] = sqrtl(t.beta_x);
	BA.a[1][0] = -t.alpha_x / sqrtl(t.beta_x);
	BA.a[1][1] = 1 / sqrtl(t.beta_x);
	BA.a[2][2] = sqrtl(t.beta_y);
	BA.a[3][2] = -t.alpha_y / sqrtl(t.beta_y);
	BA.a[3][3] = 1 / sqrtl(t.beta_y);
	return D * BA * refC(t.c_xy, t.c_xyp, t.c_xpy, t.c_xpyp);
}
static M6 refS(const BeamData& t)
{
	M6 d, n = refN(t);
	d.a[0][0] = d.a[1][1] = t.emit_x;
	d.a[2][2] = d.a[3][3] = t.emit_y;
	d.a[4][4] = LD(t.sig_z) * t.sig_z;
	d.a[5][5] = LD(t.sig_dp) * t.sig_dp;
	return n * d * tr(n);
}
// S agrees with ref, on the scale of each coordinate
static void sameS(const PSmoments& S, const M6& ref, double tol, const char* key, const string& d)
{
	for(int i = 0; i < 6; i++)
		for(int j = 0; j < 6; j++)
		{
			LD sc = sqrtl(ref.a[i][i] * ref.a[j][j]);
			MC_CHECK(fabsl(S(i, j) - ref.a[i][j]) <= tol * sc, key, d << ": sigma matrix (" << i << "," << j << ") is " << S(i, j) << " expected " << double(ref.a[i][j]));
		}
}
static void sameM(const RealMatrix& m, const M6& r, double tol, const char* key, const string& d)
{
	MC_CHECK(m.nrows() == 6 && m.ncols() == 6, key, d << ": matrix is not 6x6");
	for(int i = 0; i < 6; i++)
		for(int j = 0; j < 6; j++)
			MC_CLOSET(m(i, j), double(r.a[i][j]), tol, tol, key, d << ": matrix (" << i << "," << j << ")");
}
static string str(const BeamData& t)
{
	mc::S s;
	s << "beta " << t.beta_x << "," << t.beta_y << " alpha " << t.alpha_x << "," << t.alpha_y << " emit " << t.emit_x << "," << t.emit_y << " dp " << t.sig_dp << " z " << t.sig_z << " D " << t.Dx << "," << t.Dxp << "," << t.Dy << "," << t.Dyp << " c " << t.c_xy << "," << t.c_xyp << "," << t.c_xpy << "," << t.c_xpyp << " x0 " << t.x0 << "," << t.xp0 << "," << t.y0 << "," << t.yp0 << "," << t.ct0 << " p0 " << t.p0;
	return s;
}
static const vector<vector<double> >& couplings()
{
	static const vector<vector<double> > q{{0, 0, 0, 0}, {1e-6, 0, 0, 0}, {0.1, 0, 0, 0}, {0, 0.1, 0, 0}, {0, 0, -0.2, 0}, {0, 0, 0, 0.3}, {0.1, 0.2, 0.2, 0.4}, {0.2, -0.1, 0.3, 0.25}, {-0.15, 0.3, 0.1, -0.2}, {0.02, 0.4, 0.35, 0.01}, {0.3, -0.1, 0.1, 0.3}, {1e-3, 2e-3, -1e-3, 5e-4}, {0, 1e-9, 0, 0}};
	return q;
}
static BeamData beam()
{
	BeamData t;
	auto bx = mc::pick(vector<pair<double, double> >{{1, 1}, {17.3, 2.5}, {0.05, 120}});
	t.beta_x = bx.first;
	t.beta_y = bx.second;
	auto al = mc::pick(vector<pair<double, double> >{{0, 0}, {-1.7, 0.4}, {3, -12}});
	t.alpha_x = al.first;
	t.alpha_y = al.second;
	auto em = mc::pick(vector<pair<double, double> >{{1e-6, 1e-8}, {3e-9, 5e-9}, {2e-7, 2e-7}, {1e-12, 4e-9}});
	t.emit_x = em.first;
	t.emit_y = em.second;
	auto D = mc::pick(vector<vector<double> >{{0, 0, 0, 0}, {0.3, -0.02, 0, 0}, {1.2, 0.1, -0.4, 0.03}});
	t.Dx = D[0];
	t.Dxp = D[1];
	t.Dy = D[2];
	t.Dyp = D[3];
	auto lo = mc::pick(vector<pair<double, double> >{{1e-3, 0.01}, {0, 0}, {3e-5, 0}, {0, 2e-3}});
	t.sig_dp = lo.first;
	t.sig_z = lo.second;
	auto c = mc::pick(couplings());
	t.c_xy = c[0];
	t.c_xyp = c[1];
	t.c_xpy = c[2];
	t.c_xpyp = c[3];
	if(mc::choose(2))
	{
		t.x0 = 1e-3;
		t.xp0 = -2e-4;
		t.y0 = 5e-3;
		t.yp0 = 7e-5;
		t.ct0 = 0.03;
		t.p0 = 7;
	}
	return t;
}
MC_SECTION("matrices")
{
	auto v = vector<double>{0, 1e-7, 0.2, -0.7, 1.3};
	double a = mc::pick(v), b = mc::pick(v), c = mc::pick(v), d = mc::pick(v);
	mc::S s;
	s << "coupling " << a << "," << b << "," << c << "," << d;
	mc::note(s);
	mc::state(s);
	RealMatrix C = CouplingMatrix(a, b, c, d);
	sameM(C, refC(a, b, c, d), 1e-12, "coupling-matrix", s);
	// symplectic
	double J[4][4] = {{0, 1, 0, 0}, {-1, 0, 0, 0}, {0, 0, 0, 1}, {0, 0, -1, 0}};
	for(int i = 0; i < 4; i++)
		for(int j = 0; j < 4; j++)
		{
			double x = 0;
			for(int k = 0; k < 4; k++)
				for(int l = 0; l < 4; l++)
					x += C(i, k) * J[k][l] * C(j, l);
			MC_CLOSET(x, J[i][j], 1e-11, 1e-11, "symplectic", s << ": C J C'");
		}
	// inverse
	RealMatrix I = C * CouplingMatrix(-a, -b, -c, -d);
	sameM(I, id6(), 1e-11, "coupling-inverse", s);
	if(b == 0)
	{
		BeamData t;
		t.beta_x = 0.3 + fabs(a);
		t.beta_y = 12 * (1.5 + d);
		t.alpha_x = c;
		t.alpha_y = -d;
		RealMatrix T = InverseBetaTransform(t.beta_x, t.beta_y, t.alpha_x, t.alpha_y);
		sameM(T * BetaMatrix(t.beta_x, t.beta_y) * AlphaMatrix(t.alpha_x, t.alpha_y), id6(), 1e-12, "inverse-beta", s);
		sameM(DispersionMatrix(a, c, d, 1) * DispersionMatrix(-a, -c, -d, -1), id6(), 1e-12, "inverse-dispersion", s);
	}
	mc::sample(s);
}
MC_SECTION("beam-to-sigma")
{
	BeamData t = beam();
	string d = str(t);
	mc::note(d);
	mc::state(d);
	M6 ref = refS(t);
	sameM(NormalTransform(t), refN(t), 1e-12, "normal-transform", d);
	PSmoments S;
	for(int i = 0; i < 6; i++)
		for(int j = 0; j <= i; j++)
			S(i, j) = 77; // whatever was there before
	for(int i = 0; i < 6; i++)
		S[i] = 55;
	PSmoments& r = BeamDataToSigmaMtrx(t, S);
	MC_CHECK(&r == &S, "returned", d);
	sameS(S, ref, 1e-12, "sigma", d);
	double m[6] = {t.x0, t.xp0, t.y0, t.yp0, t.ct0, 0};
	for(int i = 0; i < 6; i++)
		MC_CHECK(S[i] == m[i], "mean", d << ": mean " << i << " is " << S[i] << " expected " << m[i]);
	sameS(BeamDataToSigmaMtrx(t), ref, 1e-12, "sigma", d);
	// back again
	if(t.emit_x == t.emit_y && (t.c_xy || t.c_xyp || t.c_xpy || t.c_xpyp))
		return mc::prune(); // the normal modes are not unique
	BeamData u;
	u.beta_x = u.Dx = u.c_xy = u.x0 = u.charge = 99;
	BeamData& ur = SigmaMatrixToBeamData(S, u);
	MC_CHECK(&ur == &u, "returned", d);
	// The sigma matrix holds the small emittance up to rounding of the large one
	double ratio = (max(t.emit_x, t.emit_y) / min(t.emit_x, t.emit_y));
	// cancellation in s11 s22 - s12^2, and of the dispersive part
	double cx = 1 + t.alpha_x * t.alpha_x, cy = 1 + t.alpha_y * t.alpha_y;
	bool coupled = t.c_xy || t.c_xyp || t.c_xpy || t.c_xpyp;
	double disp = t.sig_dp * t.sig_dp * max(max(t.Dx * t.Dx / t.beta_x, t.Dy * t.Dy / t.beta_y), max(t.Dxp * t.Dxp * t.beta_x / cx, t.Dyp * t.Dyp * t.beta_y / cy)) / min(t.emit_x, t.emit_y);
	double tol = 1e-13 * cx * cy * (coupled ? ratio : 1) * (1 + disp) + 1e-9;
	if(tol > 1e-4)
		return mc::prune();
	MC_CLOSET(u.emit_x, t.emit_x, tol, 0, "emit-x", d << ": emit_x");
	MC_CLOSET(u.emit_y, t.emit_y, tol, 0, "emit-y", d << ": emit_y");
	MC_CLOSET(u.beta_x, t.beta_x, tol, 0, "beta-x", d << ": beta_x");
	MC_CLOSET(u.beta_y, t.beta_y, tol, 0, "beta-y", d << ": beta_y");
	MC_CLOSET(u.alpha_x, t.alpha_x, tol, tol, "alpha-x", d << ": alpha_x");
	MC_CLOSET(u.alpha_y, t.alpha_y, tol, tol, "alpha-y", d << ": alpha_y");
	MC_CLOSET(u.c_xy, t.c_xy, tol, 10 * tol, "coupling", d << ": c_xy");
	MC_CLOSET(u.c_xyp, t.c_xyp, tol, 10 * tol, "coupling", d << ": c_xyp");
	MC_CLOSET(u.c_xpy, t.c_xpy, tol, 10 * tol, "coupling", d << ": c_xpy");
	MC_CLOSET(u.c_xpyp, t.c_xpyp, tol, 10 * tol, "coupling", d << ": c_xpyp");
	MC_CLOSET(u.sig_dp, t.sig_dp, 1e-12, 0, "sig-dp", d << ": sig_dp");
	MC_CLOSET(u.sig_z, t.sig_z, 1e-12, 0, "sig-z", d << ": sig_z");
	bool dis = t.sig_dp != 0;
	MC_CLOSET(u.Dx, dis ? t.Dx : 0, 1e-12, 1e-14, "dispersion", d << ": Dx");
	MC_CLOSET(u.Dxp, dis ? t.Dxp : 0, 1e-12, 1e-14, "dispersion", d << ": Dxp");
	MC_CLOSET(u.Dy, dis ? t.Dy : 0, 1e-12, 1e-14, "dispersion", d << ": Dy");
	MC_CLOSET(u.Dyp, dis ? t.Dyp : 0, 1e-12, 1e-14, "dispersion", d << ": Dyp");
	MC_CHECK(u.x0 == t.x0 && u.xp0 == t.xp0 && u.y0 == t.y0 && u.yp0 == t.yp0 && u.ct0 == t.ct0, "centroid", d << ": centroid is not kept: " << str(u));
	MC_CLOSET(u.gamma_x(), (1 + t.alpha_x * t.alpha_x) / t.beta_x, 4 * tol, 0, "gamma", d << ": gamma_x");
	MC_CLOSET(u.gamma_y(), (1 + t.alpha_y * t.alpha_y) / t.beta_y, 4 * tol, 0, "gamma", d << ": gamma_y");
	MC_CLOSET(t.sigma_x() * t.sigma_x(), t.emit_x * t.beta_x, 1e-12, 0, "sigma-x", d);
	MC_CLOSET(t.sigma_y() * t.sigma_y(), t.emit_y * t.beta_y, 1e-12, 0, "sigma-y", d);
	MC_CLOSET(t.sigma_xp() * t.sigma_xp(), t.emit_x * t.gamma_x(), 1e-12, 0, "sigma-xp", d);
	MC_CLOSET(t.sigma_yp() * t.sigma_yp(), t.emit_y * t.gamma_y(), 1e-12, 0, "sigma-yp", d);
	MC_CHECK(t.ok(), "ok", d);
	auto e = NormalModeEmittance(S);
	MC_CHECK(e.first == u.emit_x && e.second == u.emit_y, "normal-modes", d << ": normal mode emittances " << e.first << "," << e.second);
	// projected emittances, from the sigma matrix itself
	for(int k = 0; k < 4; k += 2)
	{
		LD det = LD(S(k, k)) * S(k + 1, k + 1) - LD(S(k, k + 1)) * S(k, k + 1);
		MC_CLOSET(ProjectedEmittance(S, k, k + 1), double(sqrtl(det)), 1e-8, 0, "projected", d << ": projected emittance " << k);
	}
	mc::sample(d);
}
// normal mode emittances of a beam are invariants of linear symplectic motion
static const int NMAP = 7;
static void mapOf(int k, RealMatrix& m, string& name)
{
	m = RealMatrix(IdentityMatrix(6));
	switch(k)
	{
	case 0:
		name = "drift";
		m(0, 1) = m(2, 3) = 1.5;
		break;
	case 1:
		name = "quad";
		m(1, 0) = -0.4;
		m(3, 2) = 0.4;
		break;
	case 2:
		name = "skew";
		m(1, 2) = m(3, 0) = 0.15;
		break;
	case 3:
	{
		name = "roll";
		double c = cos(0.3), s = sin(0.3);
		m(0, 0) = m(1, 1) = m(2, 2) = m(3, 3) = c;
		m(0, 2) = m(1, 3) = s;
		m(2, 0) = m(3, 1) = -s;
		break;
	}
	case 4:
		name = "exchange";
		m(0, 0) = m(1, 1) = m(2, 2) = m(3, 3) = 0;
		m(0, 2) = m(1, 3) = m(2, 0) = m(3, 1) = 1;
		break;
	case 5:
		name = "skewweak";
		m(1, 2) = m(3, 0) = 1e-5;
		break;
	case 6:
	{
		name = "solenoid";
		double k = 0.35;
		double c = cos(k), s = sin(k), h = 0.2;
		double f[2][2] = {{c, s / h}, {-h * s, c}};
		for(int i = 0; i < 2; i++)
			for(int j = 0; j < 2; j++)
			{
				m(i, j) = m(i + 2, j + 2) = c * f[i][j];
				m(i, j + 2) = s * f[i][j];
				m(i + 2, j) = -s * f[i][j];
			}
		break;
	}
	}
}
MC_SECTION("invariants")
{
	BeamData t;
	t.beta_x = 3;
	t.beta_y = 7;
	t.alpha_x = -0.5;
	t.alpha_y = 1;
	auto em = mc::pick(vector<pair<double, double> >{{1e-6, 3e-8}, {2e-9, 9e-9}, {1e-8, 1.5e-8}});
	t.emit_x = em.first;
	t.emit_y = em.second;
	if(mc::choose(2))
	{
		t.sig_dp = 1e-4;
		t.Dx = 0.2;
	}
	t.sig_z = 1e-3;
	PSmoments S = BeamDataToSigmaMtrx(t);
	mc::S d;
	d << "emittances " << t.emit_x << "," << t.emit_y << " dp " << t.sig_dp;
	int n = mc::thorough() ? 6 : 4;
	int mode = 0; // bit: planes exchanged
	for(int i = 0; i < n; i++)
	{
		int k = mc::choose(NMAP);
		RealMatrix m(6, 6);
		string nm;
		mapOf(k, m, nm);
		d << " " << nm;
		RMap R(m);
		R.Apply(S);
		// keep symmetric
		mc::note(d);
		mc::step();
		mode ^= k == 4;
		auto e = NormalModeEmittance(S);
		double lo = min(e.first, e.second), hi = max(e.first, e.second);
		double l0 = min(t.emit_x, t.emit_y), h0 = max(t.emit_x, t.emit_y);
		MC_CLOSET(lo, l0, 1e-5, 0, "small-emittance", d << ": small normal mode emittance");
		MC_CLOSET(hi, h0, 1e-5, 0, "large-emittance", d << ": large normal mode emittance");
		// the parameters found describe this very beam
		BeamData u;
		SigmaMatrixToBeamData(S, u);
		M6 ref;
		for(int a = 0; a < 6; a++)
			for(int b = 0; b < 6; b++)
				ref.a[a][b] = S(a, b);
		sameS(BeamDataToSigmaMtrx(u), ref, 1e-5, "reproduced", d);
		// decoupling
		PSmoments T = S;
		RealMatrix R1 = DecoupleSigma(T);
		M6 r1;
		for(int a = 0; a < 6; a++)
			for(int b = 0; b < 6; b++)
				r1.a[a][b] = R1(a, b);
		sameS(T, r1 * ref * tr(r1), 1e-5, "decoupling-map", d);
		for(int a = 0; a < 2; a++)
			for(int b = 2; b < 4; b++)
				MC_CHECK(fabs(T(a, b)) <= 1e-5 * sqrt(T(a, a) * T(b, b)), "decoupled", d << ": (" << a << "," << b << ") left over " << T(a, b));
	}
	mc::state(d);
	mc::sample(d);
}
