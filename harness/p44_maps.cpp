// P44: linear maps act alike on particles, moments and bunches, and are those of the elements they are made for
#include "mc.h"
#include "MerlinIO.h"
#include "PSmoments.h"
#include "RMap.h"
#include "RTMap.h"
#include "MatrixMaps.h"
#include "TransportMatrix.h"
#include "TransportRMap.h"
#include "PSvectorTransform3D.h"
#include "Transform3D.h"
#include "AcceleratorModelConstructor.h"
#include "Components.h"
#include "ParticleTracker.h"
#include "ParticleBunch.h"
#include "ParticleMapComponent.h"
#include "LinearParticleMap.h"
#include "StdIntegrators.h"
#include "SymplecticIntegrators.h"
#include "PhysicalConstants.h"
#include <functional>
#include <memory>
using namespace std;
using namespace ParticleTracking;
typedef long double LD;
struct M6
{
	LD a[6][6];
	M6(LD diag = 0)
	{
		for(int i = 0; i < 6; i++)
			for(int j = 0; j < 6; j++)
				a[i][j] = i == j ? diag : 0;
	}
	LD* operator[](int i)
	{
		return a[i];
	}
	const LD* operator[](int i) const
	{
		return a[i];
	}
};
static M6 operator*(const M6& x, const M6& y)
{
	M6 r;
	for(int i = 0; i < 6; i++)
		for(int j = 0; j < 6; j++)
			for(int k = 0; k < 6; k++)
				r[i][j] += x[i][k] * y[k][j];
	return r;
}
// exp(G s)
static M6 expm(const M6& g, LD s)
{
	LD m = 0;
	for(int i = 0; i < 6; i++)
		for(int j = 0; j < 6; j++)
			m = max(m, fabsl(g[i][j] * s));
	int n = 0;
	while(m > 0.1L)
	{
		m /= 2;
		n++;
	}
	LD h = s / powl(2, n);
	M6 r(1), t(1);
	for(int k = 1; k < 25; k++)
	{
		t = t * g;
		for(int i = 0; i < 6; i++)
			for(int j = 0; j < 6; j++)
			{
				t[i][j] *= h / k;
				r[i][j] += t[i][j];
			}
	}
	while(n--)
		r = r * r;
	return r;
}
static string name(int i, int j)
{
	return string("(") + char('1' + i) + "," + char('1' + j) + ")";
}
static PSvector vec(int k)
{
	static const double V[4][6] = {{1e-3, -2e-4, 5e-4, 3e-4, 1e-3, 2e-3}, {0, 0, 0, 0, 0, 0}, {-2, 1, 0.5, -1, 3, 0.25},
		{0, 0, 1e-3, 0, -2e-3, 0}};
	PSvector p(0);
	for(int i = 0; i < 6; i++)
		p[i] = V[k][i];
	p.id() = 7 + k;
	return p;
}
// sigma matrices (N x N upper part of a fixed positive matrix) and centroids
static LD sig(int k, int i, int j)
{
	static const double L[6][6] = {{1, 0, 0, 0, 0, 0}, {0.5, 2, 0, 0, 0, 0}, {-0.3, 0.7, 1.5, 0, 0, 0}, {0.2, -0.4, 0.9, 1.2, 0, 0},
		{0.6, 0.1, -0.8, 0.3, 0.7, 0}, {-0.9, 0.4, 0.25, -0.6, 0.35, 0.8}};
	if(k == 1)
		return i == j ? 1 + i : 0;
	LD s = 0;
	for(int m = 0; m < 6; m++)
		s += L[i][m] * L[j][m];
	return s;
}
template<int N> static TPSMoments<N> mom(int k)
{
	TPSMoments<N> S;
	PSvector v = vec(k == 1 ? 0 : k);
	for(int i = 0; i < 6; i++)
		S[i] = v[i];
	for(int i = 0; i < 2 * N; i++)
		for(int j = 0; j <= i; j++)
			S(i, j) = sig(k, i, j);
	return S;
}
static void vecIs(const PSvector& r, const M6& m, const PSvector& o, const char* key, const string& d)
{
	for(int i = 0; i < 6; i++)
	{
		LD s = 0, z = 0;
		for(int j = 0; j < 6; j++)
		{
			s += m[i][j] * o[j];
			z = max(z, fabsl(m[i][j] * o[j]));
		}
		MC_CLOSET(r[i], double(s), 0, double(1e-13L * z), key, d << ": coordinate " << i);
	}
}
template<class T> static void covIs(const T& r, int n, const M6& m, function<LD(int, int)> o, const char* key, const string& d)
{
	for(int i = 0; i < n; i++)
		for(int j = 0; j <= i; j++)
		{
			LD s = 0, z = 0;
			for(int k = 0; k < n; k++)
				for(int l = 0; l < n; l++)
				{
					s += m[i][k] * m[j][l] * o(k, l);
					z = max(z, fabsl(m[i][k] * m[j][l] * o(k, l)));
				}
			MC_CLOSET(r(i, j), double(s), 0, double(1e-13L * z), key, d << ": <" << i << "," << j << ">");
			MC_CLOSET(r(j, i), double(s), 0, double(1e-13L * z), key, d << ": <" << j << "," << i << ">");
		}
}
static void matIs(const RealMatrix& R, const M6& m, int n, const char* key, const string& d, double tol = 1e-12)
{
	MC_CHECK(int(R.nrows()) == n && int(R.ncols()) == n, key, d << ": matrix of " << R.nrows());
	LD z = 1;
	for(int i = 0; i < n; i++)
		for(int j = 0; j < n; j++)
			z = max(z, fabsl(m[i][j]));
	for(int i = 0; i < n; i++)
		for(int j = 0; j < n; j++)
			MC_CLOSET(R(i, j), double(m[i][j]), tol, double(tol * z), key, d << ": element " << name(i, j));
}

// everything an RMap can do, against its matrix
static void checkRMap(RMap& R, const M6& m, const string& d)
{
	mc::state(d);
	RealMatrix Q(6, 6, 9.0);
	R.ToMatrix(Q);
	matIs(Q, m, 6, "matrix", d, 0);
	matIs(RealMatrix(R), m, 6, "matrix", d + " converted", 0);
	for(int i = 0; i < 6; i++)
		for(int j = 0; j < 6; j++)
			MC_CHECK(static_cast<const RMap&>(R)(i + 1, j + 1) == double(m[i][j]), "term", d << ": term " << name(i, j));
	RMap B((RealMatrix(R)));
	matIs(RealMatrix(B), m, 6, "matrix", d + " from its matrix", 0);
	for(int k = 0; k < 4; k++)
	{
		PSvector v = vec(k), o = v;
		PSvector& r = R.Apply(v);
		MC_CHECK(&r == &v, "apply", d);
		vecIs(v, m, o, "apply", d + " to a vector");
		MC_CHECK(v.id() == o.id(), "apply", d << ": identity of the particle " << v.id());
	}
	for(int k = 0; k < 3; k++)
	{
		auto o = [&](int i, int j) {
				return sig(k, i, j);
			};
		PSmoments S = mom<3>(k), S0 = S;
		R.Apply(S);
		covIs(S, 6, m, o, "moments", d + " to moments");
		vecIs(S, m, S0, "moments", d + " to moments");
		TPSMoments<2> T = mom<2>(k);
		PSvector t0 = T;
		R.Apply(T);
		covIs(T, 4, m, o, "moments", d + " to transverse moments");
		vecIs(T, m, t0, "moments", d + " to transverse moments");
		SigmaMatrix C(mom<3>(k));
		R.Apply(C);
		covIs(C, 6, m, o, "covariance", d + " to a sigma matrix");
	}
}
MC_SECTION("terms")
{
	static const int POS[4][2] = {{0, 0}, {2, 0}, {5, 4}, {3, 3}};
	static const double VAL[2] = {1, -2.5};
	vector<unique_ptr<RMap> > maps;
	vector<M6> ms;
	maps.emplace_back(new RMap);
	ms.push_back(M6());
	int cur = 0;
	vector<set<int> > have(1);
	string d = "map";
	const int depth = mc::thorough() ? 5 : 4;
	for(int s = 0; s < depth; s++)
	{
		int op = mc::choose(6);
		mc::step();
		if(op == 0)
		{
			mc::outcome("stop");
			break;
		}
		if(op == 1 || op == 2)
		{
			int p = mc::choose(mc::thorough() ? 4 : 3);
			int v = mc::choose(s < 2 ? 2 : 1);
			int i = POS[p][0], j = POS[p][1];
			if(op == 1)
			{
				(*maps[cur])(i + 1, j + 1) = VAL[v];
				d += mc::S() << ", " << name(i, j) << "=" << VAL[v];
			}
			else
			{
				if(have[cur].count(p))
					mc::prune();
				if(v == 1)
					maps[cur]->AddTerm(i + 1, j + 1) = VAL[v];
				else
					maps[cur]->AddTerm(i + 1, j + 1, VAL[v]);
				d += mc::S() << ", add " << name(i, j) << "=" << VAL[v];
			}
			have[cur].insert(p);
			ms[cur][i][j] = VAL[v];
		}
		else if(op == 3)
		{
			maps.emplace_back(new RMap(*maps[cur]));
			ms.push_back(ms[cur]);
			have.push_back(have[cur]);
			cur = maps.size() - 1;
			d += ", copied";
		}
		else if(op == 4)
		{
			int k = mc::choose(2);
			if(k == 0 || maps.size() < 2)
			{
				maps.emplace_back(new RMap);
				maps.back()->AddTerm(4, 5, 3.0);
				ms.push_back(M6());
				have.push_back(set<int>());
				k = maps.size() - 1;
			}
			else
				k = (cur + 1) % maps.size();
			*maps[k] = *maps[cur];
			ms[k] = ms[cur];
			have[k] = have[cur];
			d += mc::S() << ", assigned to map " << k;
			cur = k;
		}
		else
		{
			// the map is dropped, an earlier one is used again
			if(maps.size() < 2)
				mc::prune();
			maps.erase(maps.begin() + cur);
			ms.erase(ms.begin() + cur);
			have.erase(have.begin() + cur);
			cur = 0;
			d += ", dropped";
		}
	}
	for(size_t k = 0; k < maps.size(); k++)
		checkRMap(*maps[k], ms[k], mc::S() << d << " [map " << k << "]");
}
MC_SECTION("second-order")
{
	// second order terms on top of a linear map
	RTMap* M = new RTMap;
	M6 m;
	(*M)(1, 1) = m[0][0] = 1;
	(*M)(2, 1) = m[1][0] = -0.5;
	(*M)(2, 2) = m[1][1] = 1;
	(*M)(5, 5) = m[4][4] = 1;
	(*M)(6, 6) = m[5][5] = 1;
	struct T
	{
		int i, j, k;
		double v;
	};
	static const T ALL[6] = {{1, 1, 1, 0.5}, {1, 1, 2, -2}, {2, 3, 6, 1.5}, {5, 2, 2, -0.25}, {2, 1, 6, 3}, {6, 4, 1, 0.75}};
	vector<T> ts;
	string d = "map with";
	for(int n = 0; n < 6; n++)
		if(mc::choose(2))
		{
			(*M)(ALL[n].i, ALL[n].j, ALL[n].k) = ALL[n].v;
			ts.push_back(ALL[n]);
			d += mc::S() << " T" << ALL[n].i << ALL[n].j << ALL[n].k;
		}
	if(mc::choose(2))
	{
		RTMap* c = new RTMap(*M);
		delete M;
		M = c;
		d += " copied";
	}
	unique_ptr<RTMap> own(M);
	mc::state(d);
	for(int k = 0; k < 4; k++)
	{
		PSvector v = vec(k), o = v;
		M->Apply(v);
		for(int i = 0; i < 6; i++)
		{
			LD s = 0;
			for(int j = 0; j < 6; j++)
				s += m[i][j] * o[j];
			for(auto& t : ts)
				if(t.i - 1 == i)
					s += LD(t.v) * o[t.j - 1] * o[t.k - 1];
			MC_CLOSET(v[i], double(s), 1e-13, 1e-15, "second", d << " coordinate " << i);
		}
		MC_CHECK(v.id() == o.id(), "second", d << ": identity");
	}
}
// matrices used by the next sections
static M6 pool(int k)
{
	M6 m(1);
	switch(k)
	{
	case 1:
		m[0][1] = m[2][3] = 3;
		break;
	case 2:
		m[1][0] = -0.5;
		m[3][2] = 0.5;
		m[0][0] = 0.5;
		m[0][1] = 1.5;
		break;
	case 3:
		for(int i = 0; i < 5; i++)
			for(int j = 0; j < 6; j++)
				m[i][j] = ((i * 7 + j * 5 + i * j * 3) % 11 - 5) / 4.0L;
		break;
	case 4:
		m[0][5] = 2;
		m[1][5] = -0.5;
		m[4][0] = 0.25;
		m[4][5] = -3;
		break;
	}
	return m;
}
static RealMatrix real(const M6& m, int n)
{
	RealMatrix R(n, n, 0.0);
	for(int i = 0; i < n; i++)
		for(int j = 0; j < n; j++)
			R(i, j) = m[i][j];
	return R;
}
static M6 upper(const M6& m, int n)
{
	M6 r(1);
	for(int i = 0; i < n; i++)
		for(int j = 0; j < n; j++)
			r[i][j] = m[i][j];
	return r;
}
MC_SECTION("matrix-maps")
{
	const int ndf = 1 + mc::choose(3);
	const int a = mc::choose(5);
	const int tk = mc::choose(3);   // none, small, full
	const double Pref = mc::pick(vector<double>{0.0, 1.0, 2.0, 45.6});
	const int pk = mc::choose(4);   // none given, 1, 2, 0.5
	const double p0 = pk == 0 ? 0 : pk == 1 ? 1 : pk == 2 ? 2 : 0.5;
	const int n = 2 * ndf;
	const M6 m = upper(pool(a), n);
	M6 t;
	if(tk)
		for(int i = 0; i < n - (ndf == 3 ? 1 : 0); i++)
			for(int j = 0; j < n; j++)
				t[i][j] = tk == 1 ? (i == j ? 0.5L : 0) : ((i * 5 + j * 3) % 7 - 3) / 2.0L;
	string d = mc::S() << "matrix " << a << " of " << ndf << " degrees of freedom" << (tk ? " with chromatic part " : "")
		<< (tk ? string(1, '0' + tk) : string()) << ", made for " << Pref << " GeV, applied at " << (pk ? double(p0) : -1) << " GeV";
	mc::state(d);
	unique_ptr<RMtrx> R;
	unique_ptr<RdpMtrx> Q;
	if(tk)
		Q.reset(new RdpMtrx(real(m, n), real(t, n), Pref));
	else
	{
		if(a % 2)
		{
			R.reset(new RMtrx(ndf, Pref));
			R->R = real(m, n);
		}
		else
		{
			R.reset(new RMtrx(real(m, n)));
			R->SetRefMomentum(Pref);
		}
		for(int i = 0; i < n; i++)
			for(int j = 0; j < n; j++)
				MC_CHECK((*R)(i + 1, j + 1) == double(m[i][j]), "element", d << name(i, j));
	}
	const LinMtrxBase& base = tk ? static_cast<LinMtrxBase&>(*Q) : *R;
	MC_CHECK(base.GetNDF() == ndf && base.GetRefMomentum() == Pref && base.EnergyIndependent() == (Pref == 0), "attributes", d);
	// momentum offset seen by the map, and the matrix it applies
	const bool scaled = pk && Pref != 0;
	const LD ratio = scaled ? LD(p0) / Pref : 1;
	auto at = [&](LD dp) {
			M6 r = m;
			for(int i = 0; i < n; i++)
				for(int j = 0; j < n; j++)
					r[i][j] += t[i][j] * dp;
			return r;
		};
	PSvectorArray va;
	for(int k = 0; k < 4; k++)
		va.push_back(vec(k));
	PSvectorArray vb = va;
	if(tk)
		pk ? Q->Apply(va, p0) : Q->Apply(va);
	else
		pk ? R->Apply(va, p0) : R->Apply(va);
	for(int k = 0; k < 4; k++)
	{
		PSvector v = vb[k];
		if(tk)
			pk ? Q->Apply(v, p0) : Q->Apply(v);
		else
			pk ? R->Apply(v, p0) : R->Apply(v);
		PSvector u = vb[k];
		u.dp() = double(ratio * (1 + LD(u.dp())) - 1);
		M6 mm = at(u.dp());
		for(int i = 0; i < 6; i++)
		{
			LD s = 0, z = 0;
			for(int j = 0; j < 6; j++)
			{
				s += mm[i][j] * u[j];
				z = max(z, fabsl(mm[i][j] * u[j]));
			}
			if(i == 5)
				s = vb[k][5], z = 1;
			MC_CLOSET(v[i], double(s), 0, double(1e-13L * (z + 1)), "particle", d << ": particle " << k << " coordinate " << i);
			MC_CHECK(va[k][i] == v[i], "array", d << ": particle " << k << " coordinate " << i << " in an array");
		}
		MC_CHECK(v.id() == vb[k].id() && va[k].id() == v.id(), "particle", d << ": identity");
	}
	// moments
	PSmomentsArray sa;
	for(int k = 0; k < 3; k++)
		sa.push_back(mom<3>(k));
	PSmomentsArray sb = sa;
	if(tk)
		pk ? Q->Apply(sa, p0) : Q->Apply(sa);
	else
		pk ? R->Apply(sa, p0) : R->Apply(sa);
	for(int k = 0; k < 3; k++)
	{
		PSmoments S = sb[k];
		if(tk)
			pk ? Q->Apply(S, p0) : Q->Apply(S);
		else
			pk ? R->Apply(S, p0) : R->Apply(S);
		PSvector u = sb[k];
		u.dp() = double(ratio * (1 + LD(u.dp())) - 1);
		M6 mm = at(u.dp());
		M6 sc(1);
		sc[5][5] = ratio;
		M6 back(1);
		back[5][5] = 1 / ratio;
		covIs(S, 6, back * mm * sc, [&](int i, int j) {
				return sig(k, i, j);
			}, "map-moments", mc::S() << d << ": moments " << k);
		for(int i = 0; i < 6; i++)
		{
			LD s = 0, z = 0;
			for(int j = 0; j < 6; j++)
			{
				s += mm[i][j] * u[j];
				z = max(z, fabsl(mm[i][j] * u[j]));
			}
			if(i == 5)
				s = sb[k][5], z = 1;
			MC_CLOSET(S[i], double(s), 0, double(1e-13L * (z + 1)), "map-centroid", d << ": moments " << k << " centroid " << i);
		}
		for(int i = 0; i < 6; i++)
			for(int j = 0; j <= i; j++)
				MC_CHECK(sa[k](i, j) == S(i, j), "array", d << ": moments " << k << " in an array");
	}
	if(!tk && pk == 0 && Pref == 0)
		for(int b = 0; b < 5; b++)
		{
			RMtrx A(real(m, n)), B(real(upper(pool(b), n), n));
			A *= B;
			matIs(A.R, upper(pool(b), n) * m, n, "product", mc::S() << d << " then matrix " << b);
		}
}
// ---------------------------------------------------------------------------------------------------------------------
static M6 genBend(LD h, LD k1)
{
	M6 g;
	g[0][1] = g[2][3] = 1;
	g[1][0] = -(k1 + h * h);
	g[3][2] = k1;
	g[1][5] = h;
	g[4][0] = -h;
	return g;
}
static M6 genSol(LD ks)
{
	// canonical momenta inside, no vector potential outside
	const LD c = ks / 2;
	M6 g;
	g[0][1] = g[2][3] = 1;
	g[0][2] = c;
	g[2][0] = -c;
	g[1][0] = g[3][2] = -c * c;
	g[1][3] = c;
	g[3][1] = -c;
	return g;
}
// cavity body by Runge-Kutta: x'' + (E'/E) x' + f (g/E)^2 x = 0
static M6 body(LD L, LD g, LD c, LD E0, LD f)
{
	const int N = 400;
	M6 r(1);
	for(int col = 0; col < 2; col++)
	{
		LD x = col == 0, v = col == 1;
		auto acc = [&](LD s, LD xx, LD vv) {
				LD E = E0 + g * c * s;
				return -(g * c / E) * vv - f * (g / E) * (g / E) * xx;
			};
		LD h = L / N;
		for(int k = 0; k < N; k++)
		{
			LD s = k * h;
			LD k1x = v, k1v = acc(s, x, v);
			LD k2x = v + h / 2 * k1v, k2v = acc(s + h / 2, x + h / 2 * k1x, v + h / 2 * k1v);
			LD k3x = v + h / 2 * k2v, k3v = acc(s + h / 2, x + h / 2 * k2x, v + h / 2 * k2v);
			LD k4x = v + h * k3v, k4v = acc(s + h, x + h * k3x, v + h * k3v);
			x += h / 6 * (k1x + 2 * k2x + 2 * k3x + k4x);
			v += h / 6 * (k1v + 2 * k2v + 2 * k3v + k4v);
		}
		for(int p = 0; p < 4; p += 2)
		{
			r[p][p + col] = x;
			r[p + 1][p + col] = v;
		}
	}
	return r;
}
static M6 kick(LD k)
{
	M6 r(1);
	r[1][0] = r[3][2] = k;
	return r;
}
// the RMap of the same element: its matrix, and the action on moments
static void rmapIs(RMap& R, const M6& m, const string& d, double tol = 1e-12)
{
	matIs(RealMatrix(R), m, 6, "rmap", d + " as terms", tol);
}
static void r2Is(const R2Map& R, const M6& m, int plane, const string& d, double tol = 1e-12)
{
	const int p = 2 * plane;
	MC_CLOSET(R.r11, double(m[p][p]), tol, tol, "r2map", d << " r11");
	MC_CLOSET(R.r12, double(m[p][p + 1]), tol, tol, "r2map", d << " r12");
	MC_CLOSET(R.r21, double(m[p + 1][p]), tol, tol, "r2map", d << " r21");
	MC_CLOSET(R.r22, double(m[p + 1][p + 1]), tol, tol, "r2map", d << " r22");
	for(int i = 1; i < 3; i++)
		for(int j = 1; j < 3; j++)
			MC_CHECK(R[i][j] == (i == 1 ? (j == 1 ? R.r11 : R.r12) : (j == 1 ? R.r21 : R.r22)), "r2map", d << " by indices");
}
// stale contents, as a matrix that has been used before has
static RealMatrix stale(int n)
{
	RealMatrix R(n, n);
	for(int i = 0; i < n; i++)
		for(int j = 0; j < n; j++)
			R(i, j) = 3 + i - 2 * j;
	return R;
}
MC_SECTION("elements")
{
	using namespace PhysicalConstants;
	const int kind = mc::choose(7);   // drift, quadrupole, bend, rotation, pole face, solenoid, cavity
	const int n = mc::pick(vector<int>{2, 4, 6});
	if(n == 2 && kind != 0 && kind != 6)
		mc::prune();
	RealMatrix R = stale(n);
	M6 m(1);
	string d;
	if(kind == 0)
	{
		const double l = mc::pick(vector<double>{0.0, 1.0, 2.5, -0.5});
		d = mc::S() << "drift of " << l << " m, size " << n;
		m[0][1] = m[2][3] = l;
		TransportMatrix::Drift(l, R);
		matIs(R, m, n, "element", d);
		RMap A;
		TransportRMap::Drift(l, A);
		rmapIs(A, m, d);
		R2Map B;
		TransportRMap::Drift(l, B);
		r2Is(B, m, 0, d);
		for(int k = 0; k < 4; k++)
		{
			PSvector v = vec(k), o = v, w = v;
			ApplySimpleDrift ad(l);
			ad(v);
			vecIs(v, m, o, "drift", d);
			ApplyDriftWithPathLength ap(l);
			ap(w);
			MC_CHECK(w.x() == v.x() && w.y() == v.y() && w.xp() == o.xp() && w.yp() == o.yp() && w.dp() == o.dp(), "drift", d);
			MC_CLOSET(w.ct(), o.ct() - l * (o.xp() * o.xp() + o.yp() * o.yp()) / 2, 1e-14, 1e-17, "drift-path", d);
			if(k == 3)
				continue;
			auto s = [&](int i, int j) {
					return sig(k, i, j);
				};
			PSmoments S = mom<3>(k);
			PSvector c = S;
			ad(S);
			covIs(S, 6, m, s, "drift", d + " of moments");
			vecIs(S, m, c, "drift", d + " of moments");
			TPSMoments<2> T = mom<2>(k);
			c = T;
			ad(T);
			covIs(T, 4, m, s, "drift", d + " of transverse moments");
			vecIs(T, m, c, "drift", d + " of transverse moments");
		}
	}
	else if(kind == 1 || kind == 2)
	{
		const double l = mc::pick(vector<double>{0.0, 1.0, 2.5, 0.1});
		const double k1 = mc::pick(vector<double>{0.0, 0.2, -0.3, 1.5, -0.015625, 1e-9, -1e-9});
		const double h = kind == 1 ? 0 : mc::pick(vector<double>{0.1, -0.05, 0.125, 1e-3});
		d = mc::S() << (kind == 1 ? "quadrupole" : "bend") << " of " << l << " m, k1 " << k1 << ", h " << h << ", size " << n;
		m = expm(genBend(h, k1), l);
		M6 m4 = m;
		if(n < 6)
			for(int i = 0; i < 4; i++)
				m4[i][4] = m4[i][5] = 0;
		if(kind == 1)
		{
			TransportMatrix::Quadrupole(l, k1, R);
			matIs(R, m4, n, "element", d);
			R = stale(n);
			TransportMatrix::QuadrupoleR(l, k1, R);
			matIs(R, m4, n, "element", d);
			RMap A;
			TransportRMap::Quadrupole(l, k1, A);
			rmapIs(A, m, d);
			R2Map B, C;
			TransportRMap::Quadrupole(l, k1, B);
			TransportRMap::Quadrupole(l, -k1, C);
			r2Is(B, m, 0, d);
			r2Is(C, m, 1, d);
			MC_CHECK(B.IsIdentity() == (l == 0), "r2map", d << " identity");
			for(int k = 0; k < 3; k++)
			{
				auto s = [&](int i, int j) {
						return sig(k, i, j);
					};
				PSvector v = mom<2>(k), o = v;
				ApplyR2Map(B, v, 0);
				ApplyR2Map(C, v, 1);
				for(int i = 0; i < 6; i++)
				{
					LD q = 0;
					for(int j = 0; j < 6; j++)
						q += m[i][j] * o[j];
					MC_CLOSET(v[i], double(q), 1e-12, 1e-12, "planes", d << " coordinate " << i);
				}
				TPSMoments<2> T = mom<2>(k);
				ApplyR2Map(B, T, 0);
				ApplyR2Map(C, T, 1);
				ApplyR2Map(B, T, C);
				for(int i = 0; i < 4; i++)
				{
					MC_CLOSET(T[i], v[i], 1e-12, 1e-14, "planes", d << " centroid " << i);
					for(int j = 0; j <= i; j++)
					{
						LD q = 0;
						for(int a = 0; a < 4; a++)
							for(int b = 0; b < 4; b++)
								q += m[i][a] * m[j][b] * s(a, b);
						MC_CLOSET(T(i, j), double(q), 1e-11, 1e-11, "planes", d << " <" << i << "," << j << ">");
					}
				}
			}
		}
		else
		{
			TransportMatrix::SectorBend(l, h, k1, R);
			matIs(R, m4, n, "element", d);
			RMap A;
			TransportRMap::SectorBend(l, h, k1, A);
			rmapIs(A, m, d);
		}
		// first order in the momentum offset: what the particles with dp feel, x'' = -(Kx - hk dp) x
		{
			RealMatrix T = stale(n);
			if(kind == 1)
				TransportMatrix::QuadrupoleT(l, k1, T);
			else
				TransportMatrix::SectorBendT(l, h, k1, T);
			if(l != 0 && (k1 != 0 || h != 0))
			{
				const LD e = 1e-6L;
				M6 gp = genBend(h, k1), gm = gp;
				const LD hk = k1 + 2 * LD(h) * h;
				gp[1][0] += e * hk;
				gm[1][0] -= e * hk;
				gp[3][2] -= e * k1;
				gm[3][2] += e * k1;
				M6 P = expm(gp, l), Q = expm(gm, l);
				for(int p = 0; p < 4; p++)
					for(int q = p / 2 * 2; q < p / 2 * 2 + 2; q++)
					{
						const LD x = (P[p][q] - Q[p][q]) / (2 * e);
						// rounding: differences of terms of the order of the length, divided by the strength
						MC_CLOSET(T(p, q), double(x), 1e-6, fabs(k1) < 1e-6 ? 1e-6 : 1e-9, "chromatic", d << " derivative of " << name(p, q));
					}
				// second order dispersion: x2'' = -Kx x2 + hk x1 - h
				if(kind == 2 && n == 6)
				{
					M6 g = genBend(h, k1);
					// carry x1 in (0,1) and x2 in (2,3), the source in 5
					g[3][2] = g[1][0];
					g[3][0] = hk;
					g[3][5] = -LD(h);
					M6 D = expm(g, l);
					// the closed form divides differences of order one by the square of the focusing
					const LD kx = LD(k1) + LD(h) * h;
					const double tc = fabsl(kx) < 1e-12L ? 0 : double(1e-15L * fabsl(h) * (fabsl(hk) + LD(h) * h) / (kx * kx));
					MC_CLOSET(T(0, 5), double(D[2][5]), 1e-7, 1e-9 + tc, "chromatic", d << " second order dispersion");
					MC_CLOSET(T(1, 5), double(D[3][5]), 1e-7, 1e-9 + tc * double(sqrtl(fabsl(kx)) + 1), "chromatic", d << " second order slope of the dispersion");
				}
			}
		}
	}
	else if(kind == 3)
	{
		const double phi = mc::pick(vector<double>{0.0, 0.3, -0.3, 1e-7, 1e-13, 1.5707963267948966, 3.141592653589793});
		d = mc::S() << "rotation by " << phi << ", size " << n;
		const LD c = cosl(phi), s = sinl(phi);
		m[0][0] = m[1][1] = m[2][2] = m[3][3] = c;
		m[0][2] = m[1][3] = -s;
		m[2][0] = m[3][1] = s;
		TransportMatrix::Srot(phi, R);
		matIs(R, m, n, "element", d);
		R = stale(n);
		TransportMatrix::Srot(cos(phi), sin(phi), R);
		matIs(R, m, n, "element", d);
		R = stale(n);
		TransportMatrix::SrotR4(phi, R);
		matIs(R, m, n, "element", d);
		R = stale(n);
		TransportMatrix::SrotR4(cos(phi), sin(phi), R);
		matIs(R, m, n, "element", d);
		RMap A;
		TransportRMap::Srot(phi, A);
		rmapIs(A, m, d);
	}
	else if(kind == 4)
	{
		const double h = mc::pick(vector<double>{0.1, -0.05, 0.0});
		const double th = mc::pick(vector<double>{0.0, 0.2, -0.3});
		const double fi = mc::pick(vector<double>{0.0, 0.5});
		const double gap = mc::pick(vector<double>{0.0, 0.02});
		d = mc::S() << "pole face of " << th << ", h " << h << ", fint " << fi << ", gap " << gap << ", size " << n;
		const LD phi = 2 * LD(fi) * gap * h * (1 + sinl(th) * sinl(th)) / cosl(th);
		m[1][0] = h * tanl(th);
		m[3][2] = -h* tanl(th - phi);
		TransportMatrix::PoleFaceRot(h, th, fi, gap, R);
		matIs(R, m, n, "element", d);
		RMap A;
		TransportRMap::PoleFaceRot(h, th, fi, gap, A);
		rmapIs(A, m, d);
	}
	else if(kind == 5)
	{
		const double l = mc::pick(vector<double>{0.0, 1.0, 2.5, 0.1});
		const double ks = mc::pick(vector<double>{0.0, 0.2, -0.3, 1.5, 1e-6});
		d = mc::S() << "solenoid of " << l << " m, ks " << ks << ", size " << n;
		m = expm(genSol(ks), l);
		TransportMatrix::Solenoid(l, ks, 0, true, true, R);
		matIs(R, m, n, "element", d);
		RMap A;
		TransportRMap::Solenoid(l, ks, 0, true, true, A);
		rmapIs(A, m, d);
	}
	else
	{
		const int sw = mc::choose(2);
		const double f = mc::pick(vector<double>{1.3e9, 4e8});
		const double g = mc::pick(vector<double>{0.02, 1e-3, -0.01, 1e-9});
		const double phi = mc::pick(vector<double>{0.0, 0.5, -1.2, 2.5});
		const double E0 = mc::pick(vector<double>{0.5, 5.0});
		const int cells = mc::pick(vector<int>{1, 9});
		const int faces = sw ? 3 : mc::choose(4);
		const double L = cells * SpeedOfLight / f / 2;
		const LD c = cosl(phi), E1 = E0 + g * L * c;
		d = mc::S() << (sw ? "standing" : "travelling") << " wave cavity of " << cells << " cells, f " << f << ", g " << g << ", phi " << phi
			<< ", E0 " << E0 << ", faces " << faces << ", size " << n;
		m = body(L, g, c, E0, sw ? 0.125L : 0);
		if(faces & 1)
			m = m * kick(-g * c / (2 * E0));
		if(faces & 2)
			m = kick(g * c / (2 * E1)) * m;
		RMap A;
		R2Map B;
		if(sw)
		{
			TransportMatrix::SWRFCavity(cells, g, f, phi, E0, R);
			TransportRMap::SWRFCavity(cells, g, f, phi, E0, A);
			TransportRMap::SWRFCavity(cells, g, f, phi, E0, B);
		}
		else
		{
			TransportRMap::TWRFCavity(L, g, f, phi, E0, faces & 1, faces & 2, A);
			TransportRMap::TWRFCavity(L, g, f, phi, E0, faces & 1, faces & 2, B);
			if(faces == 0 || faces == 3)
				TransportMatrix::TWRFCavity(L, g, f, phi, E0, faces == 3, R);
		}
		mc::state(d);
		const double tol = 1e-9;
		if(sw || faces == 0 || faces == 3)
			for(int i = 0; i < min(n, 4); i++)
				for(int j = 0; j < min(n, 4); j++)
					MC_CLOSET(R(i, j), double(m[i][j]), tol, 1e-11, "cavity", d << ": element " << name(i, j));
		if(!sw && n == 6 && (faces == 0 || faces == 3))
		{
			const double k = twoPi * f / SpeedOfLight;
			MC_CLOSET(R(5, 4), double(k * g * L * sinl(phi) / E1), 1e-12, 1e-15, "cavity", d << ": energy with time");
			MC_CLOSET(R(5, 5), double(E0 / E1), 1e-12, 0, "cavity", d << ": energy damping");
			MC_CLOSET(R(4, 4), 1.0, 0, 0, "cavity", d);
		}
		matIs(RealMatrix(A), m, 6, "rmap", d + " as terms", tol);
		r2Is(B, m, 0, d, tol);
	}
	mc::state(d);
}
// a plane transformation in first order, against the transformation of particles
MC_SECTION("transformations")
{
	const int k = mc::choose(6);
	const double x = mc::pick(vector<double>{0.0, 0.01}), y = mc::pick(vector<double>{0.0, -0.02}), z = mc::pick(vector<double>{0.0, 0.5});
	Rotation3D r = Rotation3D();
	const double an = 0.1;
	if(k == 1)
		r = Rotation3D::rotationX(an);
	else if(k == 2)
		r = Rotation3D::rotationY(an);
	else if(k == 3)
		r = Rotation3D::rotationZ(an);
	else if(k == 4)
		r = Rotation3D::rotationX(an) * Rotation3D::rotationY(-2 * an);
	else if(k == 5)
		r = Rotation3D::rotationZ(3 * an) * Rotation3D::rotationX(an) * Rotation3D::rotationY(an);
	Transform3D T(Point3D(x, y, z), r);
	string d = mc::S() << "rotation " << k << " with displacement " << x << "," << y << "," << z;
	mc::state(d);
	RealMatrix R3(3, 3), R(6, 6);
	Vector3D e[3] = {Vector3D(1, 0, 0), Vector3D(0, 1, 0), Vector3D(0, 0, 1)};
	for(int j = 0; j < 3; j++)
	{
		Vector3D c = r(e[j]);
		R3(0, j) = c.x;
		R3(1, j) = c.y;
		R3(2, j) = c.z;
	}
	RealVector X(3), dX(6);
	X[0] = x;
	X[1] = y;
	X[2] = z;
	TransportMatrix::Arb3DXForm(R3, X, R, dX);
	PSvectorTransform3D pt(T);
	PSvector o(0);
	pt.Apply(o);
	const double h = 1e-5;
	for(int i = 0; i < 4; i++)
	{
		MC_CLOSET(dX[i], o[i], 1e-12, 1e-15, "displacement", d << " coordinate " << i);
		for(int j = 0; j < 4; j++)
		{
			PSvector p(0), q(0);
			p[j] = h;
			q[j] = -h;
			pt.Apply(p);
			pt.Apply(q);
			MC_CLOSET(R(i, j), (p[i] - q[i]) / (2 * h), 1e-7, 1e-8, "transformation", d << " element " << name(i, j));
		}
	}
}
// maps as components of a beamline
MC_SECTION("beamline")
{
	const int set = mc::choose(3);
	const int n = 1 + mc::choose(3);
	const int drifts = mc::choose(4);
	AcceleratorModelConstructor c;
	vector<unique_ptr<LinearParticleMap> > maps;
	string d = mc::S() << "integrators " << set << ":";
	M6 m(1);
	M6 dr(1);
	dr[0][1] = dr[2][3] = 2;
	auto drift = [&]() {
			c.AppendComponent(new Drift("D", 2));
			m = dr * m;
			d += " drift";
		};
	if(drifts & 1)
		drift();
	for(int i = 0; i < n; i++)
	{
		const int a = 1 + mc::choose(4);
		maps.emplace_back(new LinearParticleMap);
		maps.back()->R = RMtrx(real(pool(a), 6));
		auto* pm = new ParticleMapComponent("M", maps.back().get(), 0.5);
		MC_CHECK(pm->GetIntB2ds() == 0.5 && pm->GetType() == "ParticleMap" && pm->GetLength() == 0, "component", d);
		c.AppendComponent(pm);
		m = pool(a) * m;
		d += mc::S() << " map " << a;
	}
	if(drifts & 2)
		drift();
	mc::state(d);
	unique_ptr<AcceleratorModel> model(c.GetModel());
	auto* b = new ParticleBunch(10, 1e-9);
	for(int k = 0; k < 4; k++)
	{
		PSvector v = vec(k);
		for(int i = 0; i < 6; i++)
			v[i] *= 1e-7;
		b->AddParticle(v);
	}
	ParticleBunch direct(*b);
	ParticleTracker t(model->GetBeamline(), b);
	if(set == 0)
		t.SetIntegratorSet(new ParticleTracking::THIN_LENS::StdISet);
	else if(set == 1)
		t.SetIntegratorSet(new ParticleTracking::TRANSPORT::StdISet);
	else
		t.SetIntegratorSet(new ParticleTracking::SYMPLECTIC::StdISet);
	t.Run();
	MC_CHECK(t.GetTrackedBunch().size() == 4, "lost", d);
	int k = 0;
	for(auto& p : t.GetTrackedBunch())
	{
		PSvector o = vec(k);
		for(int i = 0; i < 6; i++)
		{
			LD s = 0;
			for(int j = 0; j < 6; j++)
				s += m[i][j] * o[j] * 1e-7L;
			// the drifts are not linear: angles and offsets in momentum up to a few 1e-6
			MC_CLOSET(p[i], double(s), drifts ? 1e-5 : 1e-12, drifts ? 2e-11 : 1e-20, "tracked", d << ": particle " << k << " coordinate " << i);
		}
		k++;
	}
	if(n == 1)
	{
		LinearParticleMap& L = *maps[0];
		L.Apply(direct);
		k = 0;
		for(auto& p : direct)
		{
			PSvector v = vec(k++);
			for(int i = 0; i < 6; i++)
				v[i] *= 1e-7;
			PSvector w = v;
			L.R.Apply(w);
			for(int i = 0; i < 6; i++)
				MC_CHECK(p[i] == w[i], "bunch", d);
		}
	}
}
