// P31: vectors, matrices and the linear algebra on them compute what they say, for every shape, scale and rank
#include "mc.h"
#include "MerlinIO.h"
#include "TMatrixLib.h"
#include "TLASimp.h"
#include "LinearAlgebra.h"
#include "MatrixPrinter.h"
#include "OPFormat.h"
using namespace std;
typedef long double LD;
typedef vector<vector<LD> > Mat;
typedef vector<LD> Vec;
static Mat zero(int n, int m)
{
	return Mat(n, Vec(m, 0));
}
static Mat mul(const Mat& a, const Mat& b)
{
	Mat c = zero(a.size(), b[0].size());
	for(size_t i = 0; i < a.size(); i++)
		for(size_t j = 0; j < b[0].size(); j++)
			for(size_t k = 0; k < b.size(); k++)
				c[i][j] += a[i][k] * b[k][j];
	return c;
}
static Mat tr(const Mat& a)
{
	Mat c = zero(a[0].size(), a.size());
	for(size_t i = 0; i < a.size(); i++)
		for(size_t j = 0; j < a[0].size(); j++)
			c[j][i] = a[i][j];
	return c;
}
static Mat unit(int n)
{
	Mat c = zero(n, n);
	for(int i = 0; i < n; i++)
		c[i][i] = 1;
	return c;
}
static LD maxabs(const Mat& a)
{
	LD m = 0;
	for(auto& r : a)
		for(LD v : r)
			m = max(m, isnan(v) ? LD(INFINITY) : fabsl(v));
	return m;
}
static LD diff(const Mat& a, const Mat& b)
{
	Mat c = a;
	for(size_t i = 0; i < a.size(); i++)
		for(size_t j = 0; j < a[0].size(); j++)
			c[i][j] -= b[i][j];
	return maxabs(c);
}
template<class M> static Mat get(const M& m)
{
	Mat c = zero(m.nrows(), m.ncols());
	for(size_t i = 0; i < m.nrows(); i++)
		for(size_t j = 0; j < m.ncols(); j++)
			c[i][j] = m(i, j);
	return c;
}
static RealMatrix put(const Mat& a)
{
	RealMatrix m(a.size(), a[0].size());
	for(size_t i = 0; i < a.size(); i++)
		for(size_t j = 0; j < a[0].size(); j++)
			m(i, j) = double(a[i][j]);
	return m;
}
static string str(const Mat& a)
{
	mc::S s;
	s << "[";
	for(auto& r : a)
	{
		for(LD v : r)
			s << double(v) << " ";
		s << ";";
	}
	s << "]";
	return s;
}
static string str(const Vec& a)
{
	return str(Mat{a});
}
/// rank and determinant by full pivoting
static int rankdet(Mat a, LD& det, Mat* inv = nullptr)
{
	int n = a.size(), m = a[0].size(), r = 0;
	LD tol = maxabs(a) * 1e-12L;
	det = 1;
	Mat b = unit(n);
	vector<bool> used(m);
	vector<int> col(n, -1);
	for(int s = 0; s < min(n, m); s++)
	{
		int pr = -1, pc = -1;
		LD big = tol;
		for(int i = s; i < n; i++)
			for(int j = 0; j < m; j++)
				if(!used[j] && fabsl(a[i][j]) > big)
				{
					big = fabsl(a[i][j]);
					pr = i;
					pc = j;
				}
		if(pr < 0)
			break;
		r++;
		used[pc] = true;
		col[s] = pc;
		if(pr != s)
		{
			swap(a[pr], a[s]);
			swap(b[pr], b[s]);
			det = -det;
		}
		det *= a[s][pc];
		for(int i = 0; i < n; i++)
			if(i != s)
			{
				LD f = a[i][pc] / a[s][pc];
				for(int j = 0; j < m; j++)
					a[i][j] -= f * a[s][j];
				for(int j = 0; j < n; j++)
					b[i][j] -= f * b[s][j];
			}
	}
	if(n == m && r == n)
	{
		// sign of the column permutation
		for(int i = 0; i < n; i++)
			for(int j = 0; j < i; j++)
				if(col[j] > col[i])
					det = -det;
		if(inv)
		{
			*inv = zero(n, n);
			for(int s = 0; s < n; s++)
				for(int j = 0; j < n; j++)
					(*inv)[col[s]][j] = b[s][j] / a[s][col[s]];
		}
	}
	else
		det = 0;
	return r;
}
/// a family of matrices: every small one over {-1,0,1,...} and structured larger ones, scaled
static Mat family(int n, int m, string& d, bool square)
{
	Mat a = zero(n, m);
	int kind = n * m <= 4 ? 0 : n * m <= (mc::thorough() ? 9 : 6) ? 1 : 2;
	if(kind == 0)
	{
		vector<LD> al{0, 1, -2, 0.5L, 3};
		for(auto& r : a)
			for(auto& v : r)
				v = mc::pick(al);
	}
	else if(kind == 1)
	{
		vector<LD> al{0, 1, -2};
		for(auto& r : a)
			for(auto& v : r)
				v = mc::pick(al);
	}
	else
	{
		int f = mc::choose(8), p = mc::choose(6);
		for(int i = 0; i < n; i++)
			for(int j = 0; j < m; j++)
				switch(f)
				{
				case 0: // diagonal with zeros
					a[i][j] = i == j ? LD((i + p) % 4) - 1 : 0;
					break;
				case 1: // shifted identity and one more
					a[i][j] = (i + p) % max(n, m) == j ? 2 : i == p && j == 0 ? 1 : 0;
					break;
				case 2: // rank one
					a[i][j] = (i + 1 - p) * (j % 3 - 1.0L + p % 2);
					break;
				case 3: // full
					a[i][j] = ((i * 7 + j * 3 + p * 5 + i * j) % 11) - 5;
					break;
				case 4: // Hilbert-like
					a[i][j] = 1.0L / (i + j + 1 + p);
					break;
				case 5: // bidiagonal with a missing link
					a[i][j] = i == j ? 1 + (i == p ? 0 : 1) : j == i + 1 && i != p ? -3 : 0;
					break;
				case 6: // blocks, like a map minus one: last column empty but for one entry
					a[i][j] = j == m - 2 ? (i == n - 1 ? 8e-4L : 0) : i / 2 == j / 2 ? (i == j ? -1 + 0.3L * p : 1 - 0.7L * (i - j)) : j == m - 1 && i < 2 ? 0.4L - 0.2L * i : i == n - 2 && j < 2 ? -0.1L + 0.03L * j : 0;
					break;
				case 7: // equal rows in pairs
					a[i][j] = (i / 2 + 1) * (j + 1) % 5 + (j == p ? 1 : 0);
					break;
				}
	}
	LD sc = kind == 0 ? mc::pick(vector<LD>{1, 1e-13L, 1e12L}) : mc::pick(vector<LD>{1, 1e-13L});
	for(auto& r : a)
		for(auto& v : r)
			v = double(v * sc);
	d = mc::S() << n << "x" << m << " matrix " << str(a);
	(void) square;
	return a;
}
MC_SECTION("lu")
{
	int n = 1 + mc::choose(6);
	string d;
	Mat a = family(n, n, d, true);
	mc::note(d);
	mc::state(d);
	LD det;
	Mat inv;
	int r = rankdet(a, det, &inv);
	if(r < n || maxabs(a) * maxabs(inv) > 1e8L)
		mc::prune();
	LD cond = maxabs(a) * maxabs(inv) * n * n, sc = maxabs(a);
	RealMatrix m = put(a);
	LUMatrix<double> lu(m);
	MC_CLOSET(lu.det(), double(det), 1e-12 * double(cond), 0, "determinant", d);
	Vec x;
	for(int i = 0; i < n; i++)
		x.push_back(1 + i * i - 2.5L * i);
	RealVector b(n);
	for(int i = 0; i < n; i++)
	{
		LD s = 0;
		for(int j = 0; j < n; j++)
			s += a[i][j] * x[j];
		b(i) = double(s);
	}
	const RealVector cb(b);
	RealVector y = lu(cb), z(b);
	lu(z);
	for(int i = 0; i < n; i++)
	{
		MC_CLOSET(y(i), double(x[i]), 1e-13, 1e-14 * double(cond) * 10, "lu-solution", d << " element " << i);
		MC_CHECK(z(i) == y(i), "lu-in-place", d << " element " << i << " " << z(i) << " and " << y(i));
	}
	MC_CHECK(get(m) == a, "lu-changes-matrix", d);
	MC_CLOSET(TLAS::Det(m), double(det), 1e-12 * double(cond), 0, "det", d);
	RealMatrix w(m);
	double piv = TLAS::Invert(w);
	MC_CHECK(diff(get(w), inv) <= 1e-14L * cond * maxabs(inv), "inverse", d << " gives " << str(get(w)) << " should be " << str(inv));
	MC_CHECK(piv > 0 && piv <= double(sc * 1.0000001L), "inverse-pivot", d << " smallest pivot " << piv);
	const RealMatrix cm(m);
	RealMatrix w2 = TLAS::Invert(cm);
	MC_CHECK(diff(get(w2), inv) <= 1e-14L * cond * maxabs(inv), "inverse-copy", d << " gives " << str(get(w2)) << " should be " << str(inv));
	MC_CHECK(get(cm) == a, "inverse-changes-matrix", d);
}
MC_SECTION("svd")
{
	int n = 1 + mc::choose(6), m = 1 + mc::choose(6);
	if(!mc::thorough() && n * m > 12 && !(n == m || (n == 6 && m == 3) || (n == 2 && m == 6)))
		mc::prune();
	string d;
	Mat a = family(n, m, d, false);
	LD det;
	if(maxabs(a) == 0)
		mc::prune();
	int r = rankdet(a, det);
	mc::note(d);
	mc::state(d);
	RealMatrix M = put(a);
	SVDMatrix<double> s(M);
	LD sc = maxabs(a);
	MC_CHECK(get(M) == a, "svd-changes-matrix", d);
	Mat U = get(s.U()), V = get(s.V());
	int k = s.W().size();
	MC_CHECK(k == m && V.size() == size_t(m) && V[0].size() == size_t(m) && U.size() >= size_t(n) && U[0].size() == size_t(m), "svd-shape", d << " " << k << " values");
	// the singular values below 1e-6 of the largest are dropped
	Mat W = zero(m, m);
	LD wmax = 0;
	int kept = 0;
	for(int i = 0; i < m; i++)
	{
		MC_CHECK(s.W()(i) >= 0, "svd-negative", d << " value " << i << " is " << s.W()(i));
		wmax = max<LD>(wmax, s.W()(i));
		W[i][i] = s.W()(i);
		MC_CHECK((s.W()(i) != 0) == s.wflags()[i], "svd-flags", d << " value " << i << " is " << s.W()(i) << " flag " << s.wflags()[i]);
		kept += s.wflags()[i];
	}
	Mat R = mul(U, mul(W, tr(V)));
	R.resize(n);
	MC_CHECK(diff(R, a) <= 3e-6L * wmax, "svd-product", d << " is " << str(R));
	bool tiny = false; // a dropped value that is not zero
	if(diff(R, a) > 1e-12L * wmax)
		tiny = true;
	MC_CHECK(tiny ? kept < r : kept == r, "svd-rank", d << " of rank " << r << " keeps " << kept);
	MC_CHECK(diff(mul(tr(V), V), unit(m)) < 1e-12L, "svd-orthogonal-v", d << " V " << str(V));
	Mat UU = mul(tr(U), U);
	for(int i = 0; i < m; i++)
		for(int j = 0; j < m; j++)
			if(W[i][i] != 0 && W[j][j] != 0)
				MC_CHECK(fabsl(UU[i][j] - (i == j)) < 1e-11L * max<LD>(1, wmax / max(W[i][i], W[j][j]) * 1e-3L), "svd-orthogonal-u", d << " U " << str(U));
	// least squares of least norm: the residual is orthogonal to the columns, the solution to the null space
	if(!tiny)
	{
		bool weighted = mc::choose(2);
		Vec wt(n, 1);
		if(weighted)
			for(int i = 0; i < n; i++)
				wt[i] = i % 3 + 0.5L;
		RealVector b(n), wv(n);
		for(int i = 0; i < n; i++)
		{
			b(i) = double(sc) * (i * i - 3.5 * i + 1);
			wv(i) = double(wt[i]);
		}
		const RealVector cb(b);
		unique_ptr<SVDMatrix<double> > sw(weighted ? new SVDMatrix<double>(M, wv) : nullptr);
		RealVector x = weighted ? (*sw)(cb) : s(cb);
		MC_CHECK(x.size() == size_t(m), "svd-solution-size", d << " " << x.size());
		Mat A = a;
		for(int i = 0; i < n; i++)
			for(auto& v : A[i])
				v *= wt[i];
		Mat X = zero(m, 1), B = zero(n, 1);
		for(int i = 0; i < m; i++)
			X[i][0] = x(i);
		for(int i = 0; i < n; i++)
			B[i][0] = b(i) * wt[i];
		Mat res = mul(A, X);
		for(int i = 0; i < n; i++)
			res[i][0] -= B[i][0];
		Mat g = mul(tr(A), res);
		LD xm = max<LD>(maxabs(X), 1);
		MC_CHECK(maxabs(g) <= 1e-10L * sc * sc * xm * n * m, "svd-least-squares", d << (weighted ? " weighted" : "") << " solution " << str(tr(X)) << " residual gradient " << str(tr(g)));
		// least norm: x is in the row space, i.e. x = V (nonzero columns) part only
		Mat c = mul(tr(V), X);
		if(!weighted)
			for(int i = 0; i < m; i++)
				if(W[i][i] == 0)
					MC_CHECK(fabsl(c[i][0]) <= 1e-10L * xm, "svd-least-norm", d << " solution " << str(tr(X)) << " component " << i << " of the null space " << double(c[i][0]));
	}
	mc::outcome(mc::S() << n << m << r);
}
static Mat symmetric(int n, string& d)
{
	Mat a = zero(n, n);
	if(n <= 3)
	{
		vector<LD> al{0, 1, -2};
		for(int i = 0; i < n; i++)
			for(int j = 0; j <= i; j++)
				a[i][j] = a[j][i] = mc::pick(al);
	}
	else
	{
		int f = mc::choose(6), p = mc::choose(5);
		for(int i = 0; i < n; i++)
			for(int j = 0; j <= i; j++)
				switch(f)
				{
				case 0:
					a[i][j] = i == j ? i % 3 + p : 0;
					break;
				case 1:
					a[i][j] = 1.0L / (i + j + 1 + p);
					break;
				case 2:
					a[i][j] = i == j ? 2 : i == j + 1 && i != p ? -1 : 0;
					break;
				case 3:
					a[i][j] = ((i + j) * (p + 2) + i * j) % 7 - 3;
					break;
				case 4:
					a[i][j] = (i == p || j == p) ? 1 : 0;
					break;
				case 5:
					a[i][j] = (i + 1) * (j + 1) * (p + 1);
					break;
				}
		for(int i = 0; i < n; i++)
			for(int j = 0; j < i; j++)
				a[j][i] = a[i][j];
	}
	LD sc = mc::pick(vector<LD>{1, 1e-13L, 1e12L});
	for(auto& r : a)
		for(auto& v : r)
			v = double(v * sc);
	d = mc::S() << "symmetric matrix " << str(a);
	return a;
}
MC_SECTION("symmetric-eigensystem")
{
	int n = 1 + mc::choose(mc::thorough() ? 10 : 6);
	string d;
	Mat a = symmetric(n, d);
	mc::note(d);
	mc::state(d);
	RealMatrix m = put(a);
	RealVector ev(mc::choose(2) ? n : 1);
	EigenSystemSymmetricMatrix(m, ev);
	MC_CHECK(ev.size() == size_t(n), "eigen-size", d << " " << ev.size());
	Mat V = get(m), D = zero(n, n);
	for(int i = 0; i < n; i++)
		D[i][i] = ev(i);
	MC_CHECK(diff(mul(tr(V), V), unit(n)) < 1e-11L, "eigen-orthogonal", d << " vectors " << str(V));
	MC_CHECK(diff(mul(V, mul(D, tr(V))), a) <= 1e-10L * maxabs(a), "eigen-product", d << " values " << str(D) << " vectors " << str(V));
}
// --- symplectic matrices
static Mat sym6()
{
	Mat c = zero(6, 6);
	for(int i = 0; i < 6; i += 2)
	{
		c[i][i + 1] = 1;
		c[i + 1][i] = -1;
	}
	return c;
}
static Mat turn(const array<LD, 3>& mu, const array<LD, 3>& beta, const array<LD, 3>& alpha)
{
	Mat m = zero(6, 6);
	for(int k = 0; k < 3; k++)
	{
		LD c = cosl(mu[k]), s = sinl(mu[k]), b = beta[k], al = alpha[k];
		m[2 * k][2 * k] = c + al * s;
		m[2 * k][2 * k + 1] = b * s;
		m[2 * k + 1][2 * k] = -(1 + al * al) / b * s;
		m[2 * k + 1][2 * k + 1] = c - al * s;
	}
	return m;
}
/// a symplectic change of frame: 0 none, 1 dispersion, 2 rotation about the axis, 3 both, 4 crabbing
static Mat frame(int kind)
{
	Mat f = unit(6);
	if(kind & 1)
	{
		// x += D dp, xp += D' dp, ct picks up the conjugate
		Mat g = unit(6);
		LD D = 0.7L, Dp = -0.2L;
		g[0][5] = D;
		g[1][5] = Dp;
		g[4][0] = -Dp;
		g[4][1] = D;
		// sign fixed by symplecticity below
		Mat S = sym6();
		if(diff(mul(tr(g), mul(S, g)), S) > 1e-9L)
		{
			g[4][0] = Dp;
			g[4][1] = -D;
		}
		f = mul(g, f);
	}
	if(kind & 4)
	{
		// x depends on ct, as where cavities stand in dispersion
		Mat g = unit(6);
		g[0][4] = 0.02L;
		g[5][1] = -0.02L;
		Mat S = sym6();
		if(diff(mul(tr(g), mul(S, g)), S) > 1e-9L)
			g[5][1] = 0.02L;
		f = mul(g, f);
	}
	if(kind & 2)
	{
		Mat g = unit(6);
		LD c = cosl(0.3L), s = sinl(0.3L);
		for(int i = 0; i < 2; i++)
		{
			g[i][i] = g[i + 2][i + 2] = c;
			g[i][i + 2] = s;
			g[i + 2][i] = -s;
		}
		f = mul(g, f);
	}
	return f;
}
static Mat syminv(const Mat& a)
{
	Mat S = sym6(), r = mul(S, mul(tr(a), S));
	for(auto& x : r)
		for(auto& v : x)
			v = -v;
	return r;
}
MC_SECTION("eigensystem")
{
	vector<LD> mus{0.3L, 1.1L, 2.0L, 3.6L, 4.4L, 5.9L};
	const LD pi = acosl(-1.0L);
	array<LD, 3> mu{mc::pick(mus), mc::pick(mus), mc::pick(vector<LD>{0.05L, -0.05L, 0.01L, 0.8L})}, beta{mc::pick(vector<LD>{1, 30}), mc::pick(vector<LD>{2, 0.1L}), mc::pick(vector<LD>{1, 500})}, alpha{mc::pick(vector<LD>{0, -1.5L}), mc::pick(vector<LD>{0, 2}), 0};
	if(mu[0] == mu[1])
		mc::prune();
	for(int i = 0; i < 3; i++)
		for(int j = 0; j < i; j++)
			if(fabsl(cosl(mu[i]) - cosl(mu[j])) < 0.02L)
				mc::prune();
	int fk = mc::choose(8);
	if(fk >= 4 && beta[2] != 1)
		mc::prune();
	Mat F = frame(fk), a = mul(F, mul(turn(mu, beta, alpha), syminv(F)));
	mc::S d;
	d << "one-turn matrix of phases " << double(mu[0]) << "," << double(mu[1]) << "," << double(mu[2]) << " beta " << double(beta[0]) << "," << double(beta[1]) << "," << double(beta[2]) << " alpha " << double(alpha[0]) << "," << double(alpha[1]) << " frame " << fk;
	mc::note(d);
	mc::state(d);
	Mat S = sym6();
	if(diff(mul(tr(a), mul(S, a)), S) > 1e-10L)
		mc::fail("harness", "not symplectic");
	// which plane a mode belongs to is only defined while the coupling is not too strong
	for(int k = 0; k < 3; k++)
		for(int j = 0; j < 3; j++)
		{
			LD own = (a[2 * k][2 * k] + a[2 * k + 1][2 * k + 1]) / 2;
			if(j != k && fabsl(own - cosl(mu[k])) > 0.5L * fabsl(own - cosl(mu[j])))
				mc::prune();
		}
	RealMatrix m = put(a);
	ComplexVector ev(3);
	ComplexMatrix vec(3, 6);
	bool ok = EigenSystem(m, ev, vec);
	MC_CHECK(ok, "eigensystem-unstable", d);
	for(int k = 0; k < 3; k++)
	{
		// e^{i mu}: its vector v has v* S v = i
		complex<LD> l(ev(k).real(), ev(k).imag()), want(cosl(mu[k]), sinl(mu[k]));
		MC_CHECK(abs(l - want) < 1e-7L, "eigenvalue", d << " plane " << k << " has " << ev(k));
		LD err = 0, big = 0;
		complex<LD> norm = 0;
		for(int i = 0; i < 6; i++)
		{
			complex<LD> s = 0;
			for(int j = 0; j < 6; j++)
			{
				complex<LD> v(vec(k, j).real(), vec(k, j).imag());
				s += a[i][j] * v;
				norm += conj(complex<LD>(vec(k, i).real(), vec(k, i).imag())) * S[i][j] * v;
			}
			complex<LD> v(vec(k, i).real(), vec(k, i).imag());
			err = max(err, abs(s - l * v));
			big = max(big, abs(v));
		}
		MC_CHECK(err < 1e-7L * max<LD>(1, big) * maxabs(a), "eigenvector", d << " plane " << k << " misses by " << double(err));
		MC_CHECK(abs(norm - complex<LD>(0, 1)) < 1e-7L, "eigenvector-norm", d << " plane " << k << " " << double(norm.real()) << "+" << double(norm.imag()) << "i");
	}
	(void) pi;
}
MC_SECTION("symplectify")
{
	vector<LD> mus{0.3L, 1.1L, 2.0L, 3.6L, 5.9L};
	array<LD, 3> mu{mc::pick(mus), mc::pick(mus), mc::pick(vector<LD>{0.05L, 0.8L})}, beta{mc::pick(vector<LD>{1, 30}), 2, 10}, alpha{-0.5L, 1, 0};
	int fk = mc::choose(4), pi = mc::choose(6), pj = mc::choose(6);
	LD eps = mc::pick(vector<LD>{0, 1e-6L, 1e-3L});
	Mat F = frame(fk), a = mul(F, mul(turn(mu, beta, alpha), syminv(F))), p = a;
	p[pi][pj] += eps * max<LD>(fabsl(a[pi][pj]), 0.1L);
	mc::S d;
	d << "phases " << double(mu[0]) << "," << double(mu[1]) << "," << double(mu[2]) << " beta " << double(beta[0]) << " frame " << fk << " element " << pi << "," << pj << " off by " << double(eps);
	mc::note(d);
	mc::state(d);
	RealMatrix m = put(p);
	Symplectify(m);
	Mat q = get(m), S = sym6();
	LD big = maxabs(q);
	MC_CHECK(diff(mul(tr(q), mul(S, q)), S) < 1e-12L * big * big * 30, "symplectify-result", d << " gives " << str(q));
	MC_CHECK(diff(q, a) < 1e-12L * big * big * big + eps * 400 * big * big, "symplectify-distance", d << " gives " << str(q) << " from " << str(a));
	if(eps == 0)
		MC_CHECK(diff(q, a) < 1e-12L * big * big * big, "symplectify-changes-symplectic", d << " gives " << str(q) << " from " << str(a));
}
// --- elementary operations against plain arrays
template<class F> static string thrown(F f)
{
	try
	{
		f();
		return "";
	}
	catch(DimensionError&)
	{
		return "DimensionError";
	}
	catch(RangeError&)
	{
		return "RangeError";
	}
}
template<class V> static Vec vget(const V& v)
{
	Vec r;
	for(size_t i = 0; i < v.size(); i++)
		r.push_back(v(i));
	return r;
}
static RealVector vput(const Vec& a)
{
	RealVector v(a.size());
	for(size_t i = 0; i < a.size(); i++)
		v(i) = double(a[i]);
	return v;
}
MC_SECTION("vector-operations")
{
	int n = 1 + mc::choose(4), m = 1 + mc::choose(4), p = mc::choose(3), op = mc::choose(28);
	Vec a, b;
	for(int i = 0; i < n; i++)
		a.push_back((i * 3 + p * 2) % 7 - 2);
	for(int i = 0; i < m; i++)
		b.push_back((i * 5 + p) % 4 * 2 + 1);
	const LD s = 2.5L;
	mc::S d;
	d << "operation " << op << " on " << str(a) << " and " << str(b);
	mc::note(d);
	mc::state(d);
	const RealVector A = vput(a), B = vput(b);
	RealVector C(A);
	RealVector R(1);
	Vec want = a;
	string err = n == m ? "" : "DimensionError", got;
	bool bin = true;
	auto each = [&](function<LD(LD, LD)> f){
			for(int i = 0; i < n && n == m; i++)
				want[i] = f(a[i], b[i]);
		};
	auto eachs = [&](function<LD(LD)> f){
			bin = false;
			for(auto& v : want)
				v = f(v);
		};
	double dot = 0, wdot = 0;
	switch(op)
	{
	case 0: each([](LD x, LD y){ return x + y; }); got = thrown([&]{ R.copy(A + B); }); break;
	case 1: each([](LD x, LD y){ return x - y; }); got = thrown([&]{ R.copy(A - B); }); break;
	case 2: each([](LD x, LD y){ return x / y; }); got = thrown([&]{ R.copy(A / B); }); break;
	case 3: each([](LD x, LD y){ return x + y; }); got = thrown([&]{ C += B; R.copy(C); }); break;
	case 4: each([](LD x, LD y){ return x - y; }); got = thrown([&]{ C -= B; R.copy(C); }); break;
	case 5: each([](LD x, LD y){ return x * y; }); got = thrown([&]{ C *= B; R.copy(C); }); break;
	case 6: each([](LD x, LD y){ return x / y; }); got = thrown([&]{ C /= B; R.copy(C); }); break;
	case 7: each([](LD, LD y){ return y; }); got = thrown([&]{ C = B; R.copy(C); }); break;
	case 8: eachs([&](LD x){ return x + s; }); R.copy(A + double(s)); break;
	case 9: eachs([&](LD x){ return x - s; }); R.copy(A - double(s)); break;
	case 10: eachs([&](LD x){ return x * s; }); R.copy(A * double(s)); break;
	case 11: eachs([&](LD x){ return x / s; }); R.copy(A / double(s)); break;
	case 12: eachs([&](LD x){ return s + x; }); R.copy(double(s) + A); break;
	case 13: eachs([&](LD x){ return s - x; }); R.copy(double(s) - A); break;
	case 14: eachs([&](LD x){ return s * x; }); R.copy(double(s) * A); break;
	case 15: eachs([&](LD x){ return x + s; }); C += double(s); R.copy(C); break;
	case 16: eachs([&](LD x){ return x - s; }); C -= double(s); R.copy(C); break;
	case 17: eachs([&](LD x){ return x * s; }); C *= double(s); R.copy(C); break;
	case 18: eachs([&](LD x){ return x / s; }); C /= double(s); R.copy(C); break;
	case 19: eachs([&](LD){ return s; }); C = double(s); R.copy(C); break;
	case 20: bin = false; want = b; C.copy(B); R.copy(C); break;
	case 21:
		if(n != m) // a product of vectors of different lengths has no meaning
			mc::prune();
		dot = A * B;
		for(int i = 0; i < n; i++)
			wdot += double(a[i] * b[i]);
		MC_CLOSE(dot, wdot, "dot-product", d);
		return;
	case 22: bin = false; want.assign(m, 0); C.redim(m); R.copy(C); break;
	case 23:
		got = thrown([&]{ mc::step(); bool e = A == B; if(e != (a == b)) throw 1; if((A != B) == e) throw 2; });
		MC_CHECK(got == err, "vector-compare", d << " " << got);
		return;
	case 24: eachs([&](LD x){ return x; }); R.copy(RealVector(A.begin(), n)); break;
	case 25: eachs([&](LD){ return s; }); R.copy(RealVector(double(s), n)); break;
	case 26:
		MC_CHECK(thrown([&]{ C(n); }) == "RangeError" && thrown([&]{ A(n); }) == "RangeError" && thrown([&]{ C[n + 3]; }) == "RangeError" && thrown([&]{ A[n]; }) == "RangeError", "vector-index", d);
		return;
	case 27: eachs([&](LD x){ return x; }); C = C; R.copy(C); break;
	}
	if(bin)
	{
		MC_CHECK(got == err, "vector-dimension", d << " throws " << got);
		if(n != m)
		{
			MC_CHECK(vget(C) == a, "vector-after-error", d << " leaves " << str(vget(C)));
			return;
		}
	}
	MC_CHECK(R.size() == want.size(), "vector-size", d << " " << R.size());
	for(size_t i = 0; i < want.size(); i++)
		MC_CLOSET(R(i), double(want[i]), 1e-15, 0, "vector-operation", d << " element " << i);
	MC_CHECK(vget(A) == a && vget(B) == b, "vector-operand", d << " changes its operands");
}
MC_SECTION("matrix-operations")
{
	int n = 1 + mc::choose(4), m = 1 + mc::choose(4), n2 = 1 + mc::choose(4), m2 = 1 + mc::choose(4), op = mc::choose(24);
	Mat a = zero(n, m), b = zero(n2, m2);
	for(int i = 0; i < n; i++)
		for(int j = 0; j < m; j++)
			a[i][j] = (i * 5 + j * 3) % 7 - 2;
	for(int i = 0; i < n2; i++)
		for(int j = 0; j < m2; j++)
			b[i][j] = (i * 2 + j * 7) % 5 * 2 + 1;
	const LD s = 2.5L;
	mc::S d;
	d << "operation " << op << " on " << str(a) << " and " << str(b);
	mc::note(d);
	mc::state(d);
	const RealMatrix A = put(a), B = put(b);
	RealMatrix C(A), R(1, 1);
	Mat want = a;
	bool same = n == n2 && m == m2, bin = true, fits = same;
	string got;
	if(op >= 8 && op != 10 && op != 13 && op != 20 && !(n2 == 1 && m2 == 1))
		mc::prune();
	auto each = [&](function<LD(LD, LD)> f){
			for(int i = 0; i < n && same; i++)
				for(int j = 0; j < m; j++)
					want[i][j] = f(a[i][j], b[i][j]);
		};
	auto eachs = [&](function<LD(LD)> f){
			bin = false;
			for(auto& r : want)
				for(auto& v : r)
					v = f(v);
		};
	switch(op)
	{
	case 0: each([](LD x, LD y){ return x + y; }); got = thrown([&]{ R.copy(A + B); }); break;
	case 1: each([](LD x, LD y){ return x - y; }); got = thrown([&]{ R.copy(A - B); }); break;
	case 2: each([](LD x, LD y){ return x / y; }); got = thrown([&]{ R.copy(A / B); }); break;
	case 3: each([](LD x, LD y){ return x + y; }); got = thrown([&]{ C += B; R.copy(C); }); break;
	case 4: each([](LD x, LD y){ return x - y; }); got = thrown([&]{ C -= B; R.copy(C); }); break;
	case 5: each([](LD x, LD y){ return x / y; }); got = thrown([&]{ C /= B; R.copy(C); }); break;
	case 6: each([](LD, LD y){ return y; }); got = thrown([&]{ C = B; R.copy(C); }); break;
	case 7:
		fits = m == n2;
		if(fits)
			want = mul(a, b);
		got = thrown([&]{ R.copy(A * B); });
		break;
	case 8: eachs([&](LD x){ return x * s; }); R.copy(A * double(s)); break;
	case 9: eachs([&](LD x){ return s * x; }); R.copy(double(s) * A); break;
	case 10:
	{
		Vec v = b[0], w(n, 0);
		fits = m == m2;
		const RealVector V = vput(v);
		RealVector U(1);
		got = thrown([&]{ U.copy(A * V); });
		MC_CHECK(got == (fits ? "" : "DimensionError"), "matrix-vector-dimension", d << " throws " << got);
		if(!fits)
			return;
		for(int i = 0; i < n; i++)
			for(int j = 0; j < m; j++)
				w[i] += a[i][j] * v[j];
		MC_CHECK(vget(U) == w, "matrix-vector", d << " gives " << str(vget(U)) << " should be " << str(w));
		return;
	}
	case 11: eachs([&](LD x){ return x + s; }); C += double(s); R.copy(C); break;
	case 12: eachs([&](LD x){ return x - s; }); C -= double(s); R.copy(C); break;
	case 13: bin = false; want = b; C.copy(B); R.copy(C); break;
	case 14: eachs([&](LD x){ return x * s; }); C *= double(s); R.copy(C); break;
	case 15: eachs([&](LD x){ return x / s; }); C /= double(s); R.copy(C); break;
	case 16: eachs([&](LD){ return s; }); C = double(s); R.copy(C); break;
	case 17: bin = false; want = tr(a); R.copy(Transpose(A)); break;
	case 18: bin = false; want = unit(n); C.copy(IdentityMatrix(n)); R.copy(C); break;
	case 19: bin = false; want = unit(m); R.copy(RealMatrix(IdentityMatrix(m))); break;
	case 20: bin = false; want = zero(n2, m2); C.redim(n2, m2); R.copy(C); break;
	case 21:
		MC_CHECK(thrown([&]{ C(n, 0); }) == "RangeError" && thrown([&]{ A(0, m); }) == "RangeError" && thrown([&]{ C(0, m); }) == "RangeError" && thrown([&]{ A(n, 0); }) == "RangeError"
			&& thrown([&]{ C.row(n); }) == "RangeError" && thrown([&]{ C.column(m); }) == "RangeError" && thrown([&]{ A.row(n); }) == "RangeError" && thrown([&]{ A.column(m); }) == "RangeError" && thrown([&]{ C[n]; }) == "RangeError", "matrix-index", d);
		return;
	case 22:
	{
		ostringstream o;
		o << A;
		istringstream in(o.str());
		string line;
		int rows = 0;
		while(getline(in, line))
		{
			istringstream l(line);
			vector<double> v;
			double x;
			while(l >> x)
				v.push_back(x);
			MC_CHECK(rows < n && v.size() == size_t(m), "matrix-printed-shape", d << " printed as " << o.str());
			for(int j = 0; j < m; j++)
				MC_CHECK(v[j] == double(a[rows][j]), "matrix-printed", d << " printed as " << o.str());
			rows++;
		}
		MC_CHECK(rows == n, "matrix-printed-rows", d << " printed as " << o.str());
		return;
	}
	case 23: eachs([&](LD x){ return x; }); R.copy(Matrix<double>(Matrix<int>(n, m, 0))); want = zero(n, m); break;
	}
	if(bin)
	{
		MC_CHECK(got == (fits ? "" : "DimensionError"), "matrix-dimension", d << " throws " << got);
		if(!fits)
		{
			MC_CHECK(get(C) == a, "matrix-after-error", d << " leaves " << str(get(C)));
			return;
		}
	}
	MC_CHECK(R.nrows() == want.size() && R.ncols() == want[0].size(), "matrix-shape", d << " " << R.nrows() << "x" << R.ncols());
	for(size_t i = 0; i < want.size(); i++)
		for(size_t j = 0; j < want[0].size(); j++)
			MC_CLOSET(R(i, j), double(want[i][j]), 1e-15, 0, "matrix-operation", d << " element " << i << "," << j);
	MC_CHECK(get(A) == a && get(B) == b, "matrix-operand", d << " changes its operands");
}
// parts of matrices: rows, columns, ranges; every operation changes exactly the part
MC_SECTION("sub-ranges")
{
	int n = 1 + mc::choose(3), m = 1 + mc::choose(3);
	int kind = mc::choose(5); // 0 row, 1 column, 2 part of a row, 3 part of a column, 4 block
	int r0 = mc::choose(5) - 0, r1 = mc::choose(5), c0 = mc::choose(5), c1 = mc::choose(5), op = mc::choose(10);
	if((kind == 0 || kind == 2) && r1 != r0)
		mc::prune();
	if((kind == 1 || kind == 3) && c1 != c0)
		mc::prune();
	if(kind == 0 && (c0 || c1))
		mc::prune();
	if(kind == 1 && (r0 || r1))
		mc::prune();
	Mat a = zero(n, m);
	for(int i = 0; i < n; i++)
		for(int j = 0; j < m; j++)
			a[i][j] = (i * 5 + j * 3) % 7 + 1;
	mc::S d;
	d << "operation " << op << " on part " << kind << " rows " << r0 << "-" << r1 << " columns " << c0 << "-" << c1 << " of " << str(a);
	mc::note(d);
	mc::state(d);
	RealMatrix M = put(a);
	const RealMatrix K = put(a);
	int R0 = r0, R1 = r1, C0 = c0, C1 = c1;
	if(kind == 0)
		C0 = 0, C1 = m - 1;
	if(kind == 1)
		R0 = 0, R1 = n - 1;
	// an empty range (last = first - 1) has no elements; others must lie inside and run upwards
	bool emptyok = (kind == 2 && C1 == C0 - 1) || (kind == 3 && R1 == R0 - 1);
	bool valid = R0 < n && R1 < n && C0 < m && C1 < m && (emptyok || (R0 <= R1 && C0 <= C1));
	if(emptyok && valid)
		mc::prune(); // has no elements: nothing to see
	if(kind == 4 && (R1 == R0 - 1 || C1 == C0 - 1))
		mc::prune();
	Mat want = a;
	int N = R1 - R0 + 1, W = C1 - C0 + 1;
	const LD s = 2.5L;
	auto part = [&](function<LD(LD, int, int)> f){
			if(valid)
				for(int i = 0; i < N; i++)
					for(int j = 0; j < W; j++)
						want[R0 + i][C0 + j] = f(a[R0 + i][C0 + j], i, j);
		};
	RealVector v(valid && kind < 4 ? N * W : 1);
	for(size_t i = 0; i < v.size(); i++)
		v(i) = i + 2;
	RealMatrix B(valid ? N : 1, valid ? W : 1);
	for(size_t i = 0; i < B.nrows(); i++)
		for(size_t j = 0; j < B.ncols(); j++)
			B(i, j) = i * 3 + j + 2;
	auto sub = [&]{
			return kind == 0 ? M.row(r0) : kind == 1 ? M.column(c0) : kind == 2 ? M(r0, Range(c0, c1)) : M(Range(r0, r1), c0);
		};
	auto csub = [&]{
			return kind == 0 ? K.row(r0) : kind == 1 ? K.column(c0) : kind == 2 ? K(r0, Range(c0, c1)) : K(Range(r0, r1), c0);
		};
	string got;
	auto vi = [&](int i, int j){
			return kind < 4 ? LD(i + j + 2) : LD(i * 3 + j + 2);
		};
#define BOTH(stv, stm) thrown([&]{ if(kind < 4) { auto q = sub(); stv; } else { auto q = M(Range(r0, r1), Range(c0, c1)); stm; } })
	Vec readv, wantv;
	auto readall = [&](SubMatrix<double>& q){
			RealMatrix t(q);
			for(auto& r : get(t))
				for(LD x : r)
					readv.push_back(x);
			Vec u;
			for(size_t i = 0; i < q.nrows(); i++)
				for(size_t j = 0; j < q.ncols(); j++)
					u.push_back(q(i, j));
			if(u != readv)
				throw 5;
			RealMatrix w(K(Range(r0, r1), Range(c0, c1)));
			if(!(get(w) == get(t)))
				throw 6;
		};
	switch(op)
	{
	case 0: part([&](LD, int, int){ return s; }); got = BOTH(q = double(s), q = double(s)); break;
	case 1: part([&](LD x, int, int){ return x + s; }); got = BOTH(q += double(s), q += double(s)); break;
	case 2: part([&](LD x, int, int){ return x - s; }); got = BOTH(q -= double(s), q -= double(s)); break;
	case 3: part([&](LD x, int, int){ return x * s; }); got = BOTH(q *= double(s), q *= double(s)); break;
	case 4: part([&](LD x, int, int){ return x / s; }); got = BOTH(q /= double(s), q /= double(s)); break;
	case 5: part([&](LD, int i, int j){ return vi(i, j); }); got = BOTH(q = v, q = B); break;
	case 6: part([&](LD x, int i, int j){ return x + vi(i, j); }); got = BOTH(q += v, q += B); break;
	case 7: part([&](LD x, int i, int j){ return x - vi(i, j); }); got = BOTH(q -= v, q -= B); break;
	case 8: // reading, through the constant matrix too
		got = BOTH(readv = vget(q); Vec t = vget(RealVector(q)); if(t != readv) throw 1; t = vget(csub()); if(t != readv) throw 2, readall(q));
		if(valid)
		{
			for(int i = R0; i <= R1; i++)
				for(int j = C0; j <= C1; j++)
					wantv.push_back(a[i][j]);
			MC_CHECK(readv == wantv, "part-read", d << " reads " << str(readv));
		}
		break;
	case 9: // a single element, and one outside
		part([&](LD x, int i, int j){ return i == N - 1 && j == W - 1 ? s : x; });
		got = BOTH(q(q.size() - 1) = double(s); if(thrown([&]{ q(q.size()); }) != "RangeError") throw 3, q(q.nrows() - 1, q.ncols() - 1) = double(s); if(thrown([&]{ q(q.nrows(), 0); }) != "RangeError" || thrown([&]{ q(0, q.ncols()); }) != "RangeError") throw 4);
		break;
	}
	MC_CHECK(got == (valid ? "" : "RangeError"), "part-range", d << " throws " << got);
	MC_CHECK(diff(get(M), want) < 1e-14L, "part-operation", d << " gives " << str(get(M)) << " should be " << str(want));
}
// copying a part onto another that overlaps it gives what was there before
MC_SECTION("overlap")
{
	int n = 5, from = mc::choose(4), to = mc::choose(4), len = 1 + mc::choose(4), kind = mc::choose(3);
	if(from + len > n || to + len > n)
		mc::prune();
	mc::S d;
	d << "elements " << from << "-" << from + len - 1 << " of a " << (kind == 0 ? "vector" : kind == 1 ? "row" : "column") << " copied to " << to;
	mc::note(d);
	mc::state(d);
	RealMatrix M(kind == 2 ? n : 1, kind == 2 ? 1 : n);
	RealVector v(n);
	Vec want;
	for(int i = 0; i < n; i++)
	{
		v(i) = i + 1;
		want.push_back(i + 1);
		(kind == 2 ? M(i, 0) : M(0, i)) = i + 1;
	}
	for(int i = 0; i < len; i++)
		want[to + i] = from + i + 1;
	const RealMatrix& K = M;
	const RealVector& kv = v;
	Range f(from, from + len - 1), t(to, to + len - 1);
	if(kind == 0)
		v(t) = kv(f);
	else if(kind == 1)
		M(0, t) = K(0, f);
	else
		M(t, 0) = K(f, 0);
	for(int i = 0; i < n; i++)
		MC_CHECK((kind == 0 ? v(i) : kind == 1 ? M(0, i) : M(i, 0)) == double(want[i]), "overlapping-copy", d << " element " << i);
}
MC_SECTION("printing")
{
	int style = mc::choose(4), prec = mc::pick(vector<int>{1, 4, 16}), width = mc::pick(vector<int>{0, 1, 2, 8, 24}), adj = mc::choose(3), ovf = mc::choose(2);
	double val = mc::pick(vector<double>{0, 1, -1.5, 123456.789, -1e-7, 3.14159265358979e20});
	int what = mc::choose(3);
	OPFormat f(prec);
	f.width(width).overflow(ovf);
	if(style == 1)
		f.scientific();
	if(style == 2)
		f.fixed();
	if(style == 3)
		f.scientific().general();
	if(adj == 1)
		f.left();
	if(adj == 2)
		f.internal();
	if(!width && !ovf)
		mc::prune(); // no width to overflow
	mc::S d;
	d << (what == 0 ? "number " : what == 1 ? "integer " : "text of ") << val << " style " << style << " precision " << prec << " width " << width << " adjust " << adj << " overflow " << ovf;
	mc::note(d);
	mc::state(d);
	char buf[200];
	string body;
	if(what == 0)
	{
		snprintf(buf, sizeof buf, style == 1 ? "%.*e" : style == 2 ? "%.*f" : "%.*g", prec, val);
		body = buf;
	}
	else if(what == 1)
		body = to_string(int(fmod(val, 1e6)));
	else
		body = "text" + to_string(int(fmod(val, 1e6)));
	string want = body;
	int pad = width - int(body.size());
	if(pad > 0)
	{
		bool neg = what < 2 && body[0] == '-';
		want = adj == 1 ? body + string(pad, ' ') : adj == 2 && neg ? "-" + string(pad, ' ') + body.substr(1) : string(pad, ' ') + body;
	}
	else if(pad < 0 && !ovf)
		want = what == 2 ? (width >= 2 ? body.substr(0, width - 2) + ".." : string("..").substr(0, width)) : string(width, '*');
	string got = what == 0 ? f(val) : what == 1 ? f(int(fmod(val, 1e6))) : f(body);
	MC_CHECK(got == want, "format", d << " printed '" << got << "' should be '" << want << "'");
	if(what == 0)
	{
		RealMatrix M(2, 3);
		for(int i = 0; i < 2; i++)
			for(int j = 0; j < 3; j++)
				M(i, j) = val * (i - j) + j;
		ostringstream o;
		MatrixForm(M, o, f);
		istringstream in(o.str());
		string line;
		size_t len = 0;
		for(int i = 0; i < 2; i++)
		{
			getline(in, line);
			MC_CHECK(i == 0 || line.size() == len, "matrix-form-columns", d << " rows of different width: " << o.str());
			len = line.size();
			if(!ovf && width)
				continue;
			istringstream l(line);
			for(int j = 0; j < 3; j++)
			{
				string w1, w2;
				l >> w1;
				istringstream(f(M(i, j))) >> w2;
				if(adj != 2)
					MC_CHECK(w1 == w2, "matrix-form", d << " element " << i << "," << j << " printed " << w1 << " should be " << w2);
				else
					break;
			}
		}
	}
}
