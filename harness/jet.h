// Second-order Taylor maps (jets) of the motion in a magnet, by integrating the exact equations of motion
// with truncated power series in the six phase-space variables. Independent of the library.
#ifndef JET_H
#define JET_H
#include <array>
#include <cmath>
#include <map>
#include <vector>
struct Jet
{
	double c;
	std::array<double, 6> l;
	std::array<double, 36> q; // symmetric: value = sum q[j][k] z_j z_k
	Jet(double v = 0) :
		c(v)
	{
		l.fill(0);
		q.fill(0);
	}
	static Jet var(int i, double at = 0)
	{
		Jet j(at);
		j.l[i] = 1;
		return j;
	}
	Jet& operator+=(const Jet& b)
	{
		c += b.c;
		for(int i = 0; i < 6; i++)
			l[i] += b.l[i];
		for(int i = 0; i < 36; i++)
			q[i] += b.q[i];
		return *this;
	}
	Jet& operator*=(double s)
	{
		c *= s;
		for(auto& v : l)
			v *= s;
		for(auto& v : q)
			v *= s;
		return *this;
	}
	Jet f(double f0, double f1, double f2) const
	{
		Jet r(f0);
		for(int i = 0; i < 6; i++)
			r.l[i] = f1 * l[i];
		for(int i = 0; i < 6; i++)
			for(int j = 0; j < 6; j++)
				r.q[6 * i + j] = f1 * q[6 * i + j] + f2 / 2 * l[i] * l[j];
		return r;
	}
	double operator()(const double* z) const
	{
		double v = c;
		for(int i = 0; i < 6; i++)
		{
			v += l[i] * z[i];
			for(int j = 0; j < 6; j++)
				v += q[6 * i + j] * z[i] * z[j];
		}
		return v;
	}
};
inline Jet operator+(Jet a, const Jet& b)
{
	return a += b;
}
inline Jet operator*(Jet a, double s)
{
	return a *= s;
}
inline Jet operator*(double s, Jet a)
{
	return a *= s;
}
inline Jet operator-(const Jet& a)
{
	return a * -1.0;
}
inline Jet operator-(const Jet& a, const Jet& b)
{
	return a + b * -1.0;
}
inline Jet operator*(const Jet& a, const Jet& b)
{
	Jet r(a.c * b.c);
	for(int i = 0; i < 6; i++)
		r.l[i] = a.c * b.l[i] + b.c * a.l[i];
	for(int i = 0; i < 6; i++)
		for(int j = 0; j < 6; j++)
			r.q[6 * i + j] = a.c * b.q[6 * i + j] + b.c * a.q[6 * i + j] + (a.l[i] * b.l[j] + a.l[j] * b.l[i]) / 2;
	return r;
}
inline Jet inv(const Jet& a)
{
	return a.f(1 / a.c, -1 / (a.c * a.c), 2 / (a.c * a.c * a.c));
}
inline Jet sqrt(const Jet& a)
{
	double r = std::sqrt(a.c);
	return a.f(r, .5 / r, -.25 / (r * r * r));
}
inline Jet operator/(const Jet& a, const Jet& b)
{
	return a * inv(b);
}
inline double inv(double x)
{
	return 1 / x;
}
template<class T> using Six = std::array<T, 6>;
template<class T, class F> Six<T> rk4(Six<T> z, F f, double L, int n)
{
	double h = L / n;
	for(int k = 0; k < n; k++)
	{
		Six<T> k1 = f(z), t, k2, k3, k4;
		for(int i = 0; i < 6; i++)
			t[i] = z[i] + k1[i] * (h / 2);
		k2 = f(t);
		for(int i = 0; i < 6; i++)
			t[i] = z[i] + k2[i] * (h / 2);
		k3 = f(t);
		for(int i = 0; i < 6; i++)
			t[i] = z[i] + k3[i] * h;
		k4 = f(t);
		for(int i = 0; i < 6; i++)
			z[i] = z[i] + (k1[i] + k2[i] * 2.0 + k3[i] * 2.0 + k4[i]) * (h / 6);
	}
	return z;
}
// exact motion in canonical momenta (px/p0, py/p0), curvature h, field (normalised to the reference) with gradient k1, sextupole k2
template<class T> Six<T> exactEOM(const Six<T>& z, double h, double k1, double k2)
{
	using std::sqrt;
	const T& x = z[0], & px = z[1], & y = z[2], & py = z[3], & d = z[5];
	T one(1.0), d1 = one + d;
	T ps = sqrt(d1 * d1 - px * px - py * py), g = one + x * h;
	T By = one * h + x * k1 + (x * x) * (k2 / 2) - (y * y) * ((k2 + h * k1) / 2), Bx = y * k1 + (x * y) * k2;
	return {g * px / ps, ps * h - g * By, g * py / ps, g * Bx, one - g * d1 / ps, T(0.0)};
}
// motion of the expanded Hamiltonian -(1+d)(1+hx)... + (px^2+py^2)/2(1+d)
template<class T> Six<T> expandedEOM(const Six<T>& z, double h, double k1)
{
	const T& x = z[0], & px = z[1], & y = z[2], & py = z[3], & d = z[5];
	T one(1.0), d1 = one + d, i1 = inv(d1);
	return {px * i1, x * -(h * h + k1) + d * h, py * i1, y * k1, x * -h - (px * px + py * py) * (i1 * i1) * 0.5, T(0.0)};
}
typedef Six<Jet> JetMap;
enum JetKind { slopes, canonical, expanded };
inline const JetMap& jetmap(JetKind kind, double L, double h, double k1, double k2, double delta = 0)
{
	static std::map<std::array<double, 6>, JetMap> memo;
	std::array<double, 6> key{double(kind), L, h, k1, k2, delta};
	auto it = memo.find(key);
	if(it != memo.end())
		return it->second;
	JetMap z;
	for(int i = 0; i < 6; i++)
		z[i] = Jet::var(i, i == 5 ? delta : 0);
	int n = 160;
	if(kind == slopes)
	{
		Jet a = z[1], b = z[3], pz = (Jet(1) + z[5]) / sqrt(Jet(1) + a * a + b * b);
		z[1] = a * pz;
		z[3] = b * pz;
	}
	if(kind == expanded)
		z = rk4(z, [&](const JetMap& m) { return expandedEOM(m, h, k1); }, L, n);
	else
		z = rk4(z, [&](const JetMap& m) { return exactEOM(m, h, k1, k2); }, L, n);
	if(kind == slopes)
	{
		Jet d1 = Jet(1) + z[5], ps = sqrt(d1 * d1 - z[1] * z[1] - z[3] * z[3]);
		z[1] = z[1] / ps;
		z[3] = z[3] / ps;
	}
	return memo[key] = z;
}
#endif
