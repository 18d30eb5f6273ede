// reference rigid transforms: p -> R (p - X), plain matrices
#ifndef REF3D_H
#define REF3D_H
#include <array>
#include <cmath>
struct M3
{
	double a[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
};
struct V3
{
	double v[3] = {0, 0, 0};
};
inline M3 operator*(const M3& x, const M3& y)
{
	M3 r;
	for(int i = 0; i < 3; i++)
		for(int j = 0; j < 3; j++)
		{
			r.a[i][j] = 0;
			for(int k = 0; k < 3; k++)
				r.a[i][j] += x.a[i][k] * y.a[k][j];
		}
	return r;
}
inline V3 operator*(const M3& x, const V3& y)
{
	V3 r;
	for(int i = 0; i < 3; i++)
		for(int k = 0; k < 3; k++)
			r.v[i] += x.a[i][k] * y.v[k];
	return r;
}
inline M3 transpose(const M3& x)
{
	M3 r;
	for(int i = 0; i < 3; i++)
		for(int j = 0; j < 3; j++)
			r.a[i][j] = x.a[j][i];
	return r;
}
inline M3 axisrot(int axis, double phi)
{
	M3 r;
	int i = (axis + 1) % 3, j = (axis + 2) % 3;
	r.a[i][i] = r.a[j][j] = std::cos(phi);
	r.a[i][j] = std::sin(phi);
	r.a[j][i] = -std::sin(phi);
	return r;
}
inline V3 v3(double x, double y, double z)
{
	V3 r;
	r.v[0] = x;
	r.v[1] = y;
	r.v[2] = z;
	return r;
}
inline V3 operator+(const V3& a, const V3& b)
{
	return v3(a.v[0] + b.v[0], a.v[1] + b.v[1], a.v[2] + b.v[2]);
}
inline V3 operator-(const V3& a, const V3& b)
{
	return v3(a.v[0] - b.v[0], a.v[1] - b.v[1], a.v[2] - b.v[2]);
}
struct T3
{
	M3 R;
	V3 X;
	V3 point(const V3& p) const
	{
		return R * (p - X);
	}
	V3 vec(const V3& p) const
	{
		return R * p;
	}
};
// a after b
inline T3 operator*(const T3& a, const T3& b)
{
	T3 r;
	r.R = a.R * b.R;
	r.X = b.X + transpose(b.R) * a.X;
	return r;
}
inline T3 inverse(const T3& a)
{
	T3 r;
	r.R = transpose(a.R);
	r.X = v3(0, 0, 0) - a.R * a.X;
	return r;
}
inline T3 trot(int axis, double phi)
{
	T3 r;
	r.R = axisrot(axis, phi);
	return r;
}
inline T3 ttrans(double x, double y, double z)
{
	T3 r;
	r.X = v3(x, y, z);
	return r;
}
// change of orientation by pi about an axis: P T P
inline T3 conjpi(const T3& t, int axis)
{
	M3 P;
	for(int i = 0; i < 3; i++)
		P.a[i][i] = i == axis ? 1 : -1;
	T3 r;
	r.R = P * t.R * P;
	r.X = P * t.X;
	return r;
}
// ray (x,y,x',y') at z=0 expressed on the plane z=0 of the new frame
inline void rayto(const T3& t, double& x, double& y, double& xp, double& yp)
{
	V3 p = t.point(v3(x, y, 0)), d = t.vec(v3(xp, yp, 1));
	xp = d.v[0] / d.v[2];
	yp = d.v[1] / d.v[2];
	x = p.v[0] - p.v[2] * xp;
	y = p.v[1] - p.v[2] * yp;
}
#endif
