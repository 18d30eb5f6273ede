// P05: rigid transform algebra
#include "mc.h"
#include "ref3d.h"
#include "MerlinIO.h"
#include "Transform3D.h"
#include "Transform2D.h"
#include "PSvectorTransform3D.h"
#include "PSvector.h"
#include "LinearAlgebra.h"
using namespace std;
static const vector<double> ANG{0, M_PI / 2, -0.3, M_PI, 4e-9, 2.5};
static const vector<V3> PTS{v3(1, 0, 0), v3(0, 1, 0), v3(0, 0, 1), v3(0.3, -2, 5)};
#define EQ(got, want, key, msg) MC_CLOSET(got, want, 1e-13, 3e-15, key, msg)
static Rotation3D rot(int axis, double a)
{
	return axis == 0 ? Rotation3D::rotationX(a) : axis == 1 ? Rotation3D::rotationY(a) : Rotation3D::rotationZ(a);
}
static Transform3D trf(int axis, double a)
{
	return axis == 0 ? Transform3D::rotationX(a) : axis == 1 ? Transform3D::rotationY(a) : Transform3D::rotationZ(a);
}
static void same(const Rotation3D& r, const M3& m, const char* key, const string& d)
{
	for(auto& p : PTS)
	{
		V3 w = m * p;
		Point3D q = r(Point3D(p.v[0], p.v[1], p.v[2]));
		Vector3D v = r(Vector3D(p.v[0], p.v[1], p.v[2]));
		EQ(q.x, w.v[0], key, d << " x");
		EQ(q.y, w.v[1], key, d << " y");
		EQ(q.z, w.v[2], key, d << " z");
		MC_CHECK(v.x == q.x && v.y == q.y && v.z == q.z, "vector-rotation", d);
	}
	RealMatrix g(3, 3);
	r.getMatrix(g);
	for(int i = 0; i < 3; i++)
		for(int j = 0; j < 3; j++)
			EQ(g(i, j), m.a[i][j], "matrix", d << " element " << i << j);
	// predicates never claim more than the matrix shows
	double e = 0, ex = 0, ey = 0, ez = 0;
	for(int i = 0; i < 3; i++)
		for(int j = 0; j < 3; j++)
		{
			double v = fabs(m.a[i][j] - (i == j));
			e = max(e, v);
			if(i == 0 || j == 0)
				ex = max(ex, v);
			if(i == 1 || j == 1)
				ey = max(ey, v);
			if(i == 2 || j == 2)
				ez = max(ez, v);
		}
	if(r.isIdentity())
		MC_CHECK(e < 1e-12, "identity-predicate", d << " deviates by " << e);
	if(r.isXrot())
		MC_CHECK(ex < 1e-12, "xrot-predicate", d);
	if(r.isYrot())
		MC_CHECK(ey < 1e-12, "yrot-predicate", d);
	if(r.isZrot())
		MC_CHECK(ez < 1e-12, "zrot-predicate", d);
	mc::outcome(to_string(r.type()) + to_string(r.isIdentity()));
}
MC_SECTION("rotations")
{
	int n = 1 + mc::choose(mc::thorough() ? 4 : 3);
	Rotation3D r;
	M3 m;
	string d;
	for(int i = 0; i < n; i++)
	{
		int ax = mc::choose(3);
		double a = mc::pick(ANG);
		bool inv = i == 0 && mc::choose(2);
		Rotation3D g = rot(ax, a);
		M3 h = axisrot(ax, a);
		r = inv ? g.inv() * r : g * r;
		m = (inv ? transpose(h) : h) * m;
		d += string(1, "XYZ"[ax]) + to_string(a) + (inv ? "i " : " ");
	}
	mc::note(d);
	mc::state(d);
	same(r, m, "compose", d);
	same(r.inv(), transpose(m), "inverse", d);
	M3 I;
	same(r * r.inv(), I, "r*inv", d);
	same(r.inv() * r, I, "inv*r", d);
	T3 t;
	t.R = m;
	same(r.rotXbyPI(), conjpi(t, 0).R, "rotXbyPI", d);
	same(r.rotYbyPI(), conjpi(t, 1).R, "rotYbyPI", d);
	same(r.rotZbyPI(), conjpi(t, 2).R, "rotZbyPI", d);
	same(r * r, m * m, "square", d);
	same(r * rot(0, 0.7), m * axisrot(0, 0.7), "times-axis", d);
	if(n == 3)
		mc::sample(d);
}
MC_SECTION("rotation_products")
{
	// product of two arbitrary compositions: all pairs of representation kinds
	auto mk = [](M3& m){
		Rotation3D r;
		int n = mc::choose(3);
		for(int i = 0; i < n; i++)
		{
			int ax = mc::choose(3);
			double a = ANG[1 + mc::choose(3)];
			r = rot(ax, a) * r;
			m = axisrot(ax, a) * m;
		}
		return r;
	};
	M3 a, b;
	Rotation3D A = mk(a), B = mk(b);
	mc::state(mc::S() << a.a[0][0] << " " << a.a[0][1] << " " << a.a[1][0] << " " << a.a[2][1] << "|" << b.a[0][0] << " " << b.a[0][1] << " " << b.a[1][0] << " " << b.a[2][1]);
	same(A * B, a * b, "product", "A*B");
	Rotation3D C(A);
	C = C;
	C = B;
	C = A;
	{
		Rotation3D D(B);
		D = C;
	}
	same(C, a, "copy", "copy");
	same((A * B).inv(), transpose(b) * transpose(a), "product-inverse", "(AB)^-1");
}
struct Gen
{
	Transform3D t;
	T3 r;
	string d;
};
static const vector<Gen>& gens()
{
	static vector<Gen> g;
	if(g.empty())
	{
		auto add = [&](Transform3D t, T3 r, string d){g.push_back({t, r, d});};
		add(Transform3D(), T3(), "I");
		for(int ax = 0; ax < 3; ax++)
			for(double a : {0.4, -M_PI / 2})
				add(trf(ax, a), trot(ax, a), string("R") + "XYZ"[ax] + to_string(a));
		add(Transform3D::translation(1, 0, 0), ttrans(1, 0, 0), "Tx");
		add(Transform3D::translation(0, -2, 0), ttrans(0, -2, 0), "Ty");
		add(Transform3D::translation(0.5, 0.25, 3), ttrans(0.5, 0.25, 3), "Txyz");
		T3 c = trot(1, 0.2) * ttrans(0.1, 0.2, 0.3);
		add(Transform3D(Point3D(0.1, 0.2, 0.3), Rotation3D::rotationY(0.2)), c, "XR");
		add(trf(2, M_PI), trot(2, M_PI), "RZpi");
	}
	return g;
}
static void same(const Transform3D& t, const T3& r, const char* key, const string& d)
{
	for(auto& p : PTS)
	{
		V3 w = r.point(p), wv = r.vec(p);
		Point3D q = t(Point3D(p.v[0], p.v[1], p.v[2])), q2 = t * Point3D(p.v[0], p.v[1], p.v[2]);
		Vector3D v = t(Vector3D(p.v[0], p.v[1], p.v[2])), v2 = t * Vector3D(p.v[0], p.v[1], p.v[2]);
		MC_CLOSET(q.x, w.v[0], 1e-12, 1e-14, key, d << " px");
		MC_CLOSET(q.y, w.v[1], 1e-12, 1e-14, key, d << " py");
		MC_CLOSET(q.z, w.v[2], 1e-12, 1e-14, key, d << " pz");
		MC_CLOSET(v.x, wv.v[0], 1e-12, 1e-14, key, d << " vx");
		MC_CLOSET(v.y, wv.v[1], 1e-12, 1e-14, key, d << " vy");
		MC_CLOSET(v.z, wv.v[2], 1e-12, 1e-14, key, d << " vz");
		MC_CHECK(q2.x == q.x && q2.y == q.y && q2.z == q.z && v2.x == v.x && v2.y == v.y && v2.z == v.z, "operator-star", d);
	}
	MC_CLOSET(t.X().x, r.X.v[0], 1e-12, 1e-14, key, d << " X");
	MC_CLOSET(t.X().y, r.X.v[1], 1e-12, 1e-14, key, d << " Y");
	MC_CLOSET(t.X().z, r.X.v[2], 1e-12, 1e-14, key, d << " Z");
	if(t.isIdentity())
	{
		double e = 0;
		for(int i = 0; i < 3; i++)
		{
			e = max(e, fabs(r.X.v[i]));
			for(int j = 0; j < 3; j++)
				e = max(e, fabs(r.R.a[i][j] - (i == j)));
		}
		MC_CHECK(e < 1e-12, "identity-predicate", d);
	}
}
MC_SECTION("transforms")
{
	int n = 1 + mc::choose(mc::thorough() ? 4 : 3);
	Transform3D t;
	T3 r;
	string d;
	for(int i = 0; i < n; i++)
	{
		const Gen& g = mc::pick(gens());
		d += g.d + " ";
		if(i % 2)
			t *= g.t;
		else
			t = g.t * t;
		r = g.r * r;
	}
	mc::note(d);
	mc::state(d);
	mc::outcome(mc::S() << r.X.v[0] << r.R.a[0][1]);
	same(t, r, "compose", d);
	same(t.inv(), inverse(r), "inverse", d);
	Transform3D i(t);
	i.invert();
	same(i, inverse(r), "invert", d);
	same(t * i, T3(), "t*inv", d);
	same(i * t, T3(), "inv*t", d);
	for(int ax = 0; ax < 3; ax++)
	{
		Transform3D c(t);
		ax == 0 ? c.rotXbyPI() : ax == 1 ? c.rotYbyPI() : c.rotZbyPI();
		same(c, conjpi(r, ax), "rotbyPI", d + "axis " + to_string(ax));
	}
	if(n == 3)
		mc::sample(d);
}
MC_SECTION("rays")
{
	// particle coordinates through a transform: the ray is the same line in space
	const vector<Gen>& G = gens();
	Transform3D t;
	T3 r;
	string d;
	int n = 1 + mc::choose(2);
	for(int i = 0; i < n; i++)
	{
		int k = mc::choose(G.size());
		if(G[k].d.find("-1.57") != string::npos && G[k].d.find("RZ") == string::npos)
			mc::prune(); // plane parallel to the ray
		t = G[k].t * t;
		r = G[k].r * r;
		d += G[k].d + " ";
	}
	static const vector<double> c{0, 1e-3, -2e-2};
	PSvector p(0);
	p.x() = mc::pick(c);
	p.xp() = mc::pick(c);
	p.y() = mc::pick(c);
	p.yp() = mc::pick(c);
	p.ct() = 0.5;
	p.dp() = -0.25;
	PSvector q(p), in(p);
	double x = p.x(), y = p.y(), xp = p.xp(), yp = p.yp();
	rayto(r, x, y, xp, yp);
	PSvectorTransform3D T(t);
	T.Apply(p);
	mc::state(mc::S() << d << x << y << xp << yp);
	MC_CLOSET(p.x(), x, 1e-12, 1e-15, "ray-x", d);
	MC_CLOSET(p.y(), y, 1e-12, 1e-15, "ray-y", d);
	MC_CLOSET(p.xp(), xp, 1e-12, 1e-15, "ray-xp", d);
	MC_CLOSET(p.yp(), yp, 1e-12, 1e-15, "ray-yp", d);
	MC_CHECK(p.ct() == 0.5 && p.dp() == -0.25, "ray-longitudinal", d);
	T(q);
	MC_CHECK(q == p, "ray-call", d);
	PSvectorArray a(3, in);
	T.Apply(a);
	MC_CHECK(a.size() == 3 && a[0] == p && a[1] == p && a[2] == p, "ray-array", d);
	// there and back again
	PSvectorTransform3D B(t.inv());
	B.Apply(p);
	MC_CLOSET(p.x(), in.x(), 1e-10, 1e-14, "ray-back", d);
	MC_CLOSET(p.yp(), in.yp(), 1e-10, 1e-14, "ray-back", d);
}
MC_SECTION("planar")
{
	struct R2 { double c = 1, s = 0, x = 0, y = 0; };
	Transform2D t;
	R2 r;
	string d;
	int n = 1 + mc::choose(3);
	static const vector<double> tr{0, 1.5, -0.25};
	for(int i = 0; i < n; i++)
	{
		double a = mc::pick(ANG), dx = mc::pick(tr), dy = i == 2 ? 0.75 : mc::pick(tr);
		d += mc::S() << a << "," << dx << "," << dy << " ";
		Transform2D g(dx, dy, a);
		if(i % 2)
			t *= g;
		else
			t = g * t;
		// q = R(p) - x0 applied after r
		double c = cos(a), s = sin(a);
		R2 u;
		u.c = c * r.c - s * r.s;
		u.s = s * r.c + c * r.s;
		u.x = c * r.x - s * r.y + dx;
		u.y = s * r.x + c * r.y + dy;
		r = u;
	}
	mc::state(d);
	mc::note(d);
	static const double P[3][2] = {{1, 0}, {0, 1}, {-2, 0.5}};
	for(auto& p : P)
	{
		double wx = r.c * p[0] - r.s * p[1] - r.x, wy = r.s * p[0] + r.c * p[1] - r.y;
		Point2D q = t(Point2D(p[0], p[1]));
		MC_CLOSET(q.x, wx, 1e-12, 1e-14, "planar-x", d);
		MC_CLOSET(q.y, wy, 1e-12, 1e-14, "planar-y", d);
		Vector2D v = t(Vector2D(p[0], p[1]));
		MC_CLOSET(v.x, wx + r.x, 1e-12, 1e-14, "planar-vx", d);
		MC_CLOSET(v.y, wy + r.y, 1e-12, 1e-14, "planar-vy", d);
		Point2D b = t.inv()(q);
		MC_CLOSET(b.x, p[0], 1e-12, 1e-14, "planar-inv-x", d);
		MC_CLOSET(b.y, p[1], 1e-12, 1e-14, "planar-inv-y", d);
	}
	if(t.isIdentity())
		MC_CHECK(r.c > 0 && fabs(r.s) < 1e-12 && fabs(r.x) < 1e-12 && fabs(r.y) < 1e-12, "planar-identity", d);
	mc::outcome(to_string(t.isIdentity()));
}
