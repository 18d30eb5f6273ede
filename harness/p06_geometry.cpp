// P06: element reference geometry
#include "mc.h"
#include "ref3d.h"
#include "MerlinIO.h"
#include "RectangularGeometry.h"
#include "ArcGeometry.h"
#include "Components.h"
#include "Drift.h"
#include "SectorBend.h"
#include "PSvectorTransform3D.h"
#include "PSvector.h"
using namespace std;
typedef AcceleratorGeometry AG;
// from a point of the reference orbit, the orbit point s further: position and local axes
static T3 orbit(double s, double h)
{
	T3 t;
	double phi = h * s;
	t.X = h == 0 ? v3(0, 0, s) : v3(-2 * pow(sin(phi / 2), 2) / h, 0, sin(phi) / h);
	V3 ez = v3(-sin(phi), 0, cos(phi)), ex = v3(cos(phi), 0, sin(phi));
	for(int i = 0; i < 3; i++)
	{
		t.R.a[0][i] = ex.v[i];
		t.R.a[1][i] = i == 1;
		t.R.a[2][i] = ez.v[i];
	}
	return t;
}
static double dist(const Transform3D& t, const T3& r)
{
	double e = 0;
	for(int k = 0; k < 4; k++)
	{
		V3 p = v3(k == 1, k == 2, k == 3), w = r.point(p);
		Point3D q = t(Point3D(p.v[0], p.v[1], p.v[2]));
		e = max({e, fabs(q.x - w.v[0]), fabs(q.y - w.v[1]), fabs(q.z - w.v[2])});
		if(isnan(q.x + q.y + q.z))
			return NAN;
	}
	return e;
}
#define SAME(t, r, key, msg) do { double mc_e_ = dist(t, r); MC_CHECK(mc_e_ < 2e-9, key, msg << " deviates by " << mc_e_); } while(0)
static void examine(const AG& g, double len, double h, const string& d)
{
	mc::note(d);
	mc::state(d);
	MC_CHECK(g.GetGeometryLength() == len, "length", d);
	AG::Extent e = g.GetGeometryExtent();
	MC_CLOSE(e.first, -len / 2, "extent", d);
	MC_CLOSE(e.second, len / 2, "extent", d);
	MC_CLOSE(ToLength(e), len, "extent-length", d);
	const int N = mc::thorough() ? 16 : 8;
	auto at = [&](int i){return i == 0 ? e.first : i == N ? e.second : e.first + len * i / N;};
	for(int i = 0; i <= N; i++)
		for(int j = 0; j <= N; j++)
		{
			Transform3D t = g.GetGeometryTransform(at(i), at(j));
			SAME(t, orbit(at(j) - at(i), h), "transform", d << " from " << at(i) << " to " << at(j));
			SAME(t * g.GetGeometryTransform(at(j), at(i)), T3(), "inverse", d << " from " << at(i) << " to " << at(j));
			for(int k = 0; k <= N; k += 2)
				SAME(g.GetGeometryTransform(at(j), at(k)) * t, orbit(at(k) - at(i), h), "compose", d << " " << i << j << k);
		}
	for(int i = 0; i <= N; i++)
		SAME(g.GetGeometryTransform(at(i)), orbit(at(i), h), "from-origin", d << " to " << at(i));
	SAME(g.GetGeometryTransform(AG::entrance), orbit(-len / 2, h), "entrance", d);
	SAME(g.GetGeometryTransform(AG::exit), orbit(len / 2, h), "exit", d);
	SAME(g.GetTotalGeometryTransform(), orbit(len, h), "total", d);
	mc::outcome(mc::S() << orbit(len, h).X.v[0]);
	for(double out : {len / 2 + 1e-6, -len / 2 - 1e-6, len, -len})
		for(int which = 0; which < 2; which++)
		{
			if(len == 0 && out == 0)
				continue;
			bool thrown = false;
			try
			{
				which ? g.GetGeometryTransform(out, 0) : g.GetGeometryTransform(0, out);
			}
			catch(AG::BeyondExtent&)
			{
				thrown = true;
			}
			MC_CHECK(thrown, "beyond-extent", d << " accepted " << out);
		}
}
static const vector<double> LEN{0, 0.1, 0.3, 1, 2.5, 15.7};
static const vector<double> CUR{0, 0.2, -0.2, 1. / 7, -1e-3, 1, M_PI, 1e-6};
MC_SECTION("straight")
{
	double l = mc::pick(LEN);
	examine(RectangularGeometry(l), l, 0, mc::S() << "straight " << l);
}
MC_SECTION("arc")
{
	double l = mc::pick(LEN), h = mc::pick(CUR);
	ArcGeometry g(l, mc::choose(2) ? h : 0.77);
	g.SetCurvature(h);
	MC_CHECK(g.GetCurvature() == h && g.GetAngle() == l * h, "angle", l << " " << h);
	examine(g, l, h, mc::S() << "arc " << l << " curvature " << h);
	mc::sample(mc::S() << "arc length " << l << " curvature " << h << ": total, boundary planes, all sub-intervals");
}
MC_SECTION("components")
{
	double l = mc::pick(LEN), h = mc::pick(CUR);
	SectorBend b("b", l, h, 0.1);
	MC_CHECK(b.GetLength() == l, "component-length", l);
	examine(*static_cast<AcceleratorComponent&>(b).GetGeometry(), l, h, mc::S() << "bend " << l << " " << h);
	Drift dr("d", l);
	Quadrupole q("q", l, 1.2);
	MC_CHECK(dr.GetLength() == l && q.GetLength() == l, "component-length", l);
	examine(*static_cast<AcceleratorComponent&>(dr).GetGeometry(), l, 0, mc::S() << "drift " << l);
	examine(*static_cast<AcceleratorComponent&>(q).GetGeometry(), l, 0, mc::S() << "quad " << l);
	AcceleratorComponent* c = static_cast<AcceleratorComponent*>(b.Copy());
	examine(*c->GetGeometry(), l, h, mc::S() << "copied bend " << l << " " << h);
	delete c;
}
