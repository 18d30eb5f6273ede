// P25: apertures contain exactly the points of their shape
#include "mc.h"
#include "MerlinIO.h"
#include "Aperture.h"
#include "CollimatorAperture.h"
#include "DataTable.h"
#include <memory>
#include <sstream>
using namespace std;
typedef long double LD;
static const LD PIL = acosl(-1.0L);
// >0 inside, <0 outside
static LD rectg(LD w, LD h, LD x, LD y)
{
	return min((w - fabsl(x)) / w, (h - fabsl(y)) / h);
}
static LD ellg(LD a, LD b, LD x, LD y)
{
	return 1 - sqrtl(x * x / (a * a) + y * y / (b * b));
}
static LD octg(LD w, LD h, LD a1, LD a2, LD x, LD y)
{
	// corner points of the first quadrant
	LD px = w, py = w * tanl(a1), qx = h / tanl(a2), qy = h;
	LD ux = qx - px, uy = qy - py, n = hypotl(ux, uy);
	LD dist = (ux * (fabsl(y) - py) - uy * (fabsl(x) - px)) / n;
	return min(rectg(w, h, x, y), dist / max(w, h));
}
// directions in the plane
static const vector<double>& dirs()
{
	static vector<double> v;
	if(v.empty())
		for(int i = 0; i < 48; i++)
			v.push_back(2 * M_PI * i / 48 + (i % 4 == 0 ? 0 : 1e-3));
	return v;
}
// points along each direction, next to the boundary of g and elsewhere
template<class G> static vector<pair<double, double> > points(G g, double cx, double cy, double size)
{
	vector<pair<double, double> > v{{cx, cy}};
	for(double t : dirs())
	{
		double c = cos(t), s = sin(t);
		LD lo = 0, hi = 8 * size;
		if(g(cx, cy) > 0 && g(cx + hi * c, cy + hi * s) < 0)
			for(int i = 0; i < 80; i++)
			{
				LD m = (lo + hi) / 2;
				(g(cx + m * c, cy + m * s) > 0 ? lo : hi) = m;
			}
		for(LD r : {lo * (1 - 1e-9L), lo * (1 + 1e-9L), lo * 0.9L, lo * 1.1L, lo * 0.3L, lo * 3, LD(size), size * 1e-12L})
			v.push_back({double(cx + r * c), double(cy + r * s)});
	}
	return v;
}
template<class G> static void inside(const Aperture& a, G g, double cx, double cy, double size, double z, const string& d)
{
	for(auto& p : points(g, cx, cy, size))
	{
		mc::step();
		LD v = g(p.first, p.second);
		if(fabsl(v) < 1e-11L)
			continue;
		bool in = a.CheckWithinApertureBoundaries(p.first, p.second, z);
		MC_CHECK(in == (v > 0), v > 0 ? "stopped-inside" : "passed-outside", d << ": point " << p.first << "," << p.second << " at z " << z << " is " << (v > 0 ? "inside" : "outside") << " but was taken as " << (in ? "inside" : "outside"));
	}
}
static unique_ptr<Aperture> viaTable(const string& type, double s, vector<double> a, bool& known)
{
	DataTable dt;
	dt.AddColumn("APERTYPE", 's');
	dt.AddColumn("S", 'd');
	dt.AddColumn("L", 'd');
	for(string c : {"APER_1", "APER_2", "APER_3", "APER_4"})
		dt.AddColumn(c, 'd');
	dt.AddRow();
	dt.Set("APERTYPE", 0, type);
	dt.Set_d("S", 0, s);
	dt.Set_d("L", 0, 1);
	for(int i = 0; i < 4; i++)
		dt.Set_d("APER_" + to_string(i + 1), 0, a[i]);
	ApertureFactory f;
	unique_ptr<Aperture> p(f.GetInstance(*dt.begin()));
	known = p != nullptr;
	return p;
}
MC_SECTION("shapes")
{
	int kind = mc::choose(6);
	auto dims = vector<double>{1, 0.3, 2.5e-3, 40};
	double w = mc::pick(dims), h = mc::pick(dims);
	double z = mc::pick(vector<double>{0, 0.7, -1, 1e6});
	bool table = mc::choose(2);
	double s = mc::pick(vector<double>{0, 12.5});
	mc::S d;
	unique_ptr<Aperture> a;
	function<LD(LD, LD)> g;
	bool known = true;
	string type;
	vector<double> get;
	switch(kind)
	{
	case 0:
		if(h != 1)
			return mc::prune();
		type = "CIRCLE";
		d << "circle " << w;
		a = table ? viaTable("CIRCLE", s, {w, 0, 0, 0}, known) : s ? unique_ptr<Aperture>(new CircularAperture("CIRCLE", s, w)) : unique_ptr<Aperture>(new CircularAperture(w));
		g = [=](LD x, LD y) { return ellg(w, w, x, y); };
		MC_CHECK(dynamic_cast<CircularAperture*>(a.get()) && dynamic_cast<CircularAperture*>(a.get())->GetRadius() == w, "getters", d);
		break;
	case 1:
	{
		type = "RECTANGLE";
		d << "rectangle " << w << "," << h;
		a = table ? viaTable("RECTANGLE", s, {w, h, 0, 0}, known) : s ? unique_ptr<Aperture>(new RectangularAperture("RECTANGLE", s, w, h)) : unique_ptr<Aperture>(new RectangularAperture(w, h));
		g = [=](LD x, LD y) { return rectg(w, h, x, y); };
		auto r = dynamic_cast<RectangularAperture*>(a.get());
		MC_CHECK(r && r->GetRectHalfX() == w && r->GetRectHalfY() == h, "getters", d);
		break;
	}
	case 2:
	{
		type = "ELLIPSE";
		int col = mc::choose(2);
		d << "ellipse " << w << "," << h;
		if(table && col)
			a = viaTable("ELLIPSE", s, {77, 88, w, h}, known);
		else
			a = table ? viaTable("ELLIPSE", s, {w, h, 0, 0}, known) : unique_ptr<Aperture>(new EllipticalAperture("ELLIPSE", s, w, h));
		g = [=](LD x, LD y) { return ellg(w, h, x, y); };
		auto r = dynamic_cast<EllipticalAperture*>(a.get());
		MC_CHECK(r && r->GetEllipHalfX() == w && r->GetEllipHalfY() == h, "getters", d);
		break;
	}
	case 3:
	{
		type = "RECTELLIPSE";
		double a3 = w * mc::pick(vector<double>{1, 1.3, 0.8, 5}), a4 = h * mc::pick(vector<double>{1, 1.2, 0.9, 7});
		d << "rectellipse " << w << "," << h << "," << a3 << "," << a4;
		a = table ? viaTable("RECTELLIPSE", s, {w, h, a3, a4}, known) : unique_ptr<Aperture>(new RectEllipseAperture("RECTELLIPSE", s, w, h, a3, a4));
		g = [=](LD x, LD y) { return min(rectg(w, h, x, y), ellg(a3, a4, x, y)); };
		auto r = dynamic_cast<RectEllipseAperture*>(a.get());
		MC_CHECK(r && r->GetRectHalfX() == w && r->GetRectHalfY() == h && r->GetEllipHalfX() == a3 && r->GetEllipHalfY() == a4, "getters", d);
		break;
	}
	case 4:
	{
		type = "OCTAGON";
		// corners of the octagon lie before and after the corner of the rectangle
		double c = atan2(h, w);
		double a1 = c * mc::pick(vector<double>{0, 0.5, 0.9}), a2 = c + (M_PI / 2 - c) * mc::pick(vector<double>{0.1, 0.5, 0.999});
		d << "octagon " << w << "," << h << "," << a1 << "," << a2;
		a = table ? viaTable("OCTAGON", s, {w, h, a1, a2}, known) : unique_ptr<Aperture>(new OctagonalAperture("OCTAGON", s, w, h, a1, a2));
		g = [=](LD x, LD y) { return octg(w, h, a1, a2, x, y); };
		auto r = dynamic_cast<OctagonalAperture*>(a.get());
		MC_CHECK(r && r->GetRectHalfX() == w && r->GetRectHalfY() == h && r->GetAngle1() == a1 && r->GetAngle2() == a2, "getters", d);
		break;
	}
	case 5: // unknown types have no aperture
		if(!table || w != 1 || h != 1)
			return mc::prune();
		for(string t : {"", "circle", "RACETRACK", "CIRCLE "})
		{
			a = viaTable(t, s, {1, 1, 1, 1}, known);
			MC_CHECK(!known, "unknown", "aperture of type '" << t << "' was made a " << (a ? a->GetType() : ""));
		}
		return;
	}
	MC_CHECK(known && a, "known", d << ": no aperture was made");
	mc::note(d);
	mc::state(d);
	MC_CHECK(a->GetType() == type, "type", d << ": type is " << a->GetType());
	if(table || s)
	{
		MC_CHECK(a->GetLatticeLocation() == s, "location", d << ": location " << a->GetLatticeLocation());
		ostringstream o;
		a->printout(o);
		MC_CHECK(o.str().find(type + "(") == 0, "printed", d << ": printed as " << o.str());
	}
	a->SetLatticeLocation(3.25);
	MC_CHECK(a->GetLatticeLocation() == 3.25, "location", d);
	inside(*a, g, 0, 0, max(w, h), z, d);
	mc::sample(d);
}
MC_SECTION("boundary")
{
	// particles exactly on the wall are lost
	RectangularAperture r(0.5, 0.25);
	CircularAperture c(5);
	EllipticalAperture e("ELLIPSE", 0, 4, 2);
	RectEllipseAperture re("RECTELLIPSE", 0, 0.5, 0.25, 4, 2);
	for(int sx : {-1, 1})
		for(int sy : {-1, 1})
		{
			MC_CHECK(!r.CheckWithinApertureBoundaries(sx * 0.5, sy * 0.1, 0) && !r.CheckWithinApertureBoundaries(sx * 0.1, sy * 0.25, 0) && !r.CheckWithinApertureBoundaries(sx * 0.5, sy * 0.25, 0), "rectangle", "point on the wall of a rectangle is inside");
			MC_CHECK(!c.CheckWithinApertureBoundaries(sx * 3, sy * 4, 0) && !c.CheckWithinApertureBoundaries(sx * 5, 0, 0) && !c.CheckWithinApertureBoundaries(0, sy * 5, 0), "circle", "point on the wall of a circle is inside");
			MC_CHECK(!e.CheckWithinApertureBoundaries(sx * 4, 0, 0) && !e.CheckWithinApertureBoundaries(0, sy * 2, 0), "ellipse", "point on the wall of an ellipse is inside");
			MC_CHECK(!re.CheckWithinApertureBoundaries(sx * 0.5, sy * 0.1, 0) && !re.CheckWithinApertureBoundaries(sx * 0.1, sy * 0.25, 0), "rectellipse", "point on the wall of a rectellipse is inside");
		}
	mc::state("boundary");
}
MC_SECTION("collimators")
{
	int kind = mc::choose(4);
	double w = mc::pick(vector<double>{2e-3, 0.1}), h = mc::pick(vector<double>{1e-3, 0.08});
	double tilt = mc::pick(vector<double>{0, 0.4, M_PI / 2, -2.2});
	double L = mc::pick(vector<double>{1, 0.6});
	auto off = mc::pick(vector<pair<double, double> >{{0, 0}, {3e-4, 0}, {-2e-4, 1e-3}});
	mc::S d;
	LD w2 = w, h2 = h, ox2 = 0, oy2 = 0;
	unique_ptr<CollimatorAperture> a;
	bool side = true;
	double w1 = w, h1 = h;
	bool reset = mc::choose(2); // entrance set after construction
	double cw = reset ? 0.5 : w, ch = reset ? 3 : h;
	if(kind < 2)
	{
		d << "collimator ";
		a.reset(new CollimatorAperture(cw, ch, tilt, L, off.first, off.second));
		MC_CHECK(a->GetType() == "COLLIMATOR", "type", d << a->GetType());
	}
	else if(kind == 2)
	{
		d << "unaligned collimator ";
		a.reset(new UnalignedCollimatorAperture(cw, ch, tilt, L, off.first, off.second));
		MC_CHECK(a->GetType() == "UNALIGNED COLLIMATOR", "type", d << a->GetType());
	}
	else
	{
		side = mc::choose(2);
		d << "one-sided collimator (" << side << ") ";
		bool via = mc::choose(2);
		auto* o = new OneSidedUnalignedCollimatorAperture(cw, ch, tilt, L, off.first, off.second, via ? side : !side);
		a.reset(o);
		if(!via)
			o->SetJawSide(side);
		MC_CHECK(a->GetType() == "ONE-SIDED COLLIMATOR" && o->GetJawSide() == side, "type", d << a->GetType());
	}
	if(reset)
	{
		if(mc::choose(2))
		{
			a->SetEntranceWidth(w);
			a->SetEntranceHeight(h);
		}
		else
		{
			a->SetEntranceHeight(h);
			a->SetEntranceWidth(w);
		}
	}
	d << w << "x" << h << " tilt " << tilt << " length " << L << " offset " << off.first << "," << off.second << " set " << reset;
	if(kind < 2)
	{
		auto ex = mc::pick(vector<pair<double, double> >{{1, 1}, {0.5, 1}, {1, 0.3}, {2, 1.5}, {0, 1}});
		w2 = w * ex.first;
		h2 = h * ex.second;
		a->SetExitWidth(double(w2));
		a->SetExitHeight(double(h2));
		auto o = mc::pick(vector<pair<double, double> >{{0, 0}, {1e-4, -3e-4}});
		if(kind == 1)
		{
			ox2 = o.first;
			oy2 = o.second;
		}
		else
		{
			ox2 = off.first;
			oy2 = off.second;
		}
		a->SetExitXOffset(double(ox2));
		a->SetExitYOffset(double(oy2));
		d << " exit " << double(w2) << "x" << double(h2) << " offset " << double(ox2) << "," << double(oy2);
		MC_CHECK(a->GetFullExitWidth() == double(w2) && a->GetFullExitHeight() == double(h2) && a->GetExitXOffset() == double(ox2) && a->GetExitYOffset() == double(oy2), "exit-getters", d);
	}
	mc::note(d);
	mc::state(d);
	MC_CLOSE(a->GetFullEntranceWidth(), w1, "width", d << ": entrance width");
	MC_CLOSE(a->GetFullEntranceHeight(), h1, "height", d << ": entrance height");
	MC_CHECK(a->GetEntranceXOffset() == off.first && a->GetEntranceYOffset() == off.second && a->GetCollimatorTilt() == tilt && a->GetCollimatorLength() == L, "getters", d);
	for(double z : {0., 0.25, 0.5, 0.9, 1.})
	{
		LD c = cosl(tilt), s = sinl(tilt);
		LD cx = off.first, cy = off.second, hw = w1 / 2, hh = h1 / 2;
		if(kind < 2)
		{
			cx += z * (ox2 - off.first);
			cy += z * (oy2 - off.second);
			hw += z * (w2 - w1) / 2;
			hh += z * (h2 - h1) / 2;
		}
		auto g = [=](LD x, LD y) {
			LD u = (x - cx) * c + (y - cy) * s, v = -(x - cx) * s + (y - cy) * c;
			if(hw <= 0 || hh <= 0)
				return LD(-1);
			if(kind == 3)
				return min(min((hw - (side ? u : -u)) / hw, (hh - fabsl(v)) / hh), LD(1));
			return rectg(hw, hh, u, v);
		};
		inside(*a, g, double(cx), double(cy), max(w, h), z * L, d);
	}
	mc::sample(d);
}
