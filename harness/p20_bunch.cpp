// P20: statistics, reference adjustments and binning of bunches
#include "mc.h"
#include <map>
#include <cstring>
#include "Transform3D.h"
#include "MerlinIO.h"
#include "ParticleBunch.h"
#include "ProtonBunch.h"
#include "MuonBunch.h"
#include "ElectronBunch.h"
#include "ParticleBunchUtilities.h"
#include "SMPBunch.h"
#include "SliceMacroParticle.h"
#include "BunchConverter.h"
#include "BunchConstructor.h"
#include "PSmoments.h"
#include "PhysicalConstants.h"
#include "RandomNG.h"
#include <algorithm>
using namespace std;
using namespace ParticleTracking;
using SMPTracking::SMPBunch;
using SMPTracking::SliceMacroParticle;
typedef long double LD;
static PSvector mk(double a, double b, double c, double d, double ct, double dp, int id = 0)
{
	PSvector p(0);
	p.x() = a;
	p.xp() = b;
	p.y() = c;
	p.yp() = d;
	p.ct() = ct;
	p.dp() = dp;
	p.id() = id;
	return p;
}
static const vector<PSvector> POOL{mk(1e-3, -2e-4, 3e-3, 1e-4, 0.01, 1e-3, 1), mk(-2e-3, 1e-4, 1e-3, 0, -0.02, -2e-3, 2), mk(0, 0, 0, 0, 0, 0, 3), mk(5e-3, 1e-3, -4e-3, -2e-3, 0.03, 0.05, 4), mk(1, 0.1, 2, 0.3, -1.5, 0.2, 5), mk(-7e-9, 3e-9, 2e-9, 1e-9, 1e-9, -4e-9, 6)};
// reference of a bunch: coordinates, reference momentum and time, macro charge
struct Ref
{
	vector<PSvector> v;
	double p0, t0, q;
};
static void stats(const ParticleBunch& b, const Ref& r, const string& d)
{
	MC_CHECK(b.size() == r.v.size(), "size", d << ": " << b.size() << " particles, expected " << r.v.size());
	MC_CLOSET(b.GetReferenceMomentum(), r.p0, 1e-12, 0, "p0", d << ": reference momentum");
	MC_CLOSET(b.GetReferenceTime(), r.t0, 1e-12, 1e-14, "t0", d << ": reference time");
	MC_CLOSET(b.GetTotalCharge(), r.q * r.v.size(), 1e-12, 0, "charge", d << ": total charge");
	MC_CHECK(b.GetChargeSign() == (r.q > 0 ? 1 : r.q < 0 ? -1 : 0), "charge-sign", d << ": charge sign " << b.GetChargeSign());
	for(size_t i = 0; i < r.v.size(); i++)
	{
		PSvector p = *(b.begin() + i);
		for(int k = 0; k < 6; k++)
			MC_CLOSET(p[k], r.v[i][k], 1e-9, 1e-13, "particle", d << ": particle " << i << " coordinate " << k);
		MC_CHECK(p.id() == r.v[i].id(), "id", d << ": particle " << i << " has id " << p.id() << " expected " << r.v[i].id());
	}
	size_t n = r.v.size();
	if(n == 0)
		return;
	// statistics of the particles as they are, rounding included
	const vector<PSvector> v(b.begin(), b.end());
	LD m[6] = {0}, s[6][6];
	for(int i = 0; i < 6; i++)
	{
		for(auto& p : v)
			m[i] += p[i] / LD(n);
	}
	for(int i = 0; i < 6; i++)
		for(int j = 0; j < 6; j++)
		{
			s[i][j] = 0;
			for(auto& p : v)
				s[i][j] += (p[i] - m[i]) * (p[j] - m[j]) / LD(n);
		}
	// the contents of the results before must not matter
	PSvector c(77);
	b.GetCentroid(c);
	PSmoments S;
	for(int i = 0; i < 6; i++)
	{
		S[i] = 5;
		for(int j = 0; j <= i; j++)
			S(i, j) = 3 + i;
	}
	b.GetMoments(S);
	PSmoments S2 = static_cast<const Bunch&>(b).GetMoments();
	for(int i = 0; i < 6; i++)
	{
		LD sc = 0;
		for(auto& p : v)
			sc = max(sc, fabsl(p[i]));
		LD tol = 1e-12L * sc + 1e-18L;
		MC_CHECK(fabsl(c[i] - m[i]) <= tol, "centroid", d << ": centroid " << i << " is " << c[i] << " expected " << double(m[i]));
		MC_CHECK(fabsl(S[i] - m[i]) <= tol && fabsl(S.mean(i) - m[i]) <= tol && fabsl(S2[i] - m[i]) <= tol, "mean", d << ": mean " << i << " is " << S[i] << " expected " << double(m[i]));
		pair<double, double> u = b.GetMoments(PScoord(i));
		MC_CHECK(fabsl(u.first - m[i]) <= tol, "mean1", d << ": mean of " << i << " is " << u.first << " expected " << double(m[i]));
		MC_CHECK(fabsl(u.second * u.second - s[i][i]) <= 1e-11L * (sc * sc) + 1e-30L, "rms1", d << ": rms of " << i << " is " << u.second << " expected " << double(sqrtl(s[i][i])));
		for(int j = 0; j < 6; j++)
		{
			LD sj = 0;
			for(auto& p : v)
				sj = max(sj, fabsl(p[j]));
			LD t2 = 1e-11L * sc * sj + 1e-30L;
			MC_CHECK(fabsl(S(i, j) - s[i][j]) <= t2 && fabsl(S2.sig(i, j) - s[i][j]) <= t2, "sigma", d << ": sigma(" << i << "," << j << ") is " << S(i, j) << " expected " << double(s[i][j]));
			Point2D P = b.GetProjectedCentroid(i, j);
			MC_CHECK(fabsl(P.x - m[i]) <= tol && fabsl(P.y - m[j]) <= 1e-12L * sj + 1e-18L, "projected-centroid", d << ": projected centroid " << i << "," << j << " is " << P.x << "," << P.y);
			PSmoments2D Q;
			Q[0] = Q[1] = 9;
			Q(0, 0) = Q(0, 1) = Q(1, 1) = 4;
			b.GetProjectedMoments(i, j, Q);
			MC_CHECK(fabsl(Q.mean(0) - m[i]) <= tol && fabsl(Q.mean(1) - m[j]) <= 1e-12L * sj + 1e-18L, "projected-mean", d << ": projected mean " << i << "," << j << " is " << Q.mean(0) << "," << Q.mean(1));
			MC_CHECK(fabsl(Q(0, 0) - s[i][i]) <= 1e-11L * sc * sc + 1e-30L && fabsl(Q.sig(0, 1) - s[i][j]) <= t2 && fabsl(Q(1, 0) - s[i][j]) <= t2 && fabsl(Q.var(1) - s[j][j]) <= 1e-11L * sj * sj + 1e-30L, "projected-sigma",
				d << ": projected moments " << i << "," << j << " are " << Q(0, 0) << "," << Q(0, 1) << "," << Q(1, 1) << " expected " << double(s[i][i]) << "," << double(s[i][j]) << "," << double(s[j][j]));
			if(s[i][i] > 1e-14L * sc * sc && s[j][j] > 1e-14L * sj * sj)
				MC_CLOSET(S.r_ij(i, j), double(s[i][j] / sqrtl(s[i][i] * s[j][j])), 1e-5, 1e-5, "correlation", d << ": correlation " << i << "," << j);
		}
		MC_CHECK(fabsl(S.var(i) - s[i][i]) <= 1e-11L * sc * sc + 1e-30L && fabs(S.std(i) - sqrt(S.var(i))) <= 1e-14 * S.std(i), "variance", d << ": variance " << i);
	}
}
MC_SECTION("statistics")
{
	int n = 1 + mc::choose(4), kind = mc::choose(4);
	double q = mc::pick(vector<double>{1, -0.5, 2e10});
	Ref r{{}, 7, 0, q};
	mc::S d;
	d << "bunch of kind " << kind << ", charge " << q << ", particles";
	unique_ptr<ParticleBunch> b;
	PSvectorArray src;
	for(int i = 0; i < n; i++)
	{
		int k = mc::choose(POOL.size());
		r.v.push_back(POOL[k]);
		src.push_back(POOL[k]);
		d << " " << k;
	}
	if(kind == 0)
	{
		b.reset(new ParticleBunch(7, q));
		for(auto& p : src)
			b->AddParticle(p);
	}
	else if(kind == 1)
	{
		b.reset(new ParticleBunch(7, q, src));
		r.q = q / n;
	}
	else if(kind == 2)
	{
		b.reset(new ProtonBunch(7, q));
		for(auto& p : src)
			b->push_back(p);
		MC_CHECK(b->IsStable() && b->GetParticleMass() == PhysicalConstants::ProtonMass && b->GetParticleMassMeV() == PhysicalConstants::ProtonMassMeV, "proton", d);
	}
	else
	{
		b.reset(new MuonBunch(7, q));
		for(auto& p : src)
			b->push_back(p);
		MC_CHECK(!b->IsStable() && b->GetParticleMass() == PhysicalConstants::MuonMass && b->GetParticleMassMeV() == PhysicalConstants::MuonMassMeV && b->GetParticleLifetime() == PhysicalConstants::MuonLifetime, "muon", d);
	}
	mc::note(d);
	mc::state(d);
	stats(*b, r, d);
	MC_CHECK(b->FirstParticle() == r.v[0], "first", d);
	mc::sample(d);
}
static PSvector rolled(const PSvector& p)
{
	PSvector q = p;
	double x = p.x() - 0.5e-3, y = p.y() + 1e-3, c = cos(0.4), s = sin(0.4);
	q.x() = x * c + y * s;
	q.y() = y * c - x * s;
	q.xp() = p.xp() * c + p.yp() * s;
	q.yp() = p.yp() * c - p.xp() * s;
	return q;
}
MC_SECTION("histories")
{
	ParticleBunch b(7, 2);
	Ref r{{}, 7, 0, 2};
	int n0 = mc::choose(4);
	mc::S d;
	d << n0 << " particles:";
	for(int i = 0; i < n0; i++)
	{
		b.AddParticle(POOL[(i * 3) % 5]);
		r.v.push_back(POOL[(i * 3) % 5]);
	}
	b.SetReferenceTime(r.t0 = 12);
	int depth = mc::thorough() ? 5 : 4;
	for(int i = 0; i < depth; i++)
	{
		int op = mc::choose(13);
		size_t n = r.v.size();
		if(n == 0 && (op >= 1 && op <= 6))
			mc::prune();
		switch(op)
		{
		case 0:
			b.push_back(POOL[(i + 3) % 5]);
			r.v.push_back(POOL[(i + 3) % 5]);
			d << " add";
			break;
		case 1:
		{
			d << " p-mean";
			LD m = 0;
			for(auto& p : r.v)
				m += p.dp() / LD(n);
			double ret = b.AdjustRefMomentumToMean();
			for(auto& p : r.v)
				p.dp() = (r.p0 * (1 + LD(p.dp()))) / (r.p0 * (1 + m)) - 1;
			r.p0 *= 1 + m;
			MC_CLOSET(ret, r.p0, 1e-12, 0, "adjust-return", d << ": AdjustRefMomentumToMean returns");
			break;
		}
		case 2:
		{
			double dpp = 0.1;
			d << " p+10%";
			double ret = b.AdjustRefMomentum(dpp);
			for(auto& p : r.v)
				p.dp() = (r.p0 * (1 + LD(p.dp()))) / (r.p0 * (1 + dpp)) - 1;
			r.p0 *= 1 + dpp;
			MC_CLOSET(ret, r.p0, 1e-12, 0, "adjust-return", d << ": AdjustRefMomentum returns");
			break;
		}
		case 3:
		{
			d << " t-mean";
			LD m = 0;
			for(auto& p : r.v)
				m += p.ct() / LD(n);
			double ret = b.AdjustRefTimeToMean();
			// arrival times (reference time - ct) are unchanged
			for(auto& p : r.v)
				p.ct() -= m;
			r.t0 -= m;
			MC_CLOSET(ret, r.t0, 1e-12, 1e-14, "adjust-return", d << ": AdjustRefTimeToMean returns");
			break;
		}
		case 4:
		case 5:
		{
			// the centroid becomes the first particle, all others move together
			PSvector x0 = op == 5 ? mk(2e-3, 1e-3, 0, -3e-3, 0.5, 0.01, 99) : r.v[0];
			d << (op == 5 ? " centroid" : " centroid-to-first");
			LD m[6] = {0};
			if(op == 5)
				r.v[0] = x0;
			for(int k = 0; k < 6; k++)
				for(size_t j = 1; j < n; j++)
					m[k] += r.v[j][k] / LD(n - 1);
			for(int k = 0; k < 6; k++)
				for(size_t j = 1; j < n; j++)
					r.v[j][k] = r.v[j][k] - m[k] + x0[k];
			if(op == 5)
				b.SetCentroid(x0);
			else
				b.SetCentroid();
			PSvector c;
			b.GetCentroid(c);
			for(int k = 0; k < 6; k++)
				MC_CLOSET(c[k], x0[k], 1e-11, 1e-14, "set-centroid", d << ": centroid " << k);
			break;
		}
		case 6:
		{
			d << " erase";
			auto it = b.erase(b.begin() + n / 2);
			r.v.erase(r.v.begin() + n / 2);
			MC_CHECK(it == b.begin() + n / 2, "erase", d);
			break;
		}
		case 7:
		{
			d << " sort";
			b.SortByCT();
			for(size_t j = 1; j < b.size(); j++)
				MC_CHECK((b.begin() + j - 1)->ct() <= (b.begin() + j)->ct(), "sorted", d << ": not sorted at " << j);
			// equal keys may come in any order
			stable_sort(r.v.begin(), r.v.end(), [](const PSvector& p, const PSvector& q){
				return p.ct() < q.ct();
			});
			for(size_t j = 0; j < n && b.size() == n; j++)
				for(size_t k = j; k < n && fabs(r.v[k].ct() - r.v[j].ct()) < 1e-13; k++)
					if((b.begin() + j)->id() == r.v[k].id())
					{
						swap(r.v[j], r.v[k]);
						break;
					}
			break;
		}
		case 8:
			d << " charge";
			b.SetMacroParticleCharge(-3);
			r.q = -3;
			break;
		case 9:
		{
			// a copy is the same and independent
			d << " copy";
			ParticleBunch c(b);
			Ref s = r;
			c.push_back(POOL[4]);
			s.v.push_back(POOL[4]);
			c.AdjustRefMomentum(0.5);
			for(auto& p : s.v)
				p.dp() = (1 + p.dp()) / 1.5 - 1;
			s.p0 *= 1.5;
			stats(c, s, d);
			break;
		}
		case 10:
		{
			d << " swap";
			ParticleBunch c(1, 1);
			c.AddParticle(POOL[3]);
			c.AddParticle(POOL[1]);
			b.swap(c);
			r.v = {POOL[3], POOL[1]};
			break;
		}
		case 11:
			d << " clear";
			b.clear();
			r.v.clear();
			break;
		case 12:
			// into a frame displaced across the beam and rolled
			d << " transform";
			MC_CHECK(b.ApplyTransformation(Transform3D(Point3D(0.5e-3, -1e-3, 0), Rotation3D::rotationZ(0.4))), "transform", d);
			for(auto& p : r.v)
				p = rolled(p);
			break;
		}
		mc::note(d);
		stats(b, r, d);
	}
	mc::state(d);
	mc::sample(d);
}
// slices are weighted with their charge
MC_SECTION("macroparticles")
{
	int n = 1 + mc::choose(3);
	SMPBunch b(5, 1), ordered(5, 1);
	struct Sl
	{
		PSvector x;
		double q, s[4][4];
	};
	vector<Sl> v;
	mc::S d;
	d << "slices";
	for(int i = 0; i < n; i++)
	{
		int k = mc::choose(4), w = mc::choose(2);
		PSmoments S;
		Sl s;
		s.x = POOL[k];
		s.q = w ? 0.25 : 3;
		for(int a = 0; a < 4; a++)
		{
			S[a] = POOL[k][a];
			for(int c = 0; c <= a; c++)
				s.s[a][c] = s.s[c][a] = S(a, c) = (a == c ? 1 + k : 0.2 * (a - 2 * c)) * 1e-6;
		}
		b.AddParticle(SliceMacroParticle(S, s.x.ct(), s.x.dp(), s.q));
		ordered.AddParticle(SliceMacroParticle(S, s.x.ct(), s.x.dp(), s.q), true);
		v.push_back(s);
		d << " " << k << "x" << s.q;
	}
	// slices added in order of time
	multimap<double, double> byTime;
	for(auto& s : v)
		byTime.insert({s.x.ct(), s.q});
	MC_CHECK(distance(ordered.begin(), ordered.end()) == n, "smp-order", d);
	double last = -1e9, qsum = 0;
	for(auto i = ordered.begin(); i != ordered.end(); ++i)
	{
		MC_CHECK(i->ct() >= last, "smp-order", d << ": slices added in order are not in the order of time");
		last = i->ct();
		qsum += i->Q();
	}
	for(auto& t : byTime)
		qsum -= t.second;
	MC_CHECK(fabs(qsum) < 1e-12 && fabs(ordered.GetTotalCharge() - b.GetTotalCharge()) < 1e-12, "smp-order", d << ": charge");
	b.SetReferenceTime(3);
	double p0 = 5, t0 = 3;
	int depth = 3;
	for(int h = 0; h < depth; h++)
	{
		LD Q = 0, m[6] = {0}, S[6][6] = {{0}};
		for(auto& s : v)
			Q += s.q;
		for(auto& s : v)
			for(int a = 0; a < 6; a++)
				m[a] += s.q / Q * s.x[a];
		for(auto& s : v)
			for(int a = 0; a < 6; a++)
				for(int c = 0; c < 6; c++)
					S[a][c] += s.q / Q * ((s.x[a] - m[a]) * (s.x[c] - m[c]) + (a < 4 && c < 4 ? s.s[a][c] : 0));
		if(h > 0)
			switch(mc::choose(5))
			{
			case 4:
				d << " transform";
				MC_CHECK(b.ApplyTransformation(Transform3D(Point3D(0.5e-3, -1e-3, 0), Rotation3D::rotationZ(0.4))), "transform", d);
				for(auto& s : v)
				{
					s.x = rolled(s.x);
					double R[4][4] = {{cos(0.4), 0, sin(0.4), 0}, {0, cos(0.4), 0, sin(0.4)}, {-sin(0.4), 0, cos(0.4), 0}, {0, -sin(0.4), 0, cos(0.4)}}, Z[4][4] = {{0}};
					for(int a = 0; a < 4; a++)
						for(int c = 0; c < 4; c++)
							for(int e = 0; e < 4; e++)
								for(int g = 0; g < 4; g++)
									Z[a][c] += R[a][e] * s.s[e][g] * R[c][g];
					memcpy(s.s, Z, sizeof Z);
				}
				break;
			case 0:
			{
				d << " p-mean";
				double ret = b.AdjustRefMomentumToMean();
				for(auto& s : v)
					s.x.dp() = (1 + s.x.dp()) / (1 + m[5]) - 1;
				p0 *= 1 + m[5];
				MC_CLOSET(ret, p0, 1e-12, 0, "smp-adjust", d << ": reference momentum");
				break;
			}
			case 1:
			{
				d << " t-mean";
				double ret = b.AdjustRefTimeToMean();
				for(auto& s : v)
					s.x.ct() -= m[4];
				t0 -= m[4];
				MC_CLOSET(ret, t0, 1e-12, 0, "smp-adjust", d << ": reference time");
				break;
			}
			case 2:
			{
				d << " shift";
				PSvector x = mk(1e-3, 2e-3, -1e-3, 5e-3, 0.2, 0.01);
				b.AdjustCentroid(x);
				for(auto& s : v)
					s.x += x;
				break;
			}
			case 3:
				d << " sort";
				b.SortByCT();
				stable_sort(v.begin(), v.end(), [](const Sl& p, const Sl& q){
					return p.x.ct() < q.x.ct();
				});
				for(size_t j = 1; j < b.Size(); j++)
					MC_CHECK(b.Get(j - 1).ct() <= b.Get(j).ct(), "smp-sorted", d);
				break;
			}
		mc::note(d);
		for(int a = 0; a < 6; a++)
			m[a] = 0;
		for(auto& row : S)
			for(auto& x : row)
				x = 0;
		for(auto& s : v)
			for(int a = 0; a < 6; a++)
				m[a] += s.q / Q * s.x[a];
		for(auto& s : v)
			for(int a = 0; a < 6; a++)
				for(int c = 0; c < 6; c++)
					S[a][c] += s.q / Q * ((s.x[a] - m[a]) * (s.x[c] - m[c]) + (a < 4 && c < 4 ? s.s[a][c] : 0));
		MC_CHECK(b.Size() == v.size(), "smp-size", d);
		MC_CLOSET(b.GetTotalCharge(), double(Q), 1e-12, 0, "smp-charge", d << ": charge");
		MC_CLOSET(b.GetReferenceMomentum(), p0, 1e-12, 0, "smp-p0", d << ": reference momentum");
		MC_CLOSET(b.GetReferenceTime(), t0, 1e-12, 0, "smp-t0", d << ": reference time");
		PSvector c(4);
		b.GetCentroid(c);
		PSmoments M;
		for(int a = 0; a < 6; a++)
			for(int e = 0; e < 6; e++)
				M(a, e) = 7;
		b.GetMoments(M);
		for(int a = 0; a < 6; a++)
		{
			MC_CLOSET(c[a], double(m[a]), 1e-11, 1e-14, "smp-centroid", d << ": centroid " << a);
			MC_CLOSET(M[a], double(m[a]), 1e-11, 1e-14, "smp-mean", d << ": mean " << a);
			for(int e = 0; e < 6; e++)
			{
				MC_CLOSET(M(a, e), double(S[a][e]), 1e-9, 1e-14, "smp-sigma", d << ": sigma " << a << "," << e);
				Point2D P = b.GetProjectedCentroid(a, e);
				MC_CLOSET(P.x, double(m[a]), 1e-11, 1e-14, "smp-projected", d << ": projected centroid");
				MC_CLOSET(P.y, double(m[e]), 1e-11, 1e-14, "smp-projected", d << ": projected centroid");
				PSmoments2D Z;
				Z[0] = Z[1] = Z(0, 0) = Z(1, 1) = Z(0, 1) = 5;
				b.GetProjectedMoments(a, e, Z);
				MC_CLOSET(Z[0], double(m[a]), 1e-11, 1e-14, "smp-projected", d << ": projected mean");
				MC_CLOSET(Z[1], double(m[e]), 1e-11, 1e-14, "smp-projected", d << ": projected mean");
				MC_CLOSET(Z(0, 0), double(S[a][a]), 1e-9, 1e-14, "smp-projected", d << ": projected variance " << a);
				MC_CLOSET(Z(0, 1), double(S[a][e]), 1e-9, 1e-14, "smp-projected", d << ": projected covariance " << a << "," << e);
				MC_CLOSET(Z(1, 1), double(S[e][e]), 1e-9, 1e-14, "smp-projected", d << ": projected variance " << e);
			}
		}
	}
	mc::state(d);
	mc::sample(d);
}
// slicing: every particle is in exactly the bin it lies in
MC_SECTION("slices")
{
	double zmin = mc::pick(vector<double>{-1, 0, -0.3}), len = mc::pick(vector<double>{1, 0.7, 2.2});
	int nb = 1 + mc::choose(mc::thorough() ? 12 : 10), fl = mc::choose(3);
	double zmax = zmin + len, dz = len / nb;
	int variant = mc::choose(4);
	vector<double> z;
	// on and next to the boundaries
	for(int i = -1; i <= nb + 1; i++)
	{
		double e = i == nb ? zmax : zmin + i * dz;
		if(variant == 0)
			z.push_back(e + 0.5 * dz);
		else if(variant == 1)
			z.push_back(i == 0 || i == nb ? e : e + 1e-9);
		else if(variant == 2)
			z.push_back(i == nb ? nextafter(e, -9) : e - 1e-9);
		else if(i % 2)
			for(int k = 0; k <= i; k++)
				z.push_back(e + 0.3 * dz);
	}
	string d = mc::S() << "slices of [" << zmin << "," << zmax << ") in " << nb << " bins, variant " << variant << ", filter " << fl;
	mc::note(d);
	mc::state(d);
	ParticleBunch b(5, 1);
	// in no particular order
	vector<int> cnt(nb), lostids;
	size_t lost = 0, tot = 0;
	for(size_t i = 0; i < z.size(); i++)
	{
		size_t k = (i * 7 + 3) % z.size();
		if(z.size() % 7 == 0)
			k = i;
		b.AddParticle(mk(k, 0, 0, 0, z[k], 0, int(k)));
		if(z[k] < zmin || z[k] >= zmax)
			lost++;
		else
		{
			cnt[min(nb - 1, int((z[k] - zmin) / dz))]++;
			tot++;
		}
	}
	vector<ParticleBunch::iterator> bins;
	vector<double> hd, hdp, c;
	if(fl == 1)
		c = {1};
	if(fl == 2)
		c = {-0.5, 0.1, 0.6, 0.3, 0.7};
	size_t l = ParticleBinList(b, zmin, zmax, nb, bins, hd, hdp, fl ? &c : nullptr);
	MC_CHECK(l == lost && b.size() == tot, "slice-lost", d << ": " << l << " lost, " << b.size() << " left, expected " << lost << ", " << tot);
	MC_CHECK(bins.size() == size_t(nb + 1) && hd.size() == size_t(nb), "slice-bins", d);
	MC_CHECK(bins[0] == b.begin() && bins[nb] == b.end(), "slice-ends", d);
	if(tot == 0)
		return;
	for(int i = 0; i < nb; i++)
	{
		MC_CHECK(bins[i + 1] - bins[i] == cnt[i], "slice-count", d << ": bin " << i << " has " << (bins[i + 1] - bins[i]) << " expected " << cnt[i]);
		for(auto p = bins[i]; p != bins[i + 1]; p++)
			MC_CHECK(p->ct() >= zmin + i * dz - 1e-12 && p->ct() <= zmin + (i + 1) * dz + 1e-12 && p->ct() == z[p->id()] && p->x() == p->id(), "slice-member", d << ": particle at " << p->ct() << " in bin " << i);
		MC_CLOSET(hd[i], cnt[i] / double(tot) / dz, 1e-12, 0, "slice-density", d << ": density " << i);
		if(fl)
		{
			int w = (int(c.size()) - 1) / 2;
			double e = 0;
			for(int m = max(0, i - w); m <= min(nb - 1, i + w); m++)
				e += cnt[m] * c[m - i + w] / tot / dz;
			MC_CLOSET(hdp[i], e, 1e-11, 1e-11, "slice-filter", d << ": filtered density " << i);
		}
	}
	mc::sample(d);
}
MC_SECTION("distribution")
{
	double umin = mc::pick(vector<double>{-1, 0, -0.3}), du = mc::pick(vector<double>{0.1, 0.25, 0.3, 1. / 3});
	int nb = 1 + mc::choose(7), u = mc::pick(vector<int>{0, 2, 5}), variant = mc::choose(4);
	bool norm = mc::choose(2), trunc = mc::choose(2);
	double umax = umin + nb * du;
	string d = mc::S() << "distribution of " << u << " in [" << umin << "," << umax << "] in steps of " << du << ", variant " << variant << (norm ? " normalised" : "") << (trunc ? " truncated" : "");
	mc::note(d);
	mc::state(d);
	ParticleBunch b(5, 1);
	vector<int> cnt(nb);
	vector<int> keep;
	size_t lost = 0, tot = 0;
	int id = 0;
	auto add = [&](double x, int bin)
		{
			PSvector p(0);
			p[u] = x;
			p.id() = id;
			b.AddParticle(p);
			if(bin < 0 || bin >= nb)
				lost++;
			else
				cnt[bin]++, tot++;
			if((bin >= 0 && bin < nb) || !trunc)
				keep.push_back(id);
			id++;
		};
	if(variant == 0)
		for(int i = -2; i < nb + 2; i++)
			add(umin + (i + 0.5) * du, i);
	else if(variant == 1)
	{
		add(umin, 0);
		add(umax, nb - 1);
		add(nextafter(umax, -9), nb - 1);
		add(umin - 1e-6, -1);
		add(umax + 1e-6, -1);
	}
	else if(variant == 2)
	{
		// lost particles first, last and in a row
		add(umin - 1, -1);
		add(umin - 2, -1);
		for(int i = nb - 1; i >= 0; i--)
		{
			add(umin + (i + 0.01) * du, i);
			add(umax + 3, -1);
		}
	}
	else
		for(int i = 0; i < nb; i++)
			for(int k = 0; k <= i % 3; k++)
				add(umin + (i + 0.99) * du, i);
	vector<double> h;
	size_t l = ParticleBunchDistribution(b, u, umin, umax, du, h, norm, trunc);
	MC_CHECK(l == lost, "distribution-lost", d << ": " << l << " lost, expected " << lost);
	MC_CHECK(int(h.size()) == nb, "distribution-bins", d << ": " << h.size() << " bins, expected " << nb);
	for(int i = 0; i < nb; i++)
		MC_CLOSET(h[i], norm ? cnt[i] / double(tot) / du : cnt[i], 1e-12, 0, "distribution-count", d << ": bin " << i);
	MC_CHECK(b.size() == keep.size(), "distribution-kept", d << ": " << b.size() << " particles left, expected " << keep.size());
	for(size_t i = 0; i < keep.size(); i++)
		MC_CHECK((b.begin() + i)->id() == keep[i], "distribution-kept", d << ": particle " << i);
	mc::sample(d);
}
// converting between particles and macroparticles
MC_SECTION("conversion")
{
	int n = 1 + mc::choose(5), nct = mc::pick(vector<int>{1, 2, 3, 7}), ndp = mc::pick(vector<int>{1, 2, 5}), sel = mc::choose(3);
	bool adjust = mc::choose(2);
	double off = mc::pick(vector<double>{0, 0.5});
	PSvectorArray v;
	for(int i = 0; i < n; i++)
	{
		PSvector p = POOL[(i * 5 + sel) % 6];
		p.ct() += off;
		p.dp() += off / 10;
		v.push_back(p);
	}
	vector<PSvector> w = v;
	ParticleBunch pb(5, 3, v);
	pb.SetReferenceTime(11);
	string d = mc::S() << "conversion of " << n << " particles (set " << sel << ", offset " << off << ") to " << nct << "x" << ndp << (adjust ? " adjusted" : "");
	mc::note(d);
	mc::state(d);
	unique_ptr<SMPBunch> sb(ParticleBunchConverter(&pb, nct, ndp, 0, 0, adjust));
	MC_CHECK(int(sb->Size()) == nct * ndp, "convert-size", d << ": " << sb->Size() << " slices");
	MC_CLOSET(sb->GetTotalCharge(), 3., 1e-12, 0, "convert-charge", d << ": charge");
	MC_CHECK(sb->GetReferenceMomentum() == 5 && sb->GetReferenceTime() == 11, "convert-reference", d << ": reference " << sb->GetReferenceMomentum() << "," << sb->GetReferenceTime());
	PSvector a, b;
	pb.GetCentroid(a);
	sb->GetCentroid(b);
	double lo[6], hi[6];
	for(int k = 4; k < 6; k++)
	{
		lo[k] = hi[k] = w[0][k];
		for(auto& p : w)
			lo[k] = min(lo[k], p[k]), hi[k] = max(hi[k], p[k]);
	}
	for(int k = 0; k < 6; k++)
	{
		// transverse means are the bunch's, longitudinal ones only within half a slice unless adjusted
		double tol = k < 4 || adjust ? 1e-13 : (hi[k] - lo[k]) / (k == 4 ? nct : ndp) / 2 + 1e-13;
		MC_CLOSET(b[k], a[k], 1e-11, tol, "convert-mean", d << ": mean " << k);
	}
	if(!adjust)
		for(int i = 0; i < nct; i++)
			for(int j = 0; j < ndp; j++)
			{
				double ct = lo[4] + (i + 0.5) * (hi[4] - lo[4]) / nct, dp = lo[5] + (j + 0.5) * (hi[5] - lo[5]) / ndp;
				int c = 0, amb = 0;
				for(auto& p : w)
				{
					auto in = [](double x, double m, double h, double l, int k, int n) -> int
						{
							// 1 in the bin, 2 on an inner boundary
							if(h == l)
								return k == 0;
							double t = (x - l) / (h - l) * n;
							if(fabs(t - floor(t + 0.5)) < 1e-9 && floor(t + 0.5) > 0 && floor(t + 0.5) < n)
								return fabs(t - k - 0.5) < 0.51 ? 2 : 0;
							return t >= k - 1e-9 && t <= k + 1 + 1e-9;
						};
					int x = in(p.ct(), ct, hi[4], lo[4], i, nct), y = in(p.dp(), dp, hi[5], lo[5], j, ndp);
					if(x == 1 && y == 1)
						c++;
					else if(x && y)
						amb++;
				}
				bool found = false;
				for(size_t k = 0; k < sb->Size(); k++)
				{
					auto& s = sb->Get(k);
					if(fabs(s.ct() - ct) < 1e-12 && fabs(s.dp() - dp) < 1e-12)
					{
						if(hi[4] == lo[4] || hi[5] == lo[5])
						{
							found = true;
							break;
						}
						double m = s.Q() / 3 * n;
						MC_CHECK(m > c - 1e-9 && m < c + amb + 1e-9, "convert-slice", d << ": slice " << i << "," << j << " holds " << m << " particles, expected " << c);
						found = true;
					}
				}
				MC_CHECK(found, "convert-slice", d << ": no slice at ct " << ct << " dp " << dp);
			}
	// and back (covariances of fewer particles are singular)
	if(n < 5)
		return;
	RandomNG::init(3);
	size_t N = mc::pick(vector<int>{40, 400});
	unique_ptr<ParticleBunch> nb(SMPBunchConverter(sb.get(), N, true));
	MC_CHECK(nb->GetReferenceMomentum() == 5 && nb->GetReferenceTime() == 11, "convert-reference", d << ": reference after converting back");
	MC_CLOSET(nb->GetTotalCharge(), 3., 1e-12, 0, "convert-charge", d << ": charge after converting back");
	MC_CHECK(fabs(double(nb->size()) - N) <= n, "convert-number", d << ": " << nb->size() << " particles for " << N);
	PSvector e;
	nb->GetCentroid(e);
	sb->GetCentroid(b);
	for(int k = 0; k < 6; k++)
		MC_CLOSET(e[k], b[k], 1e-9, 1e-12, "convert-back-mean", d << ": mean " << k << " after converting back");
	mc::sample(d);
}
