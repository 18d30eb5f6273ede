// P23: random numbers are reproducible from the seed and follow their distributions
#include "mc.h"
#include "MerlinIO.h"
#include "RandomNG.h"
#include "LandauDistribution.h"
#include "PSmoments.h"
#include "MerlinException.h"
#include "MultiNormal.h"
#include <map>
#include <set>
using namespace std;
typedef vector<uint32_t> Seed;
static string str(const Seed& s)
{
	mc::S o;
	for(auto x : s)
		o << x << ",";
	return o;
}
// value of a draw as a function of the seed and the draws since seeding, whatever happened before
static map<string, double>& memo()
{
	static map<string, double> m;
	return m;
}
static void agree(const string& key, double v, const string& d, const char* what)
{
	auto r = memo().insert(make_pair(key, v));
	MC_CHECK(r.first->second == v, what, d << ": drew " << v << ", but " << r.first->second << " for the same seed and draws (" << key << ") in another history");
}
static double draw(int k)
{
	switch(k)
	{
	case 0:
		return RandomNG::normal(1, 4);
	case 1:
		return RandomNG::uniform(-1, 3);
	case 2:
		return RandomNG::poisson(3.5);
	case 3:
		return RandomNG::landau();
	default:
		return RandomNG::normal(0, 1, 1.5);
	}
}
MC_SECTION("histories")
{
	const vector<Seed> SEEDS{{1}, {2}, {1, 2, 3}};
	const vector<string> NAMES{"A", "B"};
	static bool first = true;
	if(first)
	{
		// everything below is compared with what a fresh generator gives
		first = false;
		memo().clear();
	}
	RandomNG::init(77);
	Seed seed{77};
	string main;
	int local[2] = {0, 0};
	mc::S d;
	for(auto& n : NAMES)
		RandomNG::resetLocalGenerator(hash_string(n));
	int depth = mc::thorough() ? 5 : 4;
	for(int i = 0; i < depth; i++)
	{
		int op = mc::choose(11);
		bool seeded = false;
		switch(op)
		{
		case 0:
			RandomNG::init(1);
			seed = {1};
			seeded = true;
			d << " init(1)";
			break;
		case 1:
			RandomNG::init(SEEDS[2]);
			seed = SEEDS[2];
			seeded = true;
			d << " init(1,2,3)";
			break;
		case 2:
			RandomNG::reset();
			seeded = true;
			d << " reset()";
			break;
		case 3:
			RandomNG::reset(2);
			seed = {2};
			seeded = true;
			d << " reset(2)";
			break;
		case 4:
			RandomNG::reset(SEEDS[0]);
			seed = SEEDS[0];
			seeded = true;
			d << " reset({1})";
			break;
		case 5:
		case 6:
		{
			int k = op == 5 ? 0 : 1 + i % 4;
			d << " draw" << k;
			main += char('0' + k);
			mc::note(d);
			agree("main " + str(seed) + main, draw(k), d, "reproducible");
			break;
		}
		case 7:
		case 8:
		{
			string n = NAMES[op - 7];
			d << " local" << n;
			mc::note(d);
			uint64_t v = RandomNG::getLocalGenerator(hash_string(n))();
			// independent of the draws from the other generators
			agree("local " + n + str(seed) + to_string(local[op - 7]++), double(v >> 12), d, "local-reproducible");
			break;
		}
		case 9:
			d << " resetA";
			RandomNG::resetLocalGenerator(hash_string(NAMES[0]));
			local[0] = 0;
			break;
		case 10:
		{
			// the generator itself is the one that is used
			d << " generator";
			main += 'g';
			mc::note(d);
			agree("main " + str(seed) + main, double(RandomNG::getGenerator()() >> 12), d, "generator");
			break;
		}
		}
		if(seeded)
		{
			main = "";
			local[0] = local[1] = 0;
		}
		mc::note(d);
		MC_CHECK(RandomNG::getSeed() == seed, "seed", d << ": seed is " << str(RandomNG::getSeed()) << " expected " << str(seed));
	}
	mc::state(d);
	mc::sample(d);
}
// streams of different seeds and names differ
MC_SECTION("streams")
{
	int len = 4;
	map<vector<uint64_t>, string> seen;
	for(auto s : vector<Seed>{{0}, {1}, {2}, {12345678}, {1, 2}, {2, 1}, {1, 2, 3}})
	{
		RandomNG::init(s);
		for(string n : {"", "A", "B", "ATL2D", "PhotonSpectrumGen"})
		{
			auto& g = n == "" ? RandomNG::getGenerator() : RandomNG::getLocalGenerator(hash_string(n));
			vector<uint64_t> v;
			for(int i = 0; i < len; i++)
				v.push_back(g());
			string d = "seed " + str(s) + " generator '" + n + "'";
			mc::note(d);
			mc::state(d);
			auto r = seen.insert(make_pair(v, d));
			MC_CHECK(r.second, "same-stream", d << " gives the same numbers as " << r.first->second);
			if(n != "")
				MC_CHECK(&RandomNG::getLocalGenerator(hash_string(n)) == &g, "same-generator", d);
		}
	}
	set<uint32_t> h;
	for(string n : {"", "A", "B", "AB", "BA"})
		MC_CHECK(h.insert(hash_string(n)).second && hash_string(n) == hash_string(string(n)), "hash", "hash of " << n);
}
// drawing before seeding works, with a seed that is different every time
MC_SECTION("automatic-seed")
{
	set<Seed> seen;
	int n = mc::choose(3);
	for(int i = 0; i <= n; i++)
	{
		RandomNG::init();
		MC_CHECK(!RandomNG::getSeed().empty() && seen.insert(RandomNG::getSeed()).second, "auto-seed", "automatic seed repeated");
		// the seed reproduces the draws
		Seed s = RandomNG::getSeed();
		double a = RandomNG::normal(0, 1), b = RandomNG::uniform(0, 1);
		RandomNG::init(s);
		MC_CHECK(a == RandomNG::normal(0, 1) && b == RandomNG::uniform(0, 1), "auto-reproduce", "draws after automatic seeding are not reproduced by its seed");
	}
}
MC_SECTION("distributions")
{
	int kind = mc::choose(4);
	uint32_t seed = mc::pick(vector<uint32_t>{1, 99});
	const int N = mc::thorough() ? 400000 : 100000;
	mc::S d;
	RandomNG::init(seed);
	double m, v, lo = -INFINITY, hi = INFINITY, v4; // mean, variance, range, fourth central moment
	function<double()> f;
	function<double(double)> cdf;
	if(kind == 0)
	{
		double mean = mc::pick(vector<double>{0, -3, 1e3}), var = mc::pick(vector<double>{1, 0.04, 25});
		d << "normal(" << mean << "," << var << ")";
		f = [=]{ return RandomNG::normal(mean, var); };
		m = mean, v = var, v4 = 3 * var * var;
		cdf = [=](double x){ return 0.5 * erfc(-(x - mean) / sqrt(2 * var)); };
	}
	else if(kind == 1)
	{
		double mean = mc::pick(vector<double>{0, 5}), var = mc::pick(vector<double>{1, 4e-4}), cut = mc::pick(vector<double>{0.5, 2, -3, 0});
		double c = fabs(cut), s = sqrt(var);
		d << "normal(" << mean << "," << var << "," << cut << ")";
		f = [=]{ return RandomNG::normal(mean, var, cut); };
		m = mean;
		if(c == 0)
			v = var, v4 = 3 * var * var;
		else
		{
			double phi = exp(-c * c / 2) / sqrt(2 * M_PI), Z = erf(c / sqrt(2.));
			v = var * (1 - 2 * c * phi / Z);
			v4 = var * var * (3 - 2 * c * (c * c + 3) * phi / Z);
			lo = mean - c * s, hi = mean + c * s;
		}
		cdf = [=](double x){
				double p = 0.5 * erfc(-(x - mean) / s / sqrt(2.));
				if(c == 0)
					return p;
				double p0 = 0.5 * erfc(c / sqrt(2.)), p1 = 1 - p0;
				return min(1., max(0., (p - p0) / (p1 - p0)));
			};
	}
	else if(kind == 2)
	{
		lo = mc::pick(vector<double>{0, -2}), hi = lo + mc::pick(vector<double>{1, 1e-3, 50});
		double l = lo, h = hi;
		d << "uniform(" << lo << "," << hi << ")";
		f = [=]{ return RandomNG::uniform(l, h); };
		m = (l + h) / 2, v = (h - l) * (h - l) / 12, v4 = pow(h - l, 4) / 80;
		cdf = [=](double x){ return min(1., max(0., (x - l) / (h - l))); };
	}
	else
	{
		double u = mc::pick(vector<double>{0.1, 1, 4.5, 60});
		d << "poisson(" << u << ")";
		f = [=]{ return RandomNG::poisson(u); };
		m = v = u, v4 = u + 3 * u * u, lo = 0;
		cdf = [=](double x){
				double s = 0, t = exp(-u);
				for(int k = 0; k <= floor(x); k++)
				{
					s += t;
					t *= u / (k + 1);
				}
				return s;
			};
	}
	d << " seed " << seed;
	mc::note(d);
	mc::state(d);
	vector<double> x(N);
	double sm = 0, sv = 0, c4 = 0;
	for(auto& y : x)
	{
		y = f();
		MC_CHECK(y >= lo && y <= hi, "range", d << ": drew " << y);
		if(kind == 3)
			MC_CHECK(y == floor(y), "integer", d << ": drew " << y);
		sm += y / N;
		sv += (y - m) * (y - m) / N;
	}
	// seven standard errors
	MC_CHECK(fabs(sm - m) < 7 * sqrt(v / N), "mean", d << ": mean " << sm << " of " << N << " draws, expected " << m);
	MC_CHECK(fabs(sv - v) < 7 * sqrt((v4 - v * v) / N) + 1e-12 * v, "variance", d << ": variance " << sv << " of " << N << " draws, expected " << v);
	for(int k = -12; k <= 12; k++)
	{
		double t = m + k * 0.25 * sqrt(v);
		int c = 0;
		for(double y : x)
			c += y <= t;
		double p = cdf(t);
		MC_CHECK(fabs(c / double(N) - p) < 7 * sqrt(max(p * (1 - p), 1e-5) / N), "cdf", d << ": " << c << " of " << N << " draws below " << t << ", expected fraction " << p);
	}
	// zero variance
	MC_CHECK(RandomNG::normal(5, 0) == 5 && RandomNG::normal(-5, 0, 2) == -5, "zero-variance", d);
	mc::sample(d);
}
// a source of uniform numbers that gives just the number wanted
struct Fixed
{
	typedef uint64_t result_type;
	uint64_t v;
	static constexpr uint64_t min()
	{
		return 0;
	}
	static constexpr uint64_t max()
	{
		return ~uint64_t(0);
	}
	uint64_t operator()()
	{
		return v;
	}
};
MC_SECTION("landau")
{
	// quantiles: the Landau cumulative distribution of the value is the uniform number it was made from
	int part = mc::choose(100);
	int n = mc::thorough() ? 200 : 40;
	landau_distribution<double> dist;
	double last = -INFINITY;
	for(int i = 0; i <= n; i++)
	{
		double r = (part + i / double(n)) / 100;
		if(r < 1e-4 || r > 0.9999)
			continue;
		Fixed u{uint64_t(r * 18446744073709551616.)};
		double x = dist(u);
		string d = mc::S() << "landau quantile at " << r << " is " << x;
		mc::note(d);
		mc::state(d);
		MC_CHECK(x >= last - 1e-4 * (1 + fabs(x)), "landau-monotone", d << " below the previous " << last);
		last = x;
		// 1 - 1/pi int_0^inf exp(-t ln t - x t) sin(pi t) / t dt
		double s = 0, h = 1e-3, T = 60;
		auto g = [&](double t)
			{
				return t <= 0 ? M_PI : exp(-t * log(t) - x * t) * sin(M_PI * t) / t;
			};
		if(x > 5)
			T = 200 / x, h = T / 20000;
		for(double t = 0; t < T - h / 2; t += h)
			s += h / 6 * (g(t) + 4 * g(t + h / 2) + g(t + h));
		double c = 1 - s / M_PI;
		MC_CHECK(fabs(c - r) < 2e-4, "landau-quantile", d << ", where the Landau distribution is " << c);
	}
}
MC_SECTION("multinormal")
{
	int k = mc::choose(6), seed = 1 + mc::choose(2);
	const int N = 40000;
	// covariance L L^T
	double L[4][4] = {{2, 0, 0, 0}, {0.5, 1, 0, 0}, {-0.3, 0.7, 3, 0}, {1, -1, 0.2, 0.5}};
	if(k == 1)
		L[1][1] = 1e-3;
	if(k == 2)
		for(int i = 0; i < 4; i++)
			L[i][1] = 0; // zero width
	if(k == 3)
		for(int i = 0; i < 4; i++)
			for(int j = 0; j < i; j++)
				L[i][j] = 0;
	if(k == 4)
		for(int i = 0; i < 4; i++)
			L[0][i] = L[i][0] = 0;
	if(k == 5)
		for(auto& r : L)
			for(auto& x : r)
				x *= 1e-4;
	TPSMoments<2> pm;
	double mean[4] = {1, -2, 0.5, 0};
	double C[4][4];
	for(int i = 0; i < 4; i++)
	{
		pm.mean(i) = mean[i];
		for(int j = 0; j < 4; j++)
		{
			C[i][j] = 0;
			for(int l = 0; l < 4; l++)
				C[i][j] += L[i][l] * L[j][l];
		}
	}
	for(int i = 0; i < 4; i++)
		for(int j = 0; j <= i; j++)
			pm.sig(i, j) = C[i][j];
	string d = mc::S() << "multivariate normal " << k << " seed " << seed;
	mc::note(d);
	mc::state(d);
	RandomNG::init(seed);
	MultiNormal<4> mn(pm);
	double sm[4] = {0}, sc[4][4] = {{0}};
	for(int n = 0; n < N; n++)
	{
		RealVector v = mn.GetRandVec();
		for(int i = 0; i < 4; i++)
		{
			sm[i] += (v(i) - mean[i]) / N;
			for(int j = 0; j < 4; j++)
				sc[i][j] += (v(i) - mean[i]) * (v(j) - mean[j]) / N;
		}
	}
	for(int i = 0; i < 4; i++)
	{
		MC_CHECK(fabs(sm[i]) <= 7 * sqrt(C[i][i] / N) + 1e-15, "multinormal-mean", d << ": mean " << i << " off by " << sm[i]);
		for(int j = 0; j < 4; j++)
			MC_CHECK(fabs(sc[i][j] - C[i][j]) <= 7 * sqrt((C[i][i] * C[j][j] + C[i][j] * C[i][j]) / N) + 1e-15, "multinormal-covariance", d << ": covariance " << i << "," << j << " is " << sc[i][j] << " expected " << C[i][j]);
	}
	mc::sample(d);
}
