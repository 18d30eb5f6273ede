// Small explicit-state / stateless model-checking kernel for Merlin++ harnesses.
// A section body is executed once for every choice vector (depth-first, complete backtracking over
// mc::choose), on the real library; mc::check compares with a reference model or an invariant.
#ifndef MC_H
#define MC_H
#include <array>
#include <numeric>
#include <complex>
#include <functional>
#include <memory>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <algorithm>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc
{
struct Violation
{
	std::string key, msg;
};
struct PruneExecution {};
struct Registrar
{
	Registrar(const char* name, std::function<void()> f);
};
/// nondeterministic choice in 0..n-1, enumerated exhaustively
int choose(int n);
template<class T> const T& pick(const std::vector<T>& v)
{
	return v[choose(static_cast<int>(v.size()))];
}
/// abandon this execution (precondition not met / state already visited)
[[noreturn]] void prune();
/// records a visited (model+implementation) state; returns true when it is new
bool state(const std::string& canonical);
/// false while re-executing the prefix shared with the previous execution (already checked there)
bool fresh();
/// one transition / comparison against the implementation
void step(uint64_t n = 1);
/// a concrete case of this run, for the evidence file (first few kept)
void sample(const std::string& s);
/// distinct observed outcomes (vacuity guard)
void outcome(const std::string& s);
bool thorough();
/// describe the running case (shown with a crash)
void note(const std::string& s);
[[noreturn]] void fail(const std::string& key, const std::string& msg);
/// report without ending the execution
void report(const std::string& key, const std::string& msg);
inline void check(bool ok, const std::string& key, const std::string& msg)
{
	step();
	if(!ok)
		fail(key, msg);
}
template<class F> void checkf(bool ok, const char* key, F msg)
{
	step();
	if(!ok)
		fail(key, msg());
}
inline bool close(double a, double b, double rel = 1e-9, double abs_ = 1e-12)
{
	if(std::isnan(a) || std::isnan(b))
		return false;
	if(a == b)
		return true;
	return std::fabs(a - b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b));
}
struct S
{
	std::ostringstream o;
	S()
	{
		o.precision(17);
	}
	template<class T> S& operator<<(const T& t)
	{
		o << t;
		return *this;
	}
	S& operator<<(const S& s)
	{
		o << s.o.str();
		return *this;
	}
	operator std::string() const
	{
		return o.str();
	}
};
}
#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_SECTION(name) \
	static void MC_CAT(mc_body_, __LINE__)(); \
	static mc::Registrar MC_CAT(mc_reg_, __LINE__)(name, MC_CAT(mc_body_, __LINE__)); \
	static void MC_CAT(mc_body_, __LINE__)()
#define MC_CHECK(cond, key, msg) mc::checkf(static_cast<bool>(cond), key, [&]{ return std::string(mc::S() << msg); })
#define MC_CLOSE(a, b, key, msg) do { double mc_a_ = (a), mc_b_ = (b); mc::checkf(mc::close(mc_a_, mc_b_), key, [&]{ return std::string(mc::S() << msg << " got " << mc_a_ << " expected " << mc_b_); }); } while(0)
#define MC_CLOSET(a, b, rel, ab, key, msg) do { double mc_a_ = (a), mc_b_ = (b); mc::checkf(mc::close(mc_a_, mc_b_, rel, ab), key, [&]{ return std::string(mc::S() << msg << " got " << mc_a_ << " expected " << mc_b_); }); } while(0)
#endif
