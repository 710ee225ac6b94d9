// Exhaustive-exploration driver shared by all checks.
//
// A check is a set of *families*.  A family is a finite, indexable space of
// cases (mixed-radix products of small alphabets, all operation sequences up to
// a depth, ...).  The driver runs EVERY index of every family, in forked
// worker processes, so that a crash, a hang or an uncaught exception of the
// code under test is attributed to the case that caused it.  Nothing is
// sampled.  Every violation is re-run alone before it is reported.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace vh {

/// mixed radix decoding of a case index: first dimension varies fastest
struct Digits {
   std::size_t i;
   explicit Digits(std::size_t i_) : i(i_) {}
   std::size_t next(std::size_t radix) { const auto d = i % radix; i /= radix; return d; }
   template <class C> const typename C::value_type& pick(const C& c)
   { return *(c.begin() + next(c.size())); }
   template <class T, std::size_t N> const T& pick(const T (&a)[N]) { return a[next(N)]; }
};

inline std::uint64_t mix(std::uint64_t h, std::uint64_t v)
{
   h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
   h *= 0xff51afd7ed558ccdULL;
   return h ^ (h >> 33);
}
inline std::uint64_t bits(double d) { std::uint64_t u; std::memcpy(&u, &d, 8); return u; }

/// per-worker sink
class Report {
public:
   void count(const std::string& k, std::uint64_t n = 1) { counters[k] += n; }
   void maxi(const std::string& k, double v)
   { if (std::isfinite(v)) { auto it = maxima.find(k); if (it == maxima.end() || it->second < v) maxima[k] = v; } }
   /// fingerprint of an observed behaviour (used for the distinct count)
   void state(std::uint64_t h) { states.insert(h); }
   void sample(const std::string& s) { if (samples.size() < 3) samples.push_back(s); }
   /// key: identifies the failing input / call site / history (known-findings)
   void fail(const std::string& key, const std::string& what)
   { if (fails.size() < 20) fails.push_back({key, what}); else overflow++; }
   /// relation |a-b| <= tol (NaN never satisfies it)
   bool close(const std::string& key, double a, double b, double tol, const std::string& what = "")
   {
      count("comparisons");
      if (std::abs(a - b) <= tol) return true;
      std::ostringstream o; o.precision(17);
      o << key << ": " << a << " vs " << b << " (tolerance " << tol << ") " << what;
      fail(key, o.str());
      return false;
   }
   bool check(const std::string& key, bool ok, const std::string& what)
   { count("comparisons"); if (!ok) fail(key, key + ": " + what); return ok; }

   std::map<std::string, std::uint64_t> counters;
   std::map<std::string, double> maxima;
   std::unordered_set<std::uint64_t> states;
   std::vector<std::string> samples;
   struct F { std::string key, what; };
   std::vector<F> fails;
   std::uint64_t overflow{0};
   std::string family; std::size_t index{0};
};

struct Family {
   std::string name;
   std::string space;                       ///< description for the evidence
   std::size_t size;
   std::function<void(std::size_t, Report&)> run;
   unsigned timeout_s = 60;                 ///< per case
};

struct Check {
   std::string id;
   std::string level = "exploration";       ///< level written to the evidence
   std::string rule;                        ///< what makes two cases distinct
   std::vector<Family> families;
   std::vector<std::string> assumptions;
   int workers = 0;                         ///< 0: number of cores
   bool keep_stderr = false;
   /// names of the counters reported as states/transitions/traces (model_checking level)
   std::string c_states = "states", c_transitions = "transitions", c_traces = "traces";
   std::map<std::string, std::string> notes;
   std::vector<std::string> required;       ///< counters that must be non-zero (vacuity guard)
};

bool thorough();
std::string fmt(double);
int run(int argc, char** argv, Check& c);

} // namespace vh
