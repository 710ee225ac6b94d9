// P16: every call ends with finite numbers or an exception, silently.
//
// Real code, built with AddressSanitizer and UndefinedBehaviorSanitizer;
// uninitialised variables are filled with a pattern (C++) or NaN (Fortran), so
// that their use shows up in the results.  Explored: every parameter with every
// value of an alphabet of ordinary, extreme and invalid values, all pairs, the
// lattice of ordinary points, and all arguments of the interface functions.
//
// "ordinary" values: results must be finite, of reasonable size, no message may
// appear.  For all others only the absence of crashes, hangs, undefined
// operations and memory errors is required.
#include <algorithm>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <limits>
#include <iostream>
#include <sstream>
#include "vh.hpp"
#include "obs.hpp"
#include "fields.hpp"
#include "himalaya/mh2_fo/PV.hpp"
#include "himalaya/mh2_eft/ThresholdLoopFunctions.hpp"
#include "himalaya/mh2l/DSZHiggs.hpp"
#include "himalaya/misc/Li2.hpp"
#include "himalaya/HierarchyObject.hpp"
using namespace himalaya;
using M2 = Eigen::Matrix2d;
extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=97:allocator_may_return_null=1"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1"; }
namespace {

const double inf = std::numeric_limits<double>::infinity(), nan_ = std::numeric_limits<double>::quiet_NaN();
bool starts(const std::string& s, const char* p) { return s.compare(0, std::strlen(p), p) == 0; }
bool has(const std::string& s, const char* p) { return s.find(p) != std::string::npos; }

// ---- everything written to the standard streams
int mem = -1; off_t seen = 0;
void capture()
{
   if (mem >= 0 || std::getenv("P16_SHOW")) return;
   mem = memfd_create("out", 0); dup2(mem, 1); dup2(mem, 2);
}
std::string written()
{
   std::cout.flush(); std::cerr.flush(); std::fflush(nullptr);
   if (mem < 0) return "";
   struct stat st; fstat(mem, &st);
   std::string s(st.st_size - seen, ' ');
   if (!s.empty() && pread(mem, &s[0], s.size(), seen) < 0) s = "?";
   seen = st.st_size;
   if (seen > 1000000) { if (ftruncate(mem, 0)) {} lseek(mem, 0, SEEK_SET); seen = 0; }
   return s;
}

// ---- all calculations of one point
double largest(const Parameters& p)
{
   double m = 100;
   for (double x : {p.scale, p.mu, p.MA, p.MG, p.M1, p.M2, p.Au(2,2), p.Ad(2,2), p.Ae(2,2)}) m = std::max(m, std::abs(x));
   for (auto x : {&p.mq2, &p.mu2, &p.md2, &p.ml2, &p.me2}) m = std::max(m, std::sqrt(x->cwiseAbs().maxCoeff()));
   return m;
}
/// numbers which are not defined at every point: they contain square roots of squared masses
bool exempt(const std::string& n, const Parameters& p)
{
   if (has(n, "absdiff") || has(n, "reldiff") || has(n, "unc")) return true;
   // expansions far outside of their range
   if (starts(n, "exp") || starts(n, "exact")) return true;
   // shifted masses become imaginary if the shift is large
   if (has(n, "mdrmass") || has(n, "mdrshift")) { const double m = std::min(p.MSt(0), p.MSt(1)); if (largest(p) > 2*m || p.scale < 0.5*m) return true; }
   // orders which are switched off by default
   if (p.Yd(2,2) == 0 && (has(n, "YB") || starts(n, "3l.b.") || starts(n, "fo2."))) return true;
   if (p.Ye(2,2) == 0 && (has(n, "YTAU") || starts(n, "fo2."))) return true;
   return false;
}
struct Part { const char* name; void (*run)(const Parameters&, obs::List&); };
const std::vector<Part>& parts()
{
   static const std::vector<Part> v = {
      {"thresholds", [] (const Parameters& p, obs::List& l) { obs::thresholds(p, l); }},
      {"eft", [] (const Parameters& p, obs::List& l) { obs::eft(p, l); }},
      {"spectrum", [] (const Parameters& p, obs::List& l) { obs::spectrum(p, l); }},
      {"fo", [] (const Parameters& p, obs::List& l) { obs::fo(p, l); }},
      {"3l top", [] (const Parameters& p, obs::List& l) { obs::threeloop(p, false, l); }},
      {"3l bottom", [] (const Parameters& p, obs::List& l) { obs::threeloop(p, true, l); }},
      {"expansions top", [] (const Parameters& p, obs::List& l) { obs::expansions(p, false, l); }},
      {"expansions bottom", [] (const Parameters& p, obs::List& l) { obs::expansions(p, true, l); }},
      {"streams", [] (const Parameters& p, obs::List&) {
         std::ostringstream o; o << p; mh2_eft::Mh2EFTCalculator e(p, false); o << e; mh2_fo::MSSM_spectrum s(p); o << s; mh2_fo::MSSM_mass_eigenstates m(p); o << m;
         try { HierarchyCalculator hc(p, false); o << hc.calculateDMh3L(false); } catch (const std::exception&) {} }},
   };
   return v;
}
void evaluate(Parameters p, bool ordinary, const std::string& what, vh::Report& r, bool may_reject = false)
{
   capture(); written();
   try { p.validate(false); } catch (const std::exception& e) { r.count("rejected"); const bool tachyon = has(e.what(), "tachyonic"); if (tachyon) r.count("rejected: tachyonic");
      if (ordinary && !may_reject) r.check("ordinary point rejected", tachyon, what + ": " + e.what()); r.state(vh::mix(r.index, 7)); written(); return; }
   r.count("accepted");
   { bool ok = true; std::string which; flds::each(p, [&] (const std::string& n, double& v) { if (!std::isfinite(v)) { ok = false; which = n; } }); r.check("not finite after validation", ok, what + ": " + which); }
   std::uint64_t h = 0;
   for (auto& part : parts()) {
      obs::List l;
      try { part.run(p, l); r.count("calculations"); }
      catch (const std::exception& e) { r.count("exceptions"); if (ordinary) r.fail(std::string("exception ") + part.name, what + ": " + e.what()); h = vh::mix(h, 1); continue; }
      h = vh::mix(h, l.size());
      const double M = largest(p);
      for (auto& x : l) {
         const bool ok = std::isfinite(x.v);
         if (!ordinary) { r.count(ok ? "finite" : "not finite (outside of the domain)"); h = vh::mix(h, ok); continue; }
         if (!ok && exempt(x.n, p)) { r.count("undefined by construction"); continue; }
         r.check(std::string(part.name) + " not finite: " + x.n, ok, what + ": " + vh::fmt(x.v));
         if (ok) { const double size = std::abs(x.v)/std::pow(M, x.dim); r.maxi("log10 of the largest " + std::string(part.name), std::log10(std::max(size, 1e-300)));
            if (x.dim || starts(x.n, "eft") || starts(x.n, "Z")) if (!starts(x.n, "exp") && !starts(x.n, "exact")) r.check(std::string(part.name) + " size: " + x.n, size < 1e5, what + ": " + vh::fmt(x.v)); h = vh::mix(h, vh::bits(x.v)); }
      }
      r.count("numbers", l.size());
   }
   r.state(h);
   std::string out = written(), line; std::istringstream lines(out); out.clear();
   // the numerical momentum iteration (which is not the default) has no switch to disable its message
   while (std::getline(lines, line)) if (has(line, "Momentum iteration has not converged")) r.count("momentum iterations without convergence"); else out += line + "\n";
   if (ordinary) { r.count("silent runs"); r.check("silent", out.empty(), what + " printed: " + out.substr(0, 200)); }
   else if (!out.empty()) r.count("messages (outside of the domain)");
}

// ---- alphabets
enum Kind { Mass, Mass2, Signed, Trilinear, Gauge, Yukawa, Vev, Pole, Scale, Angle, Theta, Given, Light, Limit };
Kind kind(const std::string& n)
{
   if (n == "massLimit3LThreshold") return Limit;
   if (n == "scale") return Scale;
   if (n == "mu" || n == "M1" || n == "M2") return Signed;
   if (n == "MG" || n == "MA") return Mass;
   if (n == "MW" || n == "MZ" || n == "Mt" || n == "Mb" || n == "Mtau") return Pole;
   if (n[0] == 'g') return Gauge;
   if (n[0] == 'v') return Vev;
   if (starts(n, "theta")) return Theta;
   if (starts(n, "s2")) return Angle;
   if (n[0] == 'M') return Given;
   const auto k = n.find('('); const bool third = n[k+1] == '2' && n[k+3] == '2', diagonal = n[k+1] == n[k+3];
   if (n[0] == 'A') return third ? Trilinear : Light;
   if (n[0] == 'Y') return third ? Yukawa : Light;
   return diagonal ? Mass2 : Light;
}
/// ordinary values
std::vector<double> ordinary(const std::string& n, bool th)
{
   switch (kind(n)) {
   case Scale: case Mass: if (th) return {20, 91.2, 300, 1000, 1e4, 1e5}; return {91.2, 1000, 1e5};
   case Signed: if (th) return {-1e5, -1000, -300, -20, 20, 91.2, 300, 1000, 1e4, 1e5}; return {-1000, 20, 1e5};
   case Mass2: if (th) return {4e4, 2.5e5, 1e6, 9e6, 1e8, 1e10}; return {4e4, 1e6, 1e10};
   case Trilinear: if (th) return {-5000, -1000, 0, 10, 2000}; return {-1000, 0, 2000};
   case Gauge: if (th) return {0, 1e-6, 0.3, 1.2}; return {0, 1.2};
   case Yukawa: if (n[1] == 'u') { if (th) return {0.6, 0.9, 1.5}; return {0.6, 0.9}; }
      if (th) return {0, 1e-4, 0.02, 0.9, 1.5}; return {0, 0.02, 0.9};
   case Vev: return {5, 80, 246};
   case Light: return {0.5};
   default: return {};
   }
}
/// extreme and invalid values
const std::vector<double>& extreme()
{ static const std::vector<double> v = {0, -0., 1, -1, 2, 1e-9, -1e-9, 1e-160, 5e-324, 1e9, -1e9, 1e12, 1e77, 1e160, -1e160, 1e308, inf, -inf, nan_, 1e6, 1 + 1e-15}; return v; }
/// a few of them for pairs
const std::vector<double>& few()
{ static const std::vector<double> v = {0, -1, 1e-9, 1e20, nan_}; return v; }

std::vector<std::string> names()
{
   std::vector<std::string> v;
   for (auto& n : flds::names()) { if (n == "massLimit3LThreshold") { v.push_back(n); continue; } v.push_back(n); }
   return v;
}
void set(Parameters& p, const std::string& n, double x)
{
   if (n == "massLimit3LThreshold") { p.massLimit3LThreshold = x != x || std::abs(x) > 1e9 ? (x < 0 ? std::numeric_limits<int>::min() : std::numeric_limits<int>::max()) : static_cast<int>(x); return; }
   flds::each(p, [&] (const std::string& m, double& v) { if (m == n) v = x; });
}
Parameters base(int b)
{
   pts::Spec s;
   if (b == 1) { s.mQ3 = s.mU3 = s.mD3 = s.mL3 = s.mE3 = s.mQ = s.mU = s.mD = s.mL = s.mE = s.M1 = s.M2 = s.MG = s.MA = s.mu = s.scale = 1000; s.Xt = 500; s.tb = 10; }
   if (b == 2) { s.mQ3 = 1400; s.mU3 = 900; s.mD3 = 1700; s.MG = 2200; s.mQ = 3000; s.mu = -600; s.MA = 700; s.tb = 40; s.yb = 0.7; s.ytau = 0.4; s.Xt = 2000; s.M1 = -300; s.scale = 1500; }
   return pts::make(s);
}
std::string tag(const std::string& n, double x) { return n + "=" + vh::fmt(x); }

int which_base(vh::Digits& d) { return vh::thorough() ? d.next(3) : 2; }
void singles(std::size_t i, vh::Report& r)
{
   vh::Digits d(i); static const auto N = names(); const int b = which_base(d); const std::string& n = d.pick(N); const double x = d.pick(extreme());
   Parameters p = base(b); set(p, n, x);
   evaluate(p, false, tag(n, x) + " | base " + std::to_string(b), r);
}
struct V { std::string n; double x; };
const std::vector<V>& values(bool th)
{
   static std::vector<V> v[2]; auto& w = v[th];
   if (w.empty()) for (auto& n : names()) for (double x : ordinary(n, th)) w.push_back({n, x});
   return w;
}
void ordinaries(std::size_t i, vh::Report& r)
{
   vh::Digits d(i); const int b = d.next(3); const V& a = d.pick(values(true)); Parameters p = base(b); set(p, a.n, a.x);
   evaluate(p, true, tag(a.n, a.x) + " | base " + std::to_string(b), r);
}
/// unordered pairs of different parameters
const std::vector<std::pair<V,V>>& pairs(bool th)
{
   static std::vector<std::pair<V,V>> v[2]; auto& w = v[th];
   if (w.empty()) { const auto& x = values(th); for (std::size_t i = 0; i < x.size(); i++) for (std::size_t j = i + 1; j < x.size(); j++) if (x[i].n != x[j].n && kind(x[i].n) != Light && kind(x[j].n) != Light) w.push_back({x[i], x[j]}); }
   return w;
}
void pair(std::size_t i, bool th, vh::Report& r)
{
   vh::Digits d(i); const int b = th ? d.next(3) : 2; const auto& a = d.pick(pairs(th)); Parameters p = base(b); set(p, a.first.n, a.first.x); set(p, a.second.n, a.second.x);
   evaluate(p, true, tag(a.first.n, a.first.x) + "," + tag(a.second.n, a.second.x) + " | base " + std::to_string(b), r);
}

/// not-a-number and infinity in every parameter: an exception or finite results
void invalid(std::size_t i, vh::Report& r)
{
   vh::Digits d(i); static const auto N = names(); const int b = which_base(d); const std::string& n = d.pick(N); const double x = d.pick(std::vector<double>{nan_, inf, -inf});
   if (n == "massLimit3LThreshold") return;
   Parameters p = base(b); set(p, n, x); r.count("invalid points");
   evaluate(p, true, tag(n, x) + " | base " + std::to_string(b), r, true);
}
/// sfermion masses and mixing angles, complete or not
void given(std::size_t i, vh::Report& r)
{
   vh::Digits d(i); const int sector = d.next(3); const std::vector<double> m = {nan_, 0, -500, 700, 700.0000000001, inf, 1e200}, a = {nan_, 0, 1, -1, 0.3, 2, inf}; const std::vector<double> mq = {nan_, -500, 700, 700.0000000001, inf}, aq = {nan_, 0, 1, 2, inf};
   Parameters p = base(1); Eigen::Vector2d x; const bool all = vh::thorough(); x(0) = d.pick(all ? m : mq); x(1) = d.pick(all ? m : mq); const double s2 = d.pick(all ? a : aq), th = d.pick(all ? a : aq);
   for (int k = 0; k < 2; k++) (sector == 0 ? p.MSt(k) : sector == 1 ? p.MSb(k) : p.MStau(k)) = x(k);
   (sector == 0 ? p.s2t : sector == 1 ? p.s2b : p.s2tau) = s2; (sector == 0 ? p.theta_t : sector == 1 ? p.theta_b : p.theta_tau) = th;
   r.count("given masses");
   bool plain = true; for (int k = 0; k < 2; k++) plain &= std::isnan(x(k)) || (x(k) > 0 && x(k) < 1e4);
   plain &= !(std::abs(s2) > 1) && !std::isinf(th);
   std::ostringstream o; o << "sector " << sector << " masses " << x(0) << "," << x(1) << " s2 " << s2 << " theta " << th;
   evaluate(p, plain, o.str(), r);
}
/// renormalization scales which are no scales
void scales(std::size_t i, vh::Report& r)
{
   vh::Digits d(i); Parameters p = base(d.next(3)); p.scale = d.pick(std::vector<double>{0, -0., -1000, -5e-324, nan_, inf, -inf});
   capture(); bool thrown[3] = {false, false, false};
   try { HierarchyCalculator c(p, false); c.calculateDMh3L(false); } catch (const std::exception&) { thrown[0] = true; }
   try { mh2_eft::Mh2EFTCalculator c(p, false); c.getDeltaMh2EFT2Loop(1, 1); } catch (const std::exception&) { thrown[1] = true; }
   try { Parameters q = p; q.validate(false); } catch (const std::exception&) { thrown[2] = true; }
   for (int k = 0; k < 3; k++) { r.check("invalid renormalization scale accepted", thrown[k], "scale " + vh::fmt(p.scale) + " call " + std::to_string(k)); r.count("invalid points"); }
   r.state(vh::mix(i, 77));
}
/// orderings and coincidences of all masses
void lattice(std::size_t i, bool th, vh::Report& r)
{
   vh::Digits d(i); const std::vector<double> m = {300, 1000, 1e4};
   pts::Spec s; s.mQ3 = d.pick(m); s.mU3 = d.pick(m); s.MG = d.pick(m); const double q = d.pick(m); s.mQ = s.mU = s.mD = q; const double a = d.pick(m);
   s.mD3 = th ? d.pick(m) : s.mU3; s.MA = a;
   s.mu = th ? d.pick(std::vector<double>{-1000, 300, 1e4}) : s.MG; s.mL3 = s.mE3 = s.mL = s.mE = a; s.M1 = s.M2 = s.mQ3;
   s.scale = th ? s.mQ3 : 1000; const double x = d.pick(std::vector<double>{0, 1.5}); s.Xt = x*std::sqrt(s.mQ3*s.mU3); s.Ab = s.mu*s.tb + x*s.mD3; s.Atau = s.mu*s.tb;
   std::ostringstream o; o << "mQ3=" << s.mQ3 << " mU3=" << s.mU3 << " mD3=" << s.mD3 << " MG=" << s.MG << " msq=" << q << " MA=mL=" << a << " mu=" << s.mu << " Xt=" << s.Xt << " scale=" << s.scale;
   if (pts::make(s).Yu(2,2)*s.v/1.41*s.Xt > 0.9*std::pow(std::min(s.mQ3, s.mU3), 2)) { r.count("skipped: tachyonic stops"); return; }
   evaluate(pts::make(s), true, o.str(), r);
}

/// every call of the interface with every argument: result or exception
struct Calls {
   vh::Report& r; std::uint64_t h = 0;
   template <class F> void operator()(F f) { r.count("calls"); try { f(); h = vh::mix(h, 1); } catch (const std::exception&) { r.count("calls rejected with an exception"); h = vh::mix(h, 2); } }
};
const std::vector<int>& ints() { static const std::vector<int> v = {-2, -1, 0, 1, 2, 3, 4, 5, 6, 13, 14, 100, std::numeric_limits<int>::max(), std::numeric_limits<int>::min()}; return v; }
volatile double sink;
void arguments(std::size_t i, vh::Report& r)
{
   vh::Digits d(i); capture(); written(); Parameters p = base(which_base(d)); p.validate(false); const bool ab = d.next(2); const int kind = d.next(5); int a = d.pick(ints()), b = d.pick(ints()); Calls call{r};
   if (kind == 2 || kind == 3) b = std::max(-1000, std::min(1000, b));   // factors in front of logarithms
   const M2 one = M2::Identity();
   using namespace mh2_eft; using namespace mh2_fo;
   if (kind == 0) {          // record
      HierarchyObject h(ab); const Eigen::Vector2d two(1, 2);
      for (int k = 0; k < 2; k++) {
         call([&] { h.getDMhExpUncertainty(a); }); call([&] { h.getDMh(a); }); call([&] { h.getDMh2(a); }); call([&] { h.getDLambdaUncertainty(a); }); call([&] { h.getDLambda(a); });
         call([&] { h.getDLambdaDRbarPrimeToMSbarShift(a); }); call([&] { h.getDMh2EFTAt(a); }); call([&] { h.getDMh2FO(a); }); call([&] { h.getDMh2FOAt(a); });
         call([&] { h.getH3mHierarchyNotation(a); });
         call([&] { h.setSuitableHierarchy(b); }); call([&] { h.setDMhExpUncertainty(a, b); }); call([&] { h.setDMh(a, one); }); call([&] { h.setDMh2(a, b); }); call([&] { h.setMDRFlag(a); });
         call([&] { h.setRenormalizationScheme(a); }); call([&] { h.setDLambda(a, b); }); call([&] { h.setDLambdaDRbarPrimeToMSbarShift(a, b); }); call([&] { h.setDMh2EFT(a, b); });
         call([&] { h.setDMh2FO(a, b); }); call([&] { h.setDMh2FOAt(a, b); }); call([&] { h.setMDRMasses(two); }); call([&] { h.setDLambdaXtUncertainty(a); });
         call([&] { std::ostringstream o; o << h; r.check("record prints something", !o.str().empty(), "empty"); });
      }
      call([&] { HierarchyObject g = h; g = h; h = std::move(g); std::ostringstream o; o << h; });
   } else if (kind == 1) {   // expansions
      HierarchyCalculator c(p, false); HierarchyObject h(ab); call([&] { h.setSuitableHierarchy(a); }); call([&] { h.setMDRFlag(b); });
      call([&] { sink = c.calculateHierarchy(h, b, b, b)(0,0); }); call([&] { sink = c.calculateHierarchy(h, 1, 1, 1)(0,0); }); call([&] { sink = c.calcDRbarToMDRbarShift(h, a & 1, b & 1)(0,0); });
      call([&] { sink = c.getMt41L(h, b, a)(0,0); }); call([&] { sink = c.getMt42L(h, b, a)(0,0); }); call([&] { sink = c.shiftMst1ToMDR(h, a, b); }); call([&] { sink = c.shiftMst2ToMDR(h, a, b); });
      call([&] { sink = c.getExpansionUncertainty(h, one, 1, 1, b); }); call([&] { sink = c.getExpansionUncertainty(h, one, a, b, 0); });
      call([&] { sink = c.compareHierarchies(h); }); call([&] { std::ostringstream o; o << h; });
      call([&] { sink = c.calculateDMh3L(ab).getDMh2(0); });
   } else if (kind == 2) {   // threshold corrections
      ThresholdCalculator t(p, false);
      call([&] { t.setLimit(static_cast<Limits>(a)); }); call([&] { t.setXtOrderOfDeltaLambdaAtAs2(b); });
      for (int s = -1; s < 7; s++) call([&] { sink = t.getThresholdCorrection(static_cast<ThresholdCouplingOrders>(a), static_cast<RenSchemes>(s), b); });
      for (int o = -2; o < 49; o++) call([&] { sink = t.getThresholdCorrection(static_cast<ThresholdCouplingOrders>(o), static_cast<RenSchemes>(a), b); });
      call([&] { sink = t.getDRbarPrimeToMSbarShift(a, b, a); }); call([&] { sink = t.getDRbarPrimeToMSbarShift(a, b); }); call([&] { sink = t.getDRbarPrimeToMSbarXtTerms(static_cast<Limits>(a), b, 1); }); call([&] { sink = t.getDRbarPrimeToMSbarXtTerms(static_cast<Limits>(b), a, b); });
   } else if (kind == 3) {   // effective theory
      Mh2EFTCalculator e(p, false);
      call([&] { sink = e.getDeltaMh2EFT1Loop(a, b); }); call([&] { sink = e.getDeltaMh2EFT2Loop(a, b); }); call([&] { sink = e.getDeltaMh2EFT3Loop(a, b, a); }); call([&] { sink = e.getDeltaMh2EFT3Loop(a, b, b); });
      call([&] { e.setCorrectionFlag(static_cast<himalaya::CouplingOrders::CouplingOrders>(a), b); }); call([&] { sink = e.getDeltaMh2EFT1Loop(1, 1); }); call([&] { sink = e.getDeltaMh2EFT2Loop(1, 1); }); call([&] { std::ostringstream o; o << e; });
   } else {                  // fixed order
      MSSM_mass_eigenstates m(p, ab);
      call([&] { m.set_correction(static_cast<himalaya::CouplingOrders::CouplingOrders>(a), b); }); call([&] { m.set_correction(static_cast<himalaya::CouplingOrders::CouplingOrders>(b), a); });
      call([&] { sink = std::get<2>(m.calculate_Mh2()); });
      const int n = std::abs(static_cast<long>(a)) > 1000 ? 1000 : a;
      for (auto k : {Momentum_iteration::off, Momentum_iteration::pert, Momentum_iteration::num}) for (auto g : {Diagonalization::pert, Diagonalization::num}) for (double goal : {0., -1., 1e-5, 1e300, nan_}) {
         call([&] { m.set_mom_it(k, goal, n); m.set_diagonalization(g); sink = std::get<2>(m.calculate_Mh2()); }); call([&] { sink = m.delta_mh2_2loop_mom_it_num(goal, n)(0,0); }); }
      for (double x : extreme()) call([&] { sink = m.delta_mh2_1loop(x)(0,0); });
      call([&] { std::ostringstream o; o << m; });
   }
   r.state(call.h); written();
}

/// every elementary function with every combination of arguments
const std::vector<double>& args() { static const std::vector<double> v = {0, -0., 1, -1, 2, -2, 0.5, 0.99, 1.01, 1 + 1e-9, 1e-9, -1e-9, 5e-324, 1e9, 1e160, -1e160, 1e308, inf, -inf, nan_, 3, 4, 1e-160}; return v; }
void functions(std::size_t i, vh::Report& r)
{
   using namespace mh2_eft::threshold_loop_functions; using namespace mh2_fo; using namespace mh2l;
   vh::Digits d(i); const double a = d.pick(args()), b = d.pick(args()), c = d.pick(args()); std::uint64_t h = 0;
   const auto use = [&] (double x) { sink = x; h = vh::mix(h, std::isfinite(x)); r.count("function values"); };
   if (i < args().size()) { use(F1(a)); use(F2(a)); use(F3(a)); use(F4(a)); use(F5(a)); use(F6(a)); use(F7(a)); use(f(a)); use(g(a)); use(f1(a)); use(f2(a)); use(f3(a)); use(f4(a)); use(dilog(a)); use(clausen_2(a)); }
   if (i < args().size()*args().size()) { use(F8(a, b)); use(F9(a, b)); use(f5(a, b)); use(f6(a, b)); use(f7(a, b)); use(f8(a, b)); use(a0(a, b)); use(d1_b0(a, b)); const auto z = dilog(std::complex<double>(a, b)); use(z.real()); use(z.imag()); }
   use(delta_xyz(a, b, c)); use(phi_xyz(a, b, c)); use(b0xx(a, b, c)); for (double q : {1., a, 0.}) use(b0(a, b, c, q));
   use(delta_mh2_2loop_at_as(a, b, c, 2*c, 0.6, 0.8, b, a, c, a, b, 1)(0,0)); use(delta_mh2_2loop_at_as(a, b, 3e6, c, b, c, 1e6, a, b, c, 1, 0)(0,0));
   use(delta_mh2_2loop_ab_as(a, b, c, c, 0.6, 0.8, b, c, a, a, b, 1)(0,0)); use(delta_mh2_2loop_ab_as(a, b, 3e6, c, b, c, 1e6, a, b, c, 1, 0)(0,0));
   use(delta_mh2_2loop_at_at(a, b, c, a, c, b, 2*c, 0.6, 0.8, a, b, c, b, a, b, 1, 1)(0,0)); use(delta_mh2_2loop_at_at(30000, a, b, c, a, c, b, 0.6, 0.8, b, c, 1e6, a, b, c, 0, 0)(0,0));
   use(delta_mh2_2loop_atau_atau(a, b, c, a, b, 0.6, 0.8, c, a, b, c, 1)(0,0)); use(delta_mh2_2loop_atau_atau(3, a, b, c, 1e6, a, b, 1e6, c, 10, 60000, 0)(0,0));
   use(delta_mh2_2loop_ab_atau(a, b, c, a, b, c, 0.6, 0.8, a, b, c, a, b, c, 1)(0,0)); use(delta_mh2_2loop_ab_atau(3, 8, a, b, c, a, b, c, 0.6, 0.8, 1e6, a, b, 60000, 0)(0,0));
   r.state(h);
}
} // namespace
int main(int argc, char** argv)
{
   vh::Check c; c.id = "P16"; c.level = "exploration"; c.rule = "pattern of finite and undefined numbers, values of all finite numbers";
   const bool th = vh::thorough(); const std::size_t nb = th ? 3 : 1;
   const auto fam = [&] (const char* n, const std::string& sp, std::size_t sz, std::function<void(std::size_t, vh::Report&)> f) { vh::Family x; x.name = n; x.space = sp; x.size = sz; x.run = f; x.timeout_s = 10; c.families.push_back(x); };
   fam("singles", "base points (quick: one, thorough: three) x every parameter x 21 extreme or invalid values", nb*names().size()*extreme().size(), singles);
   fam("ordinary", "three base points x every parameter x ordinary values", 3*values(true).size(), ordinaries);
   fam("pairs", "all pairs of ordinary values of two parameters", pairs(th).size()*(th ? 3 : 1), [=] (std::size_t i, vh::Report& r) { pair(i, th, r); });
   fam("lattice", "all orderings and coincidences of mQ3, mU3, mD3, MG, msq, MA x mixing", th ? 729*3*2 : 243*2, [=] (std::size_t i, vh::Report& r) { lattice(i, th, r); });
   fam("invalid", "base points x every parameter x not-a-number, +infinity, -infinity", nb*names().size()*3, invalid);
   fam("given", "stops, sbottoms, staus: all combinations of given, missing and invalid masses and angles", th ? 3*7*7*7*7 : 3*5*5*5*5, given);
   fam("scales", "three base points x renormalization scales which are not positive and finite", 21, scales);
   fam("arguments", "every member function x all pairs of 14 integer arguments x base points", nb*2*5*ints().size()*ints().size(), arguments);
   fam("functions", "every elementary and two-loop function x all triples of 23 arguments", args().size()*args().size()*args().size(), functions);
   c.c_states = "@distinct"; c.c_transitions = "calculations"; c.c_traces = "comparisons";
   c.required = {"accepted", "rejected", "exceptions", "calculations", "numbers", "invalid points", "calls", "calls rejected with an exception", "function values", "not finite (outside of the domain)", "silent runs"};
   return vh::run(argc, argv, c);
}
