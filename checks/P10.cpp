// P10: results have the right mass dimension.
// Every number the library reports (lib/obs.hpp) is evaluated for a point and for
// the same point with all dimensionful inputs multiplied by a common factor.
#include "vh.hpp"
#include "obs.hpp"
#include "fields.hpp"
#include "hier.hpp"
#include "himalaya/mh2l/DSZHiggs.hpp"
#include "himalaya/mh2_fo/PV.hpp"
#include "himalaya/mh2_eft/ThresholdLoopFunctions.hpp"
using namespace himalaya;
namespace {

const double FQ[] = {2, 0.25, 1.7, 16, 1./1024}, FT[] = {2, 0.25, 1.7, 16, 1./1024, 0.37, 1.0009765625, 64, 1e3};
const std::size_t NFQ = sizeof(FQ)/sizeof(*FQ), NFT = sizeof(FT)/sizeof(*FT);

/// mass dimension of an input
int dim(const std::string& n)
{
   static const char* two[] = {"mq2", "mu2", "md2", "ml2", "me2"};
   for (auto t : two) if (n.compare(0, 3, t) == 0) return 2;
   if (n[0] == 'g' || n[0] == 'Y' || n.compare(0, 5, "theta") == 0 || n.compare(0, 2, "s2") == 0 || n == "massLimit3LThreshold") return 0;
   return 1;
}
Parameters scaled(Parameters p, double f)
{ flds::each(p, [f] (const std::string& n, double& x) { for (int k = dim(n); k; k--) x *= f; }); return p; }

/// relative accuracy of a number that is a sum of terms: the formulas of O(y^6) cancel strongly for nearby masses and large mixing
double tolerance(const std::string& n)
{
   if (n.compare(0, 9, "LAMBDA_YT") == 0 || n.compare(0, 9, "LAMBDA_YB") == 0 || n.compare(0, 4, "eft2") == 0 || n.compare(0, 4, "eft.") == 0) return 1e-3;
   for (auto e : {".h3m", ".eft", ".nonlog", "3.lambda", ".lambdaunc", "3.msbar"}) if (n.size() > 3 && n.compare(0, 2, "3l") == 0 && n.find(e) != std::string::npos) return 1e-4;
   // two-loop O(ab*as): small difference of large terms
   if (n.compare(0, 6, "exactb") == 0 && n.find(".42") != std::string::npos || n.compare(0, 7, "3l.b.2.") == 0) return 1e-5;
   return 1e-7;
}
void compare(const char* what, const obs::List& a, const obs::List& b, double f, const std::string& pt, vh::Report& r)
{
   if (!r.check("shape", a.size() == b.size(), std::string(what) + " " + pt)) return;
   for (std::size_t i = 0; i < a.size(); i++) {
      const double s = std::pow(f, a[i].dim), x = a[i].v*s, y = b[i].v;
      if (x != x || y != y) { r.count("undefined"); r.check("undefined", (x != x) == (y != y), a[i].n + " " + pt + ": " + vh::fmt(x) + " vs " + vh::fmt(y)); continue; }
      const double sc = std::max(a[i].sc*s, b[i].sc);
      if (sc > 0) r.maxi(std::string("dev.") + what, std::abs(x - y)/sc);
      // the formulas for equal masses are singular where they are not used
      r.close(a[i].n, y, x, std::max(tolerance(a[i].n), what[0] == 'l' ? 2e-3 : 0.)*sc, pt + " factor " + vh::fmt(f));
      if (a[i].v != 0) r.count(std::string("nonzero.") + what);
   }
}
std::string show(const pts::Spec& s)
{ std::ostringstream o; o << "mQ3=" << s.mQ3 << " mU3=" << s.mU3 << " mD3=" << s.mD3 << " MG=" << s.MG << " mQ=" << s.mQ << " MA=" << s.MA << " mu=" << s.mu << " Xt=" << s.Xt << " tb=" << s.tb << " yb=" << s.yb << " Q=" << s.scale; return o.str(); }

/// lattice of spectra: orderings and coincidences of the squark, gluino and Higgs masses, mixings, couplings
pts::Spec spec(vh::Digits& d, bool th)
{
   static const double M[] = {700, 1100, 1900};
   pts::Spec s;
   s.mQ3 = M[d.next(3)]; s.mU3 = M[d.next(3)]; s.MG = M[d.next(3)]*(1 + 1e-9);
   const int q = d.next(3); s.mQ = s.mU = s.mD = q == 0 ? 1100 : q == 1 ? 2300 : 6000;
   if (th) s.mD3 = M[d.next(3)]*1.2; else s.mD3 = 1300;
   s.scale = d.next(2) ? 900 : 1600;
   const int x = d.next(3); s.Xt = x == 0 ? 300 : x == 1 ? -1500 : 2100; s.Ab = x == 0 ? 2500 : -900; s.Atau = x == 2 ? 1500 : -400;
   const int c = d.next(th ? 4 : 2);
   if (c == 1) { s.yb = 0.7; s.ytau = 0.5; s.tb = 30; s.mu = -450; s.MA = 600; }
   if (c == 2) { s.tb = 2; s.mu = 1900; s.MA = 2500; s.M1 = -300; s.M2 = 1900; }
   if (c == 3) { s.tb = 8; s.yb = 0; s.ytau = 0; s.mu = 1100; s.g1 = 0; s.g2 = 0; }
   if (c == 0) { s.mu = 830; }
   return s;
}

/// three-loop part of one of the expansions 7..10 with the argument the calculator passes
hr::M2 sixb(const Parameters& z, bool ab, int h, int mdr, const hr::Depth& dep)
{
   HierarchyCalculator hc(z, false); HierarchyObject ho(ab); ho.setSuitableHierarchy(h); ho.setMDRFlag(mdr);
   return hr::matrix(h, dep, hr::input(z, ab, hc.shiftMst1ToMDR(ho, mdr, mdr), hc.shiftMst2ToMDR(ho, mdr, mdr), mdr), 0, 0, 1);
}

void point(std::size_t i, bool th, vh::Report& r)
{
   vh::Digits d(i);
   const double f = th ? d.pick(FT) : d.pick(FQ);
   const pts::Spec s = spec(d, th); const std::string pt = show(s);
   const Parameters raw = pts::make(s), rawf = scaled(raw, f);
   Parameters p = raw, q = rawf; p.validate(false); q.validate(false);
   // completion of the parameters
   {
      obs::List a, b;
      const auto add = [] (Parameters& x, obs::List& l) { flds::each(x, [&l] (const std::string& n, double& v) { l.add("in." + n, v, dim(n)); }); };
      add(p, a); add(q, b); compare("input", a, b, f, pt, r);
   }
   const auto both = [&] (const char* n, std::function<void(const Parameters&, obs::List&)> g) {
      obs::List a, b; g(p, a); g(q, b); compare(n, a, b, f, pt, r); r.count("numbers", a.size()); r.count("evaluations", 2);
      for (auto& x : a) if (x.v == x.v) { r.state(vh::bits(x.v)); break; } };
   both("spectrum", [] (const Parameters& x, obs::List& l) { obs::spectrum(x, l); });
   both("thresholds", [] (const Parameters& x, obs::List& l) { obs::thresholds(x, l); });
   both("eft", [] (const Parameters& x, obs::List& l) { obs::eft(x, l); });
   both("fo", [] (const Parameters& x, obs::List& l) { obs::fo(x, l); });
   for (int ab = 0; ab < 2; ab++) {
      // known finding (see below) in the record of the complete calculation
      obs::List u, v, a, b;
      if (obs::threeloop(p, ab, u)) r.count("threeloop");
      obs::threeloop(q, ab, v);
      const int sel = u[0].n.find("suitable") != std::string::npos ? int(u[0].v) : -1;
      if (sel >= 7 && sel <= 10 && u.size() == v.size() && v[0].v == u[0].v) {
         r.count("threeloop.6b");
         for (std::size_t k = 0; k < u.size(); k++) {
            const double x = u[k].v*std::pow(f, u[k].dim), y = v[k].v, sc = std::max(u[k].sc*std::pow(f, u[k].dim), v[k].sc);
            bool derived = false;
            for (auto e : {"h3m", "nonlog", "eft", "3.dmh2", "3.fo", "3.foat", "3.eftat", "3.lambda", "3.lambdaunc", "3.expunc", "lambda3"}) if (u[k].n == std::string(ab ? "3l.b." : "3l.t.") + e) derived = true;
            if (u[k].n.find(".mdrshift(") != std::string::npos) derived = true;
            bool ok = derived && std::abs(y - x) <= (f < 0.1 || f > 100 ? 1. : 0.05)*sc;   // the wrong argument has no common dimension: its effect grows with the factor
            if (u[k].n.find(".3.dmh(") != std::string::npos) {
               const std::size_t o = u[k].n.find('('); const int e = u[k].n[o + 1] - '0', g = u[k].n[o + 3] - '0';
               for (int mdr = 0; mdr < 2; mdr++) if (std::abs((y - x) - (sixb(q, ab, sel, mdr, hr::full())(e,g) - f*f*sixb(p, ab, sel, mdr, hr::full())(e,g))) <= 1e-7*sc) ok = true;
            }
            if (ok && std::abs(y - x) > 1e-7*sc) { r.fail("Dmsqst2", u[k].n + " " + pt); r.count("explained"); v[k].v = x; }
         }
      }
      // several expansions coincide at two loops (and thus tie) for some spectra: rounding then decides which one is selected
      if (sel >= 0 && u.size() == v.size() && v[0].v != u[0].v && std::abs(u[2].v - v[2].v) <= 1e-6*std::abs(u[2].v) + 1e-9) { r.count("ties"); goto expansions; }
      compare("threeloop", u, v, f, pt, r); r.count("numbers", u.size()); r.count("evaluations", 2);
   expansions:
      // known finding: four expansions get q - m2 instead of q^2 - m2^2, which spoils the dimension of their three-loop part
      // in a way that is predicted exactly by the formulas evaluated with this argument
      obs::expansions(p, ab, a); obs::expansions(q, ab, b);
      for (int h = 7; h <= 10; h++) for (int mdr = 0; mdr < 2; mdr++) {
         const auto ref = [&] (const Parameters& z, const hr::Depth& dep) { return sixb(z, ab, h, mdr, dep); };
         const auto unc = [&] (const Parameters& z) { const hr::M2 tree = hr::M2::Identity()*z.MA*z.MA; double u = 0;
            for (int t : hr::truncations(h)) { hr::Depth d = hr::full(); d[t] = 0; const double w = hr::mh(tree + ref(z, hr::full())) - hr::mh(tree + ref(z, d)); u += w*w; } return std::sqrt(u); };
         const hr::M2 wp = ref(p, hr::full()), wq = ref(q, hr::full());
         if (!mdr) for (std::size_t k = 0; k < a.size(); k++) if (a[k].n == std::string("exp") + std::to_string(h) + (ab ? "b" : "t") + ".unc3") {
            const double x = a[k].v*f, y = b[k].v, sc = b[k].sc;
            if (std::abs(x - y) > 1e-7*sc && std::abs((y - x) - (unc(q) - f*unc(p))) <= 1e-7*sc) { r.fail("Dmsqst2", a[k].n + " " + pt); r.count("explained"); b[k].v = x; }
         }
         const std::string n = std::string("exp") + std::to_string(h) + (ab ? "b" : "t") + (mdr ? "m" : "") + ".3(";
         for (std::size_t k = 0; k < a.size(); k++) if (a[k].n.compare(0, n.size(), n) == 0) {
            const int e = a[k].n[n.size()] - '0', g = a[k].n[n.size() + 2] - '0';
            const double x = a[k].v*f*f, y = b[k].v, sc = std::max(a[k].sc*f*f, b[k].sc);
            if (std::abs(x - y) > 1e-7*sc && std::abs((y - x) - (wq(e,g) - f*f*wp(e,g))) <= 1e-7*sc) { r.fail("Dmsqst2", a[k].n + " " + pt); r.count("explained"); b[k].v = x; }
         }
      }
      compare("expansions", a, b, f, pt, r); r.count("numbers", a.size()); r.count("evaluations", 2);
   }
}

/// functions of several masses: the stand-alone two-loop corrections and loop integrals
void functions(std::size_t i, vh::Report& r)
{
   static const double A[] = {1, 2.3, 7.1, 0.04}; static const double F[] = {4, 0.25, 2.89, 1024, 1e-3, 1e6, 1e-7};
   vh::Digits d(i); const double f = d.pick(F), m = std::sqrt(f); const double a = d.pick(A), b = 1.07*d.pick(A), c = 1.16*d.pick(A), q = d.pick(A);
   std::ostringstream o; o << a << "," << b << "," << c << "," << q; const std::string pt = o.str();
   using namespace mh2_eft; using namespace threshold_loop_functions;
   const auto cmp = [&] (const std::string& n, double x, double y, double dm) {
      const double want = x*std::pow(f, dm), tol = 1e-9*std::max(std::abs(want), std::pow(f, dm)*1e-3);
      if (x != x || y != y) { r.check("undefined", (x != x) == (y != y), n + " " + pt); return; }
      r.close(n, y, want, tol, pt + " factor " + vh::fmt(f)); r.count("functions"); r.state(vh::mix(vh::bits(x), n.size())); };
   cmp("phi_xyz", phi_xyz(a, b, c), phi_xyz(a*f, b*f, c*f), 1);
   cmp("delta_xyz", delta_xyz(a, b, c), delta_xyz(a*f, b*f, c*f), 2);
   cmp("a0", mh2_fo::a0(a, q), mh2_fo::a0(a*f, q*f), 1);
   for (double p : {0., 2e-4, 0.05, 0.5, 30., 1000.}) {
      cmp("b0", mh2_fo::b0(p, a, b, q), mh2_fo::b0(p*f, a*f, b*f, q*f), 0);
      cmp("b0", mh2_fo::b0(p, a, a, q), mh2_fo::b0(p*f, a*f, a*f, q*f), 0);
      cmp("b0", mh2_fo::b0(p, 0, b, q), mh2_fo::b0(p*f, 0, b*f, q*f), 0);
      cmp("b0xx", mh2_fo::b0xx(p, a, q), mh2_fo::b0xx(p*f, a*f, q*f), 0);
      cmp("b0xx", mh2_fo::b0xx(p, 0, q), mh2_fo::b0xx(p*f, 0, q*f), 0);
   }
   cmp("b0", mh2_fo::b0(0, a, b, q), mh2_fo::b0(0, a*f, b*f, q*f), 0); cmp("d1_b0", mh2_fo::d1_b0(a, a), mh2_fo::d1_b0(a*f, a*f), -1);
   cmp("d1_b0", mh2_fo::d1_b0(a, b), mh2_fo::d1_b0(a*f, b*f), -1);
   const double s = 0.6, k = 0.8, S = 1e6;
   for (int h = 0; h < 2; h++) {
      using namespace mh2l;
      const auto mats = [&] (const std::string& n, double acc, const Eigen::Matrix2d& x, const Eigen::Matrix2d& y) {
         for (int e = 0; e < 4; e++) { const double w = x(e/2,e%2)*f, sc = std::max(x.norm()*f, 1e-3*f);
            if (w != w) { r.check("undefined", y(e/2,e%2) != y(e/2,e%2), n + " " + pt); continue; }
            r.close(n, y(e/2,e%2), w, acc*sc, pt + " factor " + vh::fmt(f)); r.count("functions"); } };
      mats("at_as", 1e-6, delta_mh2_2loop_at_as(25600, 1e3*a, S*b, S*c, s, k, S*q, 700, 10, 60000, 1.1, h), delta_mh2_2loop_at_as(25600*f, 1e3*a*m, S*b*f, S*c*f, s, k, S*q*f, 700*m, 10, 60000*f, 1.1, h));
      mats("ab_as", 2e-5, delta_mh2_2loop_ab_as(6, 1e3*a, S*b, S*c, s, k, S*q, 700, 0.1, 60000, 1.1, h), delta_mh2_2loop_ab_as(6*f, 1e3*a*m, S*b*f, S*c*f, s, k, S*q*f, 700*m, 0.1, 60000*f, 1.1, h));
      for (int t = 0; t < 2; t++)
         mats("at_at", 1e-6, delta_mh2_2loop_at_at(25600, 6, S*a, S*b, S*c, 1.1*S*c, 1.2*S*b, s, k, k, s, S*q, 700, 10, 60000, h, t), delta_mh2_2loop_at_at(25600*f, 6*f, S*a*f, S*b*f, S*c*f, 1.1*S*c*f, 1.2*S*b*f, s, k, k, s, S*q*f, 700*m, 10, 60000*f, h, t));
      mats("atau_atau", 1e-6, delta_mh2_2loop_atau_atau(3, S*a, 1.05*S*b, S*b, S*c*1.01, s, k, S*q, 700, 10, 60000, h), delta_mh2_2loop_atau_atau(3*f, S*a*f, 1.05*S*b*f, S*b*f, S*c*1.01*f, s, k, S*q*f, 700*m, 10, 60000*f, h));
      mats("ab_atau", 1e-6, delta_mh2_2loop_ab_atau(3, 6, S*a, S*b*1.03, S*c, S*b*1.1, s, k, k, s, S*q, 700, 10, 60000, h), delta_mh2_2loop_ab_atau(3*f, 6*f, S*a*f, S*b*1.03*f, S*c*f, S*b*1.1*f, s, k, k, s, S*q*f, 700*m, 10, 60000*f, h));
   }
}

/// limits chosen by hand: each formula has the right dimension on its own
void limits(std::size_t i, vh::Report& r)
{
   vh::Digits d(i); const int lim = d.next(6); const double f = d.pick(FQ); pts::Spec s = spec(d, true);
   s.mU3 *= 1.07; s.MG *= 0.92; s.mQ *= 1.04; s.mU *= 1.04; s.mD *= 1.04;   // the general formulas are not defined for equal masses
   Parameters p = pts::make(s); Parameters q = scaled(p, f); p.validate(false); q.validate(false);
   obs::List a, b; obs::thresholds(p, a, lim); obs::thresholds(q, b, lim);
   compare("limits", a, b, f, show(s) + " limit " + std::to_string(lim), r); r.count("evaluations", 2); r.count("numbers", a.size());
   for (int x = 4; x <= 6; x++) for (int o = 0; o < 2; o++) {
      const mh2_eft::ThresholdCalculator t(p, false), u(q, false); const auto L = static_cast<mh2_eft::Limits>(lim);
      const double v = t.getDRbarPrimeToMSbarXtTerms(L, x, o), w = u.getDRbarPrimeToMSbarXtTerms(L, x, o);
      if (v == v) r.close("xtterms", w, v, 1e-3*std::abs(v), show(s) + " limit " + std::to_string(lim));
   }
}

} // namespace

int main(int argc, char** argv)
{
   vh::Check c; c.id = "P10"; c.level = "exploration"; c.rule = "value of the first number of each group";
   const bool th = vh::thorough();
   const auto fam = [&] (const char* n, const std::string& sp, std::size_t sz, std::function<void(std::size_t, vh::Report&)> f) { vh::Family x; x.name = n; x.space = sp; x.size = sz; x.run = f; c.families.push_back(x); };
   const std::size_t ns = 27*3*2*3;
   fam("points", "factors x orderings and coincidences of mQ3, mU3, MG, msq (x mD3) x scales x mixings x sectors, ~2000 numbers each", th ? NFT*ns*3*4 : NFQ*ns*2, [=] (std::size_t i, vh::Report& r) { point(i, th, r); });
   fam("functions", "factors x all assignments of four masses", 7*256, functions);
   fam("limits", "the six mass limits x factors x spectra", 6*NFQ*(th ? ns*3*4 : 27*3*3), limits);
   c.c_states = "@distinct"; c.c_transitions = "evaluations"; c.c_traces = "comparisons";
   c.required = {"functions", "threeloop", "nonzero.spectrum", "nonzero.thresholds", "nonzero.eft", "nonzero.fo", "nonzero.expansions", "nonzero.limits"};
   return vh::run(argc, argv, c);
}
