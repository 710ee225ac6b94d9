// P02: every call returns what it returns in a fresh process, whatever was
// called before.  All call sequences up to a depth; the reference for the last
// call is a fresh process that makes only the settings still in force on the
// object concerned.
#include "vh.hpp"
#include "points.hpp"
#include "fields.hpp"
#include "himalaya/HierarchyCalculator.hpp"
#include "himalaya/mh2_eft/Mh2EFTCalculator.hpp"
#include "himalaya/mh2_eft/ThresholdCalculator.hpp"
#include "himalaya/mh2_eft/ThresholdLoopFunctions.hpp"
#include "himalaya/mh2_eft/EFTFlags.hpp"
#include "himalaya/mh2_fo/MSSM_mass_eigenstates.hpp"
#include "himalaya/mh2_fo/PV.hpp"
#include "himalaya/mh2l/DSZHiggs.hpp"
#include "himalaya/misc/Li2.hpp"
#include <memory>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace himalaya;
namespace {

struct Out {                       // lives in shared memory
   int n, done; double v[400]; char err[200];
   void d(double x) { if (n < 400) v[n++] = x; }
   template <class M> void m(const M& x) { for (int i = 0; i < x.size(); i++) d(x.data()[i]); }
};

Parameters point(int k)
{
   pts::Spec s;
   switch (k) {
   case 0: break;                                                                            // h3-like
   case 1: s.mQ3 = 600; s.mU3 = 2500; s.mQ = s.mU = s.mD = 5000; s.MG = 2600; s.Xt = 300; s.scale = 1500; break;   // split stops
   case 2: s.MG = 9000; break;                                                               // nothing fits
   case 3: s.mQ3 = s.mU3 = s.mD3 = s.mQ = s.mU = s.mD = s.MG = s.MA = s.scale = 2000; s.Xt = 3000; break;          // degenerate
   case 4: s.tb = 40; s.yb = 0.5; s.Ab = -1500; s.mD3 = 900; s.MG = 700; break;               // large yb
   }
   return pts::make(s);
}

void add(Out& o, const HierarchyObject& h)
{
   o.d(h.getSuitableHierarchy()); o.d(h.getAbsDiff2L()); o.d(h.getRelDiff2L()); o.m(h.getMDRMasses()); o.d(h.getMDRFlag());
   for (int l = 0; l < 4; l++) { o.m(h.getDMh(l)); o.d(h.getDMh2(l)); o.d(h.getDLambda(l)); o.d(h.getDMh2EFTAt(l)); o.d(h.getDMh2FO(l)); o.d(h.getDMh2FOAt(l)); o.d(h.getDLambdaUncertainty(l)); if (l) o.d(h.getDMhExpUncertainty(l)); o.d(h.getDLambdaDRbarPrimeToMSbarShift(l)); }
   o.m(h.getDMhDRbarPrimeToMDRbarPrimeShift()); o.m(h.getDMhDRbarPrimeToH3mShift()); o.d(h.getDLambdaH3m()); o.d(h.getDLambdaEFT()); o.d(h.getDLambdaNonLog());
}

struct World {
   // objects are created on first use, like in a user's program
   std::unique_ptr<HierarchyCalculator> h[5];
   std::unique_ptr<mh2_eft::Mh2EFTCalculator> e;
   std::unique_ptr<mh2_eft::ThresholdCalculator> t;
   std::unique_ptr<mh2_fo::MSSM_mass_eigenstates> m;
   HierarchyCalculator& H(int k) { if (!h[k]) h[k].reset(new HierarchyCalculator(point(k), false)); return *h[k]; }
   mh2_eft::Mh2EFTCalculator& E() { if (!e) { auto p = point(4); p.validate(false); e.reset(new mh2_eft::Mh2EFTCalculator(p, false)); } return *e; }
   mh2_eft::ThresholdCalculator& T() { if (!t) { auto p = point(0); p.validate(false); t.reset(new mh2_eft::ThresholdCalculator(p, false)); } return *t; }
   mh2_fo::MSSM_mass_eigenstates& M() { if (!m) { auto p = point(4); p.validate(false); m.reset(new mh2_fo::MSSM_mass_eigenstates(p)); } return *m; }
};

struct Op {
   std::string name;
   char obj;                    ///< object the call acts on
   std::string key;             ///< non-empty: a setting
   std::string value;
   bool deflt;                  ///< setting to the default value
   std::function<void(World&, Out&)> run;
};

std::vector<Op> make_ops()
{
   using namespace mh2_eft;
   std::vector<Op> v;
   const auto q = [&v] (const char* n, char o, std::function<void(World&, Out&)> f) { v.push_back({n, o, "", "", false, f}); };
   const auto c = [&v] (const char* n, char o, const char* key, const char* val, bool d, std::function<void(World&, Out&)> f) { v.push_back({n, o, key, val, d, f}); };
   // hierarchy calculators: they have no settings, hence object '-'
   q("A.top", '-', [] (World& w, Out& o) { add(o, w.H(0).calculateDMh3L(false)); });
   q("A.bottom", '-', [] (World& w, Out& o) { add(o, w.H(0).calculateDMh3L(true)); });
   q("B.top", '-', [] (World& w, Out& o) { add(o, w.H(1).calculateDMh3L(false)); });
   q("D.top", '-', [] (World& w, Out& o) { add(o, w.H(3).calculateDMh3L(false)); });
   q("F.bottom", '-', [] (World& w, Out& o) { add(o, w.H(4).calculateDMh3L(true)); });
   q("none.top", '-', [] (World& w, Out& o) { add(o, w.H(2).calculateDMh3L(false)); });
   q("A.select", '-', [] (World& w, Out& o) { HierarchyObject ho(false); o.d(w.H(0).compareHierarchies(ho)); add(o, ho); });
   q("A.expand", '-', [] (World& w, Out& o) { HierarchyObject ho(false); for (int h = 0; h < 14; h++) { ho.setSuitableHierarchy(h); o.m(w.H(0).calculateHierarchy(ho, 1, 1, 1)); } });
   q("A.uncertainty", '-', [] (World& w, Out& o) { HierarchyObject ho(false); ho.setMDRFlag(0); const auto tree = Eigen::Matrix2d::Identity()*8000.; for (int h : {0, 3, 6, 13}) { ho.setSuitableHierarchy(h); for (int l = 0; l < 3; l++) o.d(w.H(0).getExpansionUncertainty(ho, tree, l == 0, l == 1, l == 2)); } });
   q("A.badhierarchy", '-', [] (World& w, Out& o) { HierarchyObject ho(false); ho.setSuitableHierarchy(0); o.m(w.H(0).calculateHierarchy(ho, 0, 1, 0)); ho.setSuitableHierarchy(77); o.d(w.H(0).getExpansionUncertainty(ho, Eigen::Matrix2d::Identity(), 1, 1, 1)); });
   q("A.mdr", '-', [] (World& w, Out& o) { HierarchyObject ho(false); ho.setSuitableHierarchy(7); ho.setMDRFlag(1); o.m(w.H(0).calculateHierarchy(ho, 0, 0, 1)); o.m(w.H(0).calcDRbarToMDRbarShift(ho, true, true)); o.d(w.H(0).shiftMst1ToMDR(ho, 1, 1)); o.d(w.H(0).shiftMst2ToMDR(ho, 1, 0)); });
   q("A.copy", '-', [] (World& w, Out& o) { auto a = w.H(0); auto b = a; add(o, b.calculateDMh3L(false)); });
   q("new.verbose", '-', [] (World&, Out& o) { HierarchyCalculator hc(point(4), true); HierarchyObject ho(true); o.d(hc.compareHierarchies(ho)); });
   q("invalid", '-', [] (World&, Out& o) { auto p = point(0); p.MG = 0; HierarchyCalculator hc(p, false); add(o, hc.calculateDMh3L(false)); });
   q("functions", '-', [] (World&, Out& o) { using namespace threshold_loop_functions; for (double x : {-2.5, 0.3, 0.99999, 1., 3.}) { o.d(dilog(x)); o.d(clausen_2(x)); o.d(std::abs(dilog(std::complex<double>(x, 0.3)))); o.d(F1(std::abs(x))); o.d(F8(std::abs(x), 2)); o.d(f5(std::abs(x), 1)); o.d(phi_xyz(std::abs(x), 1., 2.)); o.d(mh2_fo::b0(x, 1., 2., 3.)); } });
   q("twoloop", '-', [] (World&, Out& o) { using namespace mh2l; for (int k = 0; k < 2; k++) { const double B = k ? 1e6 : 2.25e6, s = 0.3, cc = std::sqrt(1 - s*s);
      o.m(delta_mh2_2loop_at_at(25600., 6., 2e6, 1e6, B, 1.1e6, B, s, cc, -s, cc, 1e6, 500., 10., 60000., k, 0));
      o.m(delta_mh2_2loop_at_as(25600., 1500., 1e6, B, s, cc, 1e6, 500., 10., 60000., 1.1, k));
      o.m(delta_mh2_2loop_ab_as(6., 1500., 1e6, B, s, cc, 1e6, 500., 0.1, 60000., 1.1, k));
      o.m(delta_mh2_2loop_atau_atau(3., 2e6, 1e6, 1e6, B, s, cc, 1e6, 500., 10., 60000., k));
      o.m(delta_mh2_2loop_ab_atau(3., 6., 1e6, B, 1.2e6, 1.1*B, s, cc, -s, cc, 1e6, 500., 10., 60000., k)); } });
   // effective theory
   q("E.0", 'E', [] (World& w, Out& o) { o.d(w.E().getDeltaMh2EFT0Loop()); });
   q("E.12", 'E', [] (World& w, Out& o) { for (int a : {0, 1}) for (int b : {0, 1}) { o.d(w.E().getDeltaMh2EFT1Loop(a, b)); o.d(w.E().getDeltaMh2EFT2Loop(a, b)); } });
   q("E.3", 'E', [] (World& w, Out& o) { for (int a : {0, 1}) for (int b : {0, 1}) for (int l : {0, 1}) o.d(w.E().getDeltaMh2EFT3Loop(a, b, l)); });
   q("E.copy", 'E', [] (World& w, Out& o) { auto a = w.E(); a.setCorrectionFlag(CouplingOrders::YT4, 0); a.setCorrectionFlag(CouplingOrders::G24, 0); o.d(w.E().getDeltaMh2EFT1Loop(1, 1)); });
   c("E.yt4=0", 'E', "yt4", "0", false, [] (World& w, Out&) { w.E().setCorrectionFlag(CouplingOrders::YT4, 0); });
   c("E.yt4=1", 'E', "yt4", "1", true, [] (World& w, Out&) { w.E().setCorrectionFlag(CouplingOrders::YT4, 1); });
   c("E.g32yt4=0", 'E', "g32yt4", "0", false, [] (World& w, Out&) { w.E().setCorrectionFlag(CouplingOrders::G32YT4, 0); });
   c("E.g32yt4=1", 'E', "g32yt4", "1", true, [] (World& w, Out&) { w.E().setCorrectionFlag(CouplingOrders::G32YT4, 1); });
   // threshold corrections
   const auto thr = [] (World& w, Out& o) { for (int k = 0; k < static_cast<int>(ThresholdCouplingOrders::NUMBER_OF_THRESHOLD_VARIALES); k++) for (int l : {0, 1}) o.d(w.T().getThresholdCorrection(static_cast<ThresholdCouplingOrders>(k), RenSchemes::DRBARPRIME, l)); };
   q("T.all", 'T', thr);
   q("T.xt", 'T', [] (World& w, Out& o) { for (int x : {3, 4}) for (int l : {0, 1}) { o.d(w.T().getDRbarPrimeToMSbarShift(x, 1, l)); for (int k = 0; k < 6; k++) o.d(w.T().getDRbarPrimeToMSbarXtTerms(static_cast<Limits>(k), x, 1)); } o.d(static_cast<int>(w.T().getLimit())); });
   q("T.throw", 'T', [] (World& w, Out& o) { o.d(w.T().getThresholdCorrection(static_cast<ThresholdCouplingOrders>(999), RenSchemes::DRBARPRIME, 1)); });
   c("T.limit=degenerate", 'T', "limit", "5", false, [] (World& w, Out&) { w.T().setLimit(Limits::DEGENERATE); });
   c("T.limit=general", 'T', "limit", "0", true, [] (World& w, Out&) { w.T().setLimit(Limits::GENERAL); });
   c("T.xt=3", 'T', "xt", "3", false, [] (World& w, Out&) { w.T().setXtOrderOfDeltaLambdaAtAs2(3); });
   c("T.xt=6", 'T', "xt", "6", true, [] (World& w, Out&) { w.T().setXtOrderOfDeltaLambdaAtAs2(6); });
   // fixed order
   const auto mh2 = [] (mh2_fo::MSSM_mass_eigenstates& m, Out& o) { const auto r = m.calculate_Mh2(); o.d(std::get<0>(r)); o.d(std::get<1>(r)); o.d(std::get<2>(r)); };
   q("M.mh2", 'M', [mh2] (World& w, Out& o) { mh2(w.M(), o); });
   q("M.parts", 'M', [] (World& w, Out& o) { o.m(w.M().delta_mh2_1loop(0)); o.m(w.M().delta_mh2_1loop(15625.)); o.m(w.M().delta_mh2_1loop_gaugeless()); o.m(w.M().delta_mh2_1loop_gaugeless_deriv()); o.m(w.M().delta_mh2_2loop()); o.m(w.M().delta_mh2_2loop_mom_it_pert()); o.m(w.M().delta_mh2_2loop_mom_it_num()); o.m(w.M().get_mass_matrix_hh()); });
   c("M.yt4=0", 'M', "yt4", "0", false, [] (World& w, Out&) { w.M().set_correction(CouplingOrders::YT4, 0); });
   c("M.yt4=1", 'M', "yt4", "1", true, [] (World& w, Out&) { w.M().set_correction(CouplingOrders::YT4, 1); });
   c("M.num", 'M', "diag", "num", false, [] (World& w, Out&) { w.M().set_diagonalization(mh2_fo::Diagonalization::num); });
   c("M.pert", 'M', "diag", "pert", true, [] (World& w, Out&) { w.M().set_diagonalization(mh2_fo::Diagonalization::pert); });
   c("M.mom=num", 'M', "mom", "num", false, [] (World& w, Out&) { w.M().set_mom_it(mh2_fo::Momentum_iteration::num); });
   c("M.mom=off", 'M', "mom", "off", false, [] (World& w, Out&) { w.M().set_mom_it(mh2_fo::Momentum_iteration::off); });
   c("M.mom=pert", 'M', "mom", "pert", true, [] (World& w, Out&) { w.M().set_mom_it(mh2_fo::Momentum_iteration::pert); });
   q("M.onlyat", '-', [mh2] (World&, Out& o) { auto p = point(0); p.validate(false); mh2_fo::MSSM_mass_eigenstates m(p, true); mh2(m, o); m.set_mom_it(mh2_fo::Momentum_iteration::num); m.set_diagonalization(mh2_fo::Diagonalization::num); mh2(m, o); });
   return v;
}
const std::vector<Op> ops = make_ops();
const int N = ops.size();

Out* area() { return static_cast<Out*>(mmap(nullptr, sizeof(Out), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0)); }

void apply(World& w, int op, Out& o)
{
   o.n = 0; o.err[0] = 0;
   try { ops[op].run(w, o); }
   catch (const std::exception& e) { std::snprintf(o.err, sizeof o.err, "exception: %s", e.what()); }
   catch (...) { std::snprintf(o.err, sizeof o.err, "exception"); }
   o.done = 1;
}

/// runs f in a child process; false if it crashed
template <class F> bool child(F f)
{
   const pid_t p = fork();
   if (p == 0) { if (!std::freopen("/dev/null", "w", stderr)) _exit(9); f(); _exit(0); }
   int st; waitpid(p, &st, 0);
   return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}

/// settings in force for the last call: last write per key of its object, defaults dropped
std::vector<int> relevant(const std::vector<int>& seq)
{
   const char obj = ops[seq.back()].obj; std::map<std::string, int> last;
   for (std::size_t i = 0; i + 1 < seq.size(); i++) if (!ops[seq[i]].key.empty() && ops[seq[i]].obj == obj) last[ops[seq[i]].key] = seq[i];
   std::vector<int> r; for (auto& l : last) if (!ops[l.second].deflt) r.push_back(l.second);
   r.push_back(seq.back()); return r;
}
std::map<std::vector<int>, std::shared_ptr<Out>> cache;
Out* scratch = nullptr;

const Out& reference(const std::vector<int>& r)
{
   auto& c = cache[r];
   if (!c) {
      if (!scratch) scratch = area();
      std::memset(scratch, 0, offsetof(Out, v));
      if (!child([&] { World w; for (int op : r) apply(w, op, *scratch); })) { scratch->done = 0; std::snprintf(scratch->err, sizeof scratch->err, "crash"); }
      c.reset(new Out(*scratch));
   }
   return *c;
}
std::string diff(const Out& a, const Out& b)
{
   if (std::string(a.err) != b.err) return std::string("'") + a.err + "' instead of '" + b.err + "'";
   if (a.n != b.n) return "different number of results";
   for (int i = 0; i < a.n; i++) if (vh::bits(a.v[i]) != vh::bits(b.v[i]) && !(a.v[i] != a.v[i] && b.v[i] != b.v[i])) return "value " + std::to_string(i) + " is " + vh::fmt(a.v[i]) + " instead of " + vh::fmt(b.v[i]);
   return "";
}
std::string show(const std::vector<int>& s) { std::string t; for (int i : s) t += (t.empty() ? "" : ", ") + ops[i].name; return t; }

void histories(int depth, std::size_t idx, vh::Report& r)
{
   static Out* o = area();
   std::vector<int> pre; for (int i = 0; i < depth - 1; i++) { pre.push_back(idx % N); idx /= N; }
   struct Box { int i; char how[40]; Out o; };
   static Box* box = static_cast<Box*>(mmap(nullptr, sizeof(Box)*64, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0));
   for (int i = 0; i < N; i++) box[i].o.done = 0;
   child([&] {
      World w; for (int op : pre) apply(w, op, *o);
      for (int i = 0; i < N; i++) if (ops[i].key.empty()) child([&] { apply(w, i, box[i].o); });
   });
   r.count("transitions", depth);
   for (int i = 0; i < N; i++) {
      if (!ops[i].key.empty()) continue;
      auto seq = pre; seq.push_back(i); r.count("histories"); r.count("transitions");
      const auto rel = relevant(seq); const Out& ref = reference(rel);
      std::string d = !box[i].o.done ? (ref.done ? "crash" : "") : diff(box[i].o, ref);
      r.count("comparisons"); if (box[i].o.err[0]) r.count("failing calls");
      if (pre.size() && !ops[pre.back()].key.empty()) r.count("after a setting");
      std::uint64_t h = i; for (int k = 0; k < ref.n; k++) h = vh::mix(h, vh::bits(ref.v[k]));
      r.state(h);
      if (!d.empty()) r.fail("history", "after [" + show(pre) + "], " + ops[i].name + ": " + d + " (fresh process: [" + show(rel) + "])");
   }
}

/// long chains in one process: every call repeated after every other call, in a de Bruijn-like walk
void chain(std::size_t k, vh::Report& r)
{
   // walk over all ordered pairs (i, i+k mod N): i, i+k, i+2k ... in ONE process
   Out* o = area(); std::string bad; std::vector<int> walk;
   for (int i = 0, x = 0; i < 2*N; i++) { walk.push_back(x); x = (x + k) % N; if (x == walk[0] && i > 0) x = (x + 1) % N; }
   struct Rec { int n; std::uint64_t h[4000]; }; auto* rec = static_cast<Rec*>(mmap(nullptr, sizeof(Rec), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0));
   const auto hash = [] (const Out& o) { std::uint64_t h = o.n; for (int i = 0; i < o.n; i++) h = vh::mix(h, o.v[i] != o.v[i] ? 7 : vh::bits(o.v[i])); for (const char* c = o.err; *c; c++) h = vh::mix(h, *c); return h; };
   const bool ok = child([&] { World w; for (int op : walk) { apply(w, op, *o); rec->h[rec->n++] = hash(*o); } });
   if (!ok) r.fail("chain", "crash in the chain with stride " + std::to_string(k));
   for (int i = 0; i < rec->n; i++) {
      if (!ops[walk[i]].key.empty()) continue;
      const std::vector<int> seq(walk.begin(), walk.begin() + i + 1);
      r.count("histories"); r.count("transitions"); r.count("comparisons");
      if (hash(reference(relevant(seq))) != rec->h[i]) { r.fail("chain", "call " + std::to_string(i) + " (" + ops[walk[i]].name + ") of the chain with stride " + std::to_string(k) + " differs from a fresh process"); break; }
   }
   munmap(o, sizeof(Out)); munmap(rec, sizeof(Rec));
}

// ---- neighbouring points and arguments -----------------------------------
// All ordered pairs of points that differ from a base point in at most one
// input: what is kept from one calculation must not enter the next one.
std::vector<Parameters> variants(int base)
{
   std::vector<Parameters> v;
   Parameters b = point(base/2 == 0 ? 0 : base/2 == 1 ? 4 : 1);
   if (base % 2) b.validate(false);            // spectrum and mixings given
   v.push_back(b);
   const auto names = flds::names();
   for (std::size_t k = 0; k < names.size(); k++) {
      const bool offdiag = names[k].size() > 5 && names[k][names[k].size() - 4] != names[k][names[k].size() - 2];
      if (offdiag || names[k] == "massLimit3LThreshold") continue;
      for (int how = 0; how < 2; how++) {
         Parameters q = b; bool ok = false; std::size_t i = 0;
         flds::each(q, [&] (const std::string&, double& x) { if (i++ == k && x == x && x != 0) { ok = true; x *= how ? -1 : 1 + 1/64.; } });
         const bool sign = names[k] == "mu" || names[k][0] == 'A' || names[k] == "M1" || names[k] == "M2" || names[k][0] == 's' || names[k][0] == 't';
         if (ok && (!how || (sign && names[k] != "scale"))) v.push_back(q);
      }
   }
   return v;
}
/// arguments of the two-loop functions: base values with at most one changed
std::vector<std::vector<double>> args()
{
   const std::vector<double> b = {25600, 6, 3.1, 2e6, 1500, 1e6, 2.25e6, 1.1e6, 1.5e6, 0.9e6, 1.3e6, 1.2e6, 0.3, -0.2, 0.25, 1e6, 500, 10, 60000, 1.1, 0.31};
   std::vector<std::vector<double>> v{b};
   for (std::size_t k = 0; k < b.size(); k++) { auto x = b; x[k] *= 1 + 1/64.; v.push_back(x); }
   for (int k : {12, 13, 14, 16}) { auto x = b; x[k] *= -1; v.push_back(x); }
   for (int k : {12, 13, 14}) { auto x = b; x.push_back(k); v.push_back(x); }        // sign of a cosine
   return v;
}
// Single calls: a value kept inside one function must not survive the next
// call of the same function, hence every function is also a case of its own.
struct Kind { std::string name; bool args; std::function<void(const Parameters&, const std::vector<double>&, Out&)> run; };
std::vector<Kind> make_kinds()
{
   std::vector<Kind> v;
   const auto fn = [&v] (const std::string& n, std::function<void(const std::vector<double>&, Out&)> f) { v.push_back({n, true, [f] (const Parameters&, const std::vector<double>& a, Out& o) { f(a, o); }}); };
   const auto pt = [&v] (const std::string& n, std::function<void(const Parameters&, Out&)> f) { v.push_back({n, false, [f] (const Parameters& p, const std::vector<double>&, Out& o) { f(p, o); }}); };
   using namespace mh2l; using namespace mh2_eft; using namespace mh2_eft::threshold_loop_functions;
   static const auto c = [] (const std::vector<double>& a, int k) { return (a.size() > 21 && a[21] == k ? -1 : 1)*std::sqrt(1 - a[k]*a[k]); };
   for (int heavy = 0; heavy < 2; heavy++) {
      const std::string h = heavy ? " heavy" : "";
      for (int atat = 0; atat < 2; atat++) fn("at_at" + h + (atat ? " atat" : ""), [=] (const std::vector<double>& a, Out& o) { o.m(delta_mh2_2loop_at_at(a[0], a[1], a[3], a[5], a[6], a[7], a[8], a[12], c(a, 12), a[13], c(a, 13), a[15], a[16], a[17], a[18], heavy, atat)); });
      fn("at_as" + h, [=] (const std::vector<double>& a, Out& o) { o.m(delta_mh2_2loop_at_as(a[0], a[4], a[5], a[6], a[12], c(a, 12), a[15], a[16], a[17], a[18], a[19], heavy)); });
      fn("ab_as" + h, [=] (const std::vector<double>& a, Out& o) { o.m(delta_mh2_2loop_ab_as(a[1], a[4], a[7], a[8], a[13], c(a, 13), a[15], a[16], 1/a[17], a[18], a[19], heavy)); });
      fn("at_as, equal stops" + h, [=] (const std::vector<double>& a, Out& o) { o.m(delta_mh2_2loop_at_as(a[0], a[4], a[5], a[5], 0, 1, a[15], a[16], a[17], a[18], a[19], heavy)); });
      fn("atau_atau" + h, [=] (const std::vector<double>& a, Out& o) { o.m(delta_mh2_2loop_atau_atau(a[2], a[3], a[9], a[10], a[11], a[14], c(a, 14), a[15], a[16], a[17], a[18], heavy)); });
      fn("ab_atau" + h, [=] (const std::vector<double>& a, Out& o) { o.m(delta_mh2_2loop_ab_atau(a[2], a[1], a[10], a[11], a[7], a[8], a[14], c(a, 14), a[13], c(a, 13), a[15], a[16], a[17], a[18], heavy)); });
   }
   fn("all two-loop functions", [w = v] (const std::vector<double>& a, Out& o) { for (auto& k : w) k.run(Parameters(), a, o); });
   const auto f2 = [&] (const char* n, std::function<double(double, double)> f) { for (int k : {6, 8, 9, 10}) fn(n + std::to_string(k), [=] (const std::vector<double>& a, Out& o) { o.d(f(a[5]/a[15], a[5]/a[k])); }); };
   f2("F1", [] (double x, double) { return F1(x); }); f2("F5", [] (double x, double) { return F5(x); }); f2("F8", [] (double x, double y) { return F8(x, y); }); f2("F9", [] (double x, double y) { return F9(x, y); });
   f2("f5", [] (double x, double y) { return f5(x, y); }); f2("f6", [] (double x, double y) { return f6(x, y); }); f2("f7", [] (double x, double y) { return f7(x, y); }); f2("f8", [] (double x, double y) { return f8(x, y); });
   f2("phi", [] (double x, double y) { return phi_xyz(x, y, 1.); }); f2("phi2", [] (double x, double y) { return phi_xyz(y, x, 0.3); }); f2("b0", [] (double x, double y) { return mh2_fo::b0(x, y, 2., 3.); }); f2("b0q", [] (double x, double y) { return mh2_fo::b0(0.3, 1., y, x); }); f2("d1_b0", [] (double x, double y) { return mh2_fo::d1_b0(x, y); });
   f2("dilog", [] (double x, double) { return dilog(x - 1); }); f2("clausen", [] (double x, double) { return clausen_2(x); }); f2("cdilog", [] (double x, double y) { return std::abs(dilog(std::complex<double>(x, y))); });
   // calculations at points
   pt("top", [] (const Parameters& p, Out& o) { HierarchyCalculator hc(p, false); add(o, hc.calculateDMh3L(false)); });
   pt("bottom", [] (const Parameters& p, Out& o) { HierarchyCalculator hc(p, false); add(o, hc.calculateDMh3L(true)); });
   for (int b = 0; b < 2; b++) {
      const std::string n = b ? " bottom" : " top";
      const auto ho = [b] (int h, int mdr) { HierarchyObject x(b); x.setSuitableHierarchy(h); x.setMDRFlag(mdr); return x; };
      pt("Mt41L" + n, [=] (const Parameters& p, Out& o) { HierarchyCalculator hc(p, false); o.m(hc.getMt41L(ho(0, 0), 0, 0)); });
      pt("Mt42L" + n, [=] (const Parameters& p, Out& o) { HierarchyCalculator hc(p, false); o.m(hc.getMt42L(ho(0, 0), 0, 0)); });
      pt("select" + n, [=] (const Parameters& p, Out& o) { HierarchyCalculator hc(p, false); auto x = ho(0, 0); o.d(hc.compareHierarchies(x)); o.d(x.getAbsDiff2L()); });
      for (int h = 0; h < 14; h++) for (int l = 0; l < 3; l++)
         pt("expansion " + std::to_string(h) + n, [=] (const Parameters& p, Out& o) { HierarchyCalculator hc(p, false); auto x = ho(h, h % 2); o.m(hc.calculateHierarchy(x, l == 0, l == 1, l == 2)); });
      pt("uncertainty" + n, [=] (const Parameters& p, Out& o) { HierarchyCalculator hc(p, false); o.d(hc.getExpansionUncertainty(ho(6, 0), Eigen::Matrix2d::Identity()*8000., 0, 0, 1)); });
      pt("mdr" + n, [=] (const Parameters& p, Out& o) { HierarchyCalculator hc(p, false); o.d(hc.shiftMst1ToMDR(ho(7, 1), 1, 1)); o.d(hc.shiftMst2ToMDR(ho(7, 1), 1, 1)); });
   }
   const auto val = [] (Parameters p) { p.validate(false); return p; };
   for (int l = 0; l < 4; l++) pt("EFT " + std::to_string(l), [=] (const Parameters& p, Out& o) { Mh2EFTCalculator e(val(p), false); o.d(l == 0 ? e.getDeltaMh2EFT0Loop() : l == 1 ? e.getDeltaMh2EFT1Loop(1, 1) : l == 2 ? e.getDeltaMh2EFT2Loop(1, 1) : e.getDeltaMh2EFT3Loop(1, 1, 1)); });
   for (int k = 0; k < static_cast<int>(ThresholdCouplingOrders::NUMBER_OF_THRESHOLD_VARIALES); k++) pt("threshold " + std::to_string(k), [=] (const Parameters& p, Out& o) { ThresholdCalculator t(val(p), false); o.d(t.getThresholdCorrection(static_cast<ThresholdCouplingOrders>(k), RenSchemes::DRBARPRIME, 1)); });
   pt("MSbar shift", [=] (const Parameters& p, Out& o) { ThresholdCalculator t(val(p), false); o.d(t.getDRbarPrimeToMSbarShift(4, 1, 1)); });
   pt("FO", [=] (const Parameters& p, Out& o) { mh2_fo::MSSM_mass_eigenstates m(val(p)); const auto r = m.calculate_Mh2(); o.d(std::get<0>(r)); o.d(std::get<1>(r)); o.d(std::get<2>(r)); });
   pt("FO top", [=] (const Parameters& p, Out& o) { mh2_fo::MSSM_mass_eigenstates m(val(p), true); const auto r = m.calculate_Mh2(); o.d(std::get<0>(r)); o.d(std::get<1>(r)); o.d(std::get<2>(r)); });
   pt("FO tree", [=] (const Parameters& p, Out& o) { mh2_fo::MSSM_mass_eigenstates m(val(p)); o.m(m.get_mass_matrix_hh()); });
   pt("FO 1", [=] (const Parameters& p, Out& o) { mh2_fo::MSSM_mass_eigenstates m(val(p)); o.m(m.delta_mh2_1loop(15625.)); });
   pt("FO gaugeless", [=] (const Parameters& p, Out& o) { mh2_fo::MSSM_mass_eigenstates m(val(p)); o.m(m.delta_mh2_1loop_gaugeless()); });
   pt("FO derivative", [=] (const Parameters& p, Out& o) { mh2_fo::MSSM_mass_eigenstates m(val(p)); o.m(m.delta_mh2_1loop_gaugeless_deriv()); });
   pt("FO 2", [=] (const Parameters& p, Out& o) { mh2_fo::MSSM_mass_eigenstates m(val(p)); o.m(m.delta_mh2_2loop()); });
   pt("validate", [=] (const Parameters& p, Out& o) { for (double x : flds::values(val(p))) o.d(x); });
   return v;
}
const std::vector<Kind> kinds = make_kinds();
void evaluate(int kind, const Parameters& q, const std::vector<double>& a, Out& o)
{
   o.n = 0; o.err[0] = 0;
   try { kinds[kind].run(q, a, o); }
   catch (const std::exception& e) { std::snprintf(o.err, sizeof o.err, "exception: %s", e.what()); }
   o.done = 1;
}
struct Small { int n, done; std::uint64_t h; double v[64]; };
Small shrink(const Out& o)
{
   Small s{}; s.n = o.n; s.done = o.done; std::uint64_t h = o.n;
   for (int i = 0; i < o.n; i++) { const double x = o.v[i]; h = vh::mix(h, x != x ? 7 : vh::bits(x)); if (i < 64) s.v[i] = x; }
   for (const char* c = o.err; *c; c++) h = vh::mix(h, *c);
   s.h = h; return s;
}
void neighbours(std::size_t idx, vh::Report& r)
{
   vh::Digits d(idx); const int kind = d.next(kinds.size()), base = d.next(6);
   const bool fn = kinds[kind].args; const std::string name = kinds[kind].name;
   if (fn && base) return;
   const auto A = args(); const auto V = fn ? std::vector<Parameters>() : variants(base);
   const int n = fn ? A.size() : V.size();
   const auto eval = [&] (int i, Out& o) { evaluate(kind, fn ? Parameters() : V[i], fn ? A[i] : A[0], o); };
   Out* o = area();
   Small* ref = static_cast<Small*>(mmap(nullptr, sizeof(Small)*n, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0));
   Small* got = static_cast<Small*>(mmap(nullptr, sizeof(Small)*2*n, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0));
   for (int i = 0; i < n; i++) if (!child([&] { eval(i, *o); ref[i] = shrink(*o); })) r.fail("neighbour", name + " crashed for variant " + std::to_string(i));
   const auto pair = [&] (int a, int b, const Small& s) {
      r.count("neighbour pairs"); r.count("transitions"); r.count("histories"); r.count("comparisons"); r.state(vh::mix(kind, s.h));
      if (s.h == ref[b].h) return;
      std::string w = "length or error"; for (int i = 0; i < std::min(64, s.n); i++) if (vh::bits(s.v[i]) != vh::bits(ref[b].v[i])) { w = "value " + std::to_string(i) + " is " + vh::fmt(s.v[i]) + " instead of " + vh::fmt(ref[b].v[i]); break; }
      r.fail("neighbour", name + " of variant " + std::to_string(b) + " after variant " + std::to_string(a) + " of base " + std::to_string(base) + ": " + w); };
   // i, i, j, i, j', i, ... : every ordered pair (i,j) and (j,i) that contains the base point
   // first element: the base (all pairs with it), or any variant (pairs of changes)
   const std::vector<int> first = fn || (vh::thorough() && name.find("expansion") != 0) ? [n] { std::vector<int> f(n); for (int i = 0; i < n; i++) f[i] = i; return f; }() : std::vector<int>{0};
   for (int i : first) {
      std::memset(got, 0, sizeof(Small)*2*n);
      if (!child([&] { eval(i, *o); for (int j = 0; j < n; j++) { eval(j, *o); got[2*j] = shrink(*o); eval(i, *o); got[2*j + 1] = shrink(*o); } })) r.fail("neighbour", name + " crashed after variant " + std::to_string(i));
      for (int j = 0; j < n; j++) if (got[2*j].done && got[2*j + 1].done) { pair(i, j, got[2*j]); pair(j, i, got[2*j + 1]); }
   }
   munmap(o, sizeof(Out)); munmap(ref, sizeof(Small)*n); munmap(got, sizeof(Small)*2*n);
}

} // namespace

int main(int argc, char** argv)
{
   vh::Check c; c.id = "P02"; c.level = "model_checking";
   c.rule = "one case per call sequence; distinct = distinct observable results of the last call";
   c.c_states = "@distinct"; c.c_transitions = "transitions"; c.c_traces = "histories";
   c.assumptions = {"alphabet: " + std::to_string(N) + " calls and settings on 5 points and all components", "the last call of every sequence runs in its own process image after the prefix; the reference runs in a fresh image"};
   std::size_t n2 = N, n3 = std::size_t(N)*N;
   c.families = {
      {"depth1", "every single call after nothing", 1, [] (std::size_t i, vh::Report& r) { histories(1, i, r); }, 120},
      {"depth2", "all sequences of 2 calls", n2, [] (std::size_t i, vh::Report& r) { histories(2, i, r); }, 120},
      {"depth3", "all sequences of 3 calls", n3, [] (std::size_t i, vh::Report& r) { histories(3, i, r); }, 120},
      {"chains", "long chains: from every call to the one k further in the alphabet, 2N calls in one process", std::size_t(N - 1), [] (std::size_t i, vh::Report& r) { chain(i + 1, r); }, 120},
   };
   c.families.push_back({"neighbours", std::string("all ordered pairs of calculations at points (two-loop functions: argument lists) that differ in a single input; " + std::to_string(kinds.size()) + " calculations and single functions x 3 base points x given/computed spectrum") + (vh::thorough() ? ", and all pairs of two single changes" : ""), kinds.size()*6, neighbours, 300});
   if (vh::thorough()) c.families.push_back({"depth4", "all sequences of 4 calls", n3*N, [] (std::size_t i, vh::Report& r) { histories(4, i, r); }, 120});
   c.required = {"histories", "neighbour pairs", "failing calls", "after a setting"};
   return vh::run(argc, argv, c);
}
