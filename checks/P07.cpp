// P07: coupling-order switches select disjoint, additive contributions.
//  * all subsets of the one-loop / two-loop switches of the EFT calculator and of
//    the two-loop switches of the fixed-order calculator, against the sum of the
//    single contributions
//  * all sequences of switch operations up to a depth: the last setting counts
//  * every single contribution is homogeneous in the couplings it is named after
//  * the loop-order flags of the hierarchy calculator
#include "vh.hpp"
#include "points.hpp"
#include "hier.hpp"
#include "himalaya/HierarchyCalculator.hpp"
#include "himalaya/mh2_eft/Mh2EFTCalculator.hpp"
#include "himalaya/mh2_fo/MSSM_mass_eigenstates.hpp"
#include "himalaya/misc/CouplingOrders.hpp"
using namespace himalaya;
namespace {
namespace C = CouplingOrders;
using C::CouplingOrders;
using hr::M2;
const int N = C::NUMBER_OF_COUPLING_ORDERS;

/// what an order is made of: powers of g1, g2, g3, yb, ytau, yt and its loop order in the effective theory
struct Order { CouplingOrders o; const char* n; int loop, g1, g2, g3, yb, ytau, yt; };
const Order ORD[] = {
   {C::G12G22,"G12G22",1,2,2,0,0,0,0}, {C::G14,"G14",1,4,0,0,0,0,0}, {C::G24,"G24",1,0,4,0,0,0,0}, {C::G12YB2,"G12YB2",1,2,0,0,2,0,0},
   {C::G22YB2,"G22YB2",1,0,2,0,2,0,0}, {C::YB4,"YB4",1,0,0,0,4,0,0}, {C::G12YTAU2,"G12YTAU2",1,2,0,0,0,2,0}, {C::G22YTAU2,"G22YTAU2",1,0,2,0,0,2,0},
   {C::YTAU4,"YTAU4",1,0,0,0,0,4,0}, {C::G12YT2,"G12YT2",1,2,0,0,0,0,2}, {C::G22YT2,"G22YT2",1,0,2,0,0,0,2}, {C::YT4,"YT4",1,0,0,0,0,0,4},
   {C::G32YB4,"G32YB4",2,0,0,2,4,0,0}, {C::YB6,"YB6",2,0,0,0,6,0,0}, {C::YT6,"YT6",2,0,0,0,0,0,6}, {C::YTAU2YB4,"YTAU2YB4",2,0,0,0,4,2,0},
   {C::YTAU6,"YTAU6",2,0,0,0,0,6,0}, {C::YT2YB4,"YT2YB4",2,0,0,0,4,0,2}, {C::G32YT4,"G32YT4",2,0,0,2,0,0,4}, {C::YB2YT4,"YB2YT4",2,0,0,0,2,0,4},
   {C::YTAU4YB2,"YTAU4YB2",2,0,0,0,2,4,0}, {C::YTAU2YT4,"YTAU2YT4",-1,0,0,0,0,2,4}, {C::ONLY_AT_AS,"ONLY_AT_AS",-1,0,0,0,0,0,0}};
const int NORD = sizeof(ORD)/sizeof(*ORD);
std::vector<int> loop(int l) { std::vector<int> v; for (int i = 0; i < NORD; i++) if (ORD[i].loop == l) v.push_back(i); return v; }
const std::vector<int> L1 = loop(1), L2 = loop(2);

std::vector<Parameters> points()
{
   std::vector<Parameters> r;
   pts::Spec a; a.mu = 850; r.push_back(pts::make(a));
   pts::Spec b; b.yb = 0.6; b.ytau = 0.4; b.tb = 4; b.Xt = -1700; b.Ab = -900; b.Atau = 700; b.mu = -600; b.scale = 700; b.MG = 800; r.push_back(pts::make(b));
   pts::Spec c; c.mQ3 = c.mU3 = c.mD3 = c.mL3 = c.mE3 = c.MG = c.MA = c.mu = 1500; c.mQ = c.mU = c.mD = c.mL = c.mE = 1500; c.M1 = c.M2 = 1500; c.yb = 0.3; c.Xt = 2500; c.scale = 1500; r.push_back(pts::make(c));
   pts::Spec d; d.mQ3 = 2000; d.mU3 = 3000; d.mD3 = 2500; d.MG = 2000; d.MA = 900; d.mu = 400; d.M1 = d.M2 = 400; d.yb = 0.8; d.ytau = 0.6; d.tb = 35; d.Xt = 100; d.scale = 2400; d.Ab = 2500; r.push_back(pts::make(d));
   for (auto& p : r) p.validate(false);
   return r;
}
const std::vector<Parameters> PT = points();

mh2_eft::Mh2EFTCalculator eft(const Parameters& p, bool on = false)
{ mh2_eft::Mh2EFTCalculator e(p); for (int o = 0; o < N; o++) e.setCorrectionFlag(CouplingOrders(o), on); return e; }
double value(const mh2_eft::Mh2EFTCalculator& e, int l, int sm, int ms)
{ return l == 0 ? e.getDeltaMh2EFT0Loop() : l == 1 ? e.getDeltaMh2EFT1Loop(sm, ms) : l == 2 ? e.getDeltaMh2EFT2Loop(sm, ms) : e.getDeltaMh2EFT3Loop(sm, ms, 0); }
double single(const Parameters& p, int i, int l, int sm, int ms)
{ auto e = eft(p); e.setCorrectionFlag(ORD[i].o, 1); return value(e, l, sm, ms); }

/// all singles of one point and log setting, computed once per worker
struct Table { std::vector<double> v; };
const Table& singles(int pt, int l, int sm, int ms)
{
   static std::map<int, Table> cache;
   const int k = ((pt*4 + l)*2 + sm)*2 + ms;
   auto it = cache.find(k);
   if (it == cache.end()) { Table t; for (int i = 0; i < NORD; i++) t.v.push_back(single(PT[pt], i, l, sm, ms)); it = cache.emplace(k, t).first; }
   return it->second;
}

void subset(int l, const std::vector<int>& ord, std::size_t mask, int pt, int sm, int ms, bool rev, vh::Report& r)
{
   auto e = eft(PT[pt]);
   const int n = ord.size();
   for (int k = 0; k < n; k++) { const int i = rev ? n - 1 - k : k; if (mask >> i & 1) e.setCorrectionFlag(ORD[ord[i]].o, 1); }
   const auto& t = singles(pt, l, sm, ms).v;
   double s = 0, a = 0; std::string names;
   for (int i = 0; i < n; i++) if (mask >> i & 1) { s += t[ord[i]]; a += std::abs(t[ord[i]]); names += std::string(" ") + ORD[ord[i]].n; }
   const double x = value(e, l, sm, ms);
   std::ostringstream o; o << "eft " << l << " loops, point " << pt << " logs " << sm << ms << (rev ? " reversed" : "") << ":" << names;
   r.close("additive", x, s, 1e-12*a, o.str());
   if (!mask) r.count("all_off");
   r.count("evaluations"); r.count("transitions", n); r.state(vh::mix(vh::mix(vh::bits(x), mask), l*1000 + pt*10 + sm*2 + ms));
}

/// sequences of set(order, flag), starting from all off or all on
void sequence(int l, const std::vector<int>& ord, std::size_t i, int depth, int pt, bool start, vh::Report& r)
{
   auto e = eft(PT[pt], start);
   std::map<int, int> f; for (int o : ord) f[o] = start;
   std::string hist = start ? "all on" : "all off";
   vh::Digits d(i);
   for (int k = 0; k < depth; k++) {
      const int o = d.pick(ord), on = d.next(2);
      // interleave queries: they must not disturb the switches
      if (k) value(e, l, 1, 1);
      e.setCorrectionFlag(ORD[o].o, on); f[o] = on; hist += std::string("; ") + ORD[o].n + "=" + std::to_string(on);
      r.count("transitions");
   }
   const auto& t = singles(pt, l, 1, 1).v;
   double s = 0, a = 0; for (auto& x : f) if (x.second) { s += t[x.first]; a += std::abs(t[x.first]); }
   const double x = value(e, l, 1, 1);
   r.close("sequence", x, s, 1e-12*a, "eft " + std::to_string(l) + " loops, point " + std::to_string(pt) + ": " + hist);
   r.count("evaluations"); r.state(vh::mix(vh::bits(x), l*10 + pt));
}

/// loop orders a switch does not belong to do not change, whatever the other switches are
void foreign(int i, int l, int pt, int logs, bool rest, vh::Report& r)
{
   auto a = eft(PT[pt], rest), b = eft(PT[pt], rest);
   a.setCorrectionFlag(ORD[i].o, 0); b.setCorrectionFlag(ORD[i].o, 1);
   const double x = value(a, l, logs & 1, logs >> 1), y = value(b, l, logs & 1, logs >> 1);
   std::ostringstream o; o << ORD[i].n << " at " << l << " loops, point " << pt;
   if (ORD[i].loop != l) { r.check("foreign", x == y, o.str() + ": " + vh::fmt(x) + " -> " + vh::fmt(y)); r.count("foreign"); }
   else { const auto& t = singles(pt, l, logs & 1, logs >> 1).v; double sc = 0; for (double z : t) sc += std::abs(z); r.close("own", y - x, t[i], 1e-11*sc, o.str()); r.check("own.effect", t[i] != 0, o.str() + " contributes nothing"); }
   r.count("evaluations"); r.count("transitions", 2); r.state(vh::mix(vh::bits(x), i*100 + l*10 + pt));
}

/// the contribution of an order scales with the powers of the couplings in its name
void homogeneous(int i, int pt, int which, int logs, vh::Report& r)
{
   const Order& o = ORD[i];
   static const char* nm[] = {"g1", "g2", "g3", "yb", "ytau", "yt"};
   Parameters p = PT[pt]; const double f = 1.25;
   const int pw[] = {o.g1, o.g2, o.g3, o.yb, o.ytau, o.yt};
   if (which == 0) p.g1 *= f; if (which == 1) p.g2 *= f; if (which == 2) p.g3 *= f; if (which == 3) p.Mb *= f; if (which == 4) p.Mtau *= f;
   if (which == 5) { if (logs & 1) return; p.Mt *= f; if (pw[5] == 0 || o.g1 || o.g2) return; }   // the top mass also sets the scale of the SM logarithms
   const double a = single(PT[pt], i, o.loop, logs & 1, logs >> 1), b = single(p, i, o.loop, logs & 1, logs >> 1);
   double sc = 0; for (double z : singles(pt, o.loop, logs & 1, logs >> 1).v) sc += std::abs(z);
   std::ostringstream s; s << o.n << " under " << nm[which] << " x " << f << " (point " << pt << " logs " << logs << ")";
   // the SM part of the Yukawa-only bottom orders depends on log(mb/mt), at most quadratically: third differences vanish
   if ((which == 3 || which == 5) && o.loop == 2 && !o.g3 && (o.yb == 6 || o.yt)) {
      double w[4] = {a, b/std::pow(f, pw[which]), 0, 0};
      for (int k = 2; k < 4; k++) { (which == 3 ? p.Mb : p.Mt) *= f; w[k] = single(p, i, o.loop, logs & 1, logs >> 1)/std::pow(f, k*pw[which]); }
      r.close("homogeneous", w[3] - 3*w[2] + 3*w[1] - w[0], 0, 1e-11*(std::abs(a) + 1e-4*sc), s.str()); r.count("logs");
   }
   else r.close("homogeneous", b, a*std::pow(f, pw[which]), 1e-11*(std::abs(a) + 1e-4*sc), s.str());
   r.count("evaluations"); r.count("homogeneous"); r.state(vh::mix(vh::bits(b), i*10 + which));
}

// ---- fixed order -------------------------------------------------------------
const CouplingOrders FO[] = {C::G32YT4, C::G32YB4, C::YT6, C::YTAU6, C::YTAU2YB4, C::YTAU4YB2, C::YB6, C::G14, C::YT4, C::YTAU2YT4};
const char* FON[] = {"G32YT4", "G32YB4", "YT6", "YTAU6", "YTAU2YB4", "YTAU4YB2", "YB6", "G14", "YT4", "YTAU2YT4"};
mh2_fo::MSSM_mass_eigenstates fo(int pt, bool at, int mom)
{
   mh2_fo::MSSM_mass_eigenstates m(PT[pt], at);
   for (int o = 0; o < N; o++) if (o != C::ONLY_AT_AS) m.set_correction(CouplingOrders(o), 0);
   m.set_mom_it(mom ? mh2_fo::Momentum_iteration::pert : mh2_fo::Momentum_iteration::off);
   return m;
}
/// relevant switches: joint switch of the mixed bottom-tau orders, and orders without a fixed-order contribution
const M2& fosingle(int pt, bool at, int mom, int i)
{
   static std::map<int, M2> cache; const int k = ((pt*2 + at)*2 + mom)*16 + i + 1;
   auto it = cache.find(k);
   if (it == cache.end()) {
      auto m = fo(pt, at, mom); const M2 z = m.delta_mh2_2loop(); if (i < 0) return cache.emplace(k, z).first->second;
      m.set_correction(FO[i], 1); it = cache.emplace(k, m.delta_mh2_2loop() - z).first;
   }
   return it->second;
}
void fosubset(unsigned mask, int pt, bool at, int mom, bool rev, vh::Report& r)
{
   auto m = fo(pt, at, mom);
   for (int k = 0; k < 10; k++) { const int i = rev ? 9 - k : k; if (mask >> i & 1) m.set_correction(FO[i], 1); }
   const M2 x = m.delta_mh2_2loop();
   M2 s = fosingle(pt, at, mom, -1); double a = s.norm(); std::string names;
   for (int i = 0; i < 10; i++) if (mask >> i & 1) {
      names += std::string(" ") + FON[i];
      if (i == 5 && mask >> 4 & 1) continue;         // one joint contribution
      s += fosingle(pt, at, mom, i); a += fosingle(pt, at, mom, i).norm();
   }
   std::ostringstream o; o << "fixed order, point " << pt << (at ? " only at" : "") << " mom_it " << mom << ":" << names;
   for (int i = 0; i < 4; i++) r.close("fo.additive", x(i/2,i%2), s(i/2,i%2), 1e-11*a + 1e-300, o.str());
   if (!mask && !mom) { r.check("fo.off", x.norm() == 0, o.str()); r.count("all_off"); }
   // one-loop results and the tree level do not depend on the switches
   if (!rev && !mom) {
      auto z = fo(pt, at, 0);
      r.check("fo.foreign", z.delta_mh2_1loop(0) == m.delta_mh2_1loop(0) && z.delta_mh2_1loop_gaugeless() == m.delta_mh2_1loop_gaugeless() && z.get_mass_matrix_hh() == m.get_mass_matrix_hh(), o.str());
      const auto t = m.calculate_Mh2(), u = z.calculate_Mh2();
      r.check("fo.foreign", std::get<0>(t) == std::get<0>(u) && std::get<1>(t) == std::get<1>(u), o.str());
   }
   if (mask == 16 || mask == 32) r.count("joint");
   r.count("evaluations"); r.count("transitions", 10); r.state(vh::mix(vh::bits(x(1,1)), mask));
}
void fohom(int i, int pt, int which, vh::Report& r)   // switched-on parts depend on the strong coupling exactly if named so
{
   Parameters p = PT[pt]; p.g3 *= 1.25;
   mh2_fo::MSSM_mass_eigenstates a(PT[pt], which), b(p, which);
   a.set_mom_it(mh2_fo::Momentum_iteration::off); b.set_mom_it(mh2_fo::Momentum_iteration::off);
   for (int o = 0; o < N; o++) if (o != C::ONLY_AT_AS) { a.set_correction(CouplingOrders(o), 0); b.set_correction(CouplingOrders(o), 0); }
   a.set_correction(FO[i], 1); b.set_correction(FO[i], 1);
   const double f = i < 2 ? 1.25*1.25 : 1;
   const M2 x = a.delta_mh2_2loop(), y = b.delta_mh2_2loop();
   for (int k = 0; k < 4; k++) r.close("fo.homogeneous", y(k/2,k%2), f*x(k/2,k%2), 1e-12*x.norm() + 1e-300, FON[i]);
   if (!which && i < 6) r.check("fo.effect", x.norm() > 0, FON[i]);
   r.count("evaluations"); r.count("homogeneous");
}

// ---- hierarchy calculator ------------------------------------------------------
void hier(std::size_t i, vh::Report& r)
{
   vh::Digits d(i); const bool ab = d.next(2); const int h = d.next(14), mdr = d.next(2);
   static const double MS[4][4] = {{1000, 1250, 1400, 1600}, {600, 2100, 1500, 2200}, {1900, 2000, 700, 1950}, {500, 900, 480, 3000}};
   const int q = d.next(4);
   pts::Spec s; s.mQ3 = MS[q][0]; s.mU3 = MS[q][1]; s.MG = MS[q][2]; s.mQ = s.mU = s.mD = s.mD3 = MS[q][3]; s.Xt = d.next(2) ? 900 : -1500; s.yb = 0.4; s.scale = d.next(2) ? 800 : 1700;
   HierarchyCalculator hc(pts::make(s), false); HierarchyObject ho(ab); ho.setSuitableHierarchy(h); ho.setMDRFlag(mdr);
   const M2 one[3] = {hc.calculateHierarchy(ho,1,0,0), hc.calculateHierarchy(ho,0,1,0), hc.calculateHierarchy(ho,0,0,1)};
   if (!(one[0].allFinite() && one[1].allFinite() && one[2].allFinite())) { r.count("undefined"); return; }
   // combinations in both directions of calls
   for (int k = 0; k < 16; k++) {
      const int f = k < 8 ? k : 15 - k;
      M2 w = M2::Zero(); double a = 0; for (int l = 0; l < 3; l++) if (f >> l & 1) { w += one[l]; a += one[l].norm(); }
      const M2 x = hc.calculateHierarchy(ho, f & 1, f >> 1 & 1, f >> 2 & 1);
      std::ostringstream o; o << hr::name(h) << (ab ? " bottom" : " top") << " mdr " << mdr << " flags " << f;
      for (int e = 0; e < 4; e++) r.close("hierarchy", x(e/2,e%2), w(e/2,e%2), 1e-11*a, o.str());
      if (!f) { r.check("hierarchy.off", x.norm() == 0, o.str()); r.count("all_off"); }
      r.count("evaluations"); r.count("transitions");
   }
   // conversion of the squark-mass scheme at the two lower orders
   const M2 s1 = hc.calcDRbarToMDRbarShift(ho, true, false), s2 = hc.calcDRbarToMDRbarShift(ho, false, true), s12 = hc.calcDRbarToMDRbarShift(ho, true, true), s0 = hc.calcDRbarToMDRbarShift(ho, false, false);
   if (s12.allFinite()) for (int e = 0; e < 4; e++) {
      r.close("mdr", s12(e/2,e%2), s1(e/2,e%2) + s2(e/2,e%2), 1e-11*(s1.norm() + s2.norm()) + 1e-12*(hc.getMt41L(ho,0,0).norm() + hc.getMt42L(ho,0,0).norm()), hr::name(h));
      r.check("mdr.off", s0(e/2,e%2) == 0, hr::name(h));
   }
   r.state(vh::mix(vh::bits(one[2](1,1)), i)); r.count("hierarchy");
}

} // namespace

int main(int argc, char** argv)
{
   vh::Check c; c.id = "P07"; c.level = "model_checking"; c.rule = "loop order x point x set of enabled orders, value";
   const bool th = vh::thorough();
   const std::size_t np = PT.size();
   const auto fam = [&] (const char* n, const std::string& sp, std::size_t sz, std::function<void(std::size_t, vh::Report&)> f) { vh::Family x; x.name = n; x.space = sp; x.size = sz; x.run = f; c.families.push_back(x); };
   fam("eft1.subsets", "all 4096 subsets of the one-loop orders x points x log settings x setting order", 4096*np*4*2, [=] (std::size_t i, vh::Report& r) { vh::Digits d(i); const auto m = d.next(4096); const int p = d.next(np), g = d.next(4); subset(1, L1, m, p, g & 1, g >> 1, d.next(2), r); });
   fam("eft2.subsets", "all 512 subsets of the two-loop orders x points x log settings x setting order", 512*np*4*2, [=] (std::size_t i, vh::Report& r) { vh::Digits d(i); const auto m = d.next(512); const int p = d.next(np), g = d.next(4); subset(2, L2, m, p, g & 1, g >> 1, d.next(2), r); });
   for (int l = 1; l < 3; l++) {
      const auto& o = l == 1 ? L1 : L2; const int dp = th ? (l == 1 ? 4 : 5) : 3;
      std::size_t n = 1; for (int k = 0; k < dp; k++) n *= 2*o.size();
      fam(l == 1 ? "eft1.sequences" : "eft2.sequences", "all sequences of switch operations of depth " + std::to_string(dp) + ", interleaved with queries, from all on and all off", n*2, [=] (std::size_t i, vh::Report& r) { vh::Digits d(i); const bool st = d.next(2); sequence(l, l == 1 ? L1 : L2, d.i, dp, 1, st, r); });
   }
   fam("foreign", "every switch x every loop order x points x log settings x the other switches on/off", NORD*4*np*4*2, [=] (std::size_t i, vh::Report& r) { vh::Digits d(i); const int o = d.next(NORD), l = d.next(4), p = d.next(np), g = d.next(4); foreign(o, l, p, g, d.next(2), r); });
   fam("homogeneous", "every order x every coupling x points x log settings", (L1.size() + L2.size())*np*6*4, [=] (std::size_t i, vh::Report& r) { vh::Digits d(i); auto k = d.next(L1.size() + L2.size()); const int o = k < L1.size() ? L1[k] : L2[k - L1.size()]; const int p = d.next(np), w = d.next(6); homogeneous(o, p, w, d.next(4), r); });
   fam("fo.subsets", "all 1024 subsets of ten fixed-order switches x points x top-only x momentum iteration x setting order", 1024*np*2*2*2, [=] (std::size_t i, vh::Report& r) { vh::Digits d(i); const unsigned m = d.next(1024); const int p = d.next(np); const bool at = d.next(2); const int mi = d.next(2); fosubset(m, p, at, mi, d.next(2), r); });
   fam("fo.homogeneous", "every fixed-order switch x points x top-only", 10*np*2, [=] (std::size_t i, vh::Report& r) { vh::Digits d(i); const int k = d.next(10), p = d.next(np); fohom(k, p, d.next(2), r); });
   fam("hierarchy", "every expansion x top/bottom x scheme x mass patterns x mixing x scale, all eight loop-flag combinations in both call orders", 2*14*2*4*2*2, hier);
   c.c_states = "@distinct"; c.c_transitions = "transitions"; c.c_traces = "evaluations";
   c.required = {"all_off", "foreign", "homogeneous", "joint", "hierarchy"};
   return vh::run(argc, argv, c);
}
