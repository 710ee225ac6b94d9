// Thread bodies for P01.  Compiled with -fsanitize=thread like the library, so
// that header code instantiated here is instrumented as well.
#include "P01.hpp"
#include "points.hpp"
#include "himalaya/HierarchyCalculator.hpp"
#include "himalaya/mh2_eft/Mh2EFTCalculator.hpp"
#include "himalaya/mh2_eft/ThresholdCalculator.hpp"
#include "himalaya/mh2_eft/ThresholdLoopFunctions.hpp"
#include "himalaya/mh2_eft/EFTFlags.hpp"
#include "himalaya/mh2_fo/MSSM_mass_eigenstates.hpp"
#include "himalaya/mh2_fo/MSSM_spectrum.hpp"
#include "himalaya/mh2_fo/PV.hpp"
#include "himalaya/mh2l/DSZHiggs.hpp"
#include "himalaya/misc/Li2.hpp"
#include <cstring>
#include <memory>
#include <sstream>
#include <stdexcept>

using namespace himalaya;
namespace {

struct Hash {
   std::uint64_t h = 1469598103934665603ULL;
   void u(std::uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; }
   void d(double x) { std::uint64_t v; std::memcpy(&v, &x, 8); if (x != x) v = 0x7ff8; u(v); }
   template <class M> void m(const M& x) { for (int i = 0; i < x.size(); i++) d(x.data()[i]); }
   void s(const std::string& t) { for (char c : t) u((unsigned char)c); }
};

/// kind 0: h3-like, 1: light gluino (h4/h9-like), 2: degenerate, 3: no hierarchy fits, 4: split stops
Parameters point(int kind, bool complete = true)
{
   pts::Spec s;
   switch (kind) {
   case 0: break;
   case 1: s.MG = 500; s.mQ3 = 1500; s.mU3 = 1000; s.Xt = -1200; s.tb = 25; break;
   case 2: s.mQ3 = s.mU3 = s.mD3 = s.mQ = s.mU = s.mD = s.MG = s.MA = s.scale = 2000; s.Xt = 3000; break;
   case 3: s.MG = 9000; break;
   case 4: s.mQ3 = 600; s.mU3 = 2500; s.mQ = s.mU = s.mD = 5000; s.MG = 2600; s.Xt = 300; s.scale = 1500; break;
   }
   auto p = pts::make(s);
   if (complete) p.validate(false);
   return p;
}

void add(Hash& h, const HierarchyObject& o)
{
   h.u(o.getSuitableHierarchy()); h.d(o.getAbsDiff2L()); h.d(o.getRelDiff2L()); h.m(o.getMDRMasses());
   for (int l = 0; l < 4; l++) { h.m(o.getDMh(l)); h.d(o.getDMh2(l)); h.d(o.getDLambda(l)); h.d(o.getDMh2EFTAt(l)); h.d(o.getDMh2FO(l)); h.d(o.getDMh2FOAt(l)); h.d(o.getDLambdaUncertainty(l)); if (l) h.d(o.getDMhExpUncertainty(l)); }
   h.m(o.getDMhDRbarPrimeToMDRbarPrimeShift()); h.m(o.getDMhDRbarPrimeToH3mShift());
   std::ostringstream s; s << o; h.s(s.str());
}

std::uint64_t full(int kind, bool ab, bool verbose, bool complete)
{
   Hash h;
   try { HierarchyCalculator hc(point(kind, complete), verbose); add(h, hc.calculateDMh3L(ab)); }
   catch (const std::exception& e) { h.s(e.what()); }
   return h.h;
}

void nothing() {}

// --- full calculations --------------------------------------------------------
std::uint64_t b_full2(int t) { return full(t == 0 ? 0 : 1, false, false, true); }
std::uint64_t b_fullmix(int t) { return full(t == 0 ? 4 : 2, t == 0, false, true); }
std::uint64_t b_throw(int t) { return t == 0 ? full(3, false, false, true) : full(0, true, false, true); }
std::uint64_t b_verbose(int t)
{
   Hash h;
   try { HierarchyCalculator hc(point(t, false), true); HierarchyObject ho(false); h.u(hc.compareHierarchies(ho)); h.d(ho.getAbsDiff2L()); }
   catch (const std::exception& e) { h.s(e.what()); }
   return h.h;
}
std::uint64_t b_construct(int t)
{
   Hash h; for (int k = 0; k < 2; k++) { HierarchyCalculator hc(point(t, true), true); h.u(k); }
   return h.h;
}
// --- the two-loop routines ----------------------------------------------------
std::uint64_t b_dsz(int t)
{
   using namespace mh2l;
   Hash h; const double f = t == 0 ? 1. : 1.7; const double A = 1e6*f, B = 2.25e6*f, s = 0.3*f/2, c = std::sqrt(1 - s*s);
   for (int heavy = 0; heavy < 2; heavy++) {
      const double hi = heavy ? A : B;   // degenerate and split
      h.m(delta_mh2_2loop_at_at(160.*160.*f, 6., 2e6, A, hi, A*1.1, B, s, c, -s, c, A, 500.*f, 10., 60000., heavy, 0));
      h.m(delta_mh2_2loop_at_as(160.*160.*f, 1500., A, B, s, c, A, 500.*f, 10., 60000., 1.1, heavy));
      h.m(delta_mh2_2loop_ab_as(6., 1500., A, B, s, c, A, 500.*f, 0.1, 60000., 1.1, heavy));
      h.m(delta_mh2_2loop_atau_atau(3., 2e6, A, A, B, s, c, A, 500.*f, 10., 60000., heavy));
      h.m(delta_mh2_2loop_ab_atau(3., 6., A, B, A*1.2, B*1.1, s, c, -s, c, A, 500.*f, 10., 60000., heavy));
   }
   return h.h;
}
std::uint64_t b_dsz3(int t)
{
   using namespace mh2l;
   Hash h; const double A = 1e6*(t + 1), B = 3e6;
   h.m(delta_mh2_2loop_at_at(160.*160., 6.*t, 2e6, A, B, A*1.1, B, 0.1*t, std::sqrt(1 - 0.01*t*t), 0., 1., A, 500., 10., 60000., 0, t == 2));
   return h.h;
}
// --- fixed-order and EFT calculators ------------------------------------------
std::uint64_t b_fo_eft(int t)
{
   Hash h; const auto p = point(t == 0 ? 0 : 2, true);
   if (t == 0) {
      for (bool at : {false, true}) {
         mh2_fo::MSSM_mass_eigenstates m(p, at); m.set_mom_it(at ? mh2_fo::Momentum_iteration::pert : mh2_fo::Momentum_iteration::num);
         const auto r = m.calculate_Mh2(); h.d(std::get<0>(r)); h.d(std::get<1>(r)); h.d(std::get<2>(r));
      }
   } else {
      mh2_eft::Mh2EFTCalculator e(p, false); h.d(e.getDeltaMh2EFT0Loop()); h.d(e.getDeltaMh2EFT1Loop(1,1)); h.d(e.getDeltaMh2EFT2Loop(1,1)); h.d(e.getDeltaMh2EFT3Loop(1,1,0));
      mh2_fo::MSSM_mass_eigenstates m(p); const auto r = m.calculate_Mh2(); h.d(std::get<2>(r));
   }
   return h.h;
}
// --- objects shared by reading threads ----------------------------------------
struct Shared {
   Parameters p; mh2_eft::Mh2EFTCalculator e; mh2_eft::ThresholdCalculator tc; mh2_fo::MSSM_mass_eigenstates m; mh2_fo::MSSM_spectrum sp; HierarchyObject ho;
   explicit Shared(const Parameters& q) : p(q), e(q, false), tc(q, false), m(q), sp(q), ho(HierarchyCalculator(q, false).calculateDMh3L(false)) {}
};
Shared* sh = nullptr;
void setup_shared() { sh = new Shared(point(4)); vsched_share(sh, sizeof(*sh)); }
std::uint64_t b_shared(int t)
{
   Hash h;
   for (int k = 0; k < 2; k++) {
      const int which = (k + t) % 2;
      if (which == 0) {
         h.d(sh->e.getDeltaMh2EFT0Loop()); h.d(sh->e.getDeltaMh2EFT1Loop(1,1)); h.d(sh->e.getDeltaMh2EFT2Loop(1,0)); h.d(sh->e.getDeltaMh2EFT3Loop(0,1,0));
         for (int o = 0; o < static_cast<int>(mh2_eft::ThresholdCouplingOrders::NUMBER_OF_THRESHOLD_VARIALES); o++)
            h.d(sh->tc.getThresholdCorrection(static_cast<mh2_eft::ThresholdCouplingOrders>(o), mh2_eft::RenSchemes::DRBARPRIME, 1));
         std::ostringstream s; s << sh->p << sh->e << sh->ho; h.s(s.str());
      } else {
         const auto r = sh->m.calculate_Mh2(); h.d(std::get<0>(r)); h.d(std::get<1>(r)); h.d(std::get<2>(r)); h.m(sh->m.delta_mh2_2loop()); h.m(sh->m.delta_mh2_1loop(100.*t));
         std::ostringstream s; s << sh->sp << sh->m; h.s(s.str()); h.d(sh->p.calculateMsq2()); add(h, sh->ho);
      }
   }
   return h.h;
}
// --- numerical helpers ----------------------------------------------------------
std::uint64_t b_functions(int t)
{
   Hash h; using namespace mh2_eft::threshold_loop_functions;
   for (double x : {-3.0, -0.5, 0.2, 0.9999, 1.0, 1.7, 30.}) {
      const double y = x*(1 + 0.3*t), a = std::abs(y);
      h.d(dilog(y)); h.d(clausen_2(y)); const auto z = dilog(std::complex<double>(y, 0.4*t)); h.d(z.real()); h.d(z.imag());
      for (auto* f : {&F1, &F2, &F3, &F4, &F5, &F6, &F7, &f1, &f2, &f3, &f4, &f, &g}) h.d(f(a));
      for (auto* f : {&F8, &F9, &f5, &f6, &f7, &f8}) h.d(f(a, 0.7 + t));
      h.d(phi_xyz(a, 1., 2. + t)); h.d(mh2_fo::a0(a, 2.)); h.d(mh2_fo::b0(y, a, 1., 2.)); h.d(mh2_fo::b0xx(a, 1., 2.)); h.d(mh2_fo::d1_b0(a, 1.));
   }
   return h.h;
}
std::uint64_t b_validate(int t)
{
   Hash h; auto p = point(t, false); p.Yu(0,1) = 0.01*t;
   try { p.validate(t == 0); } catch (const std::exception& e) { h.s(e.what()); }
   h.m(p.MSt); h.m(p.MSb); h.d(p.s2t); std::ostringstream s; s << p; h.s(s.str());
   try { p.MG = -1; p.validate(true); h.u(1); } catch (const std::exception& e) { h.s(e.what()); }
   return h.h;
}

} // namespace

const Scenario scenarios[] = {
   {"construct", "3 threads construct verbose calculators", 3, nothing, b_construct, 1},
   {"verbose", "2 threads: verbose construction from incomplete points and hierarchy selection", 2, nothing, b_verbose, 1},
   {"validate", "2 threads complete points (one verbose), then reject invalid ones", 2, nothing, b_validate, 0},
   {"dsz2", "2 threads x 10 two-loop corrections of every kind, degenerate and split", 2, nothing, b_dsz, 0},
   {"dsz3", "3 threads x O(at^2) corrections", 3, nothing, b_dsz3, 0},
   {"functions", "2 threads evaluate all loop functions and dilogarithms", 2, nothing, b_functions, 0},
   {"fo_eft", "fixed-order calculation against EFT calculation", 2, nothing, b_fo_eft, 0},
   {"shared", "2 threads read the same calculators, spectra and results", 2, setup_shared, b_shared, 0},
   {"full2", "2 full three-loop calculations of different points", 2, nothing, b_full2, 0},
   {"fullmix", "full calculations: bottom-type split point against degenerate top-type point", 2, nothing, b_fullmix, 0},
   {"throw", "a calculation that fails (no suitable hierarchy) against one that succeeds", 2, nothing, b_throw, 0},
};
const int n_scenarios = sizeof(scenarios)/sizeof(*scenarios);
