// Every number the library reports for a parameter point, with its name, its
// mass dimension and the size of the terms it is made of (for tolerances).
#pragma once
#include "points.hpp"
#include "himalaya/HierarchyCalculator.hpp"
#include "himalaya/mh2_eft/Mh2EFTCalculator.hpp"
#include "himalaya/mh2_eft/ThresholdCalculator.hpp"
#include "himalaya/mh2_eft/EFTFlags.hpp"
#include "himalaya/mh2_fo/MSSM_mass_eigenstates.hpp"
#include "himalaya/mh2_fo/MSSM_spectrum.hpp"
#include "himalaya/misc/CouplingOrders.hpp"
#include <string>
#include <vector>

namespace obs {
using namespace himalaya;
using himalaya::CouplingOrders::CouplingOrders;
namespace CO = himalaya::CouplingOrders;
using M2 = Eigen::Matrix2d;

struct O { std::string n; double v; int dim; double sc; };
struct List : std::vector<O> {
   void add(const std::string& n, double v, int dim, double sc = 0) { push_back({n, v, dim, std::max(std::abs(sc), std::abs(v))}); }
   template <class M> void mat(const std::string& n, const M& m, int dim, double sc = 0)
   {
      double a = std::abs(sc); for (int i = 0; i < m.size(); i++) a = std::max(a, std::abs(m(i % m.rows(), i / m.rows())));
      for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) add(n + "(" + std::to_string(i) + "," + std::to_string(j) + ")", m(i,j), dim, a);
   }
};

inline const std::vector<std::pair<std::string, mh2_eft::ThresholdCouplingOrders>>& threshold_names()
{
   using T = mh2_eft::ThresholdCouplingOrders;
#define VH_T(x) {#x, T::x}
   static const std::vector<std::pair<std::string, T>> v = {VH_T(G3_AS), VH_T(YT_AS), VH_T(YT_AS2), VH_T(LAMBDA_AT), VH_T(LAMBDA_AT_AS), VH_T(LAMBDA_AT_AS2), VH_T(LAMBDA_YB2_G12), VH_T(LAMBDA_G14), VH_T(LAMBDA_REG_G14), VH_T(LAMBDA_CHI_G14), VH_T(LAMBDA_CHI_G24), VH_T(LAMBDA_G24), VH_T(LAMBDA_REG_G24), VH_T(LAMBDA_G12_G22), VH_T(LAMBDA_REG_G12_G22), VH_T(LAMBDA_CHI_G12_G22), VH_T(LAMBDA_YB2_G22), VH_T(LAMBDA_YB4), VH_T(LAMBDA_YT2_G12), VH_T(LAMBDA_YT2_G22), VH_T(LAMBDA_YTAU2_G12), VH_T(LAMBDA_YTAU2_G22), VH_T(LAMBDA_YTAU4), VH_T(G1_G1), VH_T(G2_G2), VH_T(VEV_YT2), VH_T(YT_YB), VH_T(YT_YT), VH_T(YTAU_YTAU), VH_T(LAMBDA_YB4_G32), VH_T(LAMBDA_YB6), VH_T(LAMBDA_YT6), VH_T(LAMBDA_YTAU6), VH_T(LAMBDA_YT2_YB4), VH_T(LAMBDA_YT4_YB2), VH_T(VEV_YB2), VH_T(VEV_YTAU2), VH_T(VEV_G12), VH_T(VEV_G22), VH_T(YTAU_YB), VH_T(LAMBDA_YTAU4_YB2), VH_T(LAMBDA_YTAU2_YB4), VH_T(YB_YT), VH_T(YB_AS), VH_T(YB_YB), VH_T(YB_YTAU)};
#undef VH_T
   return v;
}
inline const std::vector<std::pair<std::string, CouplingOrders>>& order_names(int loop)
{
#define VH_T(x) {#x, CO::x}
   static const std::vector<std::pair<std::string, CouplingOrders>>
      one = {VH_T(G12G22), VH_T(G14), VH_T(G24), VH_T(G12YB2), VH_T(G22YB2), VH_T(YB4), VH_T(G12YTAU2), VH_T(G22YTAU2), VH_T(YTAU4), VH_T(G12YT2), VH_T(G22YT2), VH_T(YT4)},
      two = {VH_T(G32YB4), VH_T(YB6), VH_T(YT6), VH_T(YTAU2YB4), VH_T(YTAU6), VH_T(YT2YB4), VH_T(G32YT4), VH_T(YB2YT4), VH_T(YTAU4YB2)};
#undef VH_T
   return loop == 1 ? one : two;
}

/// all threshold corrections of a validated point
inline void thresholds(const Parameters& p, List& l, int limit = -1)
{
   mh2_eft::ThresholdCalculator t(p, false);
   if (limit >= 0) t.setLimit(static_cast<mh2_eft::Limits>(limit));
   for (int o = 0; o < 2; o++) {
      const std::string s = o ? "/nolog" : "/log";
      for (auto& x : threshold_names()) {
         using T = mh2_eft::ThresholdCouplingOrders;
         if (x.second == T::VEV_G12 || x.second == T::VEV_G22) continue;   // not available by construction
         for (int k = 0; k < 2; k++) {
            // only these depend on the scheme
            if (k && x.second != T::G3_AS && x.second != T::YT_AS && x.second != T::YT_AS2 && x.second != T::LAMBDA_AT_AS && x.second != T::LAMBDA_AT_AS2) continue;
            double v;
            try { v = t.getThresholdCorrection(x.second, k ? mh2_eft::RenSchemes::TEST : mh2_eft::RenSchemes::DRBARPRIME, o); } catch (const std::exception&) { continue; }
            l.add(x.first + s + (k ? "/test" : ""), v, 0);
         }
      }
      for (int x = 4; x <= 6; x++) l.add("DRbarPrimeToMSbarShift/" + std::to_string(x) + s, t.getDRbarPrimeToMSbarShift(x, o), 0);
      l.add("DRbarPrimeToMSbarShift/xtlogs" + s, t.getDRbarPrimeToMSbarShift(4, o, 0), 0);
   }
   if (limit < 0) l.add("limit", static_cast<int>(t.getLimit()), 0);
}

inline mh2_eft::Mh2EFTCalculator eft_calc(const Parameters& p, int on = 0)
{ mh2_eft::Mh2EFTCalculator e(p, false); for (int o = 0; o < CO::NUMBER_OF_COUPLING_ORDERS; o++) e.setCorrectionFlag(CouplingOrders(o), on); return e; }

/// effective-theory corrections, one coupling order at a time
inline void eft(const Parameters& p, List& l)
{
   mh2_eft::Mh2EFTCalculator dflt(p, false);
   l.add("eft0", dflt.getDeltaMh2EFT0Loop(), 2);
   for (int s = 0; s < 4; s++) {
      const std::string n = "/" + std::to_string(s & 1) + std::to_string(s >> 1);
      l.add("eft1" + n, dflt.getDeltaMh2EFT1Loop(s & 1, s >> 1), 2);
      l.add("eft2" + n, dflt.getDeltaMh2EFT2Loop(s & 1, s >> 1), 2);
      for (int d = 0; d < 2; d++) l.add("eft3" + n + (d ? "/nolambda" : ""), dflt.getDeltaMh2EFT3Loop(s & 1, s >> 1, d), 2);
      for (int lp = 1; lp < 3; lp++) for (auto& x : order_names(lp)) {
         auto e = eft_calc(p); e.setCorrectionFlag(x.second, 1);
         l.add("eft." + x.first + n, lp == 1 ? e.getDeltaMh2EFT1Loop(s & 1, s >> 1) : e.getDeltaMh2EFT2Loop(s & 1, s >> 1), 2);
      }
   }
}

inline void spectrum(const Parameters& p, List& l)
{
   mh2_fo::MSSM_spectrum s(p); s.calculate_spectrum();
   l.add("M2VWm", s.M2VWm, 2); l.add("M2VZ", s.M2VZ, 2); l.add("MFt", s.MFt, 1); l.add("MFb", s.MFb, 1); l.add("MFtau", s.MFtau, 1);
   l.add("M2SveL", s.M2SveL, 2); l.add("M2SvmL", s.M2SvmL, 2); l.add("M2SvtL", s.M2SvtL, 2);
#define VH_2(x, z) l.mat("M2" #x, s.M2##x, 2); l.mat(#z, s.z, 0);
   VH_2(Su, ZU) VH_2(Sd, ZD) VH_2(Sc, ZC) VH_2(Ss, ZS) VH_2(St, ZT) VH_2(Sb, ZB) VH_2(Se, ZE) VH_2(Sm, ZM) VH_2(Stau, ZTau) VH_2(hh, ZH) VH_2(Ah, ZA) VH_2(Hpm, ZP)
#undef VH_2
   l.mat("MChi", s.MChi, 1); l.mat("MCha", s.MCha, 1); l.mat("ZN", s.ZN, 0); l.mat("UM", s.UM, 0); l.mat("UP", s.UP, 0);
}

inline void off(mh2_fo::MSSM_mass_eigenstates& m) { for (int o = 0; o < CO::NUMBER_OF_COUPLING_ORDERS; o++) if (o != CO::ONLY_AT_AS) m.set_correction(CouplingOrders(o), 0); }

/// fixed-order corrections
inline void fo(const Parameters& p, List& l)
{
   for (int at = 0; at < 2; at++) {
      const std::string a = at ? "/at" : "";
      mh2_fo::MSSM_mass_eigenstates m(p, at);
      l.mat("fo0" + a, m.get_mass_matrix_hh(), 2); l.mat("fo0g" + a, m.get_mass_matrix_hh_gaugeless(), 2);
      for (double f : {0., 0.01, 4.}) l.mat("fo1" + a + "/p" + std::to_string(f), m.delta_mh2_1loop(f*p.MA*p.MA), 2);
      l.mat("fo1g" + a, m.delta_mh2_1loop_gaugeless(), 2); l.mat("fo1d" + a, m.delta_mh2_1loop_gaugeless_deriv(), 0);
      for (int d = 0; d < 2; d++) for (int k = 0; k < 3; k++) {
         m.set_diagonalization(d ? mh2_fo::Diagonalization::num : mh2_fo::Diagonalization::pert);
         m.set_mom_it(k == 0 ? mh2_fo::Momentum_iteration::off : k == 1 ? mh2_fo::Momentum_iteration::pert : mh2_fo::Momentum_iteration::num);
         const auto t = m.calculate_Mh2(); const std::string n = a + (d ? "/num" : "/pert") + std::to_string(k);
         l.add("Mh2.0" + n, std::get<0>(t), 2, p.MA*p.MA); l.add("Mh2.1" + n, std::get<1>(t), 2, p.MA*p.MA); l.add("Mh2.2" + n, std::get<2>(t), 2, p.MA*p.MA);
      }
      l.mat("fo2" + a, m.delta_mh2_2loop(), 2, p.MA*p.MA);
      l.mat("fo2it" + a, m.delta_mh2_2loop_mom_it_pert(), 2, p.MA*p.MA);
      for (auto& x : {std::make_pair("G32YT4", CO::G32YT4), std::make_pair("G32YB4", CO::G32YB4), std::make_pair("YT6", CO::YT6), std::make_pair("YTAU6", CO::YTAU6), std::make_pair("YTAU2YB4", CO::YTAU2YB4)}) {
         mh2_fo::MSSM_mass_eigenstates k(p, at); off(k); k.set_mom_it(mh2_fo::Momentum_iteration::off); k.set_correction(x.second, 1);
         l.mat(std::string("fo2.") + x.first + a, k.delta_mh2_2loop(), 2);
      }
   }
}

/// complete record
inline void record(const HierarchyObject& h, List& l, double m2, const std::string& n)
{
   l.add(n + "suitable", h.getSuitableHierarchy(), 0); l.add(n + "absdiff", h.getAbsDiff2L(), 1, std::sqrt(m2)); l.add(n + "reldiff", h.getRelDiff2L(), 0, 1);
   l.mat(n + "mdrmass", h.getMDRMasses(), 1);
   // the three-loop quartic coupling is a small difference of large terms
   const double l3 = std::abs(h.getDLambda(2));
   for (int i = 0; i < 4; i++) {
      const std::string s = n + std::to_string(i) + ".";
      l.mat(s + "dmh", h.getDMh(i), 2); l.add(s + "dmh2", h.getDMh2(i), 2, i ? h.getDMh(i).norm() : m2); l.add(s + "lambda", h.getDLambda(i), 0, i == 3 ? l3 : 0); l.add(s + "eftat", h.getDMh2EFTAt(i), 2);
      l.add(s + "fo", h.getDMh2FO(i), 2, m2); l.add(s + "foat", h.getDMh2FOAt(i), 2, m2); l.add(s + "lambdaunc", h.getDLambdaUncertainty(i), 0, l3); if (i) l.add(s + "expunc", h.getDMhExpUncertainty(i), 1, std::sqrt(m2));
      l.add(s + "msbar", h.getDLambdaDRbarPrimeToMSbarShift(i), 0, i == 3 ? l3 : 0);
   }
   l.mat(n + "mdrshift", h.getDMhDRbarPrimeToMDRbarPrimeShift(), 2, m2); l.mat(n + "h3mshift", h.getDMhDRbarPrimeToH3mShift(), 2);
   l.add(n + "h3m", h.getDLambdaH3m(), 0, l3); l.add(n + "eft", h.getDLambdaEFT(), 0, l3); l.add(n + "nonlog", h.getDLambdaNonLog(), 0, l3);
}
/// three-loop calculation; returns false if no expansion fits
inline bool threeloop(const Parameters& p, bool ab, List& l)
{
   const std::string n = ab ? "3l.b." : "3l.t.";
   HierarchyCalculator hc(p, false);
   try { record(hc.calculateDMh3L(ab), l, p.MA*p.MA, n); return true; }
   catch (const std::exception&) { l.add(n + "none", 1, 0); return false; }
}
/// every expansion, whether suitable or not
inline void expansions(const Parameters& p, bool ab, List& l)
{
   HierarchyCalculator hc(p, false);
   const M2 tree = M2::Identity()*p.MA*p.MA;
   for (int mdr = 0; mdr < 2; mdr++) {
      for (int h = 0; h < 14; h++) {
         HierarchyObject ho(ab); ho.setSuitableHierarchy(h); ho.setMDRFlag(mdr);
         const std::string n = std::string("exp") + std::to_string(h) + (ab ? "b" : "t") + (mdr ? "m" : "") + ".";
         for (int k = 0; k < 3; k++) l.mat(n + std::to_string(k + 1), hc.calculateHierarchy(ho, k == 0, k == 1, k == 2), 2);
         if (!mdr) for (int k = 0; k < 3; k++) l.add(n + "unc" + std::to_string(k + 1), hc.getExpansionUncertainty(ho, tree, k == 0, k == 1, k == 2), 1, p.MA);
      }
      HierarchyObject ho(ab); ho.setSuitableHierarchy(0); ho.setMDRFlag(mdr);
      const std::string n = std::string("exact") + (ab ? "b" : "t") + (mdr ? "m" : "") + ".";
      l.mat(n + "41", hc.getMt41L(ho, mdr, mdr), 2); l.mat(n + "42", hc.getMt42L(ho, mdr, mdr), 2);
      if (mdr) {
         l.mat(n + "shift", hc.calcDRbarToMDRbarShift(ho, true, true), 2, p.MA*p.MA);
         for (int f = 1; f < 4; f++) { l.add(n + "mst1/" + std::to_string(f), hc.shiftMst1ToMDR(ho, f & 1, f >> 1), 1, p.MSt(0)); l.add(n + "mst2/" + std::to_string(f), hc.shiftMst2ToMDR(ho, f & 1, f >> 1), 1, p.MSt(1)); }
      }
   }
}

} // namespace obs
