// The fourteen expansions evaluated directly from the hierarchy classes, with an
// explicit truncation table: used as the reference of the calculator's choice.
#pragma once
#include "himalaya/hierarchies/Hierarchies.hpp"
#include "himalaya/hierarchies/HierarchyFlags.hpp"
#include "himalaya/Himalaya_interface.hpp"
#include <Eigen/Dense>
#include <cmath>
#include <vector>

namespace hr {

using namespace himalaya::hierarchies;
using M2 = Eigen::Matrix2d;
using Depth = std::array<int, ExpansionDepth::NUMBER_OF_EXPANSIONS>;
inline Depth full() { Depth d; d.fill(1); return d; }

const int NH = 14;
inline const char* name(int h)
{ static const char* n[] = {"h3","h32q2g","h3q22g","h4","h5","h5g1","h6","h6b","h6b2qg2","h6bq22g","h6bq2g2","h6g2","h9","h9q2"}; return n[h]; }

/// expansion parameters of the family a hierarchy belongs to, in terms of which its uncertainty is estimated
inline std::vector<int> truncations(int h)
{
   using namespace ExpansionDepth;
   switch (h) {
   case 0: case 1: case 2: return {Dmglst1, Dmsqst1, Dmst12};
   case 3: return {At, lmMsusy, Msq, Msusy};
   case 4: case 5: return {Dmglst1, Msq};
   case 6: case 11: return {Dmglst2, Msq};
   case 7: case 8: case 9: case 10: return {Dmglst2, Dmsqst2};
   default: return {Dmsqst1, Dmst12, Mgl};
   }
}

/// does the spectrum satisfy the mass ordering assumed by the expansion?
inline bool suitable(int h, double m1, double m2, double g, double q)
{
   if (m2 > 1.3*q || g > 1.3*q) return false;      // first two generations (nearly) the heaviest, 30 % window
   const bool split = m2 - m1 > 0.1*m1;            // stops split by more than 10 %
   const bool near1 = g - m1 < std::abs(g - m2);   // gluino closer to the lighter ...
   const bool near2 = m2 - g < std::abs(g - m1);   // ... closer to the heavier stop
   switch (h) {
   case 0:  return g > m2;
   case 1:  return m2 >= q && m2 > g;
   case 2:  return q > m2 && m2 > g;
   case 3:  return m1 < q && m1 >= g;
   case 4:  return split && near1 && m2 < q && m1 >= g;
   case 5:  return split && near1 && m2 < q && g > m1;
   case 6:  return split && near2 && m2*1.3 < q && m2 >= g;
   case 7:  return split && near2 && m2 >= q && m2 >= g;
   case 8:  return split && near2 && m2 >= q && g > m2;
   case 9:  return split && near2 && q > m2 && m2 >= g;
   case 10: return split && near2 && q > m2 && g > m2;
   case 11: return split && near2 && m2*1.3 < q && g > m2;
   case 12: return m2 >= q && m2 - m1 < m1 - g;
   default: return q > m2 && 0 < m1 - g;
   }
}

struct In {   // everything an expansion depends on
   double Al4p, beta, scale, Mf, m1, m2, g, q, mu, s2f, A, vu; int mdr = 0, ab = 0;   // bottom sector: beta, vu are those of the other Higgs doublet
};
inline In input(const himalaya::Parameters& p, bool ab, double m1, double m2, int mdr)
{
   In x;
   x.Al4p = p.g3*p.g3/(16*M_PI*M_PI); x.beta = ab ? std::atan(p.vd/p.vu) : std::atan(p.vu/p.vd); x.ab = ab; x.scale = p.scale;
   x.Mf = ab ? p.Mb : p.Mt; x.m1 = m1; x.m2 = m2; x.g = p.MG; x.q = std::sqrt(std::abs(p.calculateMsq2()));
   x.mu = p.mu; x.s2f = ab ? p.s2b : p.s2t; x.A = ab ? p.Ad(2,2) : p.Au(2,2); x.vu = ab ? p.vd : p.vu; x.mdr = mdr;
   return x;
}

struct Out { double s1, s2, s12; double c[4]; };
template <class H> Out take(const H& h)
{ return {h.getS1(), h.getS2(), h.getS12(), {h.calc_coef_at_as2_no_sm_logs_log0(), h.calc_coef_at_as2_no_sm_logs_log1(), h.calc_coef_at_as2_no_sm_logs_log2(), h.calc_coef_at_as2_no_sm_logs_log3()}}; }

/// arguments of the constructors, so that single expansion variables can be varied on their own
struct Args { double Dgl1, Dgl2, D12, Dsq1, Dsq2, lMf, l1, l2, lq, lg, lS, S; };
inline Args args(const In& x)
{
   const auto L = [&x] (double m) { return std::log(x.scale*x.scale/(m*m)); };
   Args a;
   a.Dgl1 = x.g - x.m1; a.Dgl2 = x.g - x.m2; a.D12 = x.m1*x.m1 - x.m2*x.m2; a.Dsq1 = x.q*x.q - x.m1*x.m1; a.Dsq2 = x.q - x.m2;
   a.lMf = L(x.Mf); a.l1 = L(x.m1); a.l2 = L(x.m2); a.lq = L(x.q); a.lg = L(x.g); a.S = (x.m1 + x.m2 + x.g)/3; a.lS = L(a.S);
   return a;
}
inline Out eval(int h, const Depth& d, const In& x, const Args& a, int L1, int L2, int L3)
{
#define VH_F x.mdr, L1, L2, L3
   switch (h) {
   case 0:  return take(H3(d, x.Al4p, x.beta, a.Dgl1, a.D12, a.Dsq1, a.lMf, a.l1, x.g, x.Mf, x.m1, x.m2, x.q, x.mu, x.s2f, VH_F));
   case 1:  return take(H32q2g(d, x.Al4p, x.beta, a.Dgl1, a.D12, a.Dsq1, a.lMf, a.l1, x.Mf, x.m1, x.m2, x.mu, x.s2f, VH_F));
   case 2:  return take(H3q22g(d, x.Al4p, x.beta, a.Dgl1, a.D12, a.Dsq1, a.lMf, a.l1, x.Mf, x.m1, x.m2, x.q, x.mu, x.s2f, VH_F));
   case 3:  return take(H4(d, x.Al4p, x.A, x.beta, a.lMf, a.lq, a.lS, x.Mf, a.S, x.q, VH_F));
   case 4:  return take(H5(d, x.Al4p, x.beta, a.Dgl1, a.lMf, a.l1, a.l2, a.lq, x.Mf, x.m1, x.m2, x.q, x.mu, x.s2f, VH_F));
   case 5:  return take(H5g1(d, x.Al4p, x.beta, a.Dgl1, a.lMf, a.l1, a.l2, a.lq, x.g, x.Mf, x.m1, x.m2, x.q, x.mu, x.s2f, VH_F));
   case 6:  return take(H6(d, x.Al4p, x.beta, a.Dgl2, a.lMf, a.l1, a.l2, a.lq, x.Mf, x.m1, x.m2, x.q, x.mu, x.s2f, VH_F));
   case 7:  return take(H6b(d, x.Al4p, x.beta, a.Dgl2, a.Dsq2, a.lMf, a.l1, a.l2, x.Mf, x.m1, x.m2, x.mu, x.s2f, VH_F));
   case 8:  return take(H6b2qg2(d, x.Al4p, x.beta, a.Dgl2, a.Dsq2, a.lMf, a.l1, a.l2, x.g, x.Mf, x.m1, x.m2, x.mu, x.s2f, VH_F));
   case 9:  return take(H6bq22g(d, x.Al4p, x.beta, a.Dgl2, a.Dsq2, a.lMf, a.l1, a.l2, x.Mf, x.m1, x.m2, x.q, x.mu, x.s2f, VH_F));
   case 10: return take(H6bq2g2(d, x.Al4p, x.beta, a.Dgl2, a.Dsq2, a.lMf, a.l1, a.l2, x.g, x.Mf, x.m1, x.m2, x.q, x.mu, x.s2f, VH_F));
   case 11: return take(H6g2(d, x.Al4p, x.beta, a.Dgl2, a.lMf, a.l1, a.l2, a.lq, x.g, x.Mf, x.m1, x.m2, x.q, x.mu, x.s2f, VH_F));
   case 12: return take(H9(d, x.Al4p, x.beta, a.D12, a.Dsq1, a.lMf, a.lg, a.l1, x.g, x.Mf, x.m1, x.m2, x.mu, x.s2f, VH_F));
   default: return take(H9q2(d, x.Al4p, x.beta, a.D12, a.Dsq1, a.lMf, a.lg, a.l1, x.g, x.Mf, x.m1, x.m2, x.q, x.mu, x.s2f, VH_F));
   }
#undef VH_F
}
inline Out eval(int h, const Depth& d, const In& x, int L1, int L2, int L3) { return eval(h, d, x, args(x), L1, L2, L3); }
/// contribution to the Higgs mass matrix
inline M2 matrix(int h, const Depth& d, const In& x, int L1, int L2, int L3)
{
   const Out o = eval(h, d, x, L1, L2, L3);
   M2 m; if (x.ab) m << o.s2, o.s12, o.s12, o.s1; else m << o.s1, o.s12, o.s12, o.s2;
   return m*(3/(2*M_PI*M_PI*x.vu*x.vu));
}
/// square root of the smaller eigenvalue of a symmetric 2x2 matrix (NaN if negative)
inline double mh(const M2& m)
{
   const double a = m(0,0), b = m(1,1), x = m(0,1);
   const double hi = 0.5*(a + b) + std::hypot(0.5*(a - b), x);
   // both values from the stable formula; a negative one makes the mass undefined
   double lo = hi != 0 ? (a*b - x*x)/hi : 0;
   if (hi <= 0) lo = 0.5*(a + b) - std::hypot(0.5*(a - b), x);
   return std::sqrt(lo);
}
/// real eigenvalues
inline std::array<double,2> eig(const M2& m)
{ const double s = 0.5*(m(0,0) + m(1,1)), r = std::hypot(0.5*(m(0,0) - m(1,1)), m(0,1)); return {s - r, s + r}; }

} // namespace hr
