// P06: all numbers of one complete calculation belong together.  Exhaustive
// lattice of parameter points; every reported number is re-derived from the
// other reported numbers or from the stand-alone component for that point, and
// the scheme conversion and the one-loop matrix from independent formulas.
#include "vh.hpp"
#include "points.hpp"
#include "fields.hpp"
#include "hier.hpp"
#include "himalaya/HierarchyCalculator.hpp"
#include "himalaya/mh2_eft/Mh2EFTCalculator.hpp"
#include "himalaya/mh2_eft/ThresholdCalculator.hpp"

#include "himalaya/mh2_eft/EFTFlags.hpp"
#include "himalaya/mh2_fo/MSSM_mass_eigenstates.hpp"
#include "himalaya/mh2l/DSZHiggs.hpp"
#include "himalaya/misc/CouplingOrders.hpp"
using namespace himalaya;
namespace {

using hr::M2; using ld = long double;
const double K = 1/(16*M_PI*M_PI);
double sq(double x) { return x*x; }

// ---- independent formulas ----------------------------------------------------
/// 2 - (a+b)/(a-b) log(a/b), stable for a -> b
ld gfun(ld a, ld b)
{
   const ld d = (a - b)/(a + b);                       // log(a/b) = 2 atanh(d)
   if (std::abs(d) < 1e-3L) { const ld y = d*d; return -2*y*(1/3.L + y*(1/5.L + y*(1/7.L + y/9))); }
   return 2 - 2*std::atanh(d)/d;
}
/// log(a/b)/(a-b)
ld lfun(ld a, ld b)
{
   const ld d = (a - b)/(a + b);
   if (std::abs(d) < 1e-4L) { const ld y = d*d; return 2/(a + b)*(1 + y/3 + y*y/5); }
   return 2*std::atanh(d)/(d*(a + b));
}
/// (a-b)^-2 g(a,b)
ld g2fun(ld a, ld b)
{
   const ld d = (a - b)/(a + b), s = (a + b)*(a + b);
   if (std::abs(d) < 1e-3L) { const ld y = d*d; return -2/s*(1/3.L + y*(1/5.L + y*(1/7.L + y/9))); }
   return gfun(a, b)/(d*d*s);
}
/// O(alpha_x) Higgs mass matrix for zero momentum and no gauge couplings (Ellis, Ridolfi, Zwirner)
void oneloop(ld a, ld b, ld Mt, ld X, ld A, ld mu, ld vu, bool dropX4, ld out[3])
{
   const ld tbi = 0, P = 3*Mt*Mt*Mt*Mt/(4*M_PIl*M_PIl*vu*vu); (void)tbi;
   const ld L = lfun(a, b), G = g2fun(a, b);
   out[0] = P*mu*mu*X*X*G;
   out[1] = -P*mu*X*(L + A*X*G);
   ld axax = A*A*X*X; if (dropX4) axax -= X*X*X*X;
   out[2] = P*(std::log(a*b/(Mt*Mt*Mt*Mt)) + 2*A*X*L + axax*G);
}
/// scheme conversion: both squared squark masses receive the two-loop shift C
ld Cshift(const Parameters& p, ld q2, ld a, ld b, bool logs, bool rel)
{
   const ld g2 = sq(p.MG), Q2 = sq(p.scale);
   const auto L = [&] (ld m2) { return rel ? (logs ? std::log(Q2/a) : 0.L) - std::log(m2/a) : std::log(Q2/m2); };
   return -6*(1 + L(g2))*g2 + 10*(1 + L(q2))*q2 + (1 + L(a))*a + (1 + L(b))*b;
}

/// squared MDRbar' masses in units of the DRbar' ones (published conversion, by mass pattern)
void mdrmass2(int h, double Al, double g, double q, double m1, double m2, double Q, int L1, int L2, double out[2])
{
   const double z2 = M_PI*M_PI/6, lg = 2*std::log(Q/g), lq = 2*std::log(Q/q), l2 = 2*std::log(Q/m2), D = g - m2, g2 = g*g, q2 = q*q, A2 = Al*Al*L2;
   double c = 0;       // common shift of both squared masses
   if (h == hr::Hierarchies::h6 || h == hr::Hierarchies::h6g2)
      c = 16./3*L1*Al*(1 + lg)*g2 + A2*(-5./27*(67 + 84*(lg - lq))*g2*g2*g2/(q2*q2) - 40./27*(43 + 30*(lg - lq))*g2*g2/q2
          + 32./3*D*g*(1 - 2*z2) + 4./9*g2*(79 + 144*lg*lg - 150*lq + 90*lq*lq + 90*lg*(3 - 2*lq) + 208*z2));
   else if (h >= hr::Hierarchies::h6b && h <= hr::Hierarchies::h6bq2g2)
      c = 16./3*L1*Al*(1 + lg)*g2 + A2*8./9*(-135*q2 + 12*D*g*(1 - 22*z2) + g2*(77 + 135*lg + 72*lg*lg - 75*lq - 90*lg*lq + 45*lq*lq + 104*z2));
   const double k = -80./3*A2*q2*(2*lq - 1 + 2*z2);
   out[0] = 1 + (c + k - 8./3*A2*m2*m2*(2*l2 - 1 + 2*z2))/(m1*m1);
   out[1] = 1 + (c + k)/(m2*m2);
}

// ---- lattice -----------------------------------------------------------------
const std::vector<double> MQ3[] = {{1000, 1400, 600, 2500, 1000.7}, {1000, 1400, 600, 2500, 1000.7, 1950, 330, 805}},
   MU3[] = {{1000, 1250, 2100, 600}, {1000, 1250, 2100, 600, 1700, 3100, 450}},
   MGL[] = {{1500, 500, 2300, 150, 1010}, {1500, 500, 2300, 150, 1010, 1201, 820, 3300}},
   MSQ[] = {{1600, 1100, 5000, 2050}, {1600, 1100, 5000, 2050, 2200, 1290, 980}},
   XT[] = {{0.4, -1.6, 2.2, 0, 0.01}, {0.4, -1.6, 2.2, 0, 0.01, -0.9, 1.3, -2.3}},
   TB[] = {{10, 2, 45}, {10, 2, 45}}, SC[] = {{1, 0.5, 2.3}, {1, 0.5, 2.3}};
pts::Spec spec(vh::Digits& d, bool th)
{
   pts::Spec s;
   s.mQ3 = d.pick(MQ3[th]); s.mU3 = d.pick(MU3[th]); s.MG = d.pick(MGL[th]); s.mQ = s.mU = s.mD = s.mD3 = d.pick(MSQ[th]);
   s.Xt = d.pick(XT[th])*std::sqrt(s.mQ3*s.mU3); s.tb = d.pick(TB[th]); s.scale = d.pick(SC[th])*std::sqrt(s.mQ3*s.mU3);
   const int k = d.next(2); if (k) { s.yb = 0.5; s.mu = -800; s.Ab = 1200; s.MA = 600; }
   return s;
}
std::size_t size(bool th) { return MQ3[th].size()*MU3[th].size()*MGL[th].size()*MSQ[th].size()*XT[th].size()*TB[th].size()*SC[th].size()*2; }

std::string str(const pts::Spec& s, bool ab)
{ std::ostringstream o; o.precision(7); o << (ab ? "b" : "t") << " mQ3=" << s.mQ3 << " mU3=" << s.mU3 << " MG=" << s.MG << " mq=" << s.mQ << " Xt=" << s.Xt << " tb=" << s.tb << " Q=" << s.scale << " yb=" << s.yb << " mu=" << s.mu; return o.str(); }

/// order-by-order eigenvalue of m0 + x m1 + x^2 m2 + x^3 m3: recursion for the
/// characteristic polynomial (independent of the closed formulas in the library)
void perturb(const M2 m[4], double out[4], double scale[4])
{
   // lambda^2 - T lambda + D = 0, T = sum t_k x^k, D = sum d_k x^k
   ld t[4], d[4], l[4];
   for (int k = 0; k < 4; k++) {
      t[k] = ld(m[k](0,0)) + m[k](1,1); d[k] = 0;
      for (int i = 0; i <= k; i++) d[k] += ld(m[i](0,0))*m[k-i](1,1) - ld(m[i](0,1))*m[k-i](1,0);
   }
   const ld r = std::sqrt((ld(m[0](0,0)) - m[0](1,1))*(ld(m[0](0,0)) - m[0](1,1)) + 4*ld(m[0](0,1))*m[0](0,1));
   l[0] = 0.5L*(t[0] - r);
   const ld den = 2*l[0] - t[0];
   for (int k = 1; k < 4; k++) {
      ld s = d[k];
      for (int i = 1; i < k; i++) s += l[i]*l[k-i];
      for (int i = 1; i <= k; i++) s -= t[i]*l[k-i];
      l[k] = -s/den;
   }
   const double n[4] = {m[0].norm(), m[1].norm(), m[2].norm(), m[3].norm()}, E = std::abs(double(den));
   for (int k = 0; k < 4; k++) out[k] = l[k];
   scale[0] = n[0]; scale[1] = n[1]*(n[0]/E); scale[2] = (n[2] + n[1]*n[1]/E)*(n[0]/E); scale[3] = (n[3] + n[1]*n[2]/E + n[1]*n[1]*n[1]/E/E)*(n[0]/E);
}

void one(const pts::Spec& s, bool ab, vh::Report& r)
{
   const std::string key = str(s, ab);
   r.count("evaluations");
   const Parameters in = pts::make(s), in0 = in;
   Parameters p = in; p.validate(false);
   HierarchyCalculator hc(in, false);
   HierarchyObject ho(ab);
   try { ho = hc.calculateDMh3L(ab); } catch (const std::exception& e) { r.count("no_hierarchy"); return; }
   r.check("caller", flds::differ(in, in0).empty(), key + " field " + flds::differ(in, in0));
   const int h = ho.getSuitableHierarchy();
   r.count(std::string("hierarchy_") + (h >= 0 && h < 14 ? hr::name(h) : "?"));
   r.state(vh::mix(h, ab)); r.state(vh::mix(vh::bits(ho.getDMh2(3)), h));
   const double v2 = sq(p.vu) + sq(p.vd), tb = ab ? p.vd/p.vu : p.vu/p.vd;   // of the sector the corrections stem from
   const auto order = [ab] (M2 m) { if (ab) std::swap(m(0,0), m(1,1)); return m; };
   const auto cl = [&] (const char* n, double a, double b, double rel, double scale) { r.close(n, a, b, rel*scale + 1e-300, key + " " + (h >= 0 && h < 14 ? hr::name(h) : "?")); };
   const auto clm = [&] (const char* n, const M2& a, const M2& b, double rel, double add = 0) { for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) cl(n, a(i,j), b(i,j), 1, rel*std::max(a.norm(), b.norm()) + add); };
   const auto sym = [&] (const char* n, const M2& a) { r.check(n, a(0,1) == a(1,0) || std::abs(a(0,1) - a(1,0)) <= 1e-13*a.norm(), key + " " + vh::fmt(a(0,1)) + " " + vh::fmt(a(1,0))); };

   // symmetric matrices, perturbative diagonalisation
   M2 m[4]; for (int l = 0; l < 4; l++) { m[l] = ho.getDMh(l); sym("symmetric", m[l]); }
   sym("symmetric.h3m", ho.getDMhDRbarPrimeToH3mShift());
   double ev[4], sc[4]; perturb(m, ev, sc);
   for (int l = 0; l < 4; l++) cl("perturbative", ho.getDMh2(l), ev[l], 1e-11, sc[l]);
   cl("FO3", ho.getDMh2FO(3), ho.getDMh2(3), 1e-14, std::abs(ev[3])); cl("FOAt3", ho.getDMh2FOAt(3), ho.getDMh2(3), 1e-14, std::abs(ev[3]));

   // matrices = stand-alone components on the same object
   HierarchyObject q = ho;
   clm("DMh1", m[1], hc.getMt41L(q, 0, 0), 1e-14); clm("DMh2", m[2], hc.getMt42L(q, 0, 0), 1e-14);
   const M2 h3m = -ho.getDMhDRbarPrimeToH3mShift();
   const M2 m3 = hc.calculateHierarchy(q, 0, 0, 1);
   clm("DMh3", m[3], m3 + h3m, 1e-13, 1e-13*m3.norm());
   // ... and = the expansion evaluated directly
   const hr::In x = hr::input(p, ab, ab ? p.MSb(0) : p.MSt(0), ab ? p.MSb(1) : p.MSt(1), 0);
   clm("calculateHierarchy", m3, K*0 + 1 ? hr::matrix(h, hr::full(), x, 0, 0, 1) : m3, 1e-10);
   for (int f = 1; f < 8; f++) {
      M2 sum = M2::Zero(); for (int l = 0; l < 3; l++) if (f >> l & 1) sum += hr::matrix(h, hr::full(), x, l == 0, l == 1, l == 2);
      HierarchyObject t = ho; clm("calculateHierarchy.flags", hc.calculateHierarchy(t, f & 1, f >> 1 & 1, f >> 2 & 1), sum, 1e-10);
   }

   // independent one-loop matrix
   const double Mf = ab ? p.Mb : p.Mt, A = ab ? p.Ad(2,2) : p.Au(2,2), X = A - p.mu/tb;
   const ld a = sq(x.m1), b = sq(x.m2);
   {
      ld w[3]; oneloop(a, b, Mf, X, A, p.mu, x.vu, false, w); const M2 m1 = order(m[1]);
      // size of the terms, which may cancel
      const double n = std::abs(w[0]) + std::abs(w[1]) + std::abs(w[2])
         + 3*sq(sq(Mf))/(4*M_PI*M_PI*sq(x.vu))*double((sq(A) + sq(p.mu) + sq(p.mu/tb))*sq(X)*std::abs(g2fun(a, b)) + std::abs(A*X*lfun(a, b)));
      // the mixing is recomputed from s2t (m1^2 - m2^2), which cancels for nearly degenerate stops
      const double tol = 1e-9 + 1e-12*double(a/std::abs(a - b))*double(a/std::abs(a - b));
      cl("oneloop11", m1(0,0), w[0], tol, n); cl("oneloop12", m1(0,1), w[1], tol, n); cl("oneloop22", m1(1,1), w[2], tol, n);
      r.count(ab ? "oneloop_bottom" : "oneloop");
   }
   // independent two-loop call
   { const double th = ab ? p.theta_b : p.theta_t;
     const M2 w = mh2l::delta_mh2_2loop_at_as(sq(Mf), p.MG, a, b, std::sin(th), std::cos(th), sq(p.scale), -p.mu, tb, v2, p.g3, 0);
     clm("twoloop", m[2], order(w), 1e-12); }
   // independent scheme conversion: derivative of the one-loop matrix with respect to a common squared-mass shift
   {
      const double Xs = h == hr::Hierarchies::h4 ? 0 : X;
      const bool drop = h < 3 || h >= 12;
      const double q2 = sq(x.q);
      const ld C = Cshift(p, q2, a, b, true, false);
      const ld e = 1e-4L*std::min(a, b);
      ld up[3], dn[3], up2[3], dn2[3];
      const auto f = [&] (ld d, ld* o) { oneloop(a + d, b + d, Mf, Xs, Xs + p.mu/tb, p.mu, x.vu, drop, o); };
      f(e, up); f(-e, dn); f(2*e, up2); f(-2*e, dn2);
      M2 w; ld D[3]; for (int i = 0; i < 3; i++) D[i] = (8*(up[i] - dn[i]) - (up2[i] - dn2[i]))/(12*e);
      // normalisation: threeLoop g3^4 (Mt yt)^2 * 16 C/(...)  <=>  16/3 (g3^2/16 pi^2)^2 ... times the derivative of the one-loop matrix
      const ld N = ld(K)*K*p.g3*p.g3*p.g3*p.g3*(16/3.L)*C/2;
      w << D[0]*N, D[1]*N, D[1]*N, D[2]*N;
      // closed forms with cubes of m1^2-m2^2: cancellation; a 1 % degeneracy window replaces m2 by m1
      const double del = double(std::abs(a - b)/std::max(a, b));
      const double tol = del < 0.021 ? 3*del + 1e-6 : 1e-9 + 1e-13/(del*del*del);
      clm("h3mshift", h3m, order(w), tol, tol*1e-3*h3m.norm());
      r.count("conversion");
   }

   // quartic coupling
   {
      Parameters pm = p; pm.mu2(2,2) = sq(p.MSt(0)); pm.mq2(2,2) = sq(p.MSt(1));
      mh2_eft::Mh2EFTCalculator e(pm); mh2_eft::ThresholdCalculator tc(pm);
      namespace C = CouplingOrders;
      for (int o = 0; o < C::NUMBER_OF_COUPLING_ORDERS; o++) {
         const bool keep = o == C::YT4 || o == C::G32YT4 || o == C::ONLY_AT_AS || o == C::YTAU2YT4 || o == C::G22YTAU2;
         if (!keep) e.setCorrectionFlag(C::CouplingOrders(o), 0);
      }
      using namespace mh2_eft;
      const double gt2 = 2*sq(p.Mt)/v2, p1 = K*sq(p.Mt)*gt2, p2 = K*K*sq(p.Mt)*gt2*sq(p.g3), p3 = K*K*K*sq(p.Mt)*gt2*sq(sq(p.g3));
      const double l1 = p1*tc.getThresholdCorrection(ThresholdCouplingOrders::LAMBDA_AT, RenSchemes::DRBARPRIME, 1)/v2;
      cl("lambda0", ho.getDLambda(0), e.getDeltaMh2EFT0Loop()/v2, 1e-12, std::abs(ho.getDLambda(0)));
      cl("lambda1", ho.getDLambda(1), l1, 1e-12, std::abs(l1));
      const double l2 = p2*tc.getThresholdCorrection(ThresholdCouplingOrders::LAMBDA_AT_AS, RenSchemes::DRBARPRIME, 1)/v2;
      cl("lambda2", ho.getDLambda(2), l2, 1e-12, std::abs(l2));
      cl("msbar0", ho.getDLambdaDRbarPrimeToMSbarShift(0), 0, 1, 0); cl("msbar1", ho.getDLambdaDRbarPrimeToMSbarShift(1), 0, 1, 0);
      if (ab) {
         r.count("alphab");
         for (double z : {ho.getDLambda(3), ho.getDLambdaH3m(), ho.getDLambdaEFT(), ho.getDLambdaNonLog(), ho.getDLambdaDRbarPrimeToMSbarShift(3), ho.getDLambdaUncertainty(3)}) cl("alphab3", z, 0, 1, 0);
      } else {
         const double s2 = p2*(-4*l1*tc.getThresholdCorrection(ThresholdCouplingOrders::YT_AS, RenSchemes::DRBARPRIME, 1))/v2;
         cl("msbar2", ho.getDLambdaDRbarPrimeToMSbarShift(2), s2, 1e-11, std::abs(s2));
         cl("lambda3", ho.getDLambda(3), ho.getDLambdaEFT(), 1e-14, std::abs(ho.getDLambdaEFT()));
         // three loops: expansion coefficients + scheme conversion - lower-order terms
         const bool drop = h < 3 || h >= 12; const double Xs = h == hr::Hierarchies::h4 ? 0 : X, q2 = sq(x.q);
         const hr::Out o = hr::eval(h, hr::full(), x, 0, 0, 1);
         const double L = std::log(sq(p.scale)/double(a));
         const double cH3m = o.c[0] + L*(o.c[1] + L*(o.c[2] + L*o.c[3]));
         const auto light = [&] (bool logs) {   // conversion of the light Higgs direction
            const ld C = Cshift(p, q2, a, b, logs, true), del = a - b, lr = std::log(a/b);
            const ld d = (a + b)/(a*b) - 2*ld(Xs)*Xs/(a*b) + (drop ? 0 : ld(Xs)*Xs*Xs*Xs*(-1/(del*del*del))*(2*lr + (a + b)*(1/a - 1/b)));
            return double(16*C*d);
         };
         const double del = double(std::abs(a - b)/std::max(a, b));
         const double tol = del < 0.021 ? 3*del + 1e-6 : 1e-9 + 1e-13/(del*del*del);
         const double subL = e.getDeltaMh2EFT3Loop(0,1,0), sub0 = e.getDeltaMh2EFT3Loop(0,0,0);
         const double sH = light(true), s0 = light(false);
         const double scale = p3*(std::abs(cH3m) + std::abs(sH) + std::abs(o.c[0]) + std::abs(s0))/v2 + (std::abs(subL) + std::abs(sub0))/v2;
         cl("lambdaH3m", ho.getDLambdaH3m(), (p3*(cH3m + sH) - subL)/v2, 1, 1e-11*scale + tol*p3*(std::abs(sH) + std::abs(s0))/v2);
         cl("lambdaNonLog", ho.getDLambdaNonLog(), (p3*(o.c[0] + s0) - sub0)/v2, 1, 1e-11*scale + tol*p3*(std::abs(sH) + std::abs(s0))/v2);
         const double logs = p3*(tc.getThresholdCorrection(ThresholdCouplingOrders::LAMBDA_AT_AS2, RenSchemes::DRBARPRIME, 1) - tc.getThresholdCorrection(ThresholdCouplingOrders::LAMBDA_AT_AS2, RenSchemes::DRBARPRIME, 0))/v2;
         cl("lambdaEFT", ho.getDLambdaEFT(), ho.getDLambdaNonLog() + logs, 1e-11, std::abs(logs) + std::abs(ho.getDLambdaNonLog()));
         const int xo = drop ? 3 : 4;
         const double s3 = p3*tc.getDRbarPrimeToMSbarShift(xo, 1, 0)/v2;
         cl("msbar3", ho.getDLambdaDRbarPrimeToMSbarShift(3), s3, 1e-11, std::abs(s3));
         const double xt = drop ? std::abs(p3/v2*tc.getDRbarPrimeToMSbarXtTerms(tc.getLimit(), 4, 1)) : 0;
         cl("lambdaunc", ho.getDLambdaUncertainty(3), xt + std::abs(ho.getDLambdaEFT() - ho.getDLambdaH3m()), 1e-11, xt + std::abs(ho.getDLambdaEFT()) + std::abs(ho.getDLambdaH3m()));
      }
   }

   // effective-theory and fixed-order columns
   {
      mh2_eft::Mh2EFTCalculator e(p);
      const double e0 = e.getDeltaMh2EFT0Loop(), e1 = e.getDeltaMh2EFT1Loop(1,1), e2 = e.getDeltaMh2EFT2Loop(1,1), e3 = e.getDeltaMh2EFT3Loop(1,1,0);
      cl("EFT0", ho.getDMh2EFTAt(0), e0, 1e-12, std::abs(e0)); cl("EFT1", ho.getDMh2EFTAt(1), e1, 1e-12, std::abs(e1)); cl("EFT2", ho.getDMh2EFTAt(2), e2, 1e-11, std::abs(e2));
      cl("EFT3", ho.getDMh2EFTAt(3), e3 + ho.getDLambdaEFT()*v2, 1e-11, std::abs(e3) + std::abs(ho.getDLambdaEFT()*v2));
      // tree level of the effective theory: MZ^2 cos^2(2 beta) for the running masses
      const double c2b = (sq(p.vd) - sq(p.vu))/v2, mz2 = (0.6*sq(p.g1) + sq(p.g2))*v2/4;
      cl("EFT0.tree", e0, mz2*sq(c2b), 1e-10, mz2);
      const auto full = mh2_fo::MSSM_mass_eigenstates(p).calculate_Mh2(), at = mh2_fo::MSSM_mass_eigenstates(p, true).calculate_Mh2();
      const double f[3] = {std::get<0>(full), std::get<1>(full), std::get<2>(full)}, t[3] = {0, std::get<1>(at), std::get<2>(at)};
      for (int l = 0; l < 3; l++) { cl("FO", ho.getDMh2FO(l), f[l], 1e-12, std::abs(f[l])); cl("FOAt", ho.getDMh2FOAt(l), t[l], 1e-12, std::abs(t[l])); }
      cl("FO0.tree", ho.getDMh2FO(0), hr::eig(m[0])[0], 1e-10, m[0].norm());
   }

   // uncertainties
   r.check("uncertainty", !(ho.getAbsDiff2L() < 0) && !(ho.getDMhExpUncertainty(2) < 0) && !(ho.getDMhExpUncertainty(3) < 0) && ho.getDMhExpUncertainty(1) == 0 && ho.getDLambdaUncertainty(3) >= 0, key);
   if (hr::eig(m[0] + m[1])[0] > 0 && hr::eig(m[0] + m[1] + m[2])[0] > 0 && hr::eig(m[0] + m[1] + m[2] + m[3])[0] > 0) r.count("positive");
   { const M2 m012 = m[0] + m[1] + m[2]; const double u = hc.getExpansionUncertainty(ho, m012, 0, 0, 1); if (std::isfinite(u)) cl("uncertainty3", ho.getDMhExpUncertainty(3), u, 1e-10, u + 1e-6); else r.count("undefined"); }

   // scheme shifts = difference of the two schemes' results
   {
      HierarchyObject hm = ho; hm.setMDRFlag(1);
      const M2 low = hc.getMt41L(hm,1,1) - hc.getMt41L(hm,0,0) + hc.getMt42L(hm,1,1) - hc.getMt42L(hm,0,0);
      const double n1 = hc.shiftMst1ToMDR(hm, 1, 1), n2 = hc.shiftMst2ToMDR(hm, 1, 1);
      for (int f = 0; f < 4 && n1 == n1 && n2 == n2; f++) {
         M2 w = M2::Zero(); if (f & 1) w += hc.getMt41L(hm,1,1) - hc.getMt41L(hm,0,0); if (f & 2) w += hc.getMt42L(hm,1,1) - hc.getMt42L(hm,0,0);
         clm("mdrshift.parts", hc.calcDRbarToMDRbarShift(hm, f & 1, f & 2), w, 1e-13, 1e-14*(hc.getMt41L(hm,1,1).norm() + hc.getMt42L(hm,1,1).norm()));
      }
      for (int f = 0; f < 4; f++) {
         double w[2]; mdrmass2(h, K*sq(p.g3), p.MG, x.q, x.m1, x.m2, p.scale, f & 1, f >> 1, w);
         const double a[2] = {hc.shiftMst1ToMDR(hm, f & 1, f >> 1), hc.shiftMst2ToMDR(hm, f & 1, f >> 1)}, mm[2] = {x.m1, x.m2};
         for (int i = 0; i < 2; i++)
            if (w[i] > 1e-9) { cl("mdrmass.formula", a[i], mm[i]*std::sqrt(w[i]), 1e-11, mm[i]*(1 + 1/w[i])); r.count("mdrmass"); }
            else if (w[i] < -1e-9) { r.check("mdrmass.imaginary", !(a[i] == a[i]), key); r.count("mdrmass_imaginary"); }
      }
      if (n1 == n1 && n2 == n2) sym("symmetric.mdr", ho.getDMhDRbarPrimeToMDRbarPrimeShift());
      if (n1 == n1 && n2 == n2) cl("mdrmass", ho.getMDRMasses()(0), std::min(n1, n2), 1e-13, n1); if (n1 == n1 && n2 == n2) cl("mdrmass", ho.getMDRMasses()(1), std::max(n1, n2), 1e-13, n2);
      cl("mdrmass.none", hc.shiftMst1ToMDR(ho, 0, 0), x.m1, 1e-13, x.m1); cl("mdrmass.none", hc.shiftMst2ToMDR(ho, 0, 0), x.m2, 1e-13, x.m2);
      const M2 h1 = hc.calculateHierarchy(hm, 0, 0, 1), rest = ho.getDMhDRbarPrimeToMDRbarPrimeShift() - low + m[3] - h1;   // = conversion shift for the shifted masses
      // independent conversion at the shifted masses
      const bool drop = h < 3 || h >= 12; const double Xs = h == hr::Hierarchies::h4 ? 0 : X;
      const ld am = ld(n1)*n1, bm = ld(n2)*n2, C = Cshift(p, sq(x.q), am, bm, true, false), e = 1e-4L*std::min(am, bm);
      ld up[3], dn[3], up2[3], dn2[3];
      const auto f = [&] (ld d, ld* o) { oneloop(am + d, bm + d, Mf, Xs, Xs + p.mu/tb, p.mu, x.vu, drop, o); };
      f(e, up); f(-e, dn); f(2*e, up2); f(-2*e, dn2);
      const ld N = ld(K)*K*p.g3*p.g3*p.g3*p.g3*(16/3.L)*C/2;
      M2 w; ld D[3]; for (int i = 0; i < 3; i++) D[i] = N*(8*(up[i] - dn[i]) - (up2[i] - dn2[i]))/(12*e);
      w << D[0], D[1], D[1], D[2];
      const double del = double(std::abs(am - bm)/std::max(am, bm));
      const double tol = del < 0.021 ? 3*del + 1e-6 : 1e-9 + 1e-13/(del*del*del);
      if (n1 == n1 && n2 == n2) clm("mdrshift", rest, order(w), tol, 1e-12*(low.norm() + h1.norm() + m[3].norm()) + tol*1e-3*rest.norm()); else r.count("undefined");
   }
}

} // namespace

int main(int argc, char** argv)
{
   vh::Check c; c.id = "P06"; c.rule = "selected expansion x top/bottom, three-loop value";
   const bool th = vh::thorough();
   vh::Family f; f.name = "points"; f.space = "lattice mQ3 x mU3 x MG x mq x Xt x tan(beta) x scale x (2 Higgs/bottom sectors) x top/bottom";
   f.size = size(th)*2;
   f.run = [=] (std::size_t i, vh::Report& r) { vh::Digits d(i); const bool ab = d.next(2); const auto s = spec(d, th); one(s, ab, r); };
   c.families.push_back(f);
   c.required = {"oneloop", "oneloop_bottom", "conversion", "alphab", "positive", "mdrmass"};
   for (int h = 0; h < 14; h++) c.required.push_back(std::string("hierarchy_") + hr::name(h));
   return vh::run(argc, argv, c);
}
