// P17: the Higgs mass does not depend on the renormalization scale, order by order.
// Derivatives along the renormalization-group trajectory (textbook beta functions of
// the MSSM) of the lower orders plus the explicit scale derivative of the highest
// order must cancel at every point of the lattice.
#include "vh.hpp"
#include "obs.hpp"
#include "hier.hpp"
#include <Eigen/Eigenvalues>
#include <functional>
using namespace himalaya;
namespace CO = himalaya::CouplingOrders;
using CE = himalaya::CouplingOrders::CouplingOrders;
using TC = mh2_eft::ThresholdCouplingOrders;
namespace {

const double K = 1/(16*M_PI*M_PI);

/// running parameters
struct S {
   double Q = 1500, g1 = 0, g2 = 0, g3 = 1.1, yt = 0.8, yb = 0.7, yl = 0.6, vu = 0, vd = 0;
   double M1 = 700, M2 = 1000, M3 = 1300, At = 1400, Ab = -900, Al = 600, mu = -480, MA = 1700;
   double q = 1.1e6, u = 2.2e6, d = 1.9e6, l = 0.8e6, e = 0.5e6, h = 9e6;
   double Mt = 0;   ///< top mass kept fixed, if positive
   void tb(double t) { const double b = std::atan(t); vu = 246*std::sin(b); vd = 246*std::cos(b); }
};
std::string show(const S& s)
{ std::ostringstream o; o << "Q=" << s.Q << " g=" << s.g1 << "," << s.g2 << "," << s.g3 << " y=" << s.yt << "," << s.yb << "," << s.yl << " tb=" << s.vu/s.vd << " M3=" << s.M3 << " A=" << s.At << "," << s.Ab << "," << s.Al << " mu=" << s.mu << " MA=" << s.MA << " m2=" << s.q << "," << s.u << "," << s.d << "," << s.l << "," << s.e << "," << s.h; return o.str(); }

Parameters par(const S& s)
{
   Parameters p;
   p.scale = s.Q; p.mu = s.mu; p.g1 = s.g1; p.g2 = s.g2; p.g3 = s.g3; p.vu = s.vu; p.vd = s.vd;
   const auto dg = [&s] (double a) { RM33 m = RM33::Identity()*s.h; m(2,2) = a; return m; };
   p.mq2 = dg(s.q); p.mu2 = dg(s.u); p.md2 = dg(s.d); p.ml2 = dg(s.l); p.me2 = dg(s.e);
   p.Au(2,2) = s.At; p.Ad(2,2) = s.Ab; p.Ae(2,2) = s.Al; p.Yu(2,2) = s.yt; p.Yd(2,2) = s.yb; p.Ye(2,2) = s.yl;
   p.M1 = s.M1; p.M2 = s.M2; p.MG = s.M3; p.MA = s.MA;
   if (s.Mt > 0) p.Mt = s.Mt;
   if (s.g1 == 0 && s.g2 == 0) p.MW = p.MZ = NaN;
   p.validate(false);
   return p;
}

enum { T = 1, B = 2, L = 4, G = 8, E = 16 };   // couplings taken along: top, bottom, tau, strong, electroweak
/// one-loop running over dlnQ = h
S rge1(const S& s, int w, double h)
{
   const double k = h*K, yt2 = w & T ? s.yt*s.yt : 0, yb2 = w & B ? s.yb*s.yb : 0, yl2 = w & L ? s.yl*s.yl : 0, g32 = w & G ? s.g3*s.g3 : 0, g22 = w & E ? s.g2*s.g2 : 0, g12 = w & E ? s.g1*s.g1 : 0;
   const double v2 = s.vu*s.vu + s.vd*s.vd, sb2 = s.vu*s.vu/v2, cb2 = 1 - sb2;
   const double mHu2 = s.MA*s.MA*cb2 - s.mu*s.mu, mHd2 = s.MA*s.MA*sb2 - s.mu*s.mu;
   const double Xt = 2*yt2*(mHu2 + s.q + s.u + s.At*s.At), Xb = 2*yb2*(mHd2 + s.q + s.d + s.Ab*s.Ab), Xl = 2*yl2*(mHd2 + s.l + s.e + s.Al*s.Al);
   const double gl = 32/3.*g32*s.M3*s.M3;
   S r = s;
   r.g1 += k*33/5.*g12*s.g1; r.g2 += k*g22*s.g2; r.g3 -= k*3*g32*s.g3;
   r.yt += k*s.yt*(6*yt2 + yb2 - 16/3.*g32); r.yb += k*s.yb*(6*yb2 + yt2 + yl2 - 16/3.*g32); r.yl += k*s.yl*(4*yl2 + 3*yb2);
   const double xi = 3/10.*g12 + 3/2.*g22;
   r.vu += k*s.vu*(xi - 3*yt2); r.vd += k*s.vd*(xi - 3*yb2 - yl2);
   r.At += k*(12*yt2*s.At + 2*yb2*s.Ab + 32/3.*g32*s.M3); r.Ab += k*(12*yb2*s.Ab + 2*yt2*s.At + 2*yl2*s.Al + 32/3.*g32*s.M3); r.Al += k*(8*yl2*s.Al + 6*yb2*s.Ab);
   r.M3 -= k*6*g32*s.M3;
   r.q += k*(Xt + Xb - gl); r.u += k*(2*Xt - gl); r.d += k*(2*Xb - gl); r.l += k*Xl; r.e += k*2*Xl; r.h -= k*gl;
   r.mu += k*s.mu*(3*yt2 + 3*yb2 + yl2 - 3*g22 - 3/5.*g12);
   if (w & E) {   // running of the soft Higgs mixing
      double tb = s.vu/s.vd, b = s.MA*s.MA/(tb + 1/tb)/s.mu;
      b += k*(6*s.At*yt2 + 6*s.Ab*yb2 + 2*s.Al*yl2 + 6*g22*s.M2 + 6/5.*g12*s.M1);
      tb = r.vu/r.vd; r.MA = std::sqrt(b*r.mu*(tb + 1/tb));
   }
   return r;
}
/// strong two-loop running of what the top sector needs
S rge2(const S& s, double h)
{
   const double k = h*K*K*std::pow(s.g3, 4), tr = s.q + s.u + 10*par(s).calculateMsq2();
   S r = s;
   r.yt -= 16/9.*k*s.yt; r.At += 64/9.*k*s.M3;
   const double d = k*(-128/3.*s.M3*s.M3 + 16/3.*tr);
   r.q += d; r.u += d; r.d += d;
   return r;
}
S scale(const S& s, double h) { S r = s; r.Q *= std::exp(h); return r; }

using F = std::function<double(const S&)>;
using Step = std::function<S(const S&, double)>;
/// derivative of f along a trajectory (fourth-order difference quotient)
double der(const F& f, const S& s, const Step& st, double h = 4e-3)
{ const auto c = [&] (double x) { return (f(st(s, x)) - f(st(s, -x)))/(2*x); }; return (4*c(h/2) - c(h))/3; }

Step along(int w) { return [w] (const S& s, double h) { return rge1(s, w, h); }; }

double eft(const S& s, CE o, int loop)
{ auto e = obs::eft_calc(par(s)); e.setCorrectionFlag(o, 1); return loop == 1 ? e.getDeltaMh2EFT1Loop(1, 1) : e.getDeltaMh2EFT2Loop(1, 1); }

void verdict(const char* fam, double sum, double sc, double tol, const S& s, vh::Report& r)
{
   r.count("relations"); if (sc > 0) { r.maxi(std::string("dev.") + fam, std::abs(sum)/sc); r.count(std::string("nonzero.") + fam); }
   r.check(fam, std::abs(sum) <= tol*sc, show(s) + ": residual " + vh::fmt(sum) + " of " + vh::fmt(sc));
   r.state(vh::bits(sc));
}

const double MASS[] = {620, 900, 1270, 1900, 3100};
S point(vh::Digits& d, bool th)
{
   static const double SC[] = {800, 2500, 12000}, TB[] = {3, 0.8, 20, 1.3, 45}, MU[] = {481, -787, 1537, -2411}, MAS[] = {513, 1731, 3607};
   static const double X[][3] = {{1, 1, -1}, {-1, -1, 1}, {0.2, 0.2, -0.2}, {1.7, -0.6, 0.4}, {-1.5, 1.4, 1.6}};
   S s;
   s.Q = SC[d.next(th ? 3 : 2)]; s.tb(TB[d.next(th ? 5 : 2)]);
   const int n = th ? 5 : 3; const double* m = th ? MASS : MASS + 1;
   const double a = m[d.next(n)], b = 1.061*m[d.next(n)], c = 1.137*m[d.next(n)];
   s.q = a*a; s.u = b*b; s.d = std::pow(0.87*b, 2); s.l = a*a*0.81; s.e = b*b*0.5; s.M3 = c;
   s.mu = MU[d.next(th ? 4 : 2)]; s.MA = MAS[d.next(th ? 3 : 2)];
   const double* x = X[d.next(th ? 5 : 3)];
   s.At = 1.3*x[0]*a; s.Ab = 0.9*x[1]*b; s.Al = 1.1*x[2]*a;
   return s;
}
std::size_t npoints(bool th) { return th ? 3*5*125*4*3*5 : 2*2*27*2*2*3; }

// ---- effective theory: two-loop orders in the Yukawa and strong couplings
void eft2(std::size_t i, bool th, vh::Report& r)
{
   static const struct { const char* n; CE o1, o2; int w; bool run; } O[] = {
      {"YT6", CO::YT4, CO::YT6, T, 1}, {"YB2YT4", CO::YT4, CO::YB2YT4, B, 1}, {"YT2YB4", CO::YB4, CO::YT2YB4, T, 0}, {"YB6", CO::YB4, CO::YB6, B, 0},
      {"YTAU6", CO::YTAU4, CO::YTAU6, L, 0}, {"YTAU2YB4", CO::YB4, CO::YTAU2YB4, L, 0}, {"YTAU4YB2", CO::YTAU4, CO::YTAU4YB2, B, 0}, {"G32YT4", CO::YT4, CO::G32YT4, G, 1}, {"G32YB4", CO::YB4, CO::G32YB4, G, 0}};
   vh::Digits d(i); S s = point(d, th);
   for (auto& o : O) {
      S c = s; if (!o.run) c.Mt = c.yt*c.vu/std::sqrt(2.);
      const double a = der([&] (const S& x) { return eft(x, o.o1, 1); }, c, along(o.w)), b = der([&] (const S& x) { return eft(x, o.o2, 2); }, c, scale);
      const double y1 = o.o1 == CO::YT4 ? c.yt*c.vu : o.o1 == CO::YB4 ? c.yb*c.vd : c.yl*c.vd, v2 = c.vu*c.vu + c.vd*c.vd;
      verdict(o.n, a + b, std::abs(a) + std::abs(b) + 30*K*K*std::pow(y1, 4)/v2, o.o2 == CO::YTAU6 ? 5e-3 : 5e-4, c, r);   // cancellations for nearby slepton masses
   }
}
// ---- effective theory: one-loop orders with electroweak gauge couplings
void eft1(std::size_t i, bool th, vh::Report& r)
{
   static const double G1[] = {0.46, 1e-4, 0.3}, G2[] = {0.65, 0.5, 1e-4}, M1[] = {700, -350, 1900}, M2[] = {1000, 2300, 440};
   vh::Digits d(i); const int g = d.next(3), m = d.next(3); S s = point(d, th); s.g1 = G1[g]; s.g2 = G2[g]; s.M1 = M1[m]; s.M2 = M2[m];
   const int y = (i/7) % 4; if (y & 1) s.yt = 0.01; if (y & 2) s.yb = s.yl = 0.01;
   const auto f = [] (const S& x, int l) { mh2_eft::Mh2EFTCalculator e(par(x), false); for (auto& o : obs::order_names(1)) e.setCorrectionFlag(o.second, o.second != CO::YT4 && o.second != CO::YB4 && o.second != CO::YTAU4); return l ? e.getDeltaMh2EFT1Loop(1, 1) : e.getDeltaMh2EFT0Loop(); };
   const double a = der([&] (const S& x) { return f(x, 0); }, s, along(T | B | L | E)), b = der([&] (const S& x) { return f(x, 1); }, s, scale);
   // the gauge-boson part of the running of the vacuum expectation value at the matching is not included (VEV_G12, VEV_G22)
   const double m0 = f(s, 0), c = K*m0*(3/5.*s.g1*s.g1 + 3*s.g2*s.g2);
   verdict("gauge", a + b + c, std::abs(a) + std::abs(b) + K*std::abs(m0) + 1e-6*K*246*246, 1e-6, s, r);
}
// ---- effective theory: three loops
void eft3(std::size_t i, bool th, vh::Report& r)
{
   static const double H[] = {3e3, 1.3e3, 1e4, 7e2};
   vh::Digits d(i); const double h = H[d.next(th ? 4 : 2)]; S s = point(d, th); s.h = h*h; s.d = s.q*1.1;
   // the thresholds are close to a degenerate limit when masses nearly coincide
   const double e = der([] (const S& x) { mh2_eft::Mh2EFTCalculator c(par(x), false); return c.getDeltaMh2EFT3Loop(1, 1, 1); }, s, scale);
   const double a = der([] (const S& x) { return eft(x, CO::YT4, 1); }, s, [] (const S& x, double h) { return rge2(x, h); });
   const double b = der([] (const S& x) { return eft(x, CO::G32YT4, 2); }, s, along(G));
   verdict("3loop", e + a + b, std::abs(e) + std::abs(a) + std::abs(b), 1e-5, s, r);
}
// ---- threshold corrections of the couplings
void thr(std::size_t i, bool th, vh::Report& r)
{
   vh::Digits d(i); S s = point(d, th); s.d = s.q*1.1;
   const auto t = [] (TC o, const S& x) { auto p = par(x); mh2_eft::ThresholdCalculator c(p, false); return c.getThresholdCorrection(o, mh2_eft::RenSchemes::DRBARPRIME, 1); };
   const auto D = [&] (TC o, const Step& st) { return der([&] (const S& x) { return t(o, x); }, s, st, 4e-3); };
   const double a = t(TC::YT_AS, s), g = t(TC::G3_AS, s), da = D(TC::YT_AS, scale), dg = D(TC::G3_AS, scale), db = D(TC::YT_AS2, scale);
   S c = s; c.g3 = 1;   // running per unit of coupling
   const double run = der([&] (const S& x) { return t(TC::YT_AS, x); }, c, [] (const S& x, double h) { S y = x; const S z = rge1(x, G, h/K); y = z; return y; }, 4e-4);
   verdict("YT_AS", da + 8/3., 1, 1e-7, s, r); verdict("G3_AS", dg + 4, 1, 1e-7, s, r);
   verdict("YT_AS2", -16/9. - 6*a + run + db - a*da + 108 + 16*g, std::abs(run) + std::abs(db) + 100, 5e-5, s, r);
}
// ---- fixed order, one loop, all couplings: pole masses of both Higgs bosons
void fo1(std::size_t i, bool th, vh::Report& r)
{
   static const double G1[] = {0.46, 0.46, 1e-3, 0.1}, G2[] = {0.65, 1e-3, 0.65, 0.9};
   vh::Digits d(i); const int g = d.next(4), y = d.next(2); S s = point(d, th); s.g1 = G1[g]; s.g2 = G2[g]; if (y) { s.yb = 0.02; s.yl = 0.01; }
   if (s.MA < 600 && s.vu < s.vd) s.MA = 913;
   s.M1 = (i/11) % 2 ? -s.M1 : s.M1;
   const auto es = [] (const Parameters& p) { mh2_fo::MSSM_mass_eigenstates m(p, false); return Eigen::SelfAdjointEigenSolver<Eigen::Matrix2d>(m.get_mass_matrix_hh()); };
   for (int k = 0; k < 2; k++) {
      const double a = der([&] (const S& x) { return es(par(x)).eigenvalues()(k); }, s, along(T | B | L | E), 4e-4);
      const double b = der([&] (const S& x) { const auto p = par(x); const auto e = es(p); const Eigen::Vector2d v = e.eigenvectors().col(k); mh2_fo::MSSM_mass_eigenstates m(p, false); return double(v.transpose()*m.delta_mh2_1loop(e.eigenvalues()(k))*v); }, s, scale);
      verdict(k ? "heavy" : "light", a + b, std::abs(a) + std::abs(b) + K*(k ? s.MA*s.MA : 246*246.), 1e-5, s, r);
      if (!k) {
         const double c = der([] (const S& x) { const auto p = par(x); mh2_fo::MSSM_mass_eigenstates m(p, false); return std::get<1>(m.calculate_Mh2()); }, s, scale);
         verdict("default", a + c, std::abs(a) + std::abs(c) + K*246*246., 1e-5, s, r);
      }
   }
}
// ---- fixed order, two loops
void fo2(std::size_t i, bool th, vh::Report& r)
{
   vh::Digits d(i); const S s = point(d, th);
   using V = Eigen::Vector2d;
   // combinations that do not contain the mass of the pseudoscalar
   const auto fo = [] (const S& x, int loop, CE o) { const auto p = par(x); mh2_fo::MSSM_mass_eigenstates m(p, false); obs::off(m); m.set_mom_it(mh2_fo::Momentum_iteration::off);
      Eigen::Matrix2d M; if (loop == 1) M = m.delta_mh2_1loop_gaugeless(); else { m.set_correction(o, 1); M = m.delta_mh2_2loop(); }
      return V(x.vd*x.vd*M(0,0) + x.vd*x.vu*M(0,1), x.vu*x.vu*M(1,1) + x.vd*x.vu*M(0,1)); };
   const auto rel = [&] (const char* n, const S& c, CE o, int w, std::vector<S> minus) {
      for (int k = 0; k < 2; k++) {
         double sum = 0, sc = 0; minus.insert(minus.begin(), c);
         for (std::size_t j = 0; j < minus.size(); j++) {
            const double a = der([&] (const S& x) { return fo(x, 1, o)(k); }, minus[j], along(w)), b = der([&] (const S& x) { return fo(x, 2, o)(k); }, minus[j], scale);
            if (j == 0) sum = a + b; else sum -= a + b; sc += std::abs(a) + std::abs(b);
         }
         minus.erase(minus.begin());
         verdict(n, sum, sc + K*K*1e4, o == CO::YT6 ? 3e-3 : 4e-4, c, r);
      }
   };
   const double z = 1e-6, w = 1e-5;
   S a = s; a.yl = z; rel("fo.YT6", a, CO::YT6, T | B, {});
   a = s; a.yt = a.yb = z; rel("fo.YTAU6", a, CO::YTAU6, L, {});
   a = s; a.yt = z; S q1 = a, q2 = a; q1.yb = z; q2.yl = z; rel("fo.YTAU2YB4", a, CO::YTAU2YB4, B | L, {q1, q2});
   a = s; a.yb = a.yl = w; rel("fo.G32YT4", a, CO::G32YT4, G, {});
   a = s; a.yt = a.yl = w; rel("fo.G32YB4", a, CO::G32YB4, G, {});
}
// ---- three-loop expansions near the points they are expanded about
/// accuracy by hierarchy: mixing dependent, limited by the omitted orders of the expansion
void exp3(std::size_t i, bool th, vh::Report& r)
{
   static const double EPS[] = {0.05, 0.02, 0.1}, XX[] = {0, 0.1, -0.1, 0.3}, RR[] = {2, 3}, QQ[] = {1.3, 0.7};
   vh::Digits d(i); const int h = d.next(14); const double eps = EPS[d.next(th ? 3 : 1)], X = XX[d.next(th ? 4 : 2)], R = d.pick(RR), Q = d.pick(QQ); const int sw = d.next(2);
   const double P[14][4] = {{1, 1 + .5*eps, 1 + .6*eps, 1 + .3*eps}, {1, 1 + .7*eps, 1 + .2*eps, 1 + .5*eps}, {1, 1 + .5*eps, 1 + .2*eps, 1 + .9*eps}, {1, 1 + .02, 1 - .02, 5},
      {1, R, 1 - eps*.5, R/eps/4}, {1, R, 1 + eps*.5, R/eps/4}, {1, R, R*(1 - eps*.3), R/eps/4}, {1, R, R*(1 - eps*.3), R*(1 - eps*.5)}, {1, R, R*(1 + eps*.3), R*(1 - eps*.5)}, {1, R, R*(1 - eps*.3), R*(1 + eps*.5)}, {1, R, R*(1 + eps*.3), R*(1 + eps*.5)}, {1, R, R*(1 + eps*.3), R/eps/4},
      {1, 1 + eps*.6, eps, 1 + eps*.3}, {1, 1 + eps*.6, eps, 1 + eps*.9}};
   const double M = 1e5, *w = P[h];
   S s; s.tb(10); s.yb = s.yl = 1e-3; s.mu = -.48*M; s.MA = 1.7*M; s.q = std::pow(M*w[sw], 2); s.u = std::pow(M*w[!sw], 2); s.M3 = w[2]*M; s.h = s.d = std::pow(w[3]*M, 2); s.l = s.e = M*M; s.At = X*M + s.mu*s.vd/s.vu; s.Ab = -.9*M; s.Al = .6*M; s.Q = Q*M; s.yt = 0.8;
   const auto f = [h] (const S& x, int l) { const auto p = par(x); HierarchyCalculator hc(p, false); HierarchyObject ho(false); ho.setSuitableHierarchy(h); ho.setMDRFlag(0); Eigen::Matrix2d m;
      if (l == 1) m = hc.getMt41L(ho, 0, 0); else if (l == 2) m = hc.getMt42L(ho, 0, 0);
      else { m = hc.calculateHierarchy(ho, 0, 0, 1); HierarchyCalculator c(p, false); m -= c.calculateDMh3L(false).getDMhDRbarPrimeToH3mShift(); }
      return x.vu*x.vu*m(1,1) + x.vd*x.vu*m(0,1); };
   double e, a, b;
   try {
      e = der([&] (const S& x) { return f(x, 3); }, s, scale, 2e-3); a = der([&] (const S& x) { return f(x, 1); }, s, [] (const S& x, double h) { return rge2(x, h); }, 2e-3); b = der([&] (const S& x) { return f(x, 2); }, s, along(G), 2e-3);
   } catch (const std::exception&) { r.count("expansion.none"); return; }
   const double sum = e + a + b, sc = std::abs(e) + std::abs(a) + std::abs(b);
   const bool all = h <= 2 || h >= 12;
   r.maxi(std::string("dev.exp.") + hr::name(h), std::abs(sum)/sc);
   verdict(all ? "expansion.degenerate" : h == 3 ? "expansion.averaged" : "expansion.hierarchical", sum, sc, all ? 1e-4 : h == 3 ? 3e-2 : 1e-2, s, r);
   // and one order lower, without expansion
   const double a1 = der([&] (const S& x) { return f(x, 1); }, s, along(G), 2e-3), b2 = der([&] (const S& x) { return f(x, 2); }, s, scale, 2e-3);
   verdict("exact2", a1 + b2, std::abs(a1) + std::abs(b2), 5e-4, s, r);
}

} // namespace

int main(int argc, char** argv)
{
   vh::Check c;
   c.id = "P17";
   const bool th = vh::thorough(); const std::size_t n = npoints(th);
   const auto lat = std::string("lattice: scale x tan(beta) x masses of left/right squarks and gluino (") + (th ? "5" : "3") + " values each, all orderings) x higgsino mass x MA x mixings";
   const auto fam = [&] (const char* name, const std::string& sp, std::size_t size, void (*f)(std::size_t, bool, vh::Report&)) {
      c.families.push_back({name, sp, size, [th, f] (std::size_t i, vh::Report& r) {
         // points without a physical spectrum are outside of the statement
         try { f(i, th, r); } catch (const std::exception& e) { if (std::string(e.what()).find("tachyonic") == std::string::npos) throw; r.count("tachyonic"); } }, 60}); };
   fam("eft2", lat + "; nine two-loop orders of the effective theory", n, eft2);
   fam("eft1", lat + " x gauge couplings x gaugino masses; one-loop gauge orders of the effective theory", 9*n, eft1);
   fam("eft3", lat + " x masses of the other squarks; three-loop effective theory", (th ? 4 : 2)*n, eft3);
   fam("thr", lat + "; threshold corrections of the strong and top-Yukawa coupling", n, thr);
   fam("fo1", lat + " x gauge couplings x small/large down-type Yukawas; one-loop masses of both Higgs bosons", 8*n, fo1);
   fam("fo2", lat + "; five two-loop fixed-order contributions, two combinations", n, fo2);
   fam("exp3", "14 expansions x distance from the expansion point x mixing x mass ratio x scale x left/right", 14*(th ? 3*4 : 2)*2*2*2, exp3);
   c.rule = "distinct = size of a renormalization-group relation";
   c.assumptions = {"textbook one- and two-loop beta functions of the MSSM", "vacuum expectation values run with the Higgs anomalous dimension; the gauge part of its threshold, which the library documents as unavailable, is added for the effective theory", "derivatives by fourth-order difference quotients"};
   c.required = {"relations", "nonzero.YT6", "nonzero.3loop", "nonzero.light", "nonzero.fo.YT6", "nonzero.gauge"};
   return vh::run(argc, argv, c);
}
