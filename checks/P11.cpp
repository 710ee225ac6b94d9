// P11: every three-loop expansion reproduces the known corrections in its domain.
#include "vh.hpp"
#include "obs.hpp"
#include <fstream>
#include <cstdio>
#ifdef P11_GENERATE
#include "hier.hpp"
#endif
using namespace himalaya;
namespace {
using M2 = Eigen::Matrix2d;
const int NH = 14;
const char* name(int h)
{ static const char* n[] = {"h3","h32q2g","h3q22g","h4","h5","h5g1","h6","h6b","h6b2qg2","h6bq22g","h6bq2g2","h6g2","h9","h9q2"}; return n[h]; }
enum { DEGENERATE, LIGHT_GLUINO, AVERAGED, H5, H6, H6B };
int family(int h) { return h <= 2 ? DEGENERATE : h >= 12 ? LIGHT_GLUINO : h == 3 ? AVERAGED : h <= 5 ? H5 : h == 6 || h == 11 ? H6 : H6B; }

/// spectrum in units of the mass T
struct Spec { double m1, m2, g, q, X, mu, tb, T, Q, g3 = 1.1; int swap = 0, ab = 0; };
std::string show(const Spec& s)
{ std::ostringstream o; o << "m=" << s.m1 << "," << s.m2 << " g=" << s.g << " q=" << s.q << " X=" << s.X << " mu=" << s.mu << " tb=" << s.tb << " T=" << s.T << " Q=" << s.Q << " g3=" << s.g3 << (s.swap ? " swapped" : "") << (s.ab ? " bottom" : ""); return o.str(); }
Parameters make(const Spec& s)
{
   const double b = std::atan(s.tb), T2 = s.T*s.T;
   Parameters p;
   p.scale = s.Q*s.T; p.mu = s.mu*s.T; p.g1 = p.g2 = 1e-3; p.g3 = s.g3; p.vu = 246*std::sin(b); p.vd = 246*std::cos(b);
   const auto dg = [&s, T2] (double a) { RM33 m = RM33::Identity()*s.q*s.q*T2; m(2,2) = a*T2; return m; };
   const double a = s.swap ? s.m1*s.m1 : s.m2*s.m2, c = s.swap ? s.m2*s.m2 : s.m1*s.m1;
   p.mq2 = dg(a); p.mu2 = dg(s.ab ? 1.21*a : c); p.md2 = dg(s.ab ? c : 1.21*a); p.ml2 = dg(1); p.me2 = dg(1);
   p.Yu(2,2) = s.ab ? 0.5 : 0.8; p.Yd(2,2) = s.ab ? 0.9 : 0.1; p.Ye(2,2) = 0.05;
   p.Au(2,2) = s.ab ? 0.7*s.T : s.X*s.T + p.mu/s.tb; p.Ad(2,2) = s.ab ? s.X*s.T + p.mu*s.tb : 0.7*s.T; p.Ae(2,2) = 0.2*s.T;
   p.M1 = p.M2 = s.T; p.MG = s.g*s.T; p.MA = 1.3*s.T;
   p.validate(false);
   return p;
}
HierarchyObject object(int h, int ab, int mdr) { HierarchyObject ho(ab); ho.setSuitableHierarchy(h); ho.setMDRFlag(mdr); return ho; }
M2 expansion(const Parameters& p, int h, int ab, int mdr, int loop, double* lam = nullptr)
{
   HierarchyCalculator hc(p, false); HierarchyObject ho = object(h, ab, mdr);
   const M2 m = hc.calculateHierarchy(ho, loop == 1, loop == 2, loop == 3);
   if (lam) { lam[0] = ho.getDLambdaH3m(); lam[1] = ho.getDLambdaNonLog(); }
   return m;
}

/// spectrum at the distance eps from the point (or limit) a hierarchy is an expansion about
Spec near(int h, double eps, double X, double R, int variant)
{
   static const double V[] = {1, 0.4, 0.7, 0.1};
   const double s = V[variant];
   Spec z{1, 1, 1, 1, X, 0.6, 10, 1e5, 1.3};
   switch (h) {
   case 0:  z.m2 = 1 + .5*s*eps; z.g = 1 + .6*eps; z.q = 1 + .3*eps; break;
   case 1:  z.m2 = 1 + .7*eps; z.g = 1 + .2*s*eps; z.q = 1 + .5*s*eps; break;
   case 2:  z.m2 = 1 + .5*eps; z.g = 1 + .2*s*eps; z.q = 1 + .9*eps; break;
   case 3:  z.m2 = 1 + .4*s*eps; z.g = 1 - .5*eps; z.q = 1/eps; break;
   case 4:  z.m2 = R; z.g = 1 - .5*s*eps; z.q = R/eps; break;
   case 5:  z.m2 = R; z.g = 1 + .5*s*eps; z.q = R/eps; break;
   case 6:  z.m2 = R; z.g = R*(1 - .3*s*eps); z.q = R/eps; break;
   case 7:  z.m2 = R; z.g = R*(1 - .3*s*eps); z.q = R*(1 - .5*eps); break;
   case 8:  z.m2 = R; z.g = R*(1 + .3*s*eps); z.q = R*(1 - .5*eps); break;
   case 9:  z.m2 = R; z.g = R*(1 - .3*s*eps); z.q = R*(1 + .5*eps); break;
   case 10: z.m2 = R; z.g = R*(1 + .3*s*eps); z.q = R*(1 + .5*eps); break;
   case 11: z.m2 = R; z.g = R*(1 + .3*s*eps); z.q = R/eps; break;
   case 12: z.m2 = 1 + .6*s*eps; z.g = eps; z.q = 1 + .3*s*eps; break;
   default: z.m2 = 1 + .6*s*eps; z.g = eps; z.q = 1 + .9*eps; break;
   }
   return z;
}
const double EPS[] = {0.05, 0.1, 0.2, 0.025, 0.15}, XS[] = {0.1, 0, -0.1, 0.3, -0.3, 0.2, -0.2, 0.05, -0.4}, RS[] = {2, 3, 1.5, 1.75, 4};
int ne(bool th) { return th ? 5 : 3; }
int nx(bool th) { return th ? 9 : 3; }
int nr(bool th) { return th ? 5 : 2; }
int nv(bool th) { return th ? 4 : 2; }
int nl(bool th) { return th ? 5 : 1; }

/// elements of the matrix the expansion is meant for: the part not suppressed by mixing first
int entries(int h) { return family(h) == DEGENERATE ? 3 : family(h) == LIGHT_GLUINO ? 3 : 1; }
double element(const M2& m, int k, int ab) { const int i = ab ? 0 : 1; return k == 0 ? m(i,i) : k == 1 ? m(0,1) : m(1-i,1-i); }

#include "../data/P11_bounds.inc"

/// one and two loops against the exact result
void exact(std::size_t i, bool th, vh::Report& r)
{
   vh::Digits d(i); const int h = d.next(NH), e = d.next(ne(th)), variant = d.next(nv(th)), swap = d.next(2), ab = d.next(2);
   const double X = XS[d.next(nx(th))], R = RS[d.next(nr(th))];
   Spec s = near(h, EPS[e], X, R, variant); s.swap = swap; s.ab = ab; const int lat = d.next(nl(th)); if (lat == 3) { s.tb = 40; s.mu = 0.3; s.Q = 2; } if (lat == 4) { s.tb = 4; s.Q = 1; } if (lat == 1) { s.tb = 2; s.mu = -0.7; } if (lat == 2) { s.Q = 0.7; s.mu = 1.1; }
   if (ab) s.tb = 1/s.tb;
   const Parameters p = make(s); HierarchyCalculator hc(p, false); HierarchyObject ho = object(h, ab, 0);
   for (int loop = 1; loop <= 2; loop++) {
      const M2 x = loop == 1 ? hc.getMt41L(ho, 0, 0) : hc.getMt42L(ho, 0, 0), y = expansion(p, h, ab, 0, loop);
      r.state(vh::bits(y(0,0) + y(1,1)));
      for (int k = 0; k < entries(h); k++) {
         // elements that arise from mixing only are compared on the scale of their leading behaviour
         const double sc = std::abs(element(x, 0, ab))*(k == 0 ? 1 : std::pow(std::max(std::abs(s.X), 0.05), k));
         const std::string n = std::string(name(h)) + "." + std::to_string(loop) + "." + std::to_string(k) + "." + std::to_string(e);
         r.maxi("exact." + n, std::abs(element(x, k, ab) - element(y, k, ab))/sc);
         r.count("exact"); r.count(std::string("exact.") + name(h));
         r.check("exact", std::abs(element(x, k, ab) - element(y, k, ab)) <= bound("exact." + n)*sc, n + " " + show(s) + ": " + vh::fmt(element(y, k, ab)) + " instead of " + vh::fmt(element(x, k, ab)));
      }
   }
}

bool mdr_undefined(const HierarchyCalculator& hc, int h, int ab)
{ const HierarchyObject ho = object(h, ab, 1); return std::isnan(hc.shiftMst1ToMDR(ho, 1, 1)) || std::isnan(hc.shiftMst2ToMDR(ho, 1, 1)); }

/// both squark-mass schemes describe the same physics: 1- to 3-loop sum is the same up to four loops
void scheme(std::size_t i, bool th, vh::Report& r)
{
   vh::Digits d(i); const int h = d.next(NH), e = d.next(ne(th)), variant = d.next(nv(th)), swap = d.next(2), ab = d.next(2);
   const double X = XS[d.next(nx(th))], R = RS[d.next(nr(th))];
   Spec s = near(h, EPS[e], X, R, variant); s.swap = swap; s.ab = ab; static const double QS[] = {1.3, 0.8, 1, 2}; s.Q = QS[d.next(th ? 4 : 2)]; if (ab) s.tb = 1/s.tb;
   s.g3 = 0.15;
   const Parameters p = make(s); HierarchyCalculator hc(p, false);
   const auto total = [&] (int mdr) {
      HierarchyObject ho = object(h, ab, mdr);
      M2 m = hc.getMt41L(ho, mdr, mdr) + hc.getMt42L(ho, mdr, mdr) + hc.calculateHierarchy(ho, 0, 0, 1);
      if (mdr && h >= 6 && h <= 11) {
         // one-loop shift of the squark masses: its effect on the one-loop correction is part of the two-loop correction in this scheme
         const double shift = 16/3.*s.g3*s.g3/(16*M_PI*M_PI)*(1 + 2*std::log(p.scale/p.MG))*p.MG*p.MG;
         const double m1 = hc.shiftMst1ToMDR(ho, 1, 1), m2 = hc.shiftMst2ToMDR(ho, 1, 1), dm = 1e-4*m1*m1;
         const auto at = [&] (double x) { Parameters q = p; auto& v = ab ? q.MSb : q.MSt; v(0) = std::sqrt(m1*m1 + x); v(1) = std::sqrt(m2*m2 + x); HierarchyCalculator c(q, false); return c.getMt41L(ho, 0, 0); };
         m -= shift/(2*dm)*(at(dm) - at(-dm));
      }
      return m; };
   const double a = element(total(0), 0, ab), b = element(total(1), 0, ab), sc = std::abs(element(expansion(p, h, ab, 0, 3), 0, ab));
   if (mdr_undefined(hc, h, ab)) { r.count("undefined"); return; }
   const std::string n = std::string("scheme.") + name(h) + "." + std::to_string(e);
   r.maxi(n, std::abs(a - b)/sc); r.count("scheme"); r.state(vh::bits(b));
   r.check("scheme", std::abs(a - b) <= bound(n)*sc, std::string(name(h)) + " " + show(s) + ": " + vh::fmt(b) + " instead of " + vh::fmt(a) + " (three loops: " + vh::fmt(sc) + ")");
}

/// expansions about the same point agree where both apply
void overlap(std::size_t i, bool th, vh::Report& r)
{
   static const int G[][2] = {{0, 1}, {0, 2}, {1, 2}, {4, 5}, {6, 11}, {7, 8}, {7, 9}, {7, 10}, {8, 9}, {8, 10}, {9, 10}, {12, 13}};
   vh::Digits d(i); const int* g = G[d.next(12)]; const int e = d.next(ne(th)), mdr = d.next(2), ab = d.next(2), swap = d.next(2), v = d.next(3);
   const double X = XS[d.next(nx(th))], R = RS[d.next(th ? 4 : 2)], eps = EPS[e]*(v == 1 ? 0.6 : 1), w = v == 2 ? -0.6 : 0.6;
   Spec s{1, 1, 1, 1, X, 0.6, 10, 1e5, 1.3}; s.ab = ab; s.swap = swap; if (ab) s.tb = 0.1;
   switch (family(g[0])) {
   case DEGENERATE:   s.m2 = 1 + .5*eps; s.g = 1 + w*eps; s.q = 1 + .4*eps; break;
   case H5:           s.m2 = R; s.g = 1 + w*eps; s.q = 3*R; break;
   case H6:           s.m2 = R; s.g = R*(1 + w*eps); s.q = 4*R; break;
   case H6B:          s.m2 = R; s.g = R*(1 - w*eps); s.q = R*(1 + .7*eps); break;
   default:           s.m2 = 1 + .5*eps; s.g = .5*eps; s.q = 1 + w*eps; break;
   }
   const Parameters p = make(s);
   const M2 a = expansion(p, g[0], ab, mdr, 3), b = expansion(p, g[1], ab, mdr, 3);
   if (a.hasNaN() && b.hasNaN()) { r.count("undefined"); return; }   // imaginary squark masses in the other scheme
   r.state(vh::bits(b(1,1)));
   for (int k = 0; k < 3; k++) {
      const double sc = std::abs(element(a, 0, ab))*(k == 0 ? 1 : std::pow(std::max(std::abs(s.X), 0.05), k));
      const std::string n = std::string("overlap.") + std::to_string(family(g[0])) + "." + std::to_string(k) + "." + std::to_string(e);
      r.maxi(n, std::abs(element(a, k, ab) - element(b, k, ab))/sc); r.count("overlap");
      r.check("overlap", std::abs(element(a, k, ab) - element(b, k, ab)) <= bound(n)*sc, std::string(name(g[0])) + "/" + name(g[1]) + (mdr ? " MDR " : " ") + show(s) + ": " + vh::fmt(element(a, k, ab)) + " vs " + vh::fmt(element(b, k, ab)));
   }
}

// ---- frozen reference values
const Spec REF[] = {
   {1, 1.4, 1.2, 1.7, 0.9, 0.6, 10, 1000, 1.3}, {1, 1.25, 0.8, 1.6, -1.2, -0.7, 3, 1200, 0.8}, {1, 2.1, 1.7, 2.9, 1.5, 1.3, 25, 800, 1.9, 1.3, 1},
   {1, 1.15, 1.05, 1.2, 0.4, -0.3, 1.5, 2500, 1.0}, {1, 3.2, 3.4, 3.3, -0.5, 0.9, 7, 1500, 2.2, 0.95}, {1, 1.5, 1.1, 6, 0.7, 0.45, 40, 900, 1.1, 1.1, 1},
   {1, 1.3, 0.3, 1.4, 1.1, -0.8, 12, 1800, 1.4}, {1, 1.8, 1.6, 1.75, -0.9, 0.65, 5, 5000, 0.6, 1.05, 1}, {1, 1.07, 0.95, 1.03, 2.0, 1.5, 15, 700, 1.0, 1.2},
   {1, 2.6, 0.9, 4.1, 0.1, 0.2, 20, 20000, 1.7, 0.9}};
const int NREF = sizeof(REF)/sizeof(REF[0]), NVAL = 11;
/// (alternative) values at one point: three loops x three elements, two contributions to lambda
void values(int h, int ref, int ab, int mdr, double* v)
{
   Spec s = REF[ref]; s.ab = ab; if (ab) s.tb = 1/s.tb;
   const Parameters p = make(s);
   for (int l = 0; l < 3; l++) { const M2 m = expansion(p, h, ab, mdr, l + 1, l == 2 ? v + 9 : nullptr); v[3*l] = m(0,0); v[3*l + 1] = m(1,1); v[3*l + 2] = m(0,1); }
}
struct Table {
   std::vector<double> v;
   Table()
   {
      const char* d = std::getenv("VERIF_DIR"); std::ifstream f(std::string(d ? d : ".") + "/data/P11_reference.txt"); double x; while (f >> x) v.push_back(x);
      if (v.size() != std::size_t(NH)*NREF*4*2*NVAL) { std::fprintf(stderr, "P11_reference.txt: %zu values\n", v.size()); std::exit(2); }
   }
};
void frozen(std::size_t i, vh::Report& r)
{
   static const Table t;
   vh::Digits d(i); const int mdr = d.next(2), ab = d.next(2), ref = d.next(NREF), h = d.next(NH);
   const double* want = &t.v[(((std::size_t(h)*NREF + ref)*2 + ab)*2 + mdr)*2*NVAL], *alt = want + NVAL;   // alternative: see known finding
   double v[NVAL]; values(h, ref, ab, mdr, v);
   for (int k = 0; k < NVAL; k++) {
      double sc = 0; for (int j = k < 9 ? k/3*3 : 9; j < (k < 9 ? k/3*3 + 3 : 11); j++) sc = std::max(sc, std::abs(want[j]));
      const double dev = std::abs(v[k] - want[k])/sc;
      const bool known = dev > 1e-7 && std::abs(v[k] - alt[k]) <= 1e-7*sc;
      r.count("frozen"); if (!known) r.maxi("frozen", dev);
      const std::string what = std::string(name(h)) + (ab ? " bottom" : " top") + (mdr ? " MDR" : " DR") + " element " + std::to_string(k) + " " + show(REF[ref]) + ": " + vh::fmt(v[k]) + " instead of " + vh::fmt(want[k]);
      if (known) { r.count("explained"); r.fail("Dmsqst2", what); } else r.check("frozen", dev <= 1e-7, what);
   }
   r.state(vh::bits(v[6]));
}

#ifdef P11_GENERATE
void generate()
{
   for (int h = 0; h < NH; h++) for (int ref = 0; ref < NREF; ref++) for (int ab = 0; ab < 2; ab++) for (int mdr = 0; mdr < 2; mdr++) {
      double v[NVAL], w[NVAL]; values(h, ref, ab, mdr, v); std::copy(v, v + NVAL, w);
      if (h >= 7 && h <= 10) {   // with the argument the expansions are derived for
         Spec s = REF[ref]; s.ab = ab; if (ab) s.tb = 1/s.tb;
         const Parameters p = make(s); HierarchyCalculator hc(p, false); HierarchyObject ho = object(h, ab, mdr);
         for (int l = 1; l <= 3; l++) {
            auto in = hr::input(p, ab, hc.shiftMst1ToMDR(ho, l > 1 && mdr, l > 2 && mdr), hc.shiftMst2ToMDR(ho, l > 1 && mdr, l > 2 && mdr), mdr);
            auto a = hr::args(in);
            auto chk = hr::eval(h, hr::full(), in, a, l == 1, l == 2, l == 3);
            if (ab) std::swap(chk.s1, chk.s2);
            const double pre = 3/(2*M_PI*M_PI*in.vu*in.vu);
            if (std::abs(chk.s1*pre - v[3*l - 3]) > 1e-9*std::abs(v[3*l - 3]) || std::abs(chk.s2*pre - v[3*l - 2]) > 1e-9*std::abs(v[3*l - 2])) std::fprintf(stderr, "mismatch h%d ref%d l%d: %g %g\n", h, ref, l, chk.s2*pre, v[3*l-2]);
            a.Dsq2 = in.q*in.q - in.m2*in.m2;
            auto o = hr::eval(h, hr::full(), in, a, l == 1, l == 2, l == 3);
            if (ab) std::swap(o.s1, o.s2);
            w[3*l - 3] = o.s1*pre; w[3*l - 2] = o.s2*pre; w[3*l - 1] = o.s12*pre;
            if (l == 3) { w[9] = o.c[0] + a.l1*(o.c[1] + a.l1*(o.c[2] + a.l1*o.c[3])); w[10] = o.c[0]; }
         }
      }
      for (double x : w) std::printf("%.10e ", x);
      for (double x : v) std::printf("%.10e ", x);
      std::printf("\n");
   }
}
#endif
} // namespace

int main(int argc, char** argv)
{
#ifdef P11_GENERATE
   generate(); return 0;
#endif
   const bool th = vh::thorough();
   vh::Check c;
   c.id = "P11";
   c.rule = "distinct = expanded correction";
   const std::string lat = "14 expansions x " + std::to_string(ne(th)) + " distances from the expansion point x " + std::to_string(nv(th)) + " directions x left/right x top/bottom x mixings x mass ratios";
   c.families = {
      {"exact", lat + " (x tan(beta), mu, scale in the thorough tier), one and two loops", std::size_t(NH)*ne(th)*nv(th)*2*2*nx(th)*nr(th)*nl(th), [th] (std::size_t i, vh::Report& r) { exact(i, th, r); }},
      {"scheme", lat + " x scale, sum of one to three loops in both squark-mass schemes", std::size_t(NH)*ne(th)*nv(th)*2*2*nx(th)*nr(th)*(th ? 4 : 2), [th] (std::size_t i, vh::Report& r) { scheme(i, th, r); }},
      {"overlap", "12 pairs of expansions about the same point x 3 distances x 2 schemes x top/bottom x left/right x 3 directions x mixings x mass ratios, three loops", std::size_t(12)*ne(th)*2*2*2*3*nx(th)*(th ? 4 : 2), [th] (std::size_t i, vh::Report& r) { overlap(i, th, r); }},
      {"frozen", "14 expansions x 10 spectra x top/bottom x 2 squark-mass schemes, reference values of all three loop orders and of lambda", std::size_t(NH)*NREF*4, frozen},
   };
   c.required = {"exact", "scheme", "overlap", "frozen"};
   for (int h = 0; h < NH; h++) c.required.push_back(std::string("exact.") + name(h));
   c.assumptions = {"accuracy of the expansions at given distance from their expansion point as tabulated in data/P11_bounds.inc (1.5 times the largest error found)", "reference values frozen from the library"};
   return vh::run(argc, argv, c);
}
