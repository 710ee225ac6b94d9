// P09: special functions are accurate on every branch and at every boundary.
// Every point of a product grid (switching points of all formulas from both sides,
// removable singularities, regular values, all signs) is compared with a 128-bit
// evaluation of the defining formula; removable singularities are resolved by the
// mean-value property of analytic functions instead of any expansion.
#include "vh.hpp"
#include "quad.hpp"
#include "himalaya/mh2_eft/ThresholdLoopFunctions.hpp"
#include "himalaya/misc/Li2.hpp"
#include "himalaya/mh2l/Li2f.hpp"
#include "himalaya/mh2_fo/PV.hpp"
#include <algorithm>
#include <fstream>
namespace T = himalaya::mh2_eft::threshold_loop_functions;
namespace PV = himalaya::mh2_fo;
namespace {
using qd::C; using qd::Q;

// ---- accuracy profile: largest deviation per function and region that the formulas are documented/observed to have
std::map<std::string, double> load()
{
   std::map<std::string, double> m; std::ifstream f(std::string(std::getenv("VERIF_DIR") ? std::getenv("VERIF_DIR") : ".") + "/data/P09_accuracy.txt");
   std::string k; double v; while (f >> k >> v) m[k] = v; return m;
}
const std::map<std::string, double>& profile() { static const auto m = load(); return m; }
const double FLOOR = 1e-13;        // rounding
double profile_tol(const std::string& k) { const auto it = profile().find(k); return it == profile().end() ? 0 : it->second; }
bool calibrate() { static const bool c = std::getenv("P09_CALIBRATE"); return c; }     // prints the profile (maxima) instead of judging
void judge(const std::string& key, double c, double r, double scale, const std::string& where, vh::Report& rep)
{
   const double e = std::abs(c - r)/scale;
   rep.maxi(key, e); if (!(e == e)) rep.maxi(key, 1e300);
   const auto it = profile().find(key);
   const double tol = std::max(it == profile().end() ? 0 : 3*it->second, FLOOR);   // 15 x measured: roundings may be arranged differently
   static const char* show = std::getenv("P09_SHOW"); if (show) { if (key == show) rep.close(key, c, r, scale*std::atof(std::getenv("P09_TOL")), where); return; }
   if (!calibrate() || !(e == e)) rep.close(key, c, r, tol*scale, where);
   rep.count("evaluations"); rep.count("branch " + key); rep.state(vh::mix(vh::bits(c), std::hash<std::string>()(key)));
}

// ---- threshold loop functions -----------------------------------------------------
C p2(C x) { return x*x; } C p3(C x) { return x*x*x; }
C L2(C x) { return C(2)*qd::log(x.re < 0 ? -x : x); }           // log x^2, analytic in each half plane
struct Fn { std::string n; std::function<double(double, double)> c; std::function<C(C, C)> f; int nv; bool neg; };
std::vector<Fn> functions()
{
   const C one(1); std::vector<Fn> fs;
#define ONE(n, neg, expr) fs.push_back({#n, [] (double x, double) { return T::n(x); }, [=] (C x, C) -> C { C x2 = x*x, l = L2(x), d = x2 - one; (void) d; return expr; }, 1, neg});
   ONE(F1, false, x*l/d)
   ONE(F2, false, C(6)*x2*(C(2) - C(2)*x2 + (one + x2)*l)/p3(d))
   ONE(F3, false, C(2)*x*(C(5)*(one - x2) + (one + C(4)*x2)*l)/(C(3)*d*d))
   ONE(F4, false, C(2)*x*(x2 - one - l)/(d*d))
   ONE(F5, true, C(3)*x*(one - x2*x2 + C(2)*x2*l)/p3(one - x2))
   ONE(F6, true, (x2 - C(3))/(C(4)*(one - x2)) + x2*(x2 - C(2))/(C(2)*d*d)*l)
   ONE(F7, true, C(-3)*(x2*x2 - C(6)*x2 + one)/(C(2)*d*d) + C(3)*x2*x2*(x2 - C(3))/p3(d)*l)
   ONE(f, true, C(3)*x*(one - x2*x2 + C(2)*x2*l)/p3(one - x2))
   ONE(g, true, C(-3)*(x2*x2 - C(6)*x2 + one)/(C(2)*d*d) + C(3)*x2*x2*(x2 - C(3))/p3(d)*l)
   ONE(f1, true, C(6)*(x2 + C(3))*x2/(C(7)*d*d) + C(6)*(x2 - C(5))*x2*x2*l/(C(7)*p3(d)))
   ONE(f2, true, C(2)*(x2 + C(11))*x2/(C(9)*d*d) + C(2)*(C(5)*x2 - C(17))*x2*x2*l/(C(9)*p3(d)))
   ONE(f3, true, C(2)*(x2*x2 + C(9)*x2 + C(2))/(C(3)*d*d) + C(2)*(x2*x2 - C(7)*x2 - C(6))*x2*l/(C(3)*p3(d)))
   ONE(f4, true, C(2)*(C(5)*x2*x2 + C(25)*x2 + C(6))/(C(7)*d*d) + C(2)*(x2*x2 - C(19)*x2 - C(18))*x2*l/(C(7)*p3(d)))
#define TWO(n, expr) fs.push_back({#n, [] (double x, double y) { return T::n(x, y); }, [=] (C x, C y) -> C { C x2 = x*x, y2 = y*y, lx = L2(x), ly = L2(y); return expr; }, 2, true});
   TWO(F8, C(-2) + C(2)/(x2 - y2)*(x2*x2/(x2 - one)*lx - y2*y2/(y2 - one)*ly))
   TWO(F9, C(2)/(x2 - y2)*(x2/(x2 - one)*lx - y2/(y2 - one)*ly))
   TWO(f5, C(Q(0.75))*((one + p2(x + y) - x2*y2)/((x2 - one)*(y2 - one)) + x*x2*(x2 + one)*lx/(p2(x2 - one)*(x - y)) - y*y2*(y2 + one)*ly/(p2(y2 - one)*(x - y))))
   TWO(f6, C(6)/C(7)*((x2 + y2 + x*y - x2*y2)/((x2 - one)*(y2 - one)) + x2*x2*x*lx/(p2(x2 - one)*(x - y)) - y2*y2*y*ly/(p2(y2 - one)*(x - y))))
   TWO(f7, C(6)*((one + x*y)/((x2 - one)*(y2 - one)) + x*x2*lx/(p2(x2 - one)*(x - y)) - y*y2*ly/(p2(y2 - one)*(x - y))))
   TWO(f8, C(Q(1.5))*((x + y)/((x2 - one)*(y2 - one)) + x2*x2*lx/(p2(x2 - one)*(x - y)) - y2*y2*ly/(p2(y2 - one)*(x - y))))
   return fs;
}
const std::vector<Fn> FS = functions();
std::vector<double> grid()
{
   std::vector<double> v = {0, 1e-10, 1e-7, 1e-6, 0.02, 0.1, 0.5, 0.75, 1.5, 3, 20, 100};
   for (double s : {1e-5, 5e-5, 1e-4, 1e-2}) for (double f : {0.5, 1 - 1e-9, 1., 1 + 1e-9}) v.push_back(s*f);
   for (double d : {0., 1e-15, 1e-9, 1e-6, 1e-5, 1e-4, 0.999e-3, 1.001e-3, 0.00499, 0.00501, 0.00999, 0.01001, 0.01999, 0.02001, 0.05}) { v.push_back(1 + d); if (d) v.push_back(1 - d); }
   if (vh::thorough()) {
      for (double s : {1e-14, 1e-9, 3e-8, 1e-3, 5e-3, 0.05, 0.2, 0.3, 0.9, 0.95, 1.1, 1.2, 2., 5., 10., 50.}) v.push_back(s);
      for (double d : {1e-12, 1e-7, 3e-5, 3e-4, 0.002, 0.004, 0.007, 0.012, 0.015, 0.03}) { v.push_back(1 + d); v.push_back(1 - d); }
   }
   return v;
}
const std::vector<double>& G() { static const auto v = grid(); return v; }
const std::vector<double> REL = {1e-14, 1e-9, 1e-7, 0.999e-5, 1.001e-5, 0.999e-4, 1.001e-4, 1e-3};
std::string region(double x)
{
   const double a = std::abs(x), d = std::abs(a - 1);
   return std::string(x < 0 ? "-" : "+") + (d < 0.0105 ? "1" : d < 0.0205 ? "n" : a < 0.0105 ? "0" : "g");
}
Q reference(const Fn& f, double x, double y)
{
   // the functions are continuous at 0: replace a vanishing argument by one that is zero for all purposes
   Q X = x == 0 ? 1e-400Q : Q(x), Y = f.nv == 1 ? Q(1) : y == 0 ? 1.3e-400Q : Q(y);
   if (f.nv == 2 && (x == 0) != (y == 0)) { /* distinct magnitudes */ }
   const Q a = X, b = f.nv == 2 ? Y*0.6Q : Q(0);
   std::vector<C> roots;
   for (int s : {-1, 1}) { roots.push_back(C((s - X)/a)); if (f.nv == 2) { roots.push_back(C((s - Y)/b)); if (a != s*b) roots.push_back(C((s*Y - X)/(a - s*b))); } }
   return qd::mean(f.f, X, Y, a, b, roots, 1, 64);
}
void threshold(const Fn& f, double x, double y, vh::Report& r)
{
   std::string key = f.n + "/" + region(x);
   if (f.nv == 2) { key += region(y); if (x != y && std::abs(x - y) < 2e-4) key += "~"; if (x == y) key += "="; }
   if (f.n == "F9" && x == 0 && y == 0) return;      // logarithmically divergent
   const double ref = reference(f, x, y);
   std::ostringstream o; o.precision(17); o << f.n << "(" << x; if (f.nv == 2) o << ", " << y; o << ")";
   judge(key, f.c(x, y), ref, std::abs(ref) + 1e-3, o.str(), r);
   if (f.nv == 2) {
      const double c = f.c(x, y), d = f.c(y, x);
      if (!calibrate()) r.close("symmetry " + f.n, c, d, (3e-13 + 2*profile_tol(key))*(std::abs(ref) + 1e-3), o.str());
   }
}

// ---- dilogarithms, Clausen function ------------------------------------------------
std::vector<double> around(std::initializer_list<double> c, std::initializer_list<double> extra)
{
   std::vector<double> v(extra);
   for (double s : c) {
      v.push_back(s);
      for (double d : {2.3e-16, 1e-14, 1e-11, 1e-8, 1e-5, 1e-3, 1e-2}) for (int g : {-1, 1}) v.push_back(s == 0 ? g*d : s*(1 + g*d));
      v.push_back(std::nextafter(s, 1e300)); v.push_back(std::nextafter(s, -1e300));
   }
   std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
   return v;
}
std::vector<double> li2real()
{
   std::vector<double> v = around({-1, 0, 0.5, 1, 2}, {1e-300, -1e-300, 1e-30, -1e-30, 1e10, -1e10, 1e100, -1e100, 1e300, -1e300});
   const int n = vh::thorough() ? 4000 : 500;
   for (int i = 0; i < n; i++) { const double t = -6 + 12.*i/n; v.push_back(t); v.push_back(std::pow(10., t)); v.push_back(-std::pow(10., t)); }
   return v;
}
const std::vector<double>& LR() { static const auto v = li2real(); return v; }
std::string lr(double x) { return x < -1 ? "a" : x < 0 ? "b" : x < 0.5 ? "c" : x < 1 ? "d" : x < 2 ? "e" : "f"; }
void li2r(double x, vh::Report& r)
{
   const double ref = qd::li2(C(Q(x))).re, sc = std::abs(ref) + (std::abs(x) > 0.5 ? 0.5 : 0);
   const std::string w = "x = " + vh::fmt(x);
   judge("dilog/" + lr(x), himalaya::dilog(x), ref, std::max(sc, 1e-300), w, r);
   // the Fortran wrapper passes complex numbers
   judge("li2f/" + lr(x), himalaya::li2(x), ref, std::max(sc, 1e-300), w, r);
   // continuation to x > 1 with the library's sign of the imaginary part
   const std::complex<double> z(x, 0.), a = himalaya::dilog(z), b = himalaya::li2(z);
   const double im = x > 1 ? -M_PI*std::log(x) : 0;
   judge("cdilog/real" + lr(x), a.real(), ref, std::max(sc, 1e-300), w, r); judge("cdilog/real-im", a.imag(), im, 1 + std::abs(im), w, r);
   judge("cli2f/real" + lr(x), b.real(), ref, std::max(sc, 1e-300), w, r); judge("cli2f/real-im", b.imag(), im, 1 + std::abs(im), w, r);
}
/// complex plane: every region boundary (|z| = 1, |z|^2 = 2 Re z, Re z = 1/2, |z| = eps) from both sides
std::vector<std::complex<double>> plane()
{
   std::vector<std::complex<double>> v; const int na = vh::thorough() ? 240 : 72;
   std::vector<double> rad = around({1}, {1e-30, 1e-10, 1.4e-8, 1.5e-8, 1.6e-8, 1e-6, 1e-3, 0.1, 0.3, 0.5, 0.7, 0.9, 1.2, 1.5, 1.9, 2.1, 3, 10, 1e3, 1e8, 1e150});
   for (int k = 0; k < na; k++) {
      const double ph = 2*M_PI*(k + 0.37)/na - M_PI;
      for (double q : rad) v.push_back(std::polar(q, ph));
      for (double d : {-1e-3, -1e-9, -1e-15, 0., 1e-15, 1e-9, 1e-3}) {
         v.push_back(std::complex<double>(1 + std::cos(ph)*(1 + d), std::sin(ph)*(1 + d)));      // |z-1| = 1
         v.push_back(std::complex<double>(0.5 + d, 2*std::tan(ph/2.02)));                           // Re z = 1/2
         v.push_back(std::complex<double>(1 + std::cos(ph)*1e-8*(1 + d), 1e-8*std::sin(ph)));       // around the branch point
      }
      for (double e : {1e-300, 1e-20, 1e-14, 1e-9, 1e-5}) for (int s : {-1, 1}) v.push_back(std::complex<double>(4*std::tan(ph/2.01), s*e));  // near the real axis
   }
   return v;
}
const std::vector<std::complex<double>>& PL() { static const auto v = plane(); return v; }
void li2c(std::complex<double> z, vh::Report& r)
{
   if (z.imag() == 0) return;
   const C ref = qd::li2(C(Q(z.real()), Q(z.imag())));
   const double n = std::norm(z); const std::string k = n < 2.22e-16 ? "eps" : z.real() <= 0.5 ? (n > 1 ? "left-out" : "left-in") : (n <= 2*z.real() ? "disk" : "right-out");
   const double re = ref.re, im = ref.im, sc = std::hypot(re, im);
   const std::string w = "z = " + vh::fmt(z.real()) + " + i " + vh::fmt(z.imag());
   const auto a = himalaya::dilog(z), b = himalaya::li2(z);
   judge("cdilog/" + k, std::hypot(a.real() - re, a.imag() - im), 0, sc + 1e-300, w, r);
   judge("cli2f/" + k, std::hypot(b.real() - re, b.imag() - im), 0, sc + 1, w, r);
   const auto c = himalaya::dilog(std::conj(z)), d = himalaya::li2(std::conj(z));
   r.close("conjugation dilog", std::abs(c - std::conj(a)), 0, 1e-13*(sc + 1e-300), w); r.close("conjugation li2", std::abs(d - std::conj(b)), 0, 1e-13*(sc + 1e-300), w);
}
std::vector<double> angles()
{
   std::vector<double> v = around({0, M_PI/2, M_PI, 3*M_PI/2, 2*M_PI, 4*M_PI, -M_PI/2, -M_PI, -2*M_PI}, {1e-300, 1e-20, -1e-20, 20, 100, -100, 1000});
   const int n = vh::thorough() ? 20000 : 2000; for (int i = 0; i <= n; i++) v.push_back(-4*M_PI + 8*M_PI*i/n);
   return v;
}
const std::vector<double>& AN() { static const auto v = angles(); return v; }
void clausen(double x, vh::Report& r)
{
   Q q = fmodq(Q(x), 2*qd::PI()); const double ref = qd::li2(C(cosq(q), sinq(q))).im;
   const double a = std::abs(std::remainder(x, 2*M_PI));
   // conditioning: derivative -log(2 sin(x/2)), argument known to eps |x|
   const double sc = std::abs(ref) + std::abs(x)*(1 + std::abs(std::log(a + 1e-300)))*(std::abs(x) > 3 ? 1 : 0);
   judge(std::string("clausen/") + (a < M_PI/2 ? "low" : "high") + (std::abs(x) > 3 ? "-wrapped" : ""), himalaya::clausen_2(x), ref, std::max(sc, 1e-300), "x = " + vh::fmt(x), r);
   r.check("clausen odd", himalaya::clausen_2(-x) == -himalaya::clausen_2(x), vh::fmt(x));
}

// ---- one-loop functions --------------------------------------------------------------
Q B0ref(Q p, Q m1, Q m2, Q q2)
{
   if (m1 > m2) { const Q t = m1; m1 = m2; m2 = t; }
   const bool eq = m1 == m2;
   if (p == 0) return eq ? -logq(m1/q2) : m1 == 0 ? 1 - logq(m2/q2) : 1 - logq(m2/q2) + m1*logq(m2/m1)/(m1 - m2);
   if (m2 == 0) return 2 - logq(p/q2);
   if (m1 == 0 && p < 1e-14Q*m2) return 1 - logq(m2/q2) + p/(2*m2);
   if (m1 == 0) return 2 - logq(m2/q2) + (p == m2 ? Q(0) : (m2 - p)/p*logq(fabsq(m2 - p)/m2));
   if (p < 1e-14Q*m2) {   // B0(0) + p^2 B0'(0)
      const Q d = m2 - m1; Q d1;
      if (d < 1e-6Q*m1) d1 = 1/(6*m1) - d/(12*m1*m1) + d*d/(20*m1*m1*m1) - d*d*d/(30*m1*m1*m1*m1);
      else d1 = (m2*m2 - m1*m1 - 2*m1*m2*logq(m2/m1))/(2*d*d*d);
      const Q z = eq ? -logq(m1/q2) : d < 1e-6Q*m1 ? -logq(m1/q2) - d/(2*m1) + d*d/(6*m1*m1) - d*d*d/(12*m1*m1*m1) : 1 - logq(m2/q2) + m1*logq(m2/m1)/(m1 - m2);
      return z + p*d1;
   }
   const Q mm = sqrtq(m1)*sqrtq(m2), c = (m1 + m2 - p)/mm;
   Q t = 0;
   if (fabsq(c) < 2) { const Q ph = acosq(c/2); t = -(mm/p)*2*ph*sinq(ph); }
   else { const Q s = sqrtq(c*c - 4); const Q r = c > 0 ? (c + s)/2 : -(-c + s)/2; t = (mm/p)*(1/r - r)*logq(fabsq(r)); t = -t; }
   return 2 - logq(mm/q2) + (eq ? Q(0) : (m1 - m2)/p*logq(m2/m1)/2) + t;
}
std::vector<double> ratios()
{
   std::vector<double> v = {0, 1e-40, 1e-32, 1e-29, 1e-20, 1e-16, 2e-15, 1e-12, 0.9e-11, 1.1e-11, 1e-8, 1e-5, 0.99e-3, 1.01e-3, 0.05, 0.3, 0.999, 1 - 1e-6, 1 - 1e-10, 1 - 1e-13, 1 - 2e-15, 1, 1 + 2e-15, 1 + 1e-10, 1 + 1e-6, 1.001, 1.04, 1.0499, 1.0501, 1.052, 1.2, 2, 3.9, 4*(1 - 1e-10), 4, 4*(1 + 1e-10), 4.1, 9, 60, 99.9, 100.1, 500, 0.99e3, 1.01e3, 1e5, 1e8, 0.9e11, 1.1e11, 1e14, 1.1e15};
   if (vh::thorough()) for (double s : {1e-36, 1e-24, 1e-18, 1e-14, 1e-10, 1e-9, 1e-7, 1e-6, 1e-4, 0.01, 0.1, 0.2, 0.5, 0.7, 0.9, 0.97, 1.01, 1.03, 1.1, 1.5, 2.5, 3., 3.5, 5., 7., 16., 20., 30., 200., 2e3, 1e4, 1e6, 1e7, 1e10, 1e12}) v.push_back(s);
   return v;
}
const std::vector<double>& RT() { static const auto v = ratios(); return v; }
void b0(double p, double m2, double q2, double u, vh::Report& r)     // masses u and m2*u, momentum p*u
{
   const double m1 = 1;
   if (p == 0 && m2 == 0) {}
   const double ref = B0ref(Q(p)*u, Q(m1)*u, Q(m2)*u, Q(q2)*u);
   const std::string w = "p2 = " + vh::fmt(p*u) + ", m1 = " + vh::fmt(m1*u) + ", m2 = " + vh::fmt(m2*u) + ", q2 = " + vh::fmt(q2*u);
   const double hi = std::max(m2, 1.), lo = std::min(m2, 1.);
   std::string k = p <= 1e-11*lo ? "zero" : lo < 1e-30*hi ? "massless" : p < std::pow(std::sqrt(hi) - std::sqrt(lo), 2) ? "below" : p < std::pow(std::sqrt(hi) + std::sqrt(lo), 2) ? "between" : "above";
   const double thr = std::pow(std::sqrt(hi) + std::sqrt(lo), 2), pth = std::pow(std::sqrt(hi) - std::sqrt(lo), 2);
   if (lo > 0 && p > 1e-11*lo && (std::abs(p - thr) < 1e-4*thr || std::abs(p - pth) < 1e-4*pth)) k = "threshold";
   if (lo > hi*(1 - 1e-5)) k += lo == hi ? "=" : "~";
   if (p < 1e-5*lo) k += "p";
   judge("b0/" + k, PV::b0(p*u, m1*u, m2*u, q2*u), ref, std::abs(ref) + 1, w, r);
   judge("b0/" + k, PV::b0(p*u, m2*u, m1*u, q2*u), ref, std::abs(ref) + 1, w + " exchanged", r);
   if (m2 == 1) judge("b0xx/" + k, PV::b0xx(p*u, u, q2*u), ref, std::abs(ref) + 1, w, r);
   if (p == 1 && q2 > 0) {
      const Q a = m2 == 0 ? Q(0) : Q(m2)*u*(1 - logq(Q(m2)/q2));
      if (m2 == 0 || m2*u > 2e-15) judge("a0", PV::a0(m2*u, q2*u), a, (m2 + std::abs(double(a/u)))*u + 1e-300, w, r);
   }
   if (p == 0) {
      Q d1; const Q d = Q(m2) - 1;
      if (m2 == 1) d1 = 1/Q(6); else if (fabsq(d) < 1e-5Q) d1 = Q(1)/6 - d/12 + d*d/20 - d*d*d/30;
      else d1 = (Q(m2)*m2 - 1 - (m2 == 0 ? Q(0) : 2*Q(m2)*logq(Q(m2))))/(2*d*d*d);
      const double D = std::abs(m2 - 1); const std::string kk = m2 == 0 ? "0" : D < 0.05 ? "eq" : D < 0.06 ? "sw" : m2 < 1e-13 || m2 > 1e13 ? "inf" : "g";
      judge("d1_b0/" + kk, PV::d1_b0(u, m2*u)*u, d1, std::abs(double(d1)) , w, r);
      judge("d1_b0/" + kk, PV::d1_b0(m2*u, u)*u, d1, std::abs(double(d1)) , w, r);
   }
}

// ---- two-loop vacuum function ------------------------------------------------------------
Q phiref(Q x, Q y, Q z)
{
   if (x > z) { const Q t = x; x = z; z = t; } if (y > z) { const Q t = y; y = z; z = t; }
   const Q u = x/z, v = y/z, l2 = (1 - u - v)*(1 - u - v) - 4*u*v;
   if (l2 == 0) return 0;
   const C l = qd::sqrt(C(l2)), a = C(2)*C(u)/(C(1) + C(u) - C(v) + l), b = C(2)*C(v)/(C(1) - C(u) + C(v) + l);
   const C s = C(2)*qd::log(a)*qd::log(b) - C(logq(u)*logq(v)) - C(2)*(qd::li2(a) + qd::li2(b)) + C(qd::PI()*qd::PI()/3);
   return (C(l2)*s/l).re*z/2;
}
std::vector<double> masses()
{
   std::vector<double> v = {1e-12, 1e-6, 1e-4, 2.1e-4, 2.3e-4, 1e-2, 0.1, 0.25*(1 - 1e-9), 0.25, 0.25*(1 + 1e-9), 0.5, 0.9, 1 - 1e-6, 1 - 1e-10, 1 - 1e-14, 1, 1 + 1e-14, 1 + 1e-10, 1 + 1e-6, 1.3, 2.25, 3.9, 4*(1 - 1e-10), 4, 4*(1 + 1e-10), 4.2, 9, 30, 4e3, 4.4e3, 1e5, 1e10};
   if (vh::thorough()) for (double s : {1e-10, 1e-8, 1e-5, 1e-3, 0.03, 0.2, 0.3, 0.4, 0.6, 0.7, 0.8, 0.95, 0.99, 1.01, 1.1, 1.7, 2., 3., 5., 6., 16., 100., 1e3, 1e7}) v.push_back(s);
   return v;
}
const std::vector<double>& MS() { static const auto v = masses(); return v; }
void phi(double x, double y, double u, vh::Report& r)
{
   const double a = x*u, b = y*u, c = u;
   const double ref = phiref(a, b, c), z = std::max(std::max(a, b), c);
   const double del = (double) (((Q(a)*a + Q(b)*b + Q(c)*c - 2*(Q(a)*b + Q(a)*c + Q(b)*c)))/(Q(z)*z));
   const double m[3] = {a, b, c}; const int P[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
   const std::string w = "(" + vh::fmt(a) + ", " + vh::fmt(b) + ", " + vh::fmt(c) + ")";
   double lo = std::min(std::min(a, b), c)/z, mi = (a + b + c)/z - 1 - lo;
   std::string k = std::abs(del) < 1e-3 ? "edge" : del > 0 ? "pos" : "neg"; if (lo < 2.25e-4) k += mi < 2.25e-4 ? "00" : "0"; if (mi > 1 - 1e-5) k += "1"; if (std::abs(mi - lo) < 1e-5*mi) k += "=";
   for (auto& p : P) {
      judge("phi/" + k, T::phi_xyz(m[p[0]], m[p[1]], m[p[2]]), ref, std::abs(ref) + 1e-3*z, w, r);
      const Q d = Q(a)*a + Q(b)*b + Q(c)*c - 2*(Q(a)*b + Q(a)*c + Q(b)*c);
      judge("delta", T::delta_xyz(m[p[0]], m[p[1]], m[p[2]]), d, z*z, w, r);
   }
}
} // namespace

int main(int argc, char** argv)
{
   vh::Check c; c.id = "P09"; c.level = "exploration"; c.rule = "value of the function and formula region";
   const auto fam = [&] (const std::string& n, const std::string& sp, std::size_t sz, std::function<void(std::size_t, vh::Report&)> f) { vh::Family x; x.name = n; x.space = sp; x.size = sz; x.run = f; c.families.push_back(x); };
   for (const Fn& f : FS) {
      const Fn* p = &f; const std::size_t n = G().size();
      if (f.nv == 1) fam(f.n, "grid and both sides of every switching point, both signs", n*(f.neg ? 2 : 1), [=] (std::size_t i, vh::Report& r) { vh::Digits d(i); const double x = d.pick(G()); threshold(*p, d.i ? -x : x, 0, r); });
      else {
         fam(f.n, "all pairs of grid values and switching points, all signs", n*n*4, [=] (std::size_t i, vh::Report& r) { vh::Digits d(i); const double x = d.pick(G()), y = d.pick(G()); const int s = d.next(4); threshold(*p, s & 1 ? -x : x, s & 2 ? -y : y, r); });
         fam(f.n + ".near", "nearly equal arguments on both sides of the switching distance (relative and absolute)", n*REL.size()*8, [=] (std::size_t i, vh::Report& r) { vh::Digits d(i); const double x = d.pick(G()), e = d.pick(REL); const int s = d.next(8); const double y = s & 4 ? x*(s & 2 ? 1 - e : 1 + e) : x + (s & 2 ? -e : e); threshold(*p, s & 1 ? -x : x, s & 1 ? -y : y, r); });
      }
   }
   fam("li2.real", "real axis: grid, logarithmic grid, both sides of every switching point", LR().size(), [] (std::size_t i, vh::Report& r) { li2r(LR()[i], r); });
   fam("li2.complex", "complex plane: polar grid, both sides of every region boundary, neighbourhood of cut and branch point", PL().size(), [] (std::size_t i, vh::Report& r) { li2c(PL()[i], r); });
   fam("clausen", "angles -4pi..4pi, both sides of every switching point", AN().size(), [] (std::size_t i, vh::Report& r) { clausen(AN()[i], r); });
   const std::vector<double> Q2 = {1, 1e-4, 30, 1e6}, U = {1, 1e6, 1e-3};
   fam("b0", "momentum x mass ratio x scale x unit, thresholds and switching points of all branches", RT().size()*RT().size()*Q2.size()*U.size(), [=] (std::size_t i, vh::Report& r) { vh::Digits d(i); const double p = d.pick(RT()), m = d.pick(RT()), q = d.pick(Q2); b0(p, m, q, d.pick(U), r); });
   fam("phi", "all pairs of mass ratios x unit, all permutations", MS().size()*MS().size()*2, [] (std::size_t i, vh::Report& r) { vh::Digits d(i); const double x = d.pick(MS()), y = d.pick(MS()); phi(x, y, d.i ? 1e6 : 1, r); });
   c.assumptions = {"128-bit reference arithmetic (libquadmath); accuracy profile of the expansions in data/P09_accuracy.txt"};
   return vh::run(argc, argv, c);
}
