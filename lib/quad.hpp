// Extended-precision (128 bit) real and complex arithmetic for reference values.
#pragma once
#include <quadmath.h>
#include <vector>
#include <functional>
#include <cmath>

namespace qd {
typedef __float128 Q;
inline Q PI() { return M_PIq; }

struct C {
   Q re, im;
   C(Q r = 0, Q i = 0) : re(r), im(i) {}
   C(int r) : re(r), im(0) {}
   C(double r) : re(r), im(0) {}
};
inline C operator+(C a, C b) { return {a.re + b.re, a.im + b.im}; }
inline C operator-(C a, C b) { return {a.re - b.re, a.im - b.im}; }
inline C operator-(C a) { return {-a.re, -a.im}; }
inline C operator*(C a, C b) { return {a.re*b.re - a.im*b.im, a.re*b.im + a.im*b.re}; }
inline Q norm(C a) { return a.re*a.re + a.im*a.im; }
inline C operator/(C a, C b) { const Q n = norm(b); return {(a.re*b.re + a.im*b.im)/n, (a.im*b.re - a.re*b.im)/n}; }
inline Q abs(C a) { return hypotq(a.re, a.im); }
inline C log(C a) { return {logq(abs(a)), atan2q(a.im, a.re)}; }
inline C sqrt(C a)
{
   const Q r = abs(a); if (r == 0) return 0;
   Q x = sqrtq((r + fabsq(a.re))/2), y = fabsq(a.im)/(2*x);
   if (a.re < 0) { const Q t = x; x = y; y = t; }
   return {x, a.im < 0 ? -y : y};
}

/// dilogarithm: power series in |z| <= 1/2, functional equations elsewhere, Bernoulli series in between
inline C li2(C z)
{
   const Q n = abs(z), z6 = PI()*PI()/6;
   if (z.im == 0 && z.re == 1) return z6;
   if (n == 0) return 0;
   if (n <= 0.5Q) { C s = 0, t = z; for (int k = 1; k < 400; k++) { s = s + t/C(Q(k)*k); t = t*z; if (abs(t) < 1e-37Q*n) break; } return s; }
   if (abs(C(1) - z) <= 0.5Q) return C(z6) - log(z)*log(C(1) - z) - li2(C(1) - z);
   if (n >= 2) { const C l = log(-z); return C(-z6) - l*l/C(2) - li2(C(1)/z); }
   // 1/2 < |z| < 2: series in u = -log(1-z) (|u| < 2 pi), Li2 = sum B_k u^(k+1)/(k+1)!
   static std::vector<Q> B;
   if (B.empty()) {          // B_k/(k+1)! by the recursion of the Bernoulli numbers divided by factorials: b_k = B_k/k!
      std::vector<Q> b(1, 1), f(1, 1);
      for (int k = 1; k < 260; k++) f.push_back(f.back()/(k + 1));     // f_k = 1/(k+1)!
      for (int k = 1; k < 260; k++) { Q s = 0; for (int j = 0; j < k; j++) s += b[j]*f[k - j]; b.push_back(k > 1 && k % 2 ? Q(0) : -s); }
      for (int k = 0; k < 260; k++) B.push_back(b[k]/(k + 1));
   }
   const C u = -log(C(1) - z); C s = 0, t = u;
   for (std::size_t k = 0; k < B.size(); k++) { const C a = t*C(B[k]); s = s + a; t = t*u; if (k > 3 && k % 2 == 0 && abs(a) < 1e-37Q*abs(s)) break; }
   return s;
}

/// value at (x,y) of a function that is analytic up to removable singularities, given by a formula that is 0/0
/// there: mean value over a circle (x + t a, y + t b) that stays clear of all the listed zeros of denominators
/// (roots in t) and inside the distance to the nearest genuine singularity.
inline Q mean(const std::function<C(C, C)>& f, Q x, Q y, Q a, Q b, const std::vector<C>& roots, Q rmax, int n = 96)
{
   // radius with the largest relative clearance from all roots
   Q best = -1, rho = rmax/2;
   for (int k = 0; k < 24; k++) {
      const Q r = rmax*powq(10, -Q(k)/12)*0.55Q; Q c = 1;
      for (const C& t : roots) { const Q d = fabsq(abs(t) - r)/r; if (d < c) c = d; }
      // prefer large radii
      c *= powq(10, -Q(k)/60);
      if (c > best) { best = c; rho = r; }
   }
   Q s = 0;
   for (int k = 0; k < n; k++) {
      const Q ph = 2*PI()*(k + 0.5Q)/n; const C t(rho*cosq(ph), rho*sinq(ph));
      s += f(C(x) + t*C(a), C(y) + t*C(b)).re;
   }
   return s/n;
}
} // namespace qd
