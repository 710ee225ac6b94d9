// P03: the best suitable expansion is selected, with its own errors.
// Exhaustive over a lattice of mass orderings (all orderings, exact ties, both
// edges of every window) against a table-driven reference that evaluates the
// expansion classes itself.
#include "vh.hpp"
#include "points.hpp"
#include "hier.hpp"
#include "himalaya/HierarchyCalculator.hpp"
#include <memory>
using namespace himalaya;
namespace {

using hr::M2;

struct Pt { double m1, m2, g, q, s2f, scale, tb; bool ab; };
std::string str(const Pt& x, int mdr)
{ std::ostringstream o; o.precision(6); o << (x.ab ? "b" : "t") << " m1=" << x.m1 << " m2=" << x.m2 << " g=" << x.g << " q=" << x.q << " s2=" << x.s2f << " Q=" << x.scale << " tb=" << x.tb << " mdr=" << mdr; return o.str(); }

/// soft masses and mean squark mass first (it does not depend on the stop/sbottom eigenvalues that are given)
Parameters base(double q, double scale, double tb)
{
   pts::Spec s; s.tb = tb; s.mQ3 = s.mU3 = s.mD3 = s.mQ = s.mU = s.mD = q; s.mu = 500; s.scale = scale; s.yb = 0.3; s.Xt = 0.4*q; s.Ab = 0.2*q;
   return pts::make(s);
}
Parameters point(const Pt& x)
{
   Parameters p = base(x.q, x.scale, x.tb);
   p.MG = x.g;
   p.MSt << x.m1, x.m2; p.s2t = x.s2f;
   p.MSb << x.m1, x.m2; p.s2b = x.s2f;
   return p;
}
double meanMsq(double q, double scale, double tb)
{
   Parameters p = base(q, scale, tb); p.validate(false);
   return std::sqrt(std::abs(p.calculateMsq2()));
}

/// power of the expansion parameter in the terms that a truncation removes
int power(int h, int t)
{
   using namespace hr::ExpansionDepth;
   switch (t) { case Dmglst1: return h < 3 ? 3 : 2; case Dmst12: case lmMsusy: return 3; case Mgl: return 4; case Msusy: return 8; default: return 2; }
}

struct Ref { bool any = false; double best = -1; struct E { bool ok; double err, abs, rel, u2, u3; } e[hr::NH]; };

/// independent selection
Ref reference(const HierarchyCalculator& hc, const Parameters& p, bool ab, int mdr, const M2& tree)
{
   Ref r;
   const double m1 = ab ? p.MSb(0) : p.MSt(0), m2 = ab ? p.MSb(1) : p.MSt(1), q = std::sqrt(std::abs(p.calculateMsq2()));
   hr::Depth low = hr::full(); low[hr::ExpansionDepth::threeLoop] = 0; low[hr::ExpansionDepth::Mst] = 0;
   for (int h = 0; h < hr::NH; h++) {
      auto& e = r.e[h];
      e.ok = hr::suitable(h, m1, m2, p.MG, q);
      if (!e.ok) continue;
      r.any = true;
      HierarchyObject ho(ab); ho.setMDRFlag(mdr); ho.setSuitableHierarchy(h);
      const M2 m1l = tree + hc.getMt41L(ho, mdr, 0), m2l = m1l + hc.getMt42L(ho, mdr, 0);
      const auto in = [&] (int l) { return hr::input(p, ab, hc.shiftMst1ToMDR(ho, mdr, l == 3 ? mdr : 0), hc.shiftMst2ToMDR(ho, mdr, l == 3 ? mdr : 0), mdr); };
      const double exact = hr::mh(m2l), expanded = hr::mh(m1l + hr::matrix(h, low, in(2), 0, 1, 0));
      const auto unc = [&] (const M2& m, int l) {
         const double all = hr::mh(m + hr::matrix(h, hr::full(), in(l), 0, l == 2, l == 3));
         double u = 0;
         for (int t : hr::truncations(h)) { hr::Depth d = hr::full(); d[t] = 0; const double x = all - hr::mh(m + hr::matrix(h, d, in(l), 0, l == 2, l == 3)); u += x*x; }
         return std::sqrt(u);
      };
      e.abs = std::abs(exact - expanded); e.rel = e.abs/exact; e.u2 = unc(m1l, 2); e.u3 = unc(m2l, 3);
      e.err = std::hypot(e.rel, e.u2/expanded);
   }
   for (auto& e : r.e) if (e.ok && std::isfinite(e.err) && (r.best < 0 || e.err < r.best)) r.best = e.err;
   return r;
}

void one(const Pt& x, int mdr, vh::Report& rep)
{
   rep.count("evaluations");
   const std::string key = str(x, mdr);
   Parameters p = point(x);
   HierarchyCalculator hc(p, false);
   p.validate(false);
   const double beta = std::atan(x.tb), s = std::sin(beta), c = std::cos(beta), z2 = p.MZ*p.MZ, a2 = p.MA*p.MA;
   M2 tree; tree << z2*c*c + a2*s*s, -(z2 + a2)*s*c, -(z2 + a2)*s*c, z2*s*s + a2*c*c;
   const Ref ref = reference(hc, p, x.ab, mdr, tree);

   int sel = -2; double absd = 0, reld = 0, u2 = 0, u3 = 0; bool threw = false; std::string what;
   HierarchyObject ho(x.ab);
   try {
      if (mdr) { ho.setMDRFlag(1); sel = hc.compareHierarchies(ho); rep.check("returned", sel == ho.getSuitableHierarchy(), key + " returned " + std::to_string(sel) + " stored " + std::to_string(ho.getSuitableHierarchy())); }
      else { ho = hc.calculateDMh3L(x.ab); sel = ho.getSuitableHierarchy(); }
      absd = ho.getAbsDiff2L(); reld = ho.getRelDiff2L();
      if (sel >= 0) { u2 = ho.getDMhExpUncertainty(2); u3 = ho.getDMhExpUncertainty(3); }
   } catch (const std::exception& e) { threw = true; what = e.what(); }
   std::uint64_t mask = 0; for (int h = 0; h < hr::NH; h++) mask |= std::uint64_t(ref.e[h].ok) << h;
   rep.state(vh::mix(mask, std::uint64_t(sel + 5) + (x.ab ? 100 : 0)));
   if (!ref.any) {
      rep.count("without_suitable");
      if (mdr) rep.check("none", sel == -1, key + " selected " + std::to_string(sel));
      else rep.check("none", threw, key + " no exception, hierarchy " + std::to_string(sel));
      return;
   }
   if (threw) { rep.check("throws", false, key + " " + what); return; }
   if (ref.best < 0) { rep.count("no_finite_error"); rep.check("suitable", sel >= 0 && sel < hr::NH && ref.e[sel].ok, key + " selected " + std::to_string(sel)); return; }
   if (!rep.check("suitable", sel >= 0 && sel < hr::NH && ref.e[sel].ok, key + " selected " + (sel >= 0 && sel < hr::NH ? hr::name(sel) : std::to_string(sel).c_str()))) return;
   rep.count(std::string("selected_") + hr::name(sel));
   if (__builtin_popcountll(mask) > 1) rep.count("competing");
   const auto& e = ref.e[sel];
   const auto same = [&] (const char* n, double a, double b, double tol) { if (std::isnan(a) && std::isnan(b)) rep.count("undefined"); else rep.close(n, a, b, tol, key + " selected " + hr::name(sel)); };
   rep.close("minimal", e.err, ref.best, 1e-9 + 1e-7*ref.best, key + " selected " + hr::name(sel));
   same("absdiff", absd, e.abs, 1e-7 + 1e-9*e.abs);
   same("reldiff", reld, e.rel, 1e-9);
   same("expunc2", u2, e.u2, 1e-7 + 1e-8*e.u2);
   same("expunc3", u3, e.u3, 1e-7 + 1e-8*e.u3);
   for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) rep.close("tree", ho.getDMh(0)(i,j), tree(i,j), 1e-10*tree.norm(), key);
}

// ---- lattice ----------------------------------------------------------------
const double QS[] = {2000, 900, 6000}, R1[] = {0.3, 0.62, 0.9, 0.97, 1.0, 1.08, 1.25, 0.15, 0.45, 0.52, 0.7, 0.76, 0.84, 0.93, 0.985, 1.03, 1.15, 1.29};
const double S2F[] = {0.05, -0.93, 0, 0.6, 0.999}, TB[] = {10, 3, 45};
const int NM2 = 11, NG = 14, FINE1 = 40, FINE2 = 30, FINEG = 40;   // thorough: additional fine lattice
double second(int k, double m1, double Q)
{
   switch (k) { case 0: return m1; case 1: return m1*1.05; case 2: return m1*1.0999; case 3: return m1*1.1001; case 4: return m1*1.2; case 5: return m1*1.6;
      case 6: return m1*2.2; case 7: return Q; case 8: return 1.2995*Q; case 9: return 1.3005*Q; default: return Q/1.3*1.0005; }
}
double gluino(int k, double m1, double m2, double Q)
{
   switch (k) { case 0: return m1; case 1: return m2; case 2: return 0.5*(m1 + m2)*0.9999; case 3: return 0.5*(m1 + m2)*1.0001; case 4: return 0.5*m1; case 5: return 0.93*m1; case 6: return 1.1*m2;
      case 7: return 1.2995*Q; case 8: return 1.3005*Q; case 9: return Q; case 10: return 0.75*m1 + 0.25*m2; case 11: return 0.25*m1 + 0.75*m2; case 12: return std::abs(m1 - (m2 - m1))*0.9995 + 1; default: return 0.03*m1; }
}

} // namespace

int main(int argc, char** argv)
{
   vh::Check c; c.id = "P03"; c.level = "exploration"; c.c_states = "@distinct";
   c.rule = "set of suitable expansions x selected expansion x (top/bottom)";
   const bool th = vh::thorough();
   const std::size_t nr = th ? 18 : 7, ns = th ? 5 : 3, nq = th ? 3 : 2, ntb = th ? 3 : 2;
   vh::Family f;
   f.name = "orderings"; f.space = "lattice of (mass 1, mass 2, gluino, mean squark mass): " + std::to_string(nr) + " x 11 x 14 ratios incl. exact ties and both edges of every window, " + std::to_string(ns) + " mixings, top/bottom, DR'/MDR', 2 renormalization scales, " + std::to_string(nq) + " absolute scales, " + std::to_string(ntb) + " tan(beta)";
   f.size = nr*NM2*NG*ns*2*2*2*nq*ntb;
   f.run = [=] (std::size_t i, vh::Report& r) {
      vh::Digits d(i);
      Pt x; const double r1 = R1[d.next(nr)]; const int k2 = d.next(NM2), kg = d.next(NG);
      x.s2f = S2F[d.next(ns)]; x.ab = d.next(2); const int mdr = d.next(2); const double sc = d.next(2) ? 1.0 : 0.4;
      x.q = QS[d.next(nq)]; x.tb = TB[d.next(ntb)];
      x.scale = x.q*sc;
      const double Q = meanMsq(x.q, x.scale, x.tb);
      x.m1 = r1 == 1.0 ? Q : r1*Q; x.m2 = second(k2, x.m1, Q);
      if (x.m2 < x.m1) std::swap(x.m1, x.m2);
      x.g = gluino(kg, x.m1, x.m2, Q);
      one(x, mdr, r);
   };
   c.families.push_back(f);

   vh::Family g;
   g.name = "fine"; g.space = "fine lattice: 40 x 30 x 40 mass ratios x 2 mixings x top/bottom x 2 renormalization scales";
   g.size = th ? FINE1*FINE2*FINEG*2*2*2 : 0;
   g.run = [] (std::size_t i, vh::Report& r) {
      vh::Digits d(i);
      const double a = 0.12*std::pow(1.35/0.12, d.next(FINE1)/(FINE1 - 1.)), b = std::pow(4., d.next(FINE2)/(FINE2 - 1.)), k = 0.05*std::pow(30., d.next(FINEG)/(FINEG - 1.));
      Pt x; x.s2f = d.next(2) ? 0.3 : -0.7; x.ab = d.next(2); x.q = 1800; x.scale = d.next(2) ? 1800 : 900; x.tb = 12;
      x.m1 = a*x.q; x.m2 = b*x.m1; x.g = k*x.q;
      one(x, 0, r);
   };
   if (th) c.families.push_back(g);

   // uncertainties of a forced hierarchy, every order and combination of orders
   vh::Family u;
   u.name = "forced"; u.space = "14 expansions x order flags (1..7) x top/bottom x DR'/MDR' x 12 spectra: expansion uncertainty = quadratic sum over the truncations of the expansion's own parameters";
   u.size = hr::NH*7*2*2*12;
   u.run = [] (std::size_t i, vh::Report& r) {
      vh::Digits d(i);
      const int h = d.next(hr::NH), fl = d.next(7) + 1; const bool ab = d.next(2); const int mdr = d.next(2), k = d.next(12);
      const double RM[][3] = {{0.8,0.9,0.85},{0.5,1.0,0.6},{0.5,1.0,0.95},{0.3,0.9,1.1},{0.9,0.95,0.2},{1.1,1.2,1.0}};
      Pt x; x.q = 2000; x.m1 = 2000*RM[k%6][0]; x.m2 = 2000*RM[k%6][1]; x.g = 2000*RM[k%6][2]; x.s2f = k < 6 ? 0.2 : -0.8; x.scale = k < 6 ? 1500 : 700; x.tb = 8; x.ab = ab;
      Parameters p = point(x); HierarchyCalculator hc(p, false); p.validate(false);
      r.count("evaluations"); r.state(vh::mix(h, fl + 10*ab + 20*mdr));
      HierarchyObject ho(ab); ho.setMDRFlag(mdr); ho.setSuitableHierarchy(h);
      M2 m; m << 2e6, -2.1e5, -2.1e5, 4e4;
      const auto total = [&] (const hr::Depth& dep) {
         M2 t = m;
         for (int l = 1; l <= 3; l++) if (fl >> (l-1) & 1)
            t += hr::matrix(h, dep, hr::input(p, ab, hc.shiftMst1ToMDR(ho, l > 1 ? mdr : 0, l > 2 ? mdr : 0), hc.shiftMst2ToMDR(ho, l > 1 ? mdr : 0, l > 2 ? mdr : 0), mdr), l == 1, l == 2, l == 3);
         return t; };
      double want = 0; const double all = hr::mh(total(hr::full()));
      for (int t : hr::truncations(h)) { hr::Depth dep = hr::full(); dep[t] = 0; const double z = all - hr::mh(total(dep)); want += z*z; }
      want = std::sqrt(want);
      const double got = hc.getExpansionUncertainty(ho, m, fl & 1, fl >> 1 & 1, fl >> 2 & 1);
      const std::string key = std::string(hr::name(h)) + " orders " + std::to_string(fl) + " " + str(x, mdr);
      if (!std::isfinite(want)) { r.count("undefined"); return; }
      r.close("forced", got, want, 1e-7 + 1e-8*want, key);
      // a query leaves no trace in the object or in the calculator
      r.check("forced.pure", ho.getSuitableHierarchy() == h && ho.getMDRFlag() == mdr, key);
      r.close("forced.repeat", hc.getExpansionUncertainty(ho, m, fl & 1, fl >> 1 & 1, fl >> 2 & 1), got, 0, key);
   };
   c.families.push_back(u);

   // each truncation removes terms of the highest power(s) of its own parameter, and only these
   vh::Family t;
   t.name = "truncation"; t.space = "14 expansions x truncation parameters x loop order x DR'/MDR' x 4 spectra: the removed terms are homogeneous of the documented highest power in their own (independently varied) parameter, foreign truncations have no effect";
   t.size = hr::NH*4*3*2*4;
   t.run = [] (std::size_t i, vh::Report& r) {
      vh::Digits d(i);
      const int h = d.next(hr::NH), n = d.next(4), l = d.next(3) + 1, mdr = d.next(2), k = d.next(4);
      const auto tr = hr::truncations(h);
      if (n >= int(tr.size())) { r.count("skipped"); return; }
      r.count("evaluations");
      const double RM[][3] = {{0.8,0.9,0.85},{0.5,0.98,0.6},{0.55,0.95,0.9},{0.7,0.75,0.8}};
      hr::In in; in.Al4p = 0.0076; in.beta = 1.3; in.scale = k%2 ? 900 : 1600; in.Mf = 160; in.q = 1000; in.m1 = 1000*RM[k][0]; in.m2 = 1000*RM[k][1]; in.g = 1000*RM[k][2]; in.mu = 700; in.s2f = k > 1 ? 0.6 : -0.3; in.A = 600; in.vu = 240; in.mdr = mdr;
      hr::Depth low = hr::full(); low[tr[n]] = 0;
      using namespace hr::ExpansionDepth;
      const auto removed = [&] (double lam, double* out) {
         hr::Args a = hr::args(in); hr::In x = in;
         switch (tr[n]) {
         case Dmglst1: a.Dgl1 *= lam; break; case Dmglst2: a.Dgl2 *= lam; break; case Dmsqst1: a.Dsq1 *= lam; break; case Dmsqst2: a.Dsq2 *= lam; break;
         case Dmst12: a.D12 *= lam; break; case At: x.A *= lam; break; case Msq: break; case Msusy: a.S *= lam; break; case Mgl: x.g *= lam; break; case lmMsusy: a.lS *= lam; break;
         }
         if (tr[n] == Msq) { x.q /= lam; }   // expansion in inverse powers of the squark mass
         const auto f = hr::eval(h, hr::full(), x, a, l == 1, l == 2, l == 3), g = hr::eval(h, low, x, a, l == 1, l == 2, l == 3);
         out[0] = f.s1 - g.s1; out[1] = f.s12 - g.s12; out[2] = f.s2 - g.s2;
      };
      const int pw = power(h, tr[n]);
      double one[3], scale = 0, big = 0;
      removed(1, one);
      const hr::Out f = hr::eval(h, hr::full(), in, l == 1, l == 2, l == 3);
      for (double z : {f.s1, f.s12, f.s2}) scale = std::max(scale, std::abs(z));
      for (double z : one) big = std::max(big, std::abs(z));
      const std::string key = std::string(hr::name(h)) + " truncation " + std::to_string(tr[n]) + " order " + std::to_string(l) + " mdr " + std::to_string(mdr) + " spectrum " + std::to_string(k);
      if (l == 3 && mdr == 0) r.check("truncation.effect", big > 1e-12*scale, key + " has no effect");
      if (big > 0) r.count("effective");
      for (double lam : {0.5, 0.1, 2.0}) {
         double z[3]; removed(lam, z);
         const double w = tr[n] == Msq ? std::pow(lam, -pw) : std::pow(lam, pw);
         for (int j = 0; j < 3; j++) r.close("truncation.power", z[j], w*one[j], 1e-8*std::max(scale, scale*w), key + " element " + std::to_string(j) + " lambda " + std::to_string(lam));
      }
      // truncations of parameters the expansion does not have change nothing
      if (n == 0) for (int o = 0; o < NUMBER_OF_EXPANSIONS; o++) {
         bool mine = o == threeLoop || o == Mst; for (int q : tr) mine |= q == o;
         if (mine) continue;
         hr::Depth d2 = hr::full(); d2[o] = 0;
         const hr::Out g = hr::eval(h, d2, in, l == 1, l == 2, l == 3);
         r.check("truncation.foreign", g.s1 == f.s1 && g.s2 == f.s2 && g.s12 == f.s12, key + " depends on truncation " + std::to_string(o));
      }
      r.state(vh::mix(h, n + 10*l));
   };
   c.families.push_back(t);

   c.assumptions = {"exact one- and two-loop components (getMt41L, getMt42L) are decided by P06, P10, P11; here they only enter the comparison"};
   c.required = {"without_suitable", "competing", "effective"};
   for (int h = 0; h < hr::NH; h++) c.required.push_back(std::string("selected_") + hr::name(h));
   return vh::run(argc, argv, c);
}
