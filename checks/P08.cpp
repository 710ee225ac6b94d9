// P08: formulas for (nearly) equal masses continue the general formulas.
//
// Every coincidence pattern of the masses a result depends on (= set partition
// of the masses) is a point; through each point runs a line on which all
// coincident masses separate at different rates.  Far from the point only the
// general formulas are used.  They are continued to the point by polynomial
// interpolation, and the results on, next to and at the edge of the windows of
// the special cases are compared with that continuation.
#include "vh.hpp"
#include "obs.hpp"
using namespace himalaya;
namespace {
enum Mass { Q, U, D, L, E, G, S, MU, A, B1, B2, NM };
const char* MN[] = {"mQ3", "mU3", "mD3", "mL3", "mE3", "MG", "mq", "mu", "mA", "M1", "M2"};
/// rates at which the masses change along a line; no two of one sector are close
const double SL[3][NM] = {{-1.4, 1.4, -.7, -1.4, 1.4, 0, .7, -.7, .7, 1.4, 0}, {1.4, -1.4, .7, 1.4, -1.4, -.7, 0, 0, -.7, .7, -1.4}, {}};
/// values of the masses outside the sector, far from all others
const double GEN[NM] = {330, 6500, 10400, 330, 6500, 210, 10400, 210, 10400, 135, 4900};

struct Line { double m[NM]; double sgn = 1, Xt = -1300, Xb = 900, Xtau = 1100, xs = 500, scale = 900, tb = 8, yb = .5; int slope = 0; };
Parameters at(const Line& l, double x)
{
   const auto m = [&] (int i) { return l.m[i]*(1 + SL[l.slope][i]*x); };
   pts::Spec s;
   s.scale = l.scale; s.tb = l.tb; s.mQ3 = m(Q); s.mU3 = m(U); s.mD3 = m(D); s.mL3 = m(L); s.mE3 = m(E); s.MG = m(G);
   s.mQ = s.mU = s.mD = s.mL = s.mE = m(S); s.mu = l.sgn*m(MU); s.MA = m(A); s.M1 = m(B1); s.M2 = m(B2);
   s.Xt = l.Xt + l.xs*x; s.Ab = l.Xb - 0.7*l.xs*x + s.mu*s.tb; s.Atau = l.Xtau + 0.5*l.xs*x + s.mu*s.tb;
   s.yb = l.yb; s.ytau = 0.4;
   Parameters p = pts::make(s); p.validate(false); return p;
}
std::string show(const Line& l)
{
   std::ostringstream o;
   for (int i = 0; i < NM; i++) o << MN[i] << "=" << (i == MU ? l.sgn : 1)*l.m[i] << " ";
   o << "Xt=" << l.Xt << " Xb=" << l.Xb << " Xtau=" << l.Xtau << " Q=" << l.scale << " tb=" << l.tb << " direction " << l.slope; return o.str();
}

const int NN = 8; const double NODE[NN] = {-.15, -.12, -.09, -.06, .06, .09, .12, .15};
struct Inner { double x; const char* cls; };
const std::vector<Inner> INNER = {{0, "exact"}, {1e-9, "exact"}, {5e-8, "exact"}, {-1e-7, "exact"}, {2e-7, "exact"}, {1e-6, "near"}, {-3e-6, "near"}, {1e-5, "near"}, {-1e-4, "near"}, {1e-3, "near"}, {-2.5e-3, "window"}, {4e-3, "window"}, {-6e-3, "window"}, {8e-3, "window"}, {-.011, "window"}, {.015, "window"}, {-.021, "window"}, {.03, "general"}, {-.05, "general"}};

/// value at x of the polynomial through the nodes lo..hi-1 (without the omitted ones)
double continued(const std::vector<double>& v, double x, int skip)
{
   double r = 0;
   for (int i = skip; i < NN - skip; i++) { double w = 1; for (int j = skip; j < NN - skip; j++) if (j != i) w *= (x - NODE[j])/(NODE[i] - NODE[j]); r += w*v[i]; }
   return r;
}
using Eval = std::function<void(const Parameters&, obs::List&)>;
/// largest deviation (relative to the largest value on the line): 0 at equal masses, 1 at almost equal masses, 2 in the windows per relative splitting, 3 outside of them
double tolerance(const std::string& name, int cls);

void line(const Line& l, const char* fam, const Eval& f, vh::Report& r)
{
   std::vector<obs::List> n(NN);
   for (int i = 0; i < NN; i++) f(at(l, NODE[i]), n[i]);
   for (auto& in : INNER) {
      obs::List v; f(at(l, in.x), v);
      r.count("points"); r.count(std::string(fam) + "." + in.cls);
      for (std::size_t k = 0; k < v.size(); k++) {
         if (v[k].n == "limit") { r.count("limit" + std::to_string(int(v[k].v))); continue; }
         std::vector<double> y; double sc = 0; for (auto& z : n) { y.push_back(z.at(k).v); sc = std::max(sc, std::abs(z[k].v)); }
         if (sc == 0 && v[k].v == 0) continue;
         const double p = continued(y, in.x, 0), p2 = continued(y, in.x, 1), err = std::abs(p - p2), dev = std::abs(v[k].v - p);
         const double d = std::max(0., dev - 3*err)/std::max(sc, 1e-10);
         // without stop mixing the two-loop formulas use a tiny one instead (guard in the Fortran code)
         const std::string base = v[k].n.substr(0, v[k].n.find('(')) + (l.Xt == 0 && v[k].n.substr(0, 7) == "fo2.YT6" ? "/t0" : "");
         // the limits ignore the splitting, hence an error proportional to it
         const double ax = std::abs(in.x); const bool win = ax >= 1e-3 && ax < .025;
         r.maxi(std::string(fam) + "." + base + "." + (win ? "window" : in.cls), std::isfinite(d) ? (win ? std::max(0., d - tolerance(base, 0))/ax : d) : 1e300); r.maxi(std::string("continuation.") + fam, err/sc);
         const double tol = ax > .025 ? tolerance(base, 3) : win ? tolerance(base, 0) + tolerance(base, 2)*ax : tolerance(base, ax > 3e-7 ? 1 : 0);
         r.check(fam, d <= tol, v[k].n + " " + in.cls + " x=" + vh::fmt(in.x) + ": " + vh::fmt(v[k].v) + " instead of " + vh::fmt(p) + " +- " + vh::fmt(err) + " (relative " + vh::fmt(d) + " > " + vh::fmt(tol) + ") " + show(l));
      }
      r.state(vh::mix(vh::bits(v.back().v), vh::bits(in.x)));
   }
}

/// i-th set partition of n elements (restricted growth string); false if there are fewer
bool partition(std::size_t i, int n, int* g)
{
   std::fill(g, g + n, 0);
   while (i--) {
      int k = n - 1;
      for (; k > 0; k--) { int mx = 0; for (int j = 0; j < k; j++) mx = std::max(mx, g[j]); if (g[k] <= mx) break; }
      if (k == 0) return false;
      g[k]++; for (int j = k + 1; j < n; j++) g[j] = 0;
   }
   return true;
}
std::size_t bell(int n) { static const std::size_t b[] = {1, 1, 2, 5, 15, 52, 203}; return b[n]; }

/// gives each block of coincident masses a value
void assign(Line& l, const std::vector<int>& ms, const int* g, int perm)
{
   static const double V[3][5] = {{900, 1450, 2330, 560, 3750}, {2150, 560, 900, 1450, 3300}, {2330, 3750, 560, 1450, 900}};
   for (std::size_t k = 0; k < ms.size(); k++) l.m[ms[k]] = V[perm][g[k]];
}

struct Sector { const char* name; std::vector<int> ms; };
const std::vector<Sector> SECTORS = {
   {"strong", {Q, U, G, S}}, {"strongb", {Q, D, G, S}}, {"higgs", {Q, U, MU, A}}, {"higgsb", {Q, U, D, MU, A}}, {"tau", {L, E, MU, A}}, {"mixed", {Q, D, L, E}}, {"gaugino", {MU, B1, B2, Q}}, {"heavy", {Q, U, D, G, S}}};

#include "../data/P08_tolerances.inc"
} // namespace

int main(int argc, char** argv)
{
   const bool th = vh::thorough();
   vh::Check c;
   c.id = "P08";
   c.rule = "distinct = point x value";
   const int np = th ? 3 : 2, nmix = th ? 6 : 3, nsl = 2;
   const auto mixing = [] (Line& l, int k) {
      switch (k) {
      case 0: break;
      case 1: l.Xt = 1700; l.Xb = -1200; l.Xtau = -800; l.sgn = -1; l.tb = 4; l.scale = 1700; break;
      case 2: l.Xt = l.Xb = l.Xtau = 0; break;
      case 3: l.Xt = l.Xb = l.Xtau = 0; l.xs = 0; l.sgn = -1; break;
      case 4: l.Xt = 400; l.Xb = 2100; l.Xtau = 1500; l.tb = 25; l.scale = 500; break;
      default: l.Xt = -2000; l.Xb = -300; l.Xtau = 300; l.sgn = -1; l.scale = 2600; break;
      } };
   const auto add = [&] (const std::string& n, const Sector& s, const Eval& f) {
      const std::size_t size = bell(s.ms.size())*np*nmix*nsl;
      c.families.push_back({n + "." + s.name, "all partitions of " + std::to_string(s.ms.size()) + " masses into groups of equal ones x " + std::to_string(np) + " values x " + std::to_string(nmix) + " mixings, signs of mu and scales x 2 directions x 19 distances", size,
         [=] (std::size_t i, vh::Report& r) {
            vh::Digits d(i); Line l; std::copy(GEN, GEN + NM, l.m); const int pm = d.next(np), mx = d.next(nmix); l.slope = d.next(nsl);
            int g[6]; if (!partition(d.next(bell(s.ms.size())), s.ms.size(), g)) return;
            assign(l, s.ms, g, pm); mixing(l, mx);
            line(l, n.c_str(), f, r); }, 60});
   };
   const Eval thresholds = [] (const Parameters& p0, obs::List& l) { Parameters p = p0; p.MSt << 950, 1050; p.MSb << 970, 1080; p.MStau << 900, 1000; obs::thresholds(p, l); /* enter logarithms only, have a kink where they cross */ };
   const Eval fixedorder = [] (const Parameters& p, obs::List& l) {
         mh2_fo::MSSM_mass_eigenstates m(p);
         l.mat("fo1", m.delta_mh2_1loop(0), 2); l.mat("fo1p", m.delta_mh2_1loop(1e4), 2); l.mat("fo1g", m.delta_mh2_1loop_gaugeless(), 2); l.mat("fo1d", m.delta_mh2_1loop_gaugeless_deriv(), 0);
         for (auto& x : {std::make_pair("G32YT4", obs::CO::G32YT4), std::make_pair("G32YB4", obs::CO::G32YB4), std::make_pair("YT6", obs::CO::YT6), std::make_pair("YTAU6", obs::CO::YTAU6), std::make_pair("YTAU2YB4", obs::CO::YTAU2YB4)})
         for (int at = 0; at < 2; at++) {
            if (at && std::string(x.first) != "YT6") continue;
            mh2_fo::MSSM_mass_eigenstates k(p, at); obs::off(k); k.set_mom_it(mh2_fo::Momentum_iteration::off); k.set_correction(x.second, 1);
            l.mat(std::string("fo2.") + x.first + (at ? ".only" : ""), k.delta_mh2_2loop(), 2);
         } };
   for (auto& s : SECTORS) { add("thresholds", s, thresholds); add("fixedorder", s, fixedorder); }
   // vanishing mixing: the masses stay, X passes through zero
   for (auto& f : {std::make_pair("thresholds", thresholds), std::make_pair("fixedorder", fixedorder)}) {
      const std::string n = f.first; const Eval e = f.second;
      c.families.push_back({n + ".mixing", "120 orders of the masses of stops, sbottoms, staus and gluino x 2 signs of mu x 2 tan(beta) x stop mixing large or zero x 2 bottom Yukawa couplings x 2 mass scales x 19 mixings around zero", 3840, [=] (std::size_t i, vh::Report& r) {
         vh::Digits d(i); Line l; std::copy(GEN, GEN + NM, l.m); l.slope = 2; l.xs = d.next(2) ? 8000 : -5000; l.sgn = d.next(2) ? -1 : 1; l.tb = l.sgn > 0 ? 4 : 20; l.Xb = l.Xtau = 0; l.Xt = d.next(2) ? -1300 : 0; l.yb = d.next(2) ? .2 : .5;
         static const double V[] = {700, 1000, 1430, 2050, 2900}; int p[] = {0, 1, 2, 3, 4}; for (int k = d.next(120); k--;) std::next_permutation(p, p + 5);
         l.m[Q] = l.m[L] = V[p[0]]; l.m[U] = l.m[E] = V[p[1]]; l.m[D] = V[p[2]]; l.m[G] = V[p[3]]; l.m[MU] = V[p[4]]; l.m[A] = V[p[3]]*1.2; const double F = d.next(2) ? 20 : 1; for (auto& m : l.m) m *= F; l.xs *= F; l.Xt *= F; l.scale *= F; line(l, n.c_str(), e, r); }, 60});
   }
   c.required = {"thresholds.exact", "thresholds.window", "fixedorder.exact"};
   for (int k = 0; k < 6; k++) c.required.push_back("limit" + std::to_string(k));
   return vh::run(argc, argv, c);
}
