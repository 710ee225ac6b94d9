// P14: fixed-order and effective-theory results agree for heavy superpartners.
// Both calculations are run on a lattice of heavy spectra and compared order by
// order and coupling by coupling.
#include "vh.hpp"
#include "obs.hpp"
#include <map>
#include <tuple>
using namespace himalaya;
using CE = himalaya::CouplingOrders::CouplingOrders;
namespace CO = himalaya::CouplingOrders;
using TO = mh2_eft::ThresholdCouplingOrders;
namespace {

const double kap = 1/(16*M_PI*M_PI);

/// one point: heavy masses in units of F GeV; mixings X = A - mu tan/cot(beta)
struct Pt {
   double F = 30, tb = 5, yt = .8, yb = .5, yl = .4, g3 = 0, Q = 1000;      // yt, yb, yl: standard-model like (include sin/cos(beta))
   double mQ3 = 1100, mU3 = 1490, mD3 = 1390, mL3 = 870, mE3 = 660, mu = -700, MA = 1700, MG = 1300, Xt = 1300, Xb = 900, Xl = -500;
   double g1 = 0, g2 = 0, M1 = 430, M2 = 810, mq = 1300, mu12 = 1400, md = 1500, ml = 1200, me = 1250;
};
Parameters make(const Pt& t)
{
   pts::Spec s;
   const double b = std::atan(t.tb), F = t.F;
   s.g1 = t.g1; s.g2 = t.g2; s.g3 = t.g3; s.tb = t.tb; s.yt = t.yt/std::sin(b); s.yb = t.yb/std::cos(b); s.ytau = t.yl/std::cos(b);
   s.mQ3 = F*t.mQ3; s.mU3 = F*t.mU3; s.mD3 = F*t.mD3; s.mL3 = F*t.mL3; s.mE3 = F*t.mE3; s.mu = F*t.mu; s.MA = F*t.MA; s.MG = F*t.MG;
   s.mQ = F*t.mq; s.mU = F*t.mu12; s.mD = F*t.md; s.mL = F*t.ml; s.mE = F*t.me; s.M1 = F*t.M1; s.M2 = F*t.M2;
   s.Xt = F*t.Xt; s.Ab = F*t.Xb + s.mu*t.tb; s.Atau = F*t.Xl + s.mu*t.tb; s.scale = F*t.Q;
   Parameters p = pts::make(s);
   if (t.g1 == 0 && t.g2 == 0) p.MW = p.MZ = NaN;
   p.validate(false);
   return p;
}
std::string show(const Pt& t)
{
   std::ostringstream o;
   o << "F=" << t.F << " tb=" << t.tb << " y=" << t.yt << "," << t.yb << "," << t.yl << " Q=" << t.Q << " mQ=" << t.mQ3 << " mU=" << t.mU3 << " mD=" << t.mD3 << " mL=" << t.mL3 << " mE=" << t.mE3
     << " mu=" << t.mu << " MA=" << t.MA << " MG=" << t.MG << " Xt=" << t.Xt << " Xb=" << t.Xb << " Xl=" << t.Xl << " M1=" << t.M1 << " M2=" << t.M2;
   return o.str();
}

/// two-loop classes: sets of coupling orders that both calculations can separate
enum Class { T, L, LB, GT, GB };
const char* const cname[] = {"T", "L", "LB", "GT", "GB"};

double fo2(const Parameters& p, Class c)
{
   mh2_fo::MSSM_mass_eigenstates m(p, false);
   for (auto o : {CO::YT6, CO::YB6, CO::YTAU6, CO::G32YT4, CO::G32YB4, CO::YTAU2YB4, CO::YTAU4YB2}) m.set_correction(o, 0);
   m.set_correction(c == T ? CO::YT6 : c == L ? CO::YTAU6 : c == LB ? CO::YTAU2YB4 : c == GT ? CO::G32YT4 : CO::G32YB4, 1);
   if (c == GT || c == GB) m.set_mom_it(mh2_fo::Momentum_iteration::off);
   return std::get<2>(m.calculate_Mh2());
}
double eft2(const Parameters& p, Class c)
{
   auto e = obs::eft_calc(p);
   const auto on = [&e] (std::initializer_list<CE> l) { for (auto o : l) e.setCorrectionFlag(o, 1); };
   switch (c) {
   case T: on({CO::YT6, CO::YB6, CO::YB2YT4, CO::YT2YB4}); break;
   case L: on({CO::YTAU6}); break;
   case LB: on({CO::YTAU2YB4, CO::YTAU4YB2}); break;
   case GT: on({CO::G32YT4}); break;
   case GB: on({CO::G32YB4}); break;
   }
   return e.getDeltaMh2EFT2Loop(1, 1);
}

struct Diff { double d, size; };   // low-energy difference and size of the two-loop corrections, in units kappa^2 v^2/2
/// (fixed order - EFT) with the part removed that follows from the different definition of the low-energy parameters
Diff two(const Pt& t, Class c)
{
   const Parameters p = make(t);
   double f = fo2(p, c);
   if (c == LB) {   // the momentum iteration contains the pure bottom and tau terms
      for (int z = 0; z < 2; z++) { Pt q = t; (z ? q.yb : q.yl) = 1e-5; f -= fo2(make(q), c); }
   }
   const double e = eft2(p, c);
   const double v2 = p.vu*p.vu + p.vd*p.vd, cb2 = p.vd*p.vd/v2, sb2 = 1 - cb2, n = kap*kap*v2/2;
   const double B = 2*std::log(p.Mt/p.Mb), BL = 2*std::log(p.Mt/p.Mtau);
   const double yt2 = 2*p.Mt*p.Mt/v2, yb2 = 2*p.Mb*p.Mb/v2, yl2 = 2*p.Mtau*p.Mtau/v2;
   mh2_eft::ThresholdCalculator tc(p, false);
   const auto g = [&tc] (TO o) { return tc.getThresholdCorrection(o, mh2_eft::RenSchemes::DRBARPRIME, 1); };
   double pred = 0;
   if (c == T) pred = yb2*yb2*yb2*(g(TO::YB_YB)/cb2*(48*B - 24) + g(TO::LAMBDA_YB4)*(-3*B - 1) + 24*g(TO::VEV_YB2)*B)
      + yb2*yb2*yt2*(g(TO::YB_YT)/sb2*(48*B - 24) + 24*B*g(TO::VEV_YT2)) + yt2*yt2*yb2*g(TO::LAMBDA_AT)*(-3*B - 1);
   if (c == L) pred = yl2*yl2*yl2*(g(TO::YTAU_YTAU)/cb2*(16*BL - 8) + g(TO::LAMBDA_YTAU4)*(-BL - 1/3.) + 8*g(TO::VEV_YTAU2)*BL);
   if (c == LB) pred = yb2*yb2*yl2*(g(TO::YB_YTAU)/cb2*(48*B - 24) + g(TO::LAMBDA_YB4)*(-BL - 1/3.) + 24*g(TO::VEV_YTAU2)*B)
      + yl2*yl2*yb2*(g(TO::YTAU_YB)/cb2*(16*BL - 8) + g(TO::LAMBDA_YTAU4)*(-3*B - 1) + 8*BL*g(TO::VEV_YB2));
   if (c == GB) pred = p.g3*p.g3*yb2*yb2*g(TO::YB_AS)*(48*B - 24);
   Diff r; r.d = (f - e)/n - pred; r.size = std::max(std::abs(f), std::abs(e))/n + std::abs(pred);
   return r;
}

/// low-energy parameters of a class: standard-model like couplings and the ratio of scales
struct Group { Class c; double tb, F, Q; int y; };
const double TBS[] = {1.5, 5, 20}, QS[] = {700, 1100, 1900}, FS[] = {30, 50};
Pt start(const Group& g)
{
   Pt t; t.tb = g.tb; t.F = g.F; t.Q = g.Q;
   switch (g.c) {
   case T:  t.yt = g.y == 2 ? 0.2 : 0.8; t.yb = g.y == 0 ? 0.05 : 0.6; t.yl = 1e-5; break;
   case L:  t.yt = 1e-3; t.yb = 1e-4; t.yl = g.y == 0 ? 0.4 : g.y == 1 ? 0.7 : 0.25; break;
   case LB: t.yt = 1e-3; t.yb = g.y == 0 ? 0.4 : g.y == 1 ? 0.2 : 0.6; t.yl = g.y == 0 ? 0.3 : g.y == 1 ? 0.6 : 0.2; break;
   case GT: t.g3 = 1.1; t.yt = g.y == 0 ? 0.7 : g.y == 1 ? 0.9 : 0.3; t.yb = 1e-4; t.yl = 1e-5; break;
   case GB: t.g3 = 1.1; t.yt = g.y == 1 ? 0.9 : 0.7; t.yb = g.y == 0 ? 0.4 : g.y == 1 ? 0.7 : 0.2; t.yl = 1e-5; break;
   }
   return t;
}
/// the same low-energy parameters with a fixed spectrum
Diff reference(const Group& g)
{
   static std::map<std::tuple<int,double,double,double,int>, Diff> cache;
   const auto k = std::make_tuple(int(g.c), g.tb, g.F, g.Q, g.y);
   const auto it = cache.find(k);
   if (it != cache.end()) return it->second;
   Pt t = start(g); t.tb = 2;
   return cache[k] = two(t, g.c);
}
/// groups of low-energy parameters that are compared, with the accuracy of the numerics there (tan(beta)-enhanced terms cancel more and more)
struct Acc { Class c; int tb, y; double tol; };
const Acc ACC[] = {
   {T, 0, 0, 1e-3}, {T, 0, 1, 2e-3}, {T, 0, 2, 2e-3}, {T, 1, 0, 1e-3}, {T, 1, 2, 2e-2},
   {L, 0, 0, 5e-4}, {L, 0, 1, 1e-3}, {L, 1, 0, 1e-3}, {L, 1, 2, 5e-4}, {L, 2, 0, 1e-2}, {L, 2, 2, 3e-3},
   {LB, 0, 0, 1e-4}, {LB, 0, 1, 1e-4}, {LB, 0, 2, 1e-4}, {LB, 1, 0, 1e-3}, {LB, 1, 1, 1e-3}, {LB, 1, 2, 1e-3},
   {GT, 0, 0, 1e-4}, {GT, 0, 1, 1e-4}, {GT, 0, 2, 7e-4}, {GT, 1, 0, 1e-4}, {GT, 2, 0, 1e-4},
   {GB, 0, 0, 3e-4}, {GB, 0, 1, 1e-4}, {GB, 1, 0, 3e-4}, {GB, 1, 1, 3e-3}, {GB, 2, 0, 1e-2}, {GB, 2, 2, 3e-3},
};
const int NACC = sizeof(ACC)/sizeof(ACC[0]);

const double M3[] = {700, 1100, 1900}, M5[] = {700, 830, 1100, 1430, 1900}, X3[] = {-1700, 0, 1300}, MU2[] = {-900, 600}, MA2[] = {800, 1700};
/// all orderings and coincidences of the third-generation masses, mixings, mu, MA
Pt pattern(vh::Digits& d, const Pt& base, Class c, bool th)
{
   Pt t = base;
   const auto m = [&] { return th ? M5[d.next(5)] : M3[d.next(3)]; };
   t.mQ3 = t.mL3 = m(); t.mU3 = m(); t.mD3 = m();
   t.mE3 = c == L ? t.mU3 : t.mD3 == t.mQ3 ? t.mU3 : t.mD3; t.Xt = d.pick(X3); t.Xb = d.pick(X3); t.Xl = c == LB ? t.Xt : t.Xb;
   if (c == L && t.yl < 0.3 && t.mL3 == t.mE3) t.mE3 *= 1.05;   // fixed-order functions lose digits for very degenerate staus
   t.MG = (c == GT || c == GB) ? M3[d.next(3)] : 1300;
   t.mu = d.pick(MU2); t.MA = d.pick(MA2);
   if (th) { if (d.next(2)) { t.mu = -t.mu*1.7; t.MA *= 1.3; t.mL3 *= 0.8; } }
   return t;
}
std::size_t npattern(bool th) { return (th ? 125*2 : 27)*9*3*4; }

void twoloop(std::size_t i, bool th, vh::Report& r)
{
   vh::Digits d(i);
   const Acc& a = ACC[d.next(NACC)];
   const Group g{a.c, TBS[a.tb], th && d.next(2) ? FS[1] : FS[0], th ? d.pick(QS) : QS[(i/NACC) % 3], a.y};
   if (!(a.c == GT || a.c == GB)) { vh::Digits e = d; e.next((th ? 125 : 27)*9); if (e.next(3)) return; }   // no gluino in these orders
   const Pt t = pattern(d, start(g), g.c, th);
   const Diff x = two(t, g.c), ref = reference(g);
   r.count("comparisons.two"); r.count(std::string("class.") + cname[g.c]); r.count("evaluations", 2);
   r.state(vh::bits(x.d));
   const double s = x.size + ref.size;
   if (x.d == x.d) r.maxi(std::string("dev.") + cname[g.c] + "/tb" + vh::fmt(g.tb) + "/y" + std::to_string(g.y), std::abs(x.d - ref.d)/s);
   r.close(std::string("twoloop.") + cname[g.c], x.d, ref.d, (th && g.F > 40 ? 2 : 1)*a.tol*s, "fixed order - effective theory must depend on the low-energy parameters only: " + show(t));
   if (g.c == GT) r.close("twoloop.GT0", x.d, 0, (g.F > 40 ? 5e-3 : 1e-3)*x.size, "no remainder in this order: " + show(t));
}
/// the remainder disappears together with the bottom Yukawa coupling
void vanish(std::size_t i, vh::Report& r)
{
   vh::Digits d(i);
   Pt b; b.tb = d.pick(TBS); b.F = d.pick(FS); b.Q = d.pick(QS); b.yt = d.next(2) ? 0.9 : 0.6; b.yb = 1.2e-4/std::sqrt(1 + b.tb*b.tb); b.yl = 1e-6;
   vh::Digits e(d.i); Pt t = pattern(e, b, T, false);
   t.MA *= 1.01;   // the fixed-order functions are singular for m_i = m_j + MA, which is exact without mixing
   const Diff x = two(t, T);
   r.count("comparisons.vanish"); r.count("evaluations"); r.state(vh::bits(x.d));
   r.maxi("dev.vanish", std::abs(x.d)/x.size);
   r.close("twoloop.YT6", x.d, 0, 1e-3*x.size, show(t));
}

/// the remainder itself: two-loop relation between the low-energy parameters of the two calculations, recorded for the verified formulas
void lowenergy(std::size_t i, vh::Report& r)
{
   static const double tab[] = {
#include "../data/P14_lowenergy.inc"
   };
   vh::Digits d(i); Group g; g.c = Class(d.next(5)); g.y = d.next(3); g.Q = d.pick(QS); g.F = d.pick(FS); g.tb = 2;
   const Diff x = reference(g);
   if (std::getenv("P14_PRINT")) { std::fprintf(stderr, "T%zu %.9g\n", i, x.d); return; } // prints the table
   r.count("comparisons.low"); r.count("evaluations"); r.state(vh::bits(x.d));
   r.close(std::string("lowenergy.") + cname[g.c], x.d, tab[i], 3e-4*x.size, show(start(g)));
}

/// one loop without gauge couplings: difference known exactly
void oneloop(std::size_t i, bool th, vh::Report& r)
{
   vh::Digits d(i);
   Pt b; b.tb = d.pick(TBS); b.F = th ? d.pick(FS) : 40; b.Q = d.pick(QS);
   static const double Y[][3] = {{.8, .05, .03}, {.8, .6, .4}, {.2, .6, .5}, {.001, .0001, .5}, {.5, .5, .5}, {1e-3, .7, 1e-3}};
   const auto& y = Y[d.next(6)]; b.yt = y[0]; b.yb = y[1]; b.yl = y[2];
   vh::Digits e(d.i); const Pt t = pattern(e, b, LB, th);
   const Parameters p = make(t);
   const double v2 = p.vu*p.vu + p.vd*p.vd, n = kap*v2/2;
   const double B = 2*std::log(p.Mt/p.Mb), BL = 2*std::log(p.Mt/p.Mtau), yb2 = 2*p.Mb*p.Mb/v2, yl2 = 2*p.Mtau*p.Mtau/v2;
   mh2_fo::MSSM_mass_eigenstates m(p, false);
   auto eft = obs::eft_calc(p); for (auto o : {CO::YT4, CO::YB4, CO::YTAU4}) eft.setCorrectionFlag(o, 1);
   const double f = std::get<1>(m.calculate_Mh2())/n, x = eft.getDeltaMh2EFT1Loop(1, 1)/n, w = 12*yb2*yb2*B + 4*yl2*yl2*BL;
   const double s = std::abs(f) + std::abs(x) + std::abs(w) + 10*(std::pow(2*p.Mt*p.Mt/v2, 2) + yb2*yb2 + yl2*yl2);
   r.count("comparisons.one"); r.count("evaluations", 2); r.state(vh::bits(f));
   r.maxi("dev.one", std::abs(f - x - w)/s);
   r.close("oneloop", f - x, w, 2e-5*s, show(t));
}

/// one loop with gauge couplings
struct One { double d, der, size; };
One one_gauge(const Pt& t)
{
   const Parameters p = make(t);
   mh2_eft::Mh2EFTCalculator e(p, false);
   for (auto& o : obs::order_names(1)) e.setCorrectionFlag(o.second, 1);
   mh2_fo::MSSM_mass_eigenstates m(p, false);
   const double b = std::atan(p.vu/p.vd), sb = std::sin(b), cb = std::cos(b), mh2 = std::get<0>(m.calculate_Mh2());
   const auto pr = [&] (double p2) { const auto M = m.delta_mh2_1loop(p2); return cb*cb*M(0,0) + 2*sb*cb*M(0,1) + sb*sb*M(1,1); };
   const double step = 0.02*std::max(mh2, 500.);
   const double x = e.getDeltaMh2EFT1Loop(1, 1), f = pr(mh2);
   return {f - x, (pr(mh2 + step) - pr(mh2 - step))/(2*step)*mh2, std::abs(f) + std::abs(x)};
}
void gauge(std::size_t i, bool th, vh::Report& r)
{
   static const double TB[] = {1, 1.5, 5, 20}, Y[][3] = {{.8, 1e-4, 1e-5}, {.8, .05, .03}, {.3, 1e-4, .3}};
   static const double W[][3] = {{430, 810, -700}, {1000, 810, -700}, {430, 2000, -700}, {430, 810, 1500}, {-1000, -500, 1500}, {700, 700, 700}, {1e3, 3e3, 300}};
   vh::Digits d(i);
   Pt b; b.g1 = 0.46; b.g2 = 0.65; b.tb = d.pick(TB); b.F = 40; b.Q = th ? d.pick(QS) : 1100;
   const auto& y = Y[d.next(3)]; b.yt = y[0]; b.yb = y[1]; b.yl = y[2];
   const Pt base = b;
   const int k = d.next(7);
   b.M1 = W[k][0]; b.M2 = W[k][1]; b.mu = W[k][2];
   const One gau = one_gauge(b), ref = one_gauge(base);
   r.count("comparisons.gauge"); r.count("evaluations", 2);
   // (1) gauginos and higgsinos enter the difference only through the wave-function renormalisation of the electroweak scale
   r.maxi("dev.gauge1", std::abs((gau.d + gau.der) - (ref.d + ref.der))/gau.size);
   r.close("gauge.inos", gau.d + gau.der, ref.d + ref.der, 1e-5*gau.size, show(b));
   if (b.tb == 1) { r.maxi("dev.gauge0", std::abs(gau.d)/gau.size); r.close("gauge.tb1", gau.d, 0, 3e-5*gau.size, "no difference for tan(beta) = 1 " + show(b)); }
   // (2) sfermion masses, mixings and MA drop out
   Pt t = b;
   t.mQ3 = d.pick(M3); t.mU3 = d.pick(M3); t.mD3 = d.pick(M3); t.mL3 = t.mU3; t.mE3 = t.mQ3; t.Xt = d.pick(X3); t.Xb = t.Xl = d.pick(X3);
   const int l = d.next(4); t.MA = l & 1 ? 3000 : 900; t.mq = t.ml = l & 2 ? 600 : 2100; t.mu12 = l & 1 ? 900 : 1500; t.md = t.me = l == 3 ? 600 : 1700;
   const One x = one_gauge(t);
   const double s = x.size + gau.size;
   r.maxi("dev.gauge2/tb" + vh::fmt(b.tb), std::abs(x.d - gau.d)/s);
   r.close("gauge.sfermions", x.d, gau.d, 1e-5*s, "sfermion and heavy-Higgs sector must cancel in fixed order - EFT " + show(t));
   r.state(vh::bits(x.d));
}
} // namespace

int main(int argc, char** argv)
{
   const bool th = vh::thorough();
   vh::Check c;
   c.id = "P14";
   c.rule = "distinct = (fixed order - EFT) difference";
   c.families = {
      {"twoloop", "28 groups of low-energy parameters x third-generation masses in {700,1100,1900}^3 x mixings {-,0,+}^2 x gluino mass x signs of mu x MA (x 2 scales of the spectrum x 3 renormalization scales in the thorough tier), two-loop orders", NACC*npattern(th)*(th ? 6 : 1), [th] (std::size_t i, vh::Report& r) { twoloop(i, th, r); }},
      {"vanish", "the same spectra for vanishing bottom and tau Yukawa couplings", 3*2*3*2*npattern(false), [] (std::size_t i, vh::Report& r) { if (!vh::thorough() && i % 5 >= 1) return; vanish(i, r); }},
      {"lowenergy", "5 classes x 3 sets of Yukawa couplings x 3 renormalization scales x 2 mass scales, reference spectrum", 90, lowenergy},
      {"oneloop", "the same spectra x 6 sets of Yukawa couplings, one loop, no gauge couplings", 3*(th ? 2u : 1u)*3*6*npattern(th), [th] (std::size_t i, vh::Report& r) { oneloop(i, th, r); }},
      {"gauge", "4 tan(beta) x 3 Yukawa sets x 7 gaugino/higgsino sets x 972 sfermion/Higgs spectra, one loop with gauge couplings", 4*(th ? 3u : 1u)*3*7*27*9*4, [th] (std::size_t i, vh::Report& r) { gauge(i, th, r); }},
   };
   c.required = {"class.T", "class.L", "class.LB", "class.GT", "class.GB", "comparisons.vanish", "comparisons.low", "comparisons.one", "comparisons.gauge"};
   c.assumptions = {"the fixed-order momentum iteration does not separate coupling orders, so classes of orders are compared",
      "differences of the definition of the low-energy parameters (Mt, Mb, Mtau, v) in the two calculations are predicted from the one-loop threshold corrections and their products"};
   return vh::run(argc, argv, c);
}
