// P05: input points are completed consistently.  Exhaustive over patterns of
// given / missing quantities, mass patterns, and invalid inputs; every claim is
// checked against an independent transcription of the tree-level formulas.
#include "vh.hpp"
#include "points.hpp"
#include "fields.hpp"
#include <Eigen/Dense>
#include <iostream>

using himalaya::Parameters; using himalaya::NaN; using himalaya::V2;
namespace {

double sq(double x) { return x*x; }

struct Capture {   // captures std::cerr and std::cout
   std::ostringstream e, o; std::streambuf *be, *bo;
   Capture() : be(std::cerr.rdbuf(e.rdbuf())), bo(std::cout.rdbuf(o.rdbuf())) {}
   ~Capture() { std::cerr.rdbuf(be); std::cout.rdbuf(bo); }
   bool silent() const { return e.str().empty() && o.str().empty(); }
};

struct Sf { double a, x, b; };   // mass matrix
void matrices(const Parameters& p, Sf& t, Sf& b, Sf& l)
{
   const double tb = p.vu/p.vd, c2b = (sq(p.vd) - sq(p.vu))/(sq(p.vd) + sq(p.vu));
   double cw2 = sq(p.MW/p.MZ); if (!std::isfinite(cw2)) cw2 = 1;
   const double sw2 = 1 - cw2, D = sq(p.MZ)*c2b;
   t = {p.mq2(2,2) + sq(p.Mt) + (0.5 - 2./3*sw2)*D, p.Mt*(p.Au(2,2) - p.mu/tb), p.mu2(2,2) + sq(p.Mt) + 2./3*sw2*D};
   b = {p.mq2(2,2) + sq(p.Mb) + (-0.5 + 1./3*sw2)*D, p.Mb*(p.Ad(2,2) - p.mu*tb), p.md2(2,2) + sq(p.Mb) - 1./3*sw2*D};
   l = {p.ml2(2,2) + sq(p.Mtau) + (-0.5 + sw2)*D, p.Mtau*(p.Ae(2,2) - p.mu*tb), p.me2(2,2) + sq(p.Mtau) - sw2*D};
}

void computed(const std::string& n, const Sf& m, const V2& M, double s2, double th, double shift, vh::Report& r)
{
   const double tr = std::abs(m.a) + std::abs(m.b) + std::abs(m.x), eps = 1e-11*tr + shift*tr;
   const double q1 = sq(M(0)), q2 = sq(M(1)), c = std::cos(th), s = std::sin(th);
   r.close(n + ".trace", q1 + q2, m.a + m.b, eps);
   r.close(n + ".det", q1*q2, m.a*m.b - m.x*m.x, eps*tr);
   r.close(n + ".M11", c*c*q1 + s*s*q2, m.a, eps*100);
   r.close(n + ".M12", s*c*(q1 - q2), m.x, eps*100);
   r.close(n + ".M22", s*s*q1 + c*c*q2, m.b, eps*100);
   r.close(n + ".s2", s2, std::sin(2*th), 1e-12);
}

const double GIVEN[2] = {612.5, 1437.25};
/// pattern: which of (m1, m2, s2, theta) the user gives
struct Pat { const char* name; bool m1, m2, s2, th; bool swapped, equal; };
/// all subsets; two given masses come sorted, unsorted or equal
std::vector<Pat> patterns()
{
   static std::vector<std::string> names;
   names.reserve(64); std::vector<Pat> v;
   for (int k = 0; k < 16; k++) for (int o = 0; o < ((k & 3) == 3 ? 3 : 1); o++) {
      std::string n = o == 1 ? "unsorted:" : o == 2 ? "equal:" : "";
      const char* t[] = {"m1 ", "m2 ", "s2 ", "theta "}; for (int b = 0; b < 4; b++) if (k >> b & 1) n += t[b];
      names.push_back(n.empty() ? "none" : n);
      v.push_back({names.back().c_str(), bool(k & 1), bool(k & 2), bool(k & 4), bool(k & 8), o == 1, o == 2});
   }
   return v;
}
const std::vector<Pat> PATS = patterns();
const double TH[] = {0.3, -0.7};

struct Group { V2 M; double s2, th; };
Group give(const Pat& q, double unit, double th)
{
   Group g{V2(NaN, NaN), NaN, NaN};
   double a = GIVEN[0]*unit, b = GIVEN[1]*unit; if (q.swapped) std::swap(a, b); if (q.equal) a = b;
   if (q.m1) g.M(0) = a; if (q.m2) g.M(1) = b;
   if (q.s2) g.s2 = std::sin(2*th); if (q.th) g.th = th;
   return g;
}
bool complete(const Pat& q) { return q.m1 && q.m2 && (q.s2 || q.th); }

void group(const std::string& n, const Pat& q, const Group& in, const Sf& m, const V2& M, double s2, double th, bool shifted, vh::Report& r)
{
   r.check(n + ".order", M(0) <= M(1) && M(0) >= 0, vh::fmt(M(0)) + " " + vh::fmt(M(1)));
   r.close(n + ".s2theta", s2, std::sin(2*th), 1e-12, q.name);
   if (!complete(q)) { computed(n, m, M, s2, th, shifted ? 3e-8 : 0, r); return; }
   const double lo = std::min(in.M(0), in.M(1)), hi = std::max(in.M(0), in.M(1));
   r.check(n + ".heavy", M(1) == hi, q.name);
   if (lo == hi && shifted) r.check(n + ".split", M(0) < hi && M(0) > hi*(1 - 3e-8), vh::fmt(M(0)) + " from " + vh::fmt(hi));
   else r.check(n + ".light", M(0) == lo, q.name);
   const double s2in = q.s2 ? in.s2 : std::sin(2*in.th);
   r.close(n + ".s2given", s2, q.swapped ? -s2in : s2in, 1e-12, q.name);
   // the mixing angle still describes the same states: sin^2 (component of the heavier state)
   const double thin = q.th ? in.th : 0.5*std::asin(in.s2);
   const double want = q.swapped ? sq(std::cos(thin)) : sq(std::sin(thin));
   r.close(n + ".thetagiven", sq(std::sin(th)), want, 1e-12, q.name);
}

struct MassPt { double mQ3, mU3, mD3, mL3, mE3, Xt, Ab, tb, mu; };
const MassPt MP[] = {
   {1000, 1200, 900, 800, 850, 500, 300, 10, 700},
   {1200, 1000, 1500, 850, 800, -1900, -4000, 3, -700},
   {1000, 1000, 1000, 900, 900, 0, 0, 10, 500},
   {1000, 1000, 1000, 900, 900, 1000, 0, 50, 1500},
   {2000, 400, 400, 400, 2000, 2400, 100, 1.0, 300},
   {400, 2000, 2000, 2000, 400, -2400, -100, 0.7, -300},
};
enum { GAUGE = 0, GAUGELESS = 1 };

Parameters base(const MassPt& m, double unit, bool gl)
{
   pts::Spec s; s.mQ3 = m.mQ3; s.mU3 = m.mU3; s.mD3 = m.mD3; s.mL3 = m.mL3; s.mE3 = m.mE3; s.Xt = m.Xt; s.Ab = m.Ab; s.tb = m.tb; s.mu = m.mu;
   if (gl) s.g1 = s.g2 = 0;
   auto p = pts::make(s);
   if (unit != 1) {
      p.scale *= unit; p.mu *= unit; p.vd *= unit; p.vu *= unit;
      for (auto* x : {&p.mq2, &p.md2, &p.mu2, &p.ml2, &p.me2}) *x *= unit*unit;
      for (auto* x : {&p.Au, &p.Ad, &p.Ae}) *x *= unit;
      p.M1 *= unit; p.M2 *= unit; p.MG *= unit; p.MA *= unit;
   }
   return p;
}

const double UNITS[] = {1., 1e-4, 1e3};

const std::vector<unsigned> EWS = [] { std::vector<unsigned> v{0, 31}; for (unsigned k = 0; k < 32; k++) v.push_back((5 + 21*k) % 32); return v; }();   // 0, 31, 5, 26, ...
/// all: 0 = one choice of the remaining digits, 1 = all of them, 2 = four electroweak subsets
void completion(std::size_t i, vh::Report& r, int all)
{
   vh::Digits d(i);
   const auto& pt = d.pick(PATS); const auto& pb = d.pick(PATS); const auto& pl = d.pick(PATS);
   const auto& m = d.pick(MP); const bool gl = d.next(2); const std::size_t ui = all ? d.next(3) : (i/7) % 3; const double unit = UNITS[ui];
   const unsigned ew = all ? EWS[d.next(all == 2 ? 4 : 34)] : (i/3 % 2 ? 31 : 0); const double th = TH[all ? d.next(2) : (i/5) % 2];
   Parameters in = base(m, unit, gl);
   const double mw = 79*unit, mz = 91*unit, mt = 161*unit, mb = 2.5*unit, ml = 1.7*unit;
   if (ew & 1) in.MW = mw; if (ew & 2) in.MZ = mz; if (ew & 4) in.Mt = mt; if (ew & 8) in.Mb = mb; if (ew & 16) in.Mtau = ml;
   const auto gt = give(pt, unit, th), gb = give(pb, unit, -th), gl_ = give(pl, unit, th/2);
   in.MSt = gt.M; in.s2t = gt.s2; in.theta_t = gt.th; in.MSb = gb.M; in.s2b = gb.s2; in.theta_b = gb.th; in.MStau = gl_.M; in.s2tau = gl_.s2; in.theta_tau = gl_.th;
   Parameters p = in;
   { Capture c; p.validate(false); r.check("silent", c.silent(), "something was printed: " + c.e.str() + c.o.str()); }
   // electroweak and fermion masses
   const double v = std::sqrt(sq(in.vu) + sq(in.vd));
   r.close("MW", p.MW, ew & 1 ? mw : 0.5*in.g2*v, ew & 1 ? 0 : 1e-13*v);
   r.close("MZ", p.MZ, ew & 2 ? mz : 0.5*std::sqrt(0.6*sq(in.g1) + sq(in.g2))*v, ew & 2 ? 0 : 1e-13*v);
   r.close("Mt", p.Mt, ew & 4 ? mt : in.Yu(2,2)*in.vu/std::sqrt(2.), ew & 4 ? 0 : 1e-13*v);
   r.close("Mb", p.Mb, ew & 8 ? mb : in.Yd(2,2)*in.vd/std::sqrt(2.), ew & 8 ? 0 : 1e-13*v);
   r.close("Mtau", p.Mtau, ew & 16 ? ml : in.Ye(2,2)*in.vd/std::sqrt(2.), ew & 16 ? 0 : 1e-13*v);
   Parameters q = in; q.MW = p.MW; q.MZ = p.MZ; q.Mt = p.Mt; q.Mb = p.Mb; q.Mtau = p.Mtau;
   Sf t, b, l; matrices(q, t, b, l);
   group("t", pt, gt, t, p.MSt, p.s2t, p.theta_t, true, r);
   group("b", pb, gb, b, p.MSb, p.s2b, p.theta_b, true, r);
   group("tau", pl, gl_, l, p.MStau, p.s2tau, p.theta_tau, false, r);
   // nothing else changes (Yukawas of these points are diagonal already)
   const std::string df = flds::differ(in, p, {"MW","MZ","Mt","Mb","Mtau","MSt0","MSt1","MSb0","MSb1","MStau0","MStau1","s2t","s2b","s2tau","theta_t","theta_b","theta_tau","mq2(2,2)","Yu(2,2)","Yd(2,2)","Ye(2,2)"});
   r.check("untouched", df.empty(), df + " changed");
   r.close("mq2", p.mq2(2,2), in.mq2(2,2), 3e-8*in.mq2(2,2));
   if (in.mq2(2,2) != in.mu2(2,2)) r.check("mq2same", p.mq2(2,2) == in.mq2(2,2), "mq2 changed");
   else r.check("mq2split", p.mq2(2,2) != p.mu2(2,2), "degenerate soft masses were not split");
   // completing again changes nothing, however often and however loudly
   Parameters again = p;
   for (int k = 0; k < 3; k++) {
      Capture c; again.validate(k == 1);
      const std::string d2 = flds::differ(p, again);
      r.check("idempotent", d2.empty(), d2 + " changed on repetition " + std::to_string(k + 1));
      r.check("silent-again", c.silent(), "a complete point was announced: " + c.e.str());
   }
   // verbosity changes nothing but the output
   Parameters loud = in; { Capture c; loud.validate(true); const bool need = !complete(pt) || !complete(pb) || !complete(pl);
      r.check("announce", need == !c.silent() && c.o.str().empty(), "completion of missing values must be announced on stderr only"); }
   const std::string d3 = flds::differ(p, loud);
   r.check("verbose", d3.empty(), d3 + " depends on verbosity");
   std::uint64_t h = 0; for (double x : flds::values(p)) h = vh::mix(h, vh::bits(x)); r.state(h);
   if (i % 50021 == 0) r.sample(std::string("stop ") + pt.name + ", sbottom " + pb.name + ", stau " + pl.name + ", EW mask " + std::to_string(ew) + ", unit " + vh::fmt(unit));
}

/// every mass pattern: left/right soft masses x mixing, nothing given
const double SM[] = {300, 500, 500.0000001, 1000, 1000*(1+1e-12), 5000}; const double XX[] = {-3, -2, -0.5, 0, 1e-9, 0.5, 2, 3};
void mixing(std::size_t i, vh::Report& r)
{
   vh::Digits d(i);
   pts::Spec s; s.mQ3 = d.pick(SM); s.mU3 = d.pick(SM); s.mD3 = d.pick(SM); s.mL3 = s.mU3; s.mE3 = s.mD3; s.Xt = d.pick(XX)*std::sqrt(s.mQ3*s.mU3);
   s.tb = d.pick({0.5, 1., 5., 60.}); s.mu = d.pick({-2000., 0., 400.}); s.Ab = s.Xt/2; s.Atau = -s.Xt; if (d.next(2)) s.g1 = s.g2 = 0;
   Parameters in = pts::make(s), p = in; Sf t, b, l;
   { Parameters q = in; const double v = s.v; q.MW = 0.5*s.g2*v; q.MZ = 0.5*std::sqrt(0.6*sq(s.g1) + sq(s.g2))*v; q.Mt = s.yt*q.vu/std::sqrt(2.); q.Mb = s.yb*q.vd/std::sqrt(2.); q.Mtau = s.ytau*q.vd/std::sqrt(2.); matrices(q, t, b, l); }
   const auto tach = [] (const Sf& m) { return std::min(0.5*(m.a + m.b) - std::sqrt(sq(0.5*(m.a - m.b)) + sq(m.x)), 1e300); };
   const double lo = std::min({tach(t), tach(b), tach(l)});
   bool threw = false; try { p.validate(false); } catch (const std::runtime_error&) { threw = true; }
   if (std::abs(lo) > 1e-6*1e6) r.check("tachyon", threw == (lo < 0), "smallest squared sfermion mass is " + vh::fmt(lo));
   r.count(threw ? "rejected" : "accepted");
   if (threw) { r.state(vh::mix(7, i)); return; }
   computed("t", t, p.MSt, p.s2t, p.theta_t, 3e-8, r); computed("b", b, p.MSb, p.s2b, p.theta_b, 3e-8, r); computed("tau", l, p.MStau, p.s2tau, p.theta_tau, 0, r);
   r.check("order", p.MSt(0) < p.MSt(1) && p.MSb(0) < p.MSb(1) && p.MStau(0) <= p.MStau(1), "masses not ascending");
   Parameters q = p; q.validate(false); r.check("idempotent", flds::differ(p, q).empty(), flds::differ(p, q));
   std::uint64_t h = 0; for (double x : {p.MSt(0), p.MSt(1), p.MSb(0), p.MSb(1), p.s2t, p.s2b, p.s2tau}) h = vh::mix(h, vh::bits(x)); r.state(h);
}

/// average light-squark mass
void meanmass(std::size_t i, vh::Report& r)
{
   vh::Digits d(i); pts::Spec s; auto p = pts::make(s); const double A[] = {400, 1000, 2700};
   for (auto* e : {&p.mq2(0,0), &p.mq2(1,1), &p.mu2(0,0), &p.mu2(1,1), &p.md2(0,0), &p.md2(1,1), &p.mq2(2,2), &p.md2(2,2)}) *e = sq(d.pick(A));
   if (d.next(2)) { p.vu = p.vd = 170; } p.validate(false);
   Sf t, b, l; matrices(p, t, b, l);
   const double f[10] = {p.mq2(0,0), p.mu2(0,0), p.mq2(0,0), p.md2(0,0), p.mq2(1,1), p.mu2(1,1), p.mq2(1,1), p.md2(1,1), b.a, b.b};
   double lg = 0; for (double x : f) lg += std::log(x);
   r.close("msq2", p.calculateMsq2()/std::exp(lg/10), 1, 1e-12);
   r.state(vh::bits(p.calculateMsq2()));
}

/// Yukawa matrices
void yukawa(std::size_t i, vh::Report& r)
{
   vh::Digits d(i); pts::Spec s; auto in = pts::make(s); const int which = d.next(3);
   himalaya::RM33 D = himalaya::RM33::Zero(); const double dg[][3] = {{0,0,0.8}, {0.8,0,0}, {0,0.8,0}, {1e-5,0.004,0.8}, {0.8,0.004,1e-5}, {0.1,0.1,0.1}, {0,0,-0.8}, {-1e-5,0.004,-0.8}, {0,0.5,0.8}};
   const auto& dd = d.pick(dg); for (int k = 0; k < 3; k++) D(k,k) = dd[k];
   const auto rot = [] (int a, int b, double t) { himalaya::RM33 R = himalaya::RM33::Identity(); R(a,a) = R(b,b) = std::cos(t); R(a,b) = std::sin(t); R(b,a) = -std::sin(t); return R; };
   const double A[] = {0, 0.4, 1.3, -2.}; const double l1 = d.pick(A), l2 = d.pick(A), r1 = d.pick(A), r2 = d.pick(A);
   const himalaya::RM33 Y = rot(0,1,l1)*rot(1,2,l2)*D*rot(0,2,r1)*rot(1,2,r2);
   (which == 0 ? in.Yu : which == 1 ? in.Yd : in.Ye) = Y;
   Parameters p = in; p.validate(false);
   const auto& Z = which == 0 ? p.Yu : which == 1 ? p.Yd : p.Ye;
   double off = 0; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) if (a != b) off = std::max(off, std::abs(Z(a,b)));
   r.check("diagonal", off == 0, "off-diagonal " + vh::fmt(off));
   r.check("ascending", Z(0,0) >= 0 && Z(0,0) <= Z(1,1) && Z(1,1) <= Z(2,2), "singular values must be non-negative with the third generation heaviest");
   double w[3] = {std::abs(dd[0]), std::abs(dd[1]), std::abs(dd[2])}; std::sort(w, w + 3);
   for (int k = 0; k < 3; k++) r.close("value", Z(k,k), w[k], 1e-14);
   const double m = which == 0 ? p.Mt/p.vu : which == 1 ? p.Mb/p.vd : p.Mtau/p.vd;
   r.close("mass", m*std::sqrt(2.), w[2], 1e-13);
   for (int o = 0; o < 3; o++) if (o != which) { const auto& a = o == 0 ? in.Yu : o == 1 ? in.Yd : in.Ye; const auto& b = o == 0 ? p.Yu : o == 1 ? p.Yd : p.Ye; r.close("others", (a - b).norm(), 0, 1e-14); }
   r.state(vh::mix(which, vh::mix(vh::bits(Z(2,2)), vh::bits(Z(0,0)))));
}

/// invalid inputs, each alone and each pair
struct Inv { std::string name; std::function<void(Parameters&)> f; bool bad; };
std::vector<Inv> invalids()
{
   std::vector<Inv> v;
   for (int k = 0; k < 5; k++) for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++)
      for (double val : {-1e-3, -1e6}) v.push_back({"soft mass matrix " + std::to_string(k) + "(" + std::to_string(a) + std::to_string(b) + ")", [=] (Parameters& p) { (k == 0 ? p.mq2 : k == 1 ? p.md2 : k == 2 ? p.mu2 : k == 3 ? p.ml2 : p.me2)(a,b) = val; }, true});
   for (double val : {-1e-9, -1., -1e5}) v.push_back({"gluino", [=] (Parameters& p) { p.MG = val; }, true});
   for (double val : {0., -0., -1., -246., NaN}) { v.push_back({"vu", [=] (Parameters& p) { p.vu = val; }, true}); v.push_back({"vd", [=] (Parameters& p) { p.vd = val; }, true}); }
   v.push_back({"stop tachyon", [] (Parameters& p) { p.Au(2,2) = 1e5; }, true});
   v.push_back({"sbottom tachyon", [] (Parameters& p) { p.Ad(2,2) = 1e6; }, true});
   v.push_back({"stau tachyon", [] (Parameters& p) { p.Ae(2,2) = 1e6; }, true});
   // harmless
   v.push_back({"MG=0", [] (Parameters& p) { p.MG = 0; }, false}); v.push_back({"MA=0", [] (Parameters& p) { p.MA = 0; }, false});
   for (int k = 0; k < 5; k++) v.push_back({"light generation zero", [=] (Parameters& p) { (k == 0 ? p.mq2 : k == 1 ? p.md2 : k == 2 ? p.mu2 : k == 3 ? p.ml2 : p.me2)(0,0) = 0; }, false});
   v.push_back({"negative mu", [] (Parameters& p) { p.mu = -500; }, false}); v.push_back({"negative M1", [] (Parameters& p) { p.M1 = -500; }, false}); v.push_back({"negative M2", [] (Parameters& p) { p.M2 = -500; }, false});
   v.push_back({"negative A", [] (Parameters& p) { p.Au(2,2) *= -1; }, false}); v.push_back({"tiny vd", [] (Parameters& p) { p.vd = 1e-3; }, false});
   return v;
}
const std::vector<Inv>& invs() { static const auto v = invalids(); return v; }
void invalid(std::size_t i, vh::Report& r)
{
   vh::Digits d(i); const auto& a = d.pick(invs()); const auto& b = d.pick(invs()); const bool given = d.next(2);
   pts::Spec s; auto p = pts::make(s); if (given) p.validate(false);
   const bool tach = a.name.find("tachyon") != std::string::npos || b.name.find("tachyon") != std::string::npos;
   a.f(p); b.f(p);
   bool bad = a.bad || b.bad;
   if (given && tach) { const auto nt = [] (const Inv& x) { return x.bad && x.name.find("tachyon") == std::string::npos; }; bad = nt(a) || nt(b); }
   // a later assignment may undo an earlier one
   if (a.bad && !b.bad && ((a.name == "gluino" && b.name == "MG=0") || (a.name == "vd" && b.name == "tiny vd") || (a.name.substr(0, 4) == "soft" && a.name.find("(00)") != std::string::npos && b.name == "light generation zero") || (a.name == "stop tachyon" && b.name == "negative A"))) { r.count("skipped_pairs"); return; }
   if (a.name == "negative A" && b.name == "stop tachyon") { }
   if (tach && (a.name == "tiny vd" || b.name == "tiny vd")) { r.count("skipped_pairs"); return; }
   Parameters q = p; std::string what;
   bool threw = false; { Capture c; try { p.validate(false); } catch (const std::runtime_error& e) { threw = true; what = e.what(); } r.check("silent", c.silent(), "printed: " + c.e.str()); }
   r.check(bad ? "must-reject" : "must-accept", threw == bad, a.name + ", " + b.name + (threw ? " -> rejected: " + what : " -> accepted"));
   if (threw) r.check("message", !what.empty(), "empty message");
   r.count(threw ? "rejected" : "accepted"); r.state(vh::mix(std::hash<std::string>()(a.name + b.name), threw));
}

} // namespace

int main(int argc, char** argv)
{
   vh::Check c; c.id = "P05";
   c.rule = "every combination of (given/missing pattern per sfermion pair) x (electroweak/fermion masses given) x mass pattern x unit of mass; distinct = distinct completed points";
   const std::size_t P = PATS.size(), M = sizeof(MP)/sizeof(*MP);
   const bool t = vh::thorough();
   c.families.push_back({"completion", "all " + std::to_string(P) + " given/missing patterns for each of stop, sbottom, stau x 6 mass patterns x gauge/gaugeless" + std::string(t ? " x 3 mass units x 4 subsets of given W/Z/t/b/tau masses x 2 angles" : " (mass unit, angle, all or none of W/Z/t/b/tau given: cycled)"), P*P*P*M*2*(t ? 24 : 1), [t] (std::size_t i, vh::Report& r) { completion(i, r, t ? 2 : 0); }});
   c.families.push_back({"ewsubsets", "all 32 subsets of given W/Z/t/b/tau masses x all stop patterns x 6 mass patterns x gauge/gaugeless x 2 angles", P*M*2*34*2, [P, M] (std::size_t i, vh::Report& r) {
      vh::Digits d(i); const std::size_t pt = d.next(P), m = d.next(M), gl = d.next(2), ew = d.next(34), a = d.next(2);
      const std::size_t pb = (pt + m) % P, pl = (pt + 2*ew) % P;
      completion(pt + P*(pb + P*(pl + P*(m + M*(gl + 2*(0 + 3*(ew + 34*a)))))), r, 1); }});
   c.families.push_back({"mixing", "6^3 left/right soft masses (incl. degenerate to 1e-10 and 1e-12) x 8 mixings x 4 tan(beta) x 3 mu x gauge/gaugeless", 6*6*6*8*4*3*2, mixing});
   c.families.push_back({"meanmass", "3^8 light-squark mass patterns x tan(beta)", 6561*2, meanmass});
   c.families.push_back({"yukawa", "3 matrices x 9 spectra x 4^4 left/right rotations", 3*9*256, yukawa});
   c.families.push_back({"invalid", "all ordered pairs of " + std::to_string(invs().size()) + " invalid or harmless changes x incomplete/complete point", invs().size()*invs().size()*2, invalid});
   c.required = {"rejected", "accepted"};
   c.assumptions = {"finite alphabet of masses and mixings; given angles satisfy |sin 2theta| <= 1 and given pairs (sin 2theta, theta) are consistent"};
   return vh::run(argc, argv, c);
}
