// P15: results respect the symmetries of the model.
//
// Oracle: the same library at a transformed point.  Every reported number
// (lib/obs.hpp) is evaluated at all points of a lattice and at the image of the
// point under every symmetry operation, and the two lists are compared number
// by number.
#include <algorithm>
#include <set>
#include "vh.hpp"
#include "obs.hpp"
#include "fields.hpp"
#include "himalaya/mh2l/DSZHiggs.hpp"
using namespace himalaya;
namespace {

bool starts(const std::string& s, const char* p) { return s.compare(0, std::strlen(p), p) == 0; }
bool has(const std::string& s, const char* p) { return s.find(p) != std::string::npos; }

Parameters valid(Parameters p)
{ p.theta_t = p.theta_b = p.theta_tau = p.s2t = p.s2b = p.s2tau = NaN; p.MSt.setConstant(NaN); p.MSb.setConstant(NaN); p.MStau.setConstant(NaN); p.validate(false); return p; }

std::string show(const Parameters& p)
{
   std::ostringstream o; o.precision(8);
   o << "[Q=" << p.scale << " mu=" << p.mu << " tb=" << p.vu/p.vd << " g=" << p.g1 << "," << p.g2 << "," << p.g3 << " Y=" << p.Yu(2,2) << "," << p.Yd(2,2) << "," << p.Ye(2,2)
     << " m3=" << std::sqrt(p.mq2(2,2)) << "," << std::sqrt(p.mu2(2,2)) << "," << std::sqrt(p.md2(2,2)) << "," << std::sqrt(p.ml2(2,2)) << "," << std::sqrt(p.me2(2,2))
     << " m1=" << std::sqrt(p.mq2(0,0)) << "," << std::sqrt(p.mu2(0,0)) << "," << std::sqrt(p.md2(0,0)) << " MG=" << p.MG << " MA=" << p.MA << " A=" << p.Au(2,2) << "," << p.Ad(2,2) << "," << p.Ae(2,2) << "]";
   return o.str();
}

/// corrections of O(y^6) are averages around coinciding masses and cancel strongly
double accuracy(const std::string& n)
{
   if (starts(n, "eft2") || starts(n, "3l.t.2.eftat") || starts(n, "3l.t.3.eftat") || starts(n, "3l.b.2.eftat")) return 1e-4;
   for (auto e : {"YT6", "YB6", "YTAU6", "YT2YB4", "YB2YT4", "YT2_YB4", "YT4_YB2", "YTAU2YB4", "YTAU4YB2", "YTAU2_YB4", "YTAU4_YB2"}) if (has(n, e)) return 1e-3;
   return 0;
}
/// different points can have a suitable mass hierarchy or none
bool differs_3l(const obs::List& a, const obs::List& b, const std::string& n)
{
   if (!starts(n, "3l.")) return false;
   const std::string none = n.substr(0, 5) + "none";
   const auto in = [&none] (const obs::List& l) { return std::any_of(l.begin(), l.end(), [&none] (const obs::O& x) { return x.n == none; }); };
   return in(a) != in(b);
}
using Names = std::function<std::string(const std::string&)>;    // name at the transformed point, "" = not compared
void compare(const std::string& what, const obs::List& a, const obs::List& b, Names map, double tol, const std::string& pt, vh::Report& r)
{
   std::map<std::string, const obs::O*> m; for (auto& x : b) m[x.n] = &x;
   for (auto& x : a) {
      std::string n = map ? map(x.n) : x.n; if (n.empty()) continue;
      double sign = 1; if (n[0] == '-') { sign = -1; n = n.substr(1); }
      auto it = m.find(n);
      if (it == m.end() && what == "sector" && differs_3l(a, b, x.n)) { r.count("three-loop expansion exists at one point only"); continue; }
      if (!r.check(what + " " + x.n, it != m.end(), "missing at the transformed point " + pt)) continue;
      const double u = x.v, v = sign*it->second->v;
      if (u != u || v != v) { r.count("undefined"); 
         // square roots of eigenvalues near zero
         if (has(n, "unc") || has(n, "absdiff") || has(n, "reldiff")) continue;
         r.check(what + " " + x.n + " undefined", (u != u) == (v != v), pt + ": " + vh::fmt(u) + " vs " + vh::fmt(v)); continue; }
      const double sc = std::max(x.sc, it->second->sc);
      if (sc > 0) r.maxi("deviation of " + what, std::abs(u - v)/sc);
      r.close(what + " " + x.n, v, u, (tol > 0 ? std::max(tol, accuracy(x.n)) : 0)*sc, pt);
      if (u != 0) r.count("nonzero." + what);
   }
   r.count("numbers", a.size()); r.count("evaluations", 2);
   for (std::size_t k = 0; k < a.size(); k += 1 + a.size()/8) if (a[k].v == a[k].v) r.state(vh::mix(vh::bits(a[k].v), vh::bits(b[std::min(k, b.size() - 1)].v)));
}

obs::List everything(const Parameters& p)
{
   obs::List l; obs::thresholds(p, l); obs::eft(p, l); obs::spectrum(p, l); obs::fo(p, l);
   for (int b = 0; b < 2; b++) { obs::threeloop(p, b, l); obs::expansions(p, b, l); }
   return l;
}

/// lattice of points
Parameters lattice(vh::Digits& d, bool th)
{
   static const double M[3][3] = {{1100, 1490, 1390}, {1400, 1000, 1200}, {900, 1900, 800}};
   pts::Spec s; s.mL3 = 870; s.mE3 = 660;
   const double* m = M[d.next(3)]; s.mQ3 = m[0]; s.mU3 = m[1]; s.mD3 = m[2];
   const int g = d.next(th ? 4 : 2); s.MG = g == 0 ? 1300 : g == 1 ? 2200 : g == 2 ? 700 : 950;
   const int c = d.next(th ? 4 : 2);
   if (c == 0) { s.tb = 5; s.yb = 0.3; s.ytau = 0.2; s.mu = 870; s.MA = 1600; s.Xt = -800; s.Ab = 700; s.Atau = 300; }
   if (c == 1) { s.tb = 30; s.yb = 0.6; s.ytau = 0.45; s.mu = -640; s.MA = 700; s.Xt = 1900; s.Ab = -900; s.Atau = -500; s.M1 = -300; }
   if (c == 2) { s.tb = 2; s.mu = 1500; s.MA = 2500; s.Xt = 400; s.Ab = 2100; s.Atau = 900; s.scale = 2000; }
   if (c == 3) { s.tb = 12; s.mu = 300; s.MA = 450; s.Xt = 2600; s.Ab = -1500; s.Atau = -1200; s.scale = 500; s.M2 = -900; }
   const int q = d.next(th ? 3 : 2); s.mQ = q == 0 ? 1500 : q == 1 ? 2600 : 6000; s.mU = s.mQ*1.04; s.mD = s.mQ*0.97;
   Parameters p = pts::make(s);
   p.mq2(0,0) *= 0.95; p.mu2(0,0) *= 1.1; p.md2(0,0) *= 1.2; p.ml2(0,0) *= 1.3; p.me2(0,0) *= 0.8;
   return p;
}
const std::size_t NQ = 3*2*2*2, NT = 3*4*4*3;

// ---- exchange of the first two generations, separately for every multiplet
void generations(std::size_t i, bool th, vh::Report& r)
{
   vh::Digits d(i); const int which = 1 + d.next(31); Parameters p = lattice(d, th), q = p;
   const auto sw = [] (RM33& m) { const RM33 c = m; m(0,0) = c(1,1); m(1,1) = c(0,0); };
   RM33* m[] = {&q.mq2, &q.mu2, &q.md2, &q.ml2, &q.me2};
   for (int k = 0; k < 5; k++) if (which >> k & 1) sw(*m[k]);
   p = valid(p); q = valid(q);
   const bool full = which == 31;
   compare("generations", everything(p), everything(q), [full] (const std::string& n) -> std::string {
      for (auto t : {"M2Su", "M2Sd", "M2Sc", "M2Ss", "M2Se", "M2Sm", "M2SveL", "M2SvmL", "ZU(", "ZC(", "ZD(", "ZS(", "ZE(", "ZM("}) if (starts(n, t)) {
         if (!full) return "";
         std::string o = n; static const char* x[][2] = {{"M2Su", "M2Sc"}, {"M2Sd", "M2Ss"}, {"M2SveL", "M2SvmL"}, {"M2Se", "M2Sm"}, {"ZU(", "ZC("}, {"ZD(", "ZS("}, {"ZE(", "ZM("}};
         for (auto& e : x) for (int k = 0; k < 2; k++) if (starts(n, e[k])) return e[1 - k] + n.substr(std::strlen(e[k]));
         return o;
      }
      return n; }, 1e-9, show(p) + " multiplets " + std::to_string(which), r);
}

// ---- common sign of higgsino, gaugino masses and trilinear couplings (gluino decoupled by g3 = 0: its mass is positive by convention)
void signs(std::size_t i, bool th, vh::Report& r)
{
   vh::Digits d(i); const int strong = d.next(2); Parameters p = lattice(d, th); if (!strong) p.g3 = 0;
   Parameters q = p; q.mu = -p.mu; q.M1 = -p.M1; q.M2 = -p.M2; q.Au = -p.Au; q.Ad = -p.Ad; q.Ae = -p.Ae;
   p = valid(p); q = valid(q);
   compare("signs", everything(p), everything(q), [strong] (const std::string& n) -> std::string {
      if (n[0] == 'Z' || starts(n, "UM") || starts(n, "UP")) return starts(n, "ZH") || starts(n, "ZA") || starts(n, "ZP") ? n : "";
      if (starts(n, "MChi")) return "-" + n;
      // terms with the gluino mass change sign relative to the rest
      if (has(n, "AS") || has(n, "G32") || starts(n, "DRbarPrimeToMSbar") || starts(n, "G3_")) return "";
      if (strong && (starts(n, "3l") || starts(n, "exp") || starts(n, "exact") || starts(n, "eft2") || starts(n, "eft3") || starts(n, "fo2") || starts(n, "Mh2.2"))) return "";
      if (has(n, "lambda") || has(n, "msbar") || has(n, "h3m") || has(n, ".eft") || has(n, "nonlog")) return strong || starts(n, "3l") ? "" : n;
      // without strong coupling only the terms with it vanish
      if (starts(n, "eft.") || starts(n, "LAMBDA")) return n;
      return n; }, 1e-8, show(p), r);
}


// ---- entries no correction depends on
const std::vector<std::string>& unused()
{
   static std::vector<std::string> v;
   if (v.empty()) for (auto& n : flds::names()) {
      const auto k = n.find('('); if (k == std::string::npos) continue;
      const int a = n[k+1] - '0', b = n[k+3] - '0';
      if (n[0] == 'm' && a != b) v.push_back(n);                        // generation mixing
      if (n[0] == 'A' && (a != 2 || b != 2)) v.push_back(n);            // trilinear couplings of the light generations
      if (n[0] == 'Y' && a != 2 && b != 2) v.push_back(n);              // Yukawa couplings of the light generations
   }
   return v;
}
void spectators(std::size_t i, bool th, vh::Report& r)
{
   vh::Digits d(i); const std::string& f = d.pick(unused()); Parameters p = lattice(d, th), q = p; bool hit = false;
   std::string other = f; const auto k = f.find('('); if (f[0] == 'm') std::swap(other[k+1], other[k+3]);
   flds::each(q, [&] (const std::string& n, double& v) { if (n == f || n == other) { v = n[0] == 'm' ? 3e5 : n[0] == 'A' ? 2500 : 0.03; hit = true; } });
   r.check("field " + f, hit, "");
   p = valid(p); q = valid(q);
   compare("spectators", everything(p), everything(q), nullptr, 0, show(p) + " " + f, r);
}

/// the mean mass of the other squarks always contains the sbottoms: adjust the first generation such that it is the same
void same_msq(Parameters& q, const Parameters& p) { q.mu2(0,0) *= std::pow(p.calculateMsq2()/q.calculateMsq2(), 10); }

// ---- exchange of up- and down-type: (vu, Yu, Au, mu2) <-> (vd, Yd, Ad, md2)
std::string ends(std::string n, char a, char b)
{ const auto k = n.find('('); if (k == std::string::npos) return n; n[k+1] = '0' + 1 - (n[k+1] - '0'); n[k+3] = '0' + 1 - (n[k+3] - '0'); (void)a; (void)b; return n; }
void mirror(std::size_t i, bool th, vh::Report& r)
{
   vh::Digits d(i); Parameters p = lattice(d, th); p.g1 = 0; p.Ye.setZero();   // SU(2) alone treats both alike
   p = valid(p); Parameters q = p;
   std::swap(q.vu, q.vd); std::swap(q.Yu, q.Yd); std::swap(q.Au, q.Ad); std::swap(q.mu2, q.md2); std::swap(q.Mt, q.Mb);
   q = valid(q); same_msq(q, p);
   const std::string pt = show(p);
   r.close("mirror MSt", q.MSt(0), p.MSb(0), 1e-9*p.MSb(0), pt); r.close("mirror MSb", q.MSb(1), p.MSt(1), 1e-9*p.MSt(1), pt);
   r.close("mirror s2t", q.s2t, p.s2b, 1e-9, pt);
   compare("mirror", everything(p), everything(q), [] (const std::string& n) -> std::string {
      static const char* x[][2] = {{"LAMBDA_AT/", "LAMBDA_YB4/"}, {"LAMBDA_AT_AS/", "LAMBDA_YB4_G32/"}, {"YT_AS/", "YB_AS/"}, {"YT_YT/", "YB_YB/"}, {"YT_YB/", "YB_YT/"}, {"VEV_YT2/", "VEV_YB2/"},
         {"LAMBDA_YT2_G22/", "LAMBDA_YB2_G22/"}, {"fo2.G32YT4", "fo2.G32YB4"}};
      if (has(n, "/test")) return "";
      // without logarithms the formulas refer to different scales; the terms of O(y^6) are given for different definitions of the Yukawa couplings
      if ((has(n, "LAMBDA_AT/") || has(n, "LAMBDA_YB4/") || starts(n, "YT_AS/") || starts(n, "YB_AS/")) && has(n, "/log")) return "";
      for (auto& e : x) for (int k = 0; k < 2; k++) if (starts(n, e[k])) { const std::string o = e[1 - k] + n.substr(std::strlen(e[k])); return has(n, "/at") ? "" : ends(o, 0, 0); }
      if ((starts(n, "fo") || starts(n, "Mh2")) && !has(n, "/at")) return ends(n, 0, 0);
      for (auto e : {"exp", "exact"}) if (starts(n, e)) { std::string o = n; for (auto& ch : o) if (ch == '.') break; else if (&ch - &o[0] >= int(std::strlen(e))) { if (ch == 't') { ch = 'b'; break; } if (ch == 'b') { ch = 't'; break; } }
         return has(n, "mst") ? o : ends(o, 0, 0); }
      if (starts(n, "3l.")) {
         std::string o = n; o[3] = n[3] == 't' ? 'b' : 't';
         if (has(n, "mdrmass")) return o;
         for (auto e : {"suitable", "absdiff", "reldiff", ".dmh(", ".dmh2", "expunc", "mdrshift", "h3mshift"}) if (has(n, e)) return ends(o, 0, 0);
      }
      return ""; }, 1e-7, pt, r);
}

// ---- left <-> right: exchange of the soft masses of the two partners of one fermion without electroweak gauge couplings
void chirality(std::size_t i, bool th, vh::Report& r)
{
   vh::Digits d(i); int sec = d.next(4); const bool all = sec == 3; if (all) sec = 0; Parameters p = lattice(d, th), q; 
   // sin^2(theta_W) for which the D terms of both partners agree: T3 - Q sw^2 = Q sw^2
   const double sw2 = sec == 0 ? 3./8 : sec == 1 ? 3./4 : 1./4, gg = 0.55; p.g2 = std::sqrt(gg*(1 - sw2)); p.g1 = std::sqrt(gg*sw2*5/3);
   q = p;
   std::swap(sec == 2 ? q.ml2(2,2) : q.mq2(2,2), sec == 0 ? q.mu2(2,2) : sec == 1 ? q.md2(2,2) : q.me2(2,2));
   // all squarks of the third generation at once
   if (all) { p.md2(2,2) = p.mu2(2,2); q.md2(2,2) = q.mu2(2,2); }
   p = valid(p); q = valid(q); same_msq(q, p);
   compare(std::string("chirality") + (all ? "s" : std::to_string(sec)), everything(p), everything(q), [sec,all] (const std::string& n) -> std::string {
      const auto any = [&n] (std::initializer_list<const char*> l) { for (auto e : l) if (starts(n, e)) return true; return false; };
      // the unknown constant is zero at the mass of the doublet, which also contains the left sbottom
      if (starts(n, "LAMBDA_AT_AS2") || has(n, "eftat") || (starts(n, "3l.t.") && (has(n, "3.lambda") || has(n, "msbar") || has(n, ".eft") || has(n, "h3m") || has(n, "nonlog")))) return "";
      if (all && (any({"YT_AS2", "G3_AS", "DRbarPrimeToMSbar"}))) return n;
      if (sec == 0) {
         if (any({"LAMBDA_AT", "YT_AS/", "VEV_YT2", "eft1", "eft.G32YT4", "eft.YT4", "fo2.G32YT4", "M2St"})) return n;
         if (any({"fo1g/at", "fo1d/at"})) return n;
         if (n.size() > 4 && (any({"exp", "exact"}) && n.find('t', n[2] == 'p' ? 3 : 5) < n.find('.'))) return n;
         if (any({"3l.t."}) && !has(n, ".fo") ) return n;
      } else if (sec == 1) {
         if (any({"LAMBDA_YB4", "YB_AS/", "VEV_YB2", "eft.G32YB4", "eft.YB4", "fo2.G32YB4", "M2Sb"})) return n;
         if (any({"exp", "exact"}) && n.find('b') < n.find('.')) return n;
      } else if (any({"LAMBDA_YTAU4/", "VEV_YTAU2", "eft.YTAU4/", "M2Stau"})) return n;
      return ""; }, 1e-6, show(p) + " sector " + std::to_string(sec), r);
}

// ---- a correction depends only on the sectors its couplings connect
using Set = std::set<std::string>;
const Set& group(char g)
{
   static const std::map<char, Set> m = {
      {'T', {"Au(2,2)", "Yu(2,2)", "Mt", "MW", "MZ", "mq2(2,2)", "mu2(2,2)", "mu", "vu", "vd"}},
      {'B', {"Ad(2,2)", "Yd(2,2)", "Mb", "MW", "MZ", "mq2(2,2)", "md2(2,2)", "mu", "vu", "vd"}},
      {'L', {"Ae(2,2)", "Ye(2,2)", "Mtau", "MW", "MZ", "ml2(2,2)", "me2(2,2)", "mu", "vu", "vd"}},
      {'S', {"MG"}}, {'3', {"g3"}}, {'2', {"g2"}}, {'1', {"g1"}}, {'s', {"scale"}}, {'A', {"MA"}}, {'t', {"Mt"}}, {'b', {"Mb"}}, {'h', {"mu"}}, {'v', {"vu", "vd"}}, {'W', {"M2"}}, {'Y', {"M1"}}, {'Z', {"MZ"}}, {'w', {"MW"}},
      {'Q', {"mq2(0,0)", "mq2(1,1)", "mq2(2,2)", "mu2(0,0)", "mu2(1,1)", "mu2(2,2)", "md2(0,0)", "md2(1,1)", "md2(2,2)"}},
      {'q', {"mq2(0,0)", "mq2(1,1)", "mq2(2,2)", "mu2(0,0)", "mu2(1,1)", "md2(0,0)", "md2(1,1)", "md2(2,2)"}},   // without the right stop
      {'D', {"mq2(0,0)", "mq2(1,1)", "mq2(2,2)", "ml2(0,0)", "ml2(1,1)", "ml2(2,2)"}},
      {'E', {"ml2(0,0)", "ml2(1,1)", "ml2(2,2)", "me2(0,0)", "me2(1,1)", "me2(2,2)"}},
      {'y', {"Yu(2,2)", "Yd(2,2)", "Ye(2,2)"}},
   };
   return m.at(g);
}
/// sectors a number may depend on, "*" if everything
std::string sectors(const std::string& n)
{
   struct X { const char* name; const char* dep; };
   static const X thr[] = {
      {"G3_AS", "TBQSs"}, {"YT_AS2", "TQSsb"}, {"YT_AS", "TSs"}, {"LAMBDA_AT_AS2", "TQSsb"}, {"DRbarPrimeToMSbar", "TQSsb"}, {"LAMBDA_AT_AS", "TSs"}, {"LAMBDA_AT", "Ts"},
      {"LAMBDA_YB2_G", "Bs"}, {"LAMBDA_YB4_G32", "BSs"}, {"LAMBDA_YB4", "Bs"}, {"LAMBDA_YT2_G", "Ts"}, {"LAMBDA_YTAU2_G", "Ls"}, {"LAMBDA_YTAU4_YB2", "LBs"}, {"LAMBDA_YTAU2_YB4", "LBs"}, {"LAMBDA_YTAU4", "Ls"},
      {"LAMBDA_G14", "QEAvs"}, {"LAMBDA_G24", "DAvs"}, {"LAMBDA_G12_G22", "Avs"}, {"LAMBDA_REG", "v"}, {"LAMBDA_CHI_G14", "Yhvs"}, {"LAMBDA_CHI_G24", "Whvs"}, {"LAMBDA_CHI_G12_G22", "YWhvs"},
      {"G1_G1", "QEAhs"}, {"G2_G2", "DAWhs"}, {"VEV_YT2", "T"}, {"VEV_YB2", "B"}, {"VEV_YTAU2", "L"}, {"YT_YB/", "BAs"}, {"YT_YT", "TAs"}, {"YB_YT/", "TAs"}, {"YB_YB", "BAs"}, {"YTAU_YTAU", "LAs"}, {"YTAU_YB", "B"}, {"YB_YTAU", "L"}, {"YB_AS", "BSs"},
      {"LAMBDA_YB6", "BAs"}, {"LAMBDA_YT6", "TAs"}, {"LAMBDA_YTAU6", "LAs"}, {"LAMBDA_YT2_YB4", "TBAs"}, {"LAMBDA_YT4_YB2", "TBAs"},
      // corrections of the effective theory, the logarithms of which refer to the top mass
      {"eft.G12YT2", "TZ1s"}, {"eft.G22YT2", "TZ2s"}, {"eft.YT4", "TZs"}, {"eft.G12YB2", "BtZ1s"}, {"eft.G22YB2", "BtZ2s"}, {"eft.YB4", "BtZs"}, {"eft.G12YTAU2", "LtZ1s"}, {"eft.G22YTAU2", "LtZ2s"}, {"eft.YTAU4", "LtZs"},
      {"eft.G12G22", "YWAhvtZw12s"}, {"eft.G14", "QEAYhvtZw1s"}, {"eft.G24", "DAWhvtZw2s"}, {"eft.G32YT4", "TSs3"}, {"eft.G32YB4", "BSst3"}, {"eft.YT6", "TAs"}, {"eft.YB6", "BtAs"}, {"eft.YTAU6", "LtAs"}, {"eft.YT2YB4", "TBAs"}, {"eft.YB2YT4", "TBAs"}, {"eft.YTAU2YB4", "LBts"}, {"eft.YTAU4YB2", "LBts"},
      {"eft0", "Zv"}, {"eft1", "TZs"}, {"eft2", "TASs3"}, {"eft3", "TQSsb3"},
      // fixed order
      {"fo0g", "Av"}, {"fo0/at", "Av"}, {"fo0(", "Av12"}, {"fo1g/at", "Ts"}, {"fo1d/at", "Ts"}, {"fo2it/at", "Ts"}, {"fo1g", "TBLs"}, {"fo1d", "TBLs"}, {"fo2it", "TBLs"}, {"fo1/at", "TBLAs"}, {"fo1", "QETBLAYW12s"},
      {"fo2.G32YT4", "TSs3"}, {"fo2.G32YB4", "BSs3"}, {"fo2.YT6", "TBAs"}, {"fo2.YTAU6", "LAs"}, {"fo2.YTAU2YB4", "TBLAs"}, {"Mh2.0/at", "Av"}, {"Mh2.0", "Av12"},
      // spectrum
      {"M2VWm", "2v"}, {"M2VZ", "12v"}, {"MFt", "Tv"}, {"MFb", "Bv"}, {"MFtau", "Lv"}, {"M2SveL", "E12v"}, {"M2Su", "Q12v"}, {"M2Sd", "Q12v"}, {"M2Sc", "Q12v"}, {"M2Ss", "Q12v"}, {"M2Stau", "L12"}, {"M2St", "T12"}, {"M2Sb", "B12"}, {"M2Se", "E12v"}, {"M2Sm", "E12v"},
      {"M2hh", "A12v"}, {"M2Ah", "A12v"}, {"M2Hpm", "A12v"}, {"MChi", "YWh12v"}, {"MCha", "Wh2v"},
      // three loops
      {"exactt", "TQSs3b"}, {"exactb", "BqSs3"},
   };
   const X* best = nullptr;
   for (auto& x : thr) if (starts(n, x.name) && (!best || std::strlen(x.name) > std::strlen(best->name))) best = &x;
   if (best) {
      std::string d = best->dep;
      // all logarithms of the renormalization scale omitted
      const bool threshold = has(n, "/log") && n[0] != 'e' && (!starts(n, "DRbarPrime") || has(n, "xtlogs")); const bool both = starts(n, "eft") && has(n, "/00");
      if (threshold || both) d.erase(std::remove(d.begin(), d.end(), 's'), d.end());
      if (starts(n, "fo") || starts(n, "Mh2")) d += 'y';
      if (starts(n, "exact") && n.find(".shift") != std::string::npos) d += 'A';
      return d;
   }
   if (starts(n, "exp")) { const bool t = n.find('t') < n.find('.'); std::string d = t ? "TQSs3b" : "BqSs3"; if (has(n, "unc")) d += 'A'; return d; }
   if (starts(n, "3l.") && !has(n, ".fo")) {
      const bool t = n[3] == 't';
      for (auto e : {".0.dmh", ".0.lambda", ".0.eftat"}) if (has(n, e)) return "AZv";
      if (has(n, "h3mshift")) return t ? "TQSs3b" : "BqSs3";
      for (auto e : {"lambda", "msbar", "h3m", "nonlog", "3l.t.eft", "eftat"}) if (has(n, e)) return std::string(has(n, "eftat") || !t ? "A" : "") + "TQSs3bZ";
      return t ? "TQSs3bA" : "BqSs3A";
   }
   return "*";
}
void sector(std::size_t i, bool th, vh::Report& r)
{
   static const std::vector<std::string> F = {"scale", "mu", "g1", "g2", "g3", "vd", "vu", "mq2(0,0)", "mq2(1,1)", "mq2(2,2)", "md2(0,0)", "md2(1,1)", "md2(2,2)", "mu2(0,0)", "mu2(1,1)", "mu2(2,2)", "ml2(0,0)", "ml2(1,1)", "ml2(2,2)", "me2(0,0)", "me2(1,1)", "me2(2,2)",
      "Au(2,2)", "Ad(2,2)", "Ae(2,2)", "Yu(2,2)", "Yd(2,2)", "Ye(2,2)", "M1", "M2", "MG", "MW", "MZ", "Mt", "Mb", "Mtau", "MA"};
   vh::Digits d(i); const std::string& f = d.pick(F); const double fac = d.next(2) ? 1.02 : 1.25; Parameters p = valid(lattice(d, th)), q = p;
   flds::each(q, [&] (const std::string& n, double& v) { if (n == f) v *= fac; });
   try { q = valid(q); } catch (const std::exception&) { r.count("rejected"); return; }
   const auto a = everything(p), b = everything(q);
   compare("sector", a, b, [&] (const std::string& n) -> std::string {
      const std::string s = sectors(n); if (s == "*") { r.count("unrestricted"); return ""; }
      for (char c : s) if (group(c).count(f)) return "";
      return n; }, 1e-12, show(p) + " " + f + " * " + vh::fmt(fac), r);
}

// ---- relabelled eigenstates, exchanged fermions in the stand-alone two-loop corrections
using M2 = Eigen::Matrix2d;
void labels(std::size_t i, vh::Report& r)
{
   using namespace mh2l;
   static const double X[] = {0, 0.2, 0.7, -0.5, 1.5}, M[] = {600, 900, 1500}, TB[] = {2, 10, 40};
   vh::Digits d(i); const double t1 = d.pick(X), t2 = d.pick(X), tb = d.pick(TB), mg = 1.1*d.pick(M), mu = (d.next(2) ? 1 : -1)*730., Q = d.next(2) ? 1e6 : 4e5;
   const double a = std::pow(d.pick(M), 2), b = 1.2*std::pow(d.pick(M), 2), c = 1.4*std::pow(d.pick(M), 2), e = 0.9*1.1e6, A = 1.3e6, v2 = 60000, mt = 25600, mb = 400, ml = 90;
   // the numerical noise of the O(at*at) corrections grows with tan(beta) and the ratio of the fermion masses
   const double tba = tb == 2 ? 1.3 : tb == 10 ? 2 : 3, mba = 8100;
   const double s = std::sin(t1), k = std::cos(t1), S = std::sin(t2), K = std::cos(t2);
   std::ostringstream o; o << "theta=" << t1 << "," << t2 << " tb=" << tb << " mg=" << mg << " mu=" << mu << " m2=" << a << "," << b << "," << c; const std::string pt = o.str();
   const auto same = [&] (const std::string& n, const M2& x, const M2& y, double tol) {
      const double sc = std::max(x.cwiseAbs().maxCoeff(), y.cwiseAbs().maxCoeff());
      for (int h = 0; h < 4; h++) { r.close(n, x(h/2,h%2), y(h/2,h%2), tol*sc, pt); if (x(h/2,h%2) != 0) r.count("nonzero.labels"); }
      r.maxi("deviation of " + n, (x - y).cwiseAbs().maxCoeff()/sc);
      r.count("evaluations"); r.count("numbers", 4); r.state(vh::mix(vh::bits(x(0,0)), n.size())); };
   const auto turn = [] (M2 m) { std::swap(m(0,0), m(1,1)); return m; };
   for (int h = 0; h < 2; h++) {
      // theta -> theta + pi/2 exchanges the eigenstates
      same("at_as relabelled", delta_mh2_2loop_at_as(mt, mg, a, b, s, k, Q, mu, tb, v2, 1.1, h), delta_mh2_2loop_at_as(mt, mg, b, a, k, -s, Q, mu, tb, v2, 1.1, h), 1e-6);
      same("ab_as relabelled", delta_mh2_2loop_ab_as(mb, mg, a, b, s, k, Q, mu, 1/tb, v2, 1.1, h), delta_mh2_2loop_ab_as(mb, mg, b, a, k, -s, Q, mu, 1/tb, v2, 1.1, h), 1e-6);
      same("atau_atau relabelled", delta_mh2_2loop_atau_atau(ml, A, c, a, b, s, k, Q, mu, tb, v2, h), delta_mh2_2loop_atau_atau(ml, A, c, b, a, k, -s, Q, mu, tb, v2, h), 1e-6);
      for (int t = 0; t < 2; t++) {
         same("at_at top relabelled", delta_mh2_2loop_at_at(mt, mba, A, a, b, c, e, s, k, S, K, Q, mu, tba, v2, h, t), delta_mh2_2loop_at_at(mt, mba, A, b, a, c, e, k, -s, S, K, Q, mu, tba, v2, h, t), 1e-3);
         same("at_at bottom relabelled", delta_mh2_2loop_at_at(mt, mba, A, a, b, c, e, s, k, S, K, Q, mu, tba, v2, h, t), delta_mh2_2loop_at_at(mt, mba, A, a, b, e, c, s, k, K, -S, Q, mu, tba, v2, h, t), 1e-3);
      }
      same("ab_atau tau relabelled", delta_mh2_2loop_ab_atau(ml, mb, a, b, c, e, s, k, S, K, Q, mu, tb, v2, h), delta_mh2_2loop_ab_atau(ml, mb, b, a, c, e, k, -s, S, K, Q, mu, tb, v2, h), 1e-6);
      same("ab_atau bottom relabelled", delta_mh2_2loop_ab_atau(ml, mb, a, b, c, e, s, k, S, K, Q, mu, tb, v2, h), delta_mh2_2loop_ab_atau(ml, mb, a, b, e, c, s, k, K, -S, Q, mu, tb, v2, h), 1e-6);
      // tau <-> bottom, top <-> bottom
      same("ab_atau exchanged", delta_mh2_2loop_ab_atau(ml, mb, a, b, c, e, s, k, S, K, Q, mu, tb, v2, h), delta_mh2_2loop_ab_atau(mb, ml, c, e, a, b, S, K, s, k, Q, mu, tb, v2, h), 1e-6);
      same("at_at exchanged", delta_mh2_2loop_at_at(mt, mba, A, a, b, c, e, s, k, S, K, Q, mu, tba, v2, h, 0), turn(delta_mh2_2loop_at_at(mba, mt, A, c, e, a, b, S, K, s, k, Q, mu, 1/tba, v2, h, 0)), 1e-3);
      same("at_as exchanged", delta_mh2_2loop_at_as(mt, mg, a, b, s, k, Q, mu, tb, v2, 1.1, h), turn(delta_mh2_2loop_ab_as(mt, mg, a, b, s, k, Q, mu, tb, v2, 1.1, h)), 1e-6);
      // mixing angle of left and right states, sign of the gluino mass
      same("at_as left-right", delta_mh2_2loop_at_as(mt, mg, a, b, s, k, Q, mu, tb, v2, 1.1, h), delta_mh2_2loop_at_as(mt, mg, a, b, k, s, Q, mu, tb, v2, 1.1, h), 1e-6);
      same("at_as signs", delta_mh2_2loop_at_as(mt, mg, a, b, s, k, Q, mu, tb, v2, 1.1, h), delta_mh2_2loop_at_as(mt, -mg, a, b, -s, k, Q, -mu, tb, v2, 1.1, h), 1e-6);
      same("ab_as signs", delta_mh2_2loop_ab_as(mb, mg, a, b, s, k, Q, mu, 1/tb, v2, 1.1, h), delta_mh2_2loop_ab_as(mb, -mg, a, b, -s, k, Q, -mu, 1/tb, v2, 1.1, h), 1e-6);
      same("at_at signs", delta_mh2_2loop_at_at(mt, mba, A, a, b, c, e, s, k, S, K, Q, mu, tba, v2, h, 0), delta_mh2_2loop_at_at(mt, mba, A, a, b, c, e, -s, k, -S, K, Q, -mu, tba, v2, h, 0), 1e-3);
      same("atau_atau signs", delta_mh2_2loop_atau_atau(ml, A, c, a, b, s, k, Q, mu, tb, v2, h), delta_mh2_2loop_atau_atau(ml, A, c, a, b, -s, k, Q, -mu, tb, v2, h), 1e-6);
      same("ab_atau signs", delta_mh2_2loop_ab_atau(ml, mb, a, b, c, e, s, k, S, K, Q, mu, tb, v2, h), delta_mh2_2loop_ab_atau(ml, mb, a, b, c, e, -s, k, -S, K, Q, -mu, tb, v2, h), 1e-6);
   }
}

// ---- colour: without strong interaction taus are colourless bottoms; without Yukawa couplings all generations are equal
void colour(std::size_t i, bool th, vh::Report& r)
{
   vh::Digits d(i); const double y = d.next(2) ? 0.5 : 0.2; Parameters p = lattice(d, th); p.Yu(2,2) = 0;
   Parameters q = p; p.Yd(2,2) = y; p.Ye(2,2) = 0; q.Ye(2,2) = y; q.Yd(2,2) = 0;
   q.ml2(2,2) = p.mq2(2,2); q.me2(2,2) = p.md2(2,2); q.Ae(2,2) = p.Ad(2,2);
   p = valid(p); q = valid(q); const std::string pt = show(p);
   const auto third = [&] (const std::string& n, double b, double l) { r.close("colour " + n, l, b/3, 1e-9*std::abs(b), pt); if (b != 0) r.count("nonzero.colour"); };
   const mh2_fo::MSSM_mass_eigenstates a(p), b(q);
   for (int k = 0; k < 4; k++) { const std::string e = "(" + std::to_string(k/2) + "," + std::to_string(k%2) + ")";
      third("fo1g" + e, a.delta_mh2_1loop_gaugeless()(k/2,k%2), b.delta_mh2_1loop_gaugeless()(k/2,k%2)); third("fo1d" + e, a.delta_mh2_1loop_gaugeless_deriv()(k/2,k%2), b.delta_mh2_1loop_gaugeless_deriv()(k/2,k%2)); }
   const mh2_eft::ThresholdCalculator t(p, false), u(q, false); using T = mh2_eft::ThresholdCouplingOrders; const auto S = mh2_eft::RenSchemes::DRBARPRIME;
   for (int o = 0; o < 2; o++) {
      third("lambda y4", t.getThresholdCorrection(T::LAMBDA_YB4, S, o), u.getThresholdCorrection(T::LAMBDA_YTAU4, S, o));
      third("lambda y2 g22", t.getThresholdCorrection(T::LAMBDA_YB2_G22, S, o), u.getThresholdCorrection(T::LAMBDA_YTAU2_G22, S, o));
      third("vev", t.getThresholdCorrection(T::VEV_YB2, S, o), u.getThresholdCorrection(T::VEV_YTAU2, S, o));
   }
}
void flavour(std::size_t i, bool th, vh::Report& r)
{
   vh::Digits d(i); const int which = 1 + d.next(31); Parameters p = lattice(d, th); p.Yu.setZero(); p.Yd.setZero(); p.Ye.setZero(); Parameters q = p;
   const auto sw = [] (RM33& m) { const RM33 c = m; m(0,0) = c(2,2); m(2,2) = c(0,0); };
   RM33* m[] = {&q.mq2, &q.mu2, &q.md2, &q.ml2, &q.me2};
   for (int k = 0; k < 5; k++) if (which >> k & 1) sw(*m[k]);
   p = valid(p); q = valid(q);
   obs::List a, b;
   for (int k = 0; k < 2; k++) {
      const Parameters& x = k ? q : p; obs::List& l = k ? b : a; const mh2_fo::MSSM_mass_eigenstates f(x);
      for (double g : {0., 0.01, 4.}) l.mat("fo1/p" + std::to_string(g), f.delta_mh2_1loop(g*x.MA*x.MA), 2);
      const mh2_eft::ThresholdCalculator t(x, false); using T = mh2_eft::ThresholdCouplingOrders;
      for (auto& n : obs::threshold_names()) if (n.second == T::LAMBDA_G14 || n.second == T::LAMBDA_G24 || n.second == T::LAMBDA_G12_G22 || n.second == T::G1_G1 || n.second == T::G2_G2)
         for (int o = 0; o < 2; o++) l.add(n.first + (o ? "/nolog" : "/log"), t.getThresholdCorrection(n.second, mh2_eft::RenSchemes::DRBARPRIME, o), 0);
   }
   compare("flavour", a, b, nullptr, 1e-9, show(p) + " multiplets " + std::to_string(which), r);
}

} // namespace

int main(int argc, char** argv)
{
   vh::Check c; c.id = "P15"; c.level = "exploration"; c.rule = "value of the first number of each group";
   const bool th = vh::thorough(); const std::size_t N = th ? NT : NQ;
   const auto fam = [&] (const char* n, const std::string& sp, std::size_t sz, std::function<void(std::size_t, vh::Report&)> f) { vh::Family x; x.name = n; x.space = sp; x.size = sz; x.run = f; c.families.push_back(x); };
   fam("generations", "lattice of points x subsets of the five multiplets, the first two generations of which are exchanged", N*31, [=] (std::size_t i, vh::Report& r) { generations(i, th, r); });
   fam("signs", "lattice of points x with and without strong interaction: mu, M1, M2 and all trilinear couplings change sign", N*2, [=] (std::size_t i, vh::Report& r) { signs(i, th, r); });
   fam("spectators", "lattice of points x every entry of the parameters no correction refers to", N*unused().size(), [=] (std::size_t i, vh::Report& r) { spectators(i, th, r); });
   fam("mirror", "lattice of points: exchange of up- and down-type fields without hypercharge", N, [=] (std::size_t i, vh::Report& r) { mirror(i, th, r); });
   fam("chirality", "lattice of points x {stops, sbottoms, staus, all squarks}: exchange of left- and right-handed fields", N*4, [=] (std::size_t i, vh::Report& r) { chirality(i, th, r); });
   fam("sector", "lattice of points x 37 parameters x 2 factors: corrections do not depend on parameters of other sectors", N*37*2, [=] (std::size_t i, vh::Report& r) { sector(i, th, r); });
   fam("labels", "mixing angles x tan(beta) x masses x scale: relabelled eigenstates, exchanged fermions, signs in the stand-alone two-loop corrections", 25*3*3*2*2*27, labels);
   fam("colour", "lattice of points x 2 couplings: taus are colourless bottoms", N*2, [=] (std::size_t i, vh::Report& r) { colour(i, th, r); });
   fam("flavour", "lattice of points without Yukawa couplings x subsets of multiplets, the first and third generation of which are exchanged", N*31, [=] (std::size_t i, vh::Report& r) { flavour(i, th, r); });
   c.c_states = "@distinct"; c.c_transitions = "evaluations"; c.c_traces = "comparisons";
   for (auto n : {"generations", "signs", "spectators", "mirror", "chirality0", "chirality1", "chirality2", "chiralitys", "sector", "labels", "colour", "flavour"}) c.required.push_back(std::string("nonzero.") + n);
   return vh::run(argc, argv, c);
}
