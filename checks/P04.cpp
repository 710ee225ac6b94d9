// P04: the result record is a faithful map.  Explicit-state exploration of all
// operation sequences up to a depth over a small alphabet, on the real class,
// against a boring reference record, comparing EVERY observation after EVERY step.
#include "vh.hpp"
#include "himalaya/HierarchyObject.hpp"
#include "himalaya/misc/Numerics.hpp"
#include <array>
#include <limits>
#include <memory>
#include <stdexcept>

using himalaya::HierarchyObject;
using M2 = Eigen::Matrix2d;

namespace {

// ---- reference model -------------------------------------------------------
struct Model {
   bool ab = false; int hier = 0, mdr = 0, ren = 1;
   double absd = 0, reld = 0, h3m = 0, eft = 0, nonlog = 0, xt = 0;
   std::array<double,4> unc{}, dmh2{}, lam{}, msshift{}, eft2{}, fo{}, foat{};
   std::array<std::array<double,4>,4> dmh{};
   std::array<double,4> mdrshift{}, h3mshift{};
   std::array<double,2> mdrm{};
   std::uint64_t hash() const {
      std::uint64_t h = ab; h = vh::mix(h, hier); h = vh::mix(h, mdr); h = vh::mix(h, ren);
      for (double d : {absd, reld, h3m, eft, nonlog, xt}) h = vh::mix(h, vh::bits(d));
      for (auto* a : {&unc, &dmh2, &lam, &msshift, &eft2, &fo, &foat, &mdrshift, &h3mshift, &dmh[0], &dmh[1], &dmh[2], &dmh[3]})
         for (double d : *a) h = vh::mix(h, vh::bits(d));
      for (double d : mdrm) h = vh::mix(h, vh::bits(d));
      return h;
   }
};

const int LOOPS[] = {-2147483647-1, -1, 0, 1, 2, 3, 4, 2147483647};
const double VAL[] = {1.25, -3.5};
M2 mat(double s) { M2 m; m << s, 2*s, 3*s, 5*s; return m; }
std::array<double,4> flat(const M2& m) { return {m(0,0), m(0,1), m(1,0), m(1,1)}; }

struct Op { std::string name; std::function<void(HierarchyObject&)> real; std::function<bool(Model&)> model; /* false: must be rejected */ };

std::vector<Op> alphabet()
{
   std::vector<Op> a;
   const auto indexed = [&a] (const char* n, int lo, std::array<double,4> Model::* f, void (HierarchyObject::*set)(int, double)) {
      for (int l : LOOPS) for (double v : VAL)
         a.push_back({std::string(n) + "(" + std::to_string(l) + "," + std::to_string(v) + ")",
            [=] (HierarchyObject& h) { (h.*set)(l, v); },
            [=] (Model& m) { if (l < lo || l > 3) return false; (m.*f)[l] = v; return true; }});
   };
   indexed("setDMhExpUncertainty", 1, &Model::unc, &HierarchyObject::setDMhExpUncertainty);
   indexed("setDMh2", 0, &Model::dmh2, &HierarchyObject::setDMh2);
   indexed("setDLambda", 0, &Model::lam, &HierarchyObject::setDLambda);
   indexed("setDLambdaDRbarPrimeToMSbarShift", 0, &Model::msshift, &HierarchyObject::setDLambdaDRbarPrimeToMSbarShift);
   indexed("setDMh2EFT", 0, &Model::eft2, &HierarchyObject::setDMh2EFT);
   indexed("setDMh2FO", 0, &Model::fo, &HierarchyObject::setDMh2FO);
   indexed("setDMh2FOAt", 0, &Model::foat, &HierarchyObject::setDMh2FOAt);
   for (int l : LOOPS) for (double v : VAL)
      a.push_back({"setDMh(" + std::to_string(l) + ")", [=] (HierarchyObject& h) { h.setDMh(l, mat(v)); },
         [=] (Model& m) { if (l < 0 || l > 3) return false; m.dmh[l] = flat(mat(v)); return true; }});
   const auto scalar = [&a] (const char* n, double Model::* f, void (HierarchyObject::*set)(double)) {
      for (double v : VAL) a.push_back({n, [=] (HierarchyObject& h) { (h.*set)(v); }, [=] (Model& m) { m.*f = v; return true; }});
   };
   scalar("setAbsDiff2L", &Model::absd, &HierarchyObject::setAbsDiff2L);
   scalar("setRelDiff2L", &Model::reld, &HierarchyObject::setRelDiff2L);
   scalar("setDLambdaH3m", &Model::h3m, &HierarchyObject::setDLambdaH3m);
   scalar("setDLambdaEFT", &Model::eft, &HierarchyObject::setDLambdaEFT);
   scalar("setDLambdaNonLog", &Model::nonlog, &HierarchyObject::setDLambdaNonLog);
   scalar("setDLambdaXtUncertainty", &Model::xt, &HierarchyObject::setDLambdaXtUncertainty);
   for (double v : VAL) {
      a.push_back({"setMDRshift", [=] (HierarchyObject& h) { h.setDMhDRbarPrimeToMDRbarPrimeShift(mat(v)); }, [=] (Model& m) { m.mdrshift = flat(mat(v)); return true; }});
      a.push_back({"setH3mShift", [=] (HierarchyObject& h) { h.setDMhDRbarPrimeToH3mShift(mat(v)); }, [=] (Model& m) { m.h3mshift = flat(mat(v)); return true; }});
   }
   const double mm[][2] = {{1,2},{2,1},{7,7},{-3,4},{4,-3}};
   for (auto& x : mm) { const double p = x[0], q = x[1];
      a.push_back({"setMDRMasses", [=] (HierarchyObject& h) { Eigen::Vector2d v; v << p, q; h.setMDRMasses(v); },
         [=] (Model& m) { m.mdrm = {p < q ? p : q, p < q ? q : p}; return true; }}); }
   for (int f : {-1, 0, 1, 2, 3}) a.push_back({"setMDRFlag(" + std::to_string(f) + ")", [=] (HierarchyObject& h) { h.setMDRFlag(f); }, [=] (Model& m) { if (f != 0 && f != 1) return false; m.mdr = f; return true; }});
   for (int f = -2; f <= 6; f++) a.push_back({"setRenormalizationScheme(" + std::to_string(f) + ")", [=] (HierarchyObject& h) { h.setRenormalizationScheme(f); }, [=] (Model& m) { if (f < 0 || f > 3) return false; m.ren = f; return true; }});
   for (int f : {-1, 0, 5, 13, 14}) a.push_back({"setSuitableHierarchy(" + std::to_string(f) + ")", [=] (HierarchyObject& h) { h.setSuitableHierarchy(f); }, [=] (Model& m) { m.hier = f; return true; }});
   return a;
}

const std::vector<Op>& ops() { static const auto a = alphabet(); return a; }
const char* NAMES[] = {"h3","h32q2g","h3q22g","h4","h5","h5g1","h6","h6b","h6b2qg2","h6bq22g","h6bq2g2","h6g2","h9","h9q2"};

template <class F> bool rejected(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }

/// compares every observation; out-of-range reads only in the full comparison
void observe(const HierarchyObject& h, const Model& m, vh::Report& r, const std::string& ctx, bool full)
{
   bool ok = true; std::string bad;
   const auto eq = [&] (const char* n, double a, double b) { if (!(a == b)) { ok = false; bad += std::string(" ") + n + "=" + vh::fmt(a) + " expected " + vh::fmt(b); } };
   const auto eqm = [&] (const char* n, const M2& a, const std::array<double,4>& b) { const auto f = flat(a); for (int i = 0; i < 4; i++) eq(n, f[i], b[i]); };
   eq("isAlphab", h.getIsAlphab(), m.ab); eq("hierarchy", h.getSuitableHierarchy(), m.hier); eq("mdrFlag", h.getMDRFlag(), m.mdr);
   eq("scheme", h.getRenormalizationScheme(), m.ren); eq("absDiff", h.getAbsDiff2L(), m.absd); eq("relDiff", h.getRelDiff2L(), m.reld);
   eq("H3m", h.getDLambdaH3m(), m.h3m); eq("EFT", h.getDLambdaEFT(), m.eft); eq("NonLog", h.getDLambdaNonLog(), m.nonlog);
   eqm("mdrShift", h.getDMhDRbarPrimeToMDRbarPrimeShift(), m.mdrshift); eqm("h3mShift", h.getDMhDRbarPrimeToH3mShift(), m.h3mshift);
   eq("mdrMass1", h.getMDRMasses()(0), m.mdrm[0]); eq("mdrMass2", h.getMDRMasses()(1), m.mdrm[1]);
   for (int l = 0; l < 4; l++) {
      eqm("DMh", h.getDMh(l), m.dmh[l]); eq("DMh2", h.getDMh2(l), m.dmh2[l]); eq("DLambda", h.getDLambda(l), m.lam[l]);
      eq("MSshift", h.getDLambdaDRbarPrimeToMSbarShift(l), m.msshift[l]); eq("DMh2EFT", h.getDMh2EFTAt(l), m.eft2[l]);
      eq("DMh2FO", h.getDMh2FO(l), m.fo[l]); eq("DMh2FOAt", h.getDMh2FOAt(l), m.foat[l]);
      if (l) eq("ExpUnc", h.getDMhExpUncertainty(l), m.unc[l]);
      eq("LambdaUnc", h.getDLambdaUncertainty(l), l < 3 ? 0. : std::abs(m.xt) + std::abs(m.eft - m.h3m));
   }
   r.count("transitions");
   if (full) for (int l : {-2147483647-1, -7, -1, 0, 4, 5, 2147483647}) {
      const auto rej = [&] (const char* n, bool b) { if (!b) { ok = false; bad += std::string(" ") + n + "(" + std::to_string(l) + ") accepted"; } };
      rej("getDMhExpUncertainty", rejected([&] { h.getDMhExpUncertainty(l); }));
      if (l == 0) continue;
      rej("getDMh", rejected([&] { h.getDMh(l); })); rej("getDMh2", rejected([&] { h.getDMh2(l); })); rej("getDLambda", rejected([&] { h.getDLambda(l); }));
      rej("getMSshift", rejected([&] { h.getDLambdaDRbarPrimeToMSbarShift(l); })); rej("getDMh2EFTAt", rejected([&] { h.getDMh2EFTAt(l); }));
      rej("getDMh2FO", rejected([&] { h.getDMh2FO(l); })); rej("getDMh2FOAt", rejected([&] { h.getDMh2FOAt(l); })); rej("getDLambdaUncertainty", rejected([&] { h.getDLambdaUncertainty(l); }));
   }
   r.check("record", ok, ctx + " ->" + bad);
}

/// the text report names the recorded values
void printed(const HierarchyObject& h, const Model& m, vh::Report& r, const std::string& ctx)
{
   std::ostringstream o; o << h; const std::string s = o.str();
   std::multimap<std::string, std::string> line;
   { std::istringstream is(s); std::string l; while (std::getline(is, l)) { const auto p = l.find("="); if (p == std::string::npos || p == 0) continue;
       std::string k = l.substr(0, p); while (!k.empty() && k.back() == ' ') k.pop_back(); line.insert({k, l.substr(p + 1)}); } }
   bool ok = true; std::string bad;
   const auto has = [&] (const std::string& k, const std::vector<double>& v, int nth = 0) {
      auto it = line.lower_bound(k);
      for (int n = 0; n < nth && it != line.end(); n++) ++it;
      if (it == line.end() || it->first != k) { ok = false; bad += " no line '" + k + "'"; return; }
      std::vector<double> got; const char* c = it->second.c_str();
      while (*c && got.size() < v.size()) { char* e; if ((std::isdigit((unsigned char)*c) || *c == '-' || *c == '+')) { const double d = std::strtod(c, &e); if (e != c) { got.push_back(d); c = e; continue; } } c++; }
      if (got != v) { ok = false; bad += " line '" + k + "' shows" + it->second; }
   };
   const auto hasm = [&] (const std::string& k, const std::array<double,4>& a) { has(k, {a[0], a[1], a[2], a[3]}); };
   const std::string ms = m.ab ? "Msbottom" : "Mstop";
   has(ms + "_1", {m.mdrm[0]}); has(ms + "_2", {m.mdrm[1]});
   has("Hierarchy", {double(m.hier)});
   has("Abs. diff 2L", {m.absd}); has("Rel. diff 2L", {m.reld*100});
   hasm("Mh^2_0L", m.dmh[0]); hasm("ΔMh^2_1L", m.dmh[1]); hasm("ΔMh^2_2L", m.dmh[2]); hasm("ΔMh^2_3L", m.dmh[3]);
   for (int l = 1; l < 4; l++) has("Exp. uncert. " + std::to_string(l) + "L", {m.unc[l]});
   hasm("DR' -> MDR' shift", m.mdrshift); hasm("DR' -> H3m shift", m.h3mshift);
   for (int l = 0; l < 4; l++) { has("Δλ_" + std::to_string(l) + "L", {m.lam[l]}); has("Δλ_" + std::to_string(l) + "L DR' -> MS shift", {m.msshift[l]}); }
   has("Mh^2_EFT_0L", {m.eft2[0]}); for (int l = 1; l < 4; l++) has("ΔMh^2_EFT_" + std::to_string(l) + "L", {m.eft2[l]});
   has("Mh^2_FO_0L", {m.fo[0]}); for (int l = 1; l < 3; l++) { has("ΔMh^2_FO_" + std::to_string(l) + "L", {m.foat[l]}); has("ΔMh^2_FO_" + std::to_string(l) + "L", {m.fo[l]}, 1); }
   has("ΔMh^2_FO_3L", {m.foat[3]}); has("ΔMh^2_FO_3L", {m.fo[3]}, 1);
   const auto sc = line.find("Ren. scheme"); const bool h3m = m.ren == 0 || m.ren == 2;
   if (sc == line.end() || (sc->second.find("H3m") != std::string::npos) != h3m) { ok = false; bad += " scheme line"; }
   r.check("text", ok, ctx + " ->" + bad);
}

void apply(const Op& op, HierarchyObject& h, Model& m, vh::Report& r, const std::string& ctx)
{
   Model before = m;
   const bool accepted = op.model(m);
   if (!accepted) m = before;
   const bool rej = rejected([&] { op.real(h); });
   r.check("accept", rej == !accepted, ctx + (rej ? " was rejected" : " was accepted"));
}

void sequence(std::size_t i, unsigned depth, bool ab, vh::Report& r)
{
   vh::Digits d(i);
   HierarchyObject h(ab); Model m; m.ab = ab;
   std::string ctx;
   for (unsigned k = 0; k < depth; k++) {
      const auto& op = ops()[d.next(ops().size())];
      ctx += (k ? "; " : "") + op.name;
      apply(op, h, m, r, ctx);
   }
   // every shorter prefix is a case of its own (smaller depth), so observing the end state covers every step
   r.state(m.hash()); r.count("traces");
   observe(h, m, r, ctx, depth < 3);
   if (depth < 3) printed(h, m, r, ctx);
   if (i % 4001 == 0) r.sample(ctx);
   // copies are values: changing the copy leaves the original alone, and a copy observes the same
   if (depth == 2) {
      HierarchyObject c(h); Model mc = m; observe(c, mc, r, ctx + "; copy", false);
      for (auto& op : ops()) { Model t = mc; if (op.model(t)) { op.real(c); mc = t; } }
      observe(h, m, r, ctx + "; after changing a copy", false);
      observe(c, mc, r, ctx + "; changed copy", false);
      h = c; observe(h, mc, r, ctx + "; assigned", false);
   }
}

} // namespace

int main(int argc, char** argv)
{
   vh::Check c; c.id = "P04"; c.level = "model_checking";
   c.rule = "a state is the complete contents of the result record; states are reached by every sequence of calls from the alphabet (valid and invalid indices, flags and values)";
   const std::size_t n = ops().size();
   for (bool ab : {false, true}) {
      const std::string s = ab ? "ab" : "at";
      c.families.push_back({s + "0", "fresh record", 1, [ab] (std::size_t, vh::Report& r) { sequence(0, 0, ab, r); }});
      c.families.push_back({s + "1", "all single calls", n, [ab] (std::size_t i, vh::Report& r) { sequence(i, 1, ab, r); }});
      c.families.push_back({s + "2", "all sequences of 2 calls, with copies", n*n, [ab] (std::size_t i, vh::Report& r) { sequence(i, 2, ab, r); }});
      if (!ab || vh::thorough()) c.families.push_back({s + "3", "all sequences of 3 calls", n*n*n, [ab] (std::size_t i, vh::Report& r) { sequence(i, 3, ab, r); }});
   }
   c.families.push_back({"names", "hierarchy names for -5..20", 26, [] (std::size_t i, vh::Report& r) {
      const int k = int(i) - 5; const std::string s = HierarchyObject(false).getH3mHierarchyNotation(k);
      if (k >= 0 && k < 14) r.check("name", s == NAMES[k], std::to_string(k) + " is called " + s);
      else { bool clash = false; for (auto* n : NAMES) clash |= s == n; r.check("name", !clash && s.find(std::to_string(k)) != std::string::npos, std::to_string(k) + " is called " + s); }
   }});
   c.c_states = "@distinct"; c.required = {"traces", "transitions"};
   c.assumptions = {"record contents are observed through the public getters and the stream output"};
   return vh::run(argc, argv, c);
}
