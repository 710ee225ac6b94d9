// P12: the Mathematica interface, compiled from the real source against a
// stand-in link that scripts the argument, records every token written back and
// can fail any single operation.  Explored: every input position with every
// value of an alphabet, every combination of the optional inputs, every
// operation failing, wrong arguments, invalid points, all call sequences up to
// a depth.
//
// What is specified: the order of the inputs and the names of the outputs are
// read at run time from the package (Himalaya_LibraryLink.m): position i of the
// list handed over is the parameter named there.  The numbers are those of the
// C++ interface for the point built by name.
#include "vh.hpp"
#include "points.hpp"
#include "fields.hpp"
#include "himalaya/HierarchyCalculator.hpp"
#include "himalaya/mh2_eft/Mh2EFTCalculator.hpp"
#include "himalaya/mh2_fo/MSSM_mass_eigenstates.hpp"
#include <mathlink.h>
#include <WolframLibrary.h>
#include <algorithm>
#include <cctype>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <memory>
#include <regex>

extern "C" int HimalayaCalculateDMh3L(WolframLibraryData, MLINK);
using himalaya::Parameters;

// ------------------------------------------------------------------ the link
struct Token { char kind; std::string s; std::vector<double> v; std::vector<long> dim; int n{0}; };   // F function, S symbol, T string, I integer, R real, A array

struct StubLink {
   long args = 1;                 ///< arguments of the call
   bool arglist = true;           ///< the arguments come as a list
   bool innerlist = true;         ///< the argument is a list
   std::vector<double> data;
   std::vector<bool> bad;         ///< element is not a number
   long fail_in = -1, fail_out = -1;   ///< operation that fails
   long ins = 0, outs = 0;
   bool dead_out = false;
   int stage = 0; std::size_t pos = 0;
   bool newpacket = false, readpast = false, writewhilereading = false;
   std::vector<Token> out;

   bool in() { return ins++ != fail_in; }
   bool put(Token t)
   {
      if (outs++ == fail_out) dead_out = true;
      if (dead_out) return false;
      out.push_back(std::move(t));
      return true;
   }
};

static std::string raw(const unsigned char* s, int n) { return std::string(reinterpret_cast<const char*>(s), n); }
extern "C" {
int MLPutFunction(MLINK l, const char* s, int n) { Token t{'F', s, {}, {}}; t.n = n; return l->put(t); }
int MLPutUTF8Function(MLINK l, const unsigned char* s, int m, int n) { Token t{'F', raw(s, m), {}, {}}; t.n = n; return l->put(t); }
int MLPutSymbol(MLINK l, const char* s) { return l->put({'S', s, {}, {}}); }
int MLPutUTF8Symbol(MLINK l, const unsigned char* s, int n) { return l->put({'S', raw(s, n), {}, {}}); }
int MLPutString(MLINK l, const char* s) { return l->put({'T', s, {}, {}}); }
int MLPutUTF8String(MLINK l, const unsigned char* s, int n) { return l->put({'T', raw(s, n), {}, {}}); }
int MLPutByteString(MLINK l, const unsigned char* s, int n) { return l->put({'T', raw(s, n), {}, {}}); }
int MLPutInteger(MLINK l, int i) { return l->put({'I', "", {double(i)}, {}}); }
int MLPutInteger32(MLINK l, int i) { return l->put({'I', "", {double(i)}, {}}); }
int MLPutInteger64(MLINK l, mlint64 i) { return l->put({'I', "", {double(i)}, {}}); }
int MLPutLongInteger(MLINK l, long i) { return l->put({'I', "", {double(i)}, {}}); }
int MLPutReal(MLINK l, double d) { return l->put({'R', "", {d}, {}}); }
int MLPutDouble(MLINK l, double d) { return l->put({'R', "", {d}, {}}); }
int MLPutReal64(MLINK l, double d) { return l->put({'R', "", {d}, {}}); }
int MLPutRealList(MLINK l, const double* d, int n) { return l->put({'A', "", std::vector<double>(d, d + n), {n}}); }
int MLPutReal64List(MLINK l, const double* d, int n) { return MLPutRealList(l, d, n); }
int MLPutDoubleArray(MLINK l, const double* d, const long* dim, const char**, long depth)
{ long n = 1; for (long i = 0; i < depth; i++) n *= dim[i]; return l->put({'A', "", std::vector<double>(d, d + n), std::vector<long>(dim, dim + depth)}); }
int MLPutRealArray(MLINK l, const double* d, const long* dim, const char** h, long depth) { return MLPutDoubleArray(l, d, dim, h, depth); }
int MLPutReal64Array(MLINK l, const double* d, const int* dim, const char** h, int depth) { std::vector<long> x(dim, dim + depth); return MLPutDoubleArray(l, d, x.data(), h, depth); }
int MLPutIntegerList(MLINK l, const int* d, int n) { return l->put({'A', "", std::vector<double>(d, d + n), {n}}); }
int MLPutInteger32List(MLINK l, const int* d, int n) { return MLPutIntegerList(l, d, n); }
int MLEndPacket(MLINK) { return 1; }
int MLFlush(MLINK) { return 1; }

// the argument is List[List[r1, r2, ...]]
int MLTestHead(MLINK l, const char* head, int* n)
{
   if (!l->in()) return 0;
   const std::string h(head);
   if (l->stage == 0) { l->stage = 1; if (n) *n = l->args; return l->arglist && h == "List"; }
   if (l->stage == 1) { if (!l->innerlist || h != "List") return 0; l->stage = 2; if (n) *n = l->data.size(); return 1; }
   return 0;
}
int MLTestHeadWithArgCount(MLINK l, const char* h, int* n) { int m = 0; return MLTestHead(l, h, &m) && m == *n; }
int MLCheckFunction(MLINK l, const char* head, long* n) { int m = 0; const int ok = MLTestHead(l, head, &m); if (ok && n) *n = m; return ok; }
int MLGetReal64(MLINK l, double* d)
{
   if (!l->in() || l->stage != 2) return 0;
   if (l->pos >= l->data.size()) { l->readpast = true; return 0; }
   if (!l->bad.empty() && l->bad[l->pos]) return 0;
   *d = l->data[l->pos++];
   return 1;
}
int MLGetReal(MLINK l, double* d) { return MLGetReal64(l, d); }
int MLGetDouble(MLINK l, double* d) { return MLGetReal64(l, d); }
int MLGetInteger(MLINK l, int* i) { double d; if (!MLGetReal64(l, &d)) return 0; *i = static_cast<int>(d); return *i == d; }
int MLGetInteger32(MLINK l, int* i) { return MLGetInteger(l, i); }
int MLGetReal64List(MLINK l, double** d, int* n)
{
   if (!l->in() || l->stage != 1 || !l->innerlist) return 0;
   for (bool b : l->bad) if (b) return 0;
   l->stage = 2; l->pos = l->data.size();
   *n = l->data.size(); *d = static_cast<double*>(std::malloc(sizeof(double)*(*n + 1)));
   std::copy(l->data.begin(), l->data.end(), *d);
   return 1;
}
int MLGetRealList(MLINK l, double** d, long* n) { int m = 0; const int ok = MLGetReal64List(l, d, &m); *n = m; return ok; }
void MLReleaseReal64List(MLINK, double* d, int) { std::free(d); }
void MLDisownRealList(MLINK, double* d, long) { std::free(d); }
int MLNewPacket(MLINK l) { if (!l->in()) return 0; l->newpacket = true; return 1; }
int MLError(MLINK l) { return l->dead_out ? 1 : 0; }
const char* MLErrorMessage(MLINK) { return "stub"; }
int MLClearError(MLINK) { return 1; }
int MLReady(MLINK) { return 1; }
}

// -------------------------------------------- observing the point handed over
static Parameters* seen = nullptr;
static int mode = 0;    // 0 pass, 1 record the point of the first validation and stop there
struct Stop : std::runtime_error { Stop() : std::runtime_error("stop") {} };
extern "C" {
void __real__ZN8himalaya10Parameters8validateEb(Parameters*, bool);
void __wrap__ZN8himalaya10Parameters8validateEb(Parameters* p, bool v)
{
   if (mode == 1) { if (!seen) seen = new Parameters(*p); throw Stop(); }
   __real__ZN8himalaya10Parameters8validateEb(p, v);
}
}

// ------------------------------------------------------- the documented order
struct Entry { std::string name; int i, j; };
static std::vector<Entry> order;
static std::vector<std::string> rules_any, rules_top, rules_bottom;    // documented rule names

static void read_package()
{
   const char* r = std::getenv("VERIF_REPO");
   std::ifstream f(std::string(r ? r : "/repo") + "/source/himalaya/LibraryLink/Himalaya_LibraryLink.m");
   const std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
   const auto at = s.find("HimalayaCalculateDMh3LLibInterface[");
   const std::string body = at == std::string::npos ? "" : s.substr(at);
   const std::regex e("OptionValue\\s*\\[\\s*([A-Za-z0-9]+)\\s*\\]\\s*(?:\\[\\[\\s*(\\d+)\\s*(?:,\\s*(\\d+)\\s*)?\\]\\])?");
   for (std::sregex_iterator it(body.begin(), body.end(), e), end; it != end; ++it)
      order.push_back({(*it)[1], (*it)[2].matched ? std::stoi((*it)[2]) : 0, (*it)[3].matched ? std::stoi((*it)[3]) : 0});
   const auto o = s.find("Output: A list of replacement rules"), x = s.find("Example:", o);
   const std::string outp = o == std::string::npos ? "" : s.substr(o, x - o);
   std::istringstream lines(outp); std::string line;
   const std::regex n("^\\s*-\\s*([A-Za-z0-9]+)\\s*:(.*)$");
   while (std::getline(lines, line)) {
      std::smatch m;
      if (!std::regex_match(line, m, n)) continue;
      const std::string d = m[2];
      if (d.find("bottom == False") != std::string::npos) rules_top.push_back(m[1]);
      else if (d.find("bottom == True") != std::string::npos) rules_bottom.push_back(m[1]);
      else rules_any.push_back(m[1]);
   }
}

/// what the caller sets, by name
struct In {
   double bottom = 0, loopOrder = 3, verbose = 1;
   Parameters p;                       // all documented non-optional entries
   double MW = -1, MZ = -1, Mt = -1, Mb = -1, Mtau = -1;
   double MSt[2] = {-1, -1}, MSb[2] = {-1, -1}, MStau[2] = {-1, -1}, s2t = -2, s2b = -2, s2tau = -2;

   double* at(const Entry& e)
   {
      const auto m = [&] (Eigen::Matrix3d& x) { return &x(e.i - 1, e.j - 1); };
      const auto& n = e.name;
      if (n == "bottom") return &bottom;
      if (n == "loopOrder") return &loopOrder;
      if (n == "verbose") return &verbose;
      if (n == "scale") return &p.scale;
      if (n == "mu") return &p.mu;
      if (n == "g1") return &p.g1;
      if (n == "g2") return &p.g2;
      if (n == "g3") return &p.g3;
      if (n == "vd") return &p.vd;
      if (n == "vu") return &p.vu;
      if (e.i >= 1 && e.i <= 3 && e.j >= 1 && e.j <= 3) {
         if (n == "mq2") return m(p.mq2);
         if (n == "md2") return m(p.md2);
         if (n == "mu2") return m(p.mu2);
         if (n == "ml2") return m(p.ml2);
         if (n == "me2") return m(p.me2);
         if (n == "Au") return m(p.Au);
         if (n == "Ad") return m(p.Ad);
         if (n == "Ae") return m(p.Ae);
         if (n == "Yu") return m(p.Yu);
         if (n == "Yd") return m(p.Yd);
         if (n == "Ye") return m(p.Ye);
      }
      if (n == "MA") return &p.MA;
      if (n == "M1") return &p.M1;
      if (n == "M2") return &p.M2;
      if (n == "M3") return &p.MG;
      if (n == "MW") return &MW;
      if (n == "MZ") return &MZ;
      if (n == "Mt") return &Mt;
      if (n == "Mb") return &Mb;
      if (n == "Mtau") return &Mtau;
      if (e.i >= 1 && e.i <= 2 && e.j == 0) {
         if (n == "MSt") return &MSt[e.i - 1];
         if (n == "MSb") return &MSb[e.i - 1];
         if (n == "MStau") return &MStau[e.i - 1];
      }
      if (n == "s2t") return &s2t;
      if (n == "s2b") return &s2b;
      if (n == "s2tau") return &s2tau;
      return nullptr;
   }
   std::vector<double> list() { std::vector<double> v; for (auto& e : order) { const double* d = at(e); v.push_back(d ? *d : 0.); } return v; }

   /// the point this input describes: optional entries apply when they are physical
   Parameters point() const
   {
      Parameters q = p;
      const Parameters def;
      q.MW = MW > 0 ? MW : def.MW; q.MZ = MZ > 0 ? MZ : def.MZ; q.Mt = Mt > 0 ? Mt : def.Mt; q.Mb = Mb > 0 ? Mb : def.Mb; q.Mtau = Mtau > 0 ? Mtau : def.Mtau;
      const auto pair = [] (const double* m, double s, Eigen::Vector2d& M, double& S, const Eigen::Vector2d& M0, double S0) {
         if (m[0] > 0 && m[1] > 0 && std::abs(s) <= 1.) { M << m[0], m[1]; S = s; } else { M = M0; S = S0; } };
      pair(MSt, s2t, q.MSt, q.s2t, def.MSt, def.s2t);
      pair(MSb, s2b, q.MSb, q.s2b, def.MSb, def.s2b);
      pair(MStau, s2tau, q.MStau, q.s2tau, def.MStau, def.s2tau);
      return q;
   }
};

// ---------------------------------------------------------------- one call
struct Capture {   // everything printed outside the redirection of the interface
   std::stringstream o, e; std::streambuf *a, *b;
   Capture() : a(std::cout.rdbuf(o.rdbuf())), b(std::cerr.rdbuf(e.rdbuf())) {}
   ~Capture() { std::cout.rdbuf(a); std::cerr.rdbuf(b); }
};

struct Expr { std::string head; std::vector<Expr> args; Token leaf; bool isleaf = true; };

static bool parse(const std::vector<Token>& t, std::size_t& i, Expr& e, int depth = 0)
{
   if (i >= t.size() || depth > 10000) return false;
   const Token& x = t[i++];
   if (x.kind != 'F') { e.leaf = x; e.isleaf = true; return true; }
   e.isleaf = false; e.head = x.s; e.leaf = x;
   for (int k = 0; k < x.n; k++) { e.args.emplace_back(); if (!parse(t, i, e.args.back(), depth + 1)) return false; }
   return true;
}

struct Outcome {
   int code = -1;
   bool thrown = false, restored = true;
   std::string stray;
   bool complete = false;                   ///< exactly one complete expression
   std::vector<std::string> info, error;    ///< messages
   Expr value;
   bool failed = false;                     ///< the value is $Failed
   std::vector<Token> tokens;
   long ins = 0, outs = 0; bool readpast = false, newpacket = false;
};

static Outcome call(StubLink& l)
{
   Outcome r;
   {
      Capture c;
      try { r.code = HimalayaCalculateDMh3L(nullptr, &l); } catch (...) { r.thrown = true; }
      r.restored = std::cout.rdbuf() == c.o.rdbuf() && std::cerr.rdbuf() == c.e.rdbuf();
      r.stray = c.o.str() + c.e.str();
   }
   r.tokens = l.out; r.ins = l.ins; r.outs = l.outs; r.readpast = l.readpast; r.newpacket = l.newpacket;
   std::size_t i = 0; Expr e;
   r.complete = parse(l.out, i, e) && i == l.out.size();
   if (r.complete) {
      const Expr* x = &e;
      while (!x->isleaf && x->head == "CompoundExpression" && x->args.size() == 2) {
         const Expr& m = x->args[0];
         if (!m.isleaf && m.args.size() == 1 && m.args[0].isleaf && m.args[0].leaf.kind == 'T') {
            if (m.head == "HimalayaInfoMessage") r.info.push_back(m.args[0].leaf.s);
            else if (m.head == "HimalayaErrorMessage") r.error.push_back(m.args[0].leaf.s);
            else r.complete = false;
         } else r.complete = false;
         x = &x->args[1];
      }
      r.value = *x;
      r.failed = x->isleaf && x->leaf.kind == 'S' && x->leaf.s == "$Failed";
   }
   return r;
}

static bool symbol(const std::string& s)
{
   if (s.empty() || std::isdigit(static_cast<unsigned char>(s[0]))) return false;
   for (unsigned char c : s) if (!std::isalnum(c) && c != '$' && c != '`') return false;
   return true;
}

// flatten an expression of nested lists / arrays to numbers
static bool numbers(const Expr& e, std::vector<double>& v)
{
   if (e.isleaf) { if (e.leaf.kind != 'A' && e.leaf.kind != 'I' && e.leaf.kind != 'R') return false; v.insert(v.end(), e.leaf.v.begin(), e.leaf.v.end()); return true; }
   if (e.head != "List") return false;
   for (auto& a : e.args) if (!numbers(a, v)) return false;
   return true;
}
/// dimensions of a (nested) list of numbers
static std::vector<long> shape(const Expr& e)
{
   if (e.isleaf) return e.leaf.dim;
   std::vector<long> d{static_cast<long>(e.args.size())};
   if (!e.args.empty()) { const auto s = shape(e.args[0]); d.insert(d.end(), s.begin(), s.end()); }
   return d;
}

// ------------------------------------------------- what the C++ interface gives
struct Ref {
   bool threw = false;
   std::map<std::string, std::vector<double>> num;
   std::map<std::string, std::vector<long>> dim;
   std::string name;
   std::set<std::string> printed;
};

static std::vector<double> vec(const Eigen::Matrix2d& m) { return {m(0,0), m(0,1), m(1,0), m(1,1)}; }

static Ref reference(const In& in)
{
   Ref r;
   static bool primed = false;
   if (!primed) { primed = true; Capture c; try { himalaya::HierarchyCalculator hc(pts::make(pts::Spec())); } catch (...) {} }
   const bool bottom = in.bottom != 0, verbose = in.verbose != 0;
   const int lo = static_cast<int>(in.loopOrder);
   Capture c;
   try {
      Parameters p = in.point();
      p.validate(verbose);
      auto& n = r.num;
      auto& d = r.dim;
      const auto zero4 = std::vector<double>(4, 0.), zero16 = std::vector<double>(16, 0.);
      d["Mh2"] = d["Mh2ShiftDRbarPrimeToMDRPrime"] = d["Mh2ShiftDRbarPrimeToH3m"] = {4, 2, 2};
      for (const char* x : {"expansionUncertainty", "Mh2EFTAt", "Mh2FO", "Mh2FOAt", "lambda", "lambdaUncertainty", "lambdaShiftDRbarPrimeToMSbar"}) d[x] = {4};
      const std::string msf = bottom ? "MsbottomMDRPrime" : "MstopMDRPrime";
      d[msf] = {2};
      if (lo > 2) {
         himalaya::HierarchyCalculator hc(p, verbose);
         const auto ho = hc.calculateDMh3L(bottom);
         n["hierarchyID"] = {static_cast<double>(ho.getSuitableHierarchy())};
         r.name = ho.getH3mHierarchyNotation(ho.getSuitableHierarchy());
         n[msf] = {ho.getMDRMasses()(0), ho.getMDRMasses()(1)};
         for (int i = 0; i < 4; i++) {
            for (double x : vec(ho.getDMh(i))) n["Mh2"].push_back(x);
            for (double x : vec(i == 3 ? ho.getDMhDRbarPrimeToMDRbarPrimeShift() : Eigen::Matrix2d(Eigen::Matrix2d::Zero()))) n["Mh2ShiftDRbarPrimeToMDRPrime"].push_back(x);
            for (double x : vec(i == 3 ? ho.getDMhDRbarPrimeToH3mShift() : Eigen::Matrix2d(Eigen::Matrix2d::Zero()))) n["Mh2ShiftDRbarPrimeToH3m"].push_back(x);
            n["expansionUncertainty"].push_back(i ? ho.getDMhExpUncertainty(i) : 0.);
            n["Mh2EFTAt"].push_back(ho.getDMh2EFTAt(i));
            n["Mh2FO"].push_back(ho.getDMh2FO(i));
            n["Mh2FOAt"].push_back(ho.getDMh2FOAt(i));
            n["lambda"].push_back(ho.getDLambda(i));
            n["lambdaUncertainty"].push_back(i == 3 ? ho.getDLambdaUncertainty(3) : 0.);
            n["lambdaShiftDRbarPrimeToMSbar"].push_back(ho.getDLambdaDRbarPrimeToMSbarShift(i));
         }
      } else {
         himalaya::mh2_eft::Mh2EFTCalculator m(p, verbose);
         himalaya::mh2_fo::MSSM_mass_eigenstates fo(p), fa(p, true);
         const auto a = fo.calculate_Mh2(), b = fa.calculate_Mh2();
         n[msf] = {0., 0.};
         for (const char* x : {"Mh2", "Mh2ShiftDRbarPrimeToMDRPrime", "Mh2ShiftDRbarPrimeToH3m"}) n[x] = zero16;
         for (const char* x : {"expansionUncertainty", "lambda", "lambdaUncertainty", "lambdaShiftDRbarPrimeToMSbar"}) n[x] = zero4;
         n["Mh2EFTAt"] = {m.getDeltaMh2EFT0Loop(), lo > 0 ? m.getDeltaMh2EFT1Loop(1,1) : 0., lo > 1 ? m.getDeltaMh2EFT2Loop(1,1) : 0., 0.};
         n["Mh2FO"] = {std::get<0>(a), lo > 0 ? std::get<1>(a) : 0., lo > 1 ? std::get<2>(a) : 0., 0.};
         n["Mh2FOAt"] = {std::get<0>(b), lo > 0 ? std::get<1>(b) : 0., lo > 1 ? std::get<2>(b) : 0., 0.};
      }
   } catch (const std::exception&) { r.threw = true; }
   std::istringstream s(c.o.str() + c.e.str()); std::string line;
   while (std::getline(s, line)) if (!line.empty()) r.printed.insert(line);
   return r;
}

/// clean failure: exactly one expression whose value is $Failed, at least one error message, streams restored, nothing printed
static void expect_failure(vh::Report& r, const std::string& key, const Outcome& o)
{
   r.count("failing calls");
   r.check(key + ".noexcept", !o.thrown && o.code == LIBRARY_NO_ERROR, "the call did not return normally (code " + std::to_string(o.code) + ")");
   r.check(key + ".streams", o.restored, "std::cout/std::cerr not restored");
   r.check(key + ".stray", o.stray.empty(), "printed outside the link: " + o.stray);
   r.check(key + ".partial", o.complete, "the answer is not exactly one complete expression (" + std::to_string(o.tokens.size()) + " tokens)");
   r.check(key + ".failed", o.failed, "the value is not $Failed");
   r.check(key + ".message", !o.error.empty() && !o.error.back().empty(), "no error message");
}

/// complete answer with the numbers of the C++ interface
static void expect_success(vh::Report& r, const std::string& key, const Outcome& o, const In& in, const Ref& ref)
{
   r.count("successful calls");
   r.check(key + ".noexcept", !o.thrown && o.code == LIBRARY_NO_ERROR, "the call did not return normally");
   r.check(key + ".streams", o.restored, "std::cout/std::cerr not restored");
   r.check(key + ".stray", o.stray.empty(), "printed outside the link: " + o.stray);
   if (!r.check(key + ".complete", o.complete && !o.value.isleaf && o.value.head == "List", "the answer is not one complete list (" + std::to_string(o.tokens.size()) + " tokens)" + (o.error.empty() ? "" : ": " + o.error.back()))) return;
   r.check(key + ".noerror", o.error.empty(), "error message besides the result");
   // messages
   std::set<std::string> said;
   for (auto& m : o.info) if (!m.empty()) said.insert(m);
   if (in.verbose == 0 && key.substr(0, 7) != "invalid") r.check(key + ".silent", said.empty(), "message although verbose is off: " + (said.empty() ? "" : *said.begin()));
   for (auto& m : ref.printed) r.check(key + ".messages", said.count(m) != 0, "message of the library not passed on: " + m);
   for (auto& m : said) r.check(key + ".messages", ref.printed.count(m) != 0, "message that the library does not print: " + m);
   // rules
   std::map<std::string, const Expr*> rules;
   for (auto& a : o.value.args) {
      if (!r.check(key + ".rules", !a.isleaf && a.head == "Rule" && a.args.size() == 2 && a.args[0].isleaf && a.args[0].leaf.kind == 'S', "an element is not a rule")) return;
      r.check(key + ".unique", rules.insert({a.args[0].leaf.s, &a.args[1]}).second, "rule appears twice: " + a.args[0].leaf.s);
   }
   std::vector<std::string> want = rules_any;
   const auto& more = in.bottom != 0 ? rules_bottom : rules_top;
   want.insert(want.end(), more.begin(), more.end());
   for (auto& w : want) r.check(key + ".documented", rules.count(w) != 0, "documented rule missing: " + w);
   for (auto& w : rules) r.check(key + ".documented", std::find(want.begin(), want.end(), w.first) != want.end(), "undocumented rule: " + w.first);
   // no symbol that Mathematica cannot read
   for (auto& t : o.tokens) if (t.kind == 'S' || t.kind == 'F') r.check(key + ".symbol", symbol(t.s), "not the name of a symbol: '" + t.s + "'");
   if (rules.count("hierarchyName")) {
      const Expr& e = *rules["hierarchyName"];
      r.check(key + ".hierarchyName", e.isleaf && (e.leaf.kind == 'S' || e.leaf.kind == 'T'), "hierarchyName is not a name");
      if (!ref.name.empty()) r.check(key + ".hierarchyName", e.leaf.s == ref.name, "hierarchyName " + e.leaf.s + ", expected " + ref.name);
   }
   for (auto& n : ref.num) {
      if (!rules.count(n.first)) continue;
      std::vector<double> v;
      if (!r.check(key + ".numbers", numbers(*rules[n.first], v) && v.size() == n.second.size(), n.first + ": wrong number of values")) continue;
      const auto di = ref.dim.find(n.first);
      if (di != ref.dim.end()) r.check(key + ".shape", shape(*rules[n.first]) == di->second, n.first + ": wrong shape");
      for (std::size_t i = 0; i < v.size(); i++) {
         const double a = v[i], b = n.second[i];
         r.count("output numbers");
         r.check(key + "." + n.first, (a != a && b != b) || a == b || std::abs(a - b) <= 1e-10*(std::abs(a) + std::abs(b)) + 1e-12,
                 n.first + "[" + std::to_string(i) + "]: " + vh::fmt(a) + ", C++ interface: " + vh::fmt(b));
         r.state(vh::mix(vh::bits(a), i + 17));
      }
   }
}

// ---------------------------------------------------------------- the points
static In base(int k)
{
   pts::Spec s;
   In in;
   switch (k) {
   case 0: break;
   case 1: s.mQ3 = 2000; s.mU3 = 2000; s.mD3 = 2000; s.mQ = s.mU = s.mD = 2000; s.mL = s.mE = s.mL3 = s.mE3 = 2000; s.scale = 2000; s.mu = 2000; s.tb = 20; s.M1 = s.M2 = s.MG = s.MA = 2000; s.Xt = std::sqrt(6.)*2000; break;
   case 2: s.mQ3 = 400; s.mU3 = 1500; s.MG = 1000; s.mQ = s.mU = s.mD = 2500; s.Xt = 100; break;
   case 3: s.mQ3 = 500; s.mU3 = 700; s.MG = 3000; s.mQ = s.mU = s.mD = 8000; s.Xt = -600; break;
   case 4: s.mQ3 = 900; s.mU3 = 950; s.MG = 500; s.mQ = s.mU = s.mD = 1000; break;
   case 5: s.mQ3 = 3000; s.mU3 = 1000; s.MG = 1100; s.mQ = s.mU = s.mD = 3200; s.mD3 = 1200; break;
   case 6: s.mQ3 = 1000; s.mU3 = 3000; s.MG = 2900; s.mQ = s.mU = s.mD = 9000; break;
   case 7: s.tb = 3; s.mu = -500; s.MA = 200; s.M1 = -300; break;
   case 8: s.scale = 173; s.yb = 0.5; s.tb = 45; break;
   case 9: s.yb = 0; s.ytau = 0; s.g1 = 0; s.g2 = 0; break;
   case 10: s.mQ3 = 2000; s.mU3 = 2200; s.mQ = s.mU = s.mD = 2100; s.MG = 300; break;
   default: s.MG = 30000; break;     // no hierarchy
   }
   in.p = pts::make(s);
   if (k == 4) { in.MW = 80.1; in.MZ = 91.2; in.Mt = 150; in.Mb = 2.4; in.Mtau = 1.8; }
   if (k == 5) { in.MSt[0] = 950; in.MSt[1] = 3050; in.s2t = 0.1; }
   if (k == 6) { in.MSb[0] = 980; in.MSb[1] = 1400; in.s2b = -0.2; in.MStau[0] = 890; in.MStau[1] = 960; in.s2tau = 0.3; }
   return in;
}
const int NBASE = 12;

static std::string point_name(std::size_t k) { return "point" + std::to_string(k); }

/// run with the arguments of `in`
static Outcome normal(In& in) { StubLink l; l.data = in.list(); return call(l); }

static void judge(vh::Report& r, const std::string& key, const Outcome& o, In& in)
{
   const Ref ref = reference(in);
   if (ref.threw) expect_failure(r, key, o); else expect_success(r, key, o, in, ref);
}

int main(int argc, char** argv)
{
   read_package();
   const bool T = vh::thorough();
   vh::Check c;
   c.id = "P12"; c.level = "exploration";
   c.rule = "distinct numbers read back from the link";
   std::vector<std::string> bad;
   { In in; for (auto& e : order) if (!in.at(e)) bad.push_back(e.name); }

   // ---- the package itself: every documented parameter is handed over exactly once
   c.families.push_back({"package", "the list handed over by the package names every documented parameter once", 1, [bad] (std::size_t, vh::Report& r) {
      r.check("package.known", bad.empty(), bad.empty() ? "" : "entry without a C++ parameter: " + bad[0]);
      In in; std::set<double*> s;
      for (auto& e : order) r.check("package.once", s.insert(in.at(e)).second, "handed over twice: " + e.name + std::to_string(e.i) + std::to_string(e.j));
      r.check("package.all", s.size() == 3 + 7 + 11*9 + 4 + 5 + 9, "not every parameter is handed over: " + std::to_string(s.size()));
      r.check("package.rules", rules_any.size() == 12 && rules_top.size() == 1 && rules_bottom.size() == 1, "documented rules not found");
   }});

   // ---- inputs
   static const std::vector<double> vals = {0., 1., -1., 0.25, -2., 3.5, 1e-3, 12345.678, -777., 1e-300, 1e300};
   static const std::size_t NP = order.size();
   c.families.push_back({"inputs", "every position x every value of the alphabet x 3 backgrounds (ordinary point; all positions different; optional entries set)", NP*vals.size()*3, [] (std::size_t i, vh::Report& r) {
      vh::Digits d(i);
      const auto k = d.next(NP); const double v = vals[d.next(vals.size())]; const auto bg = d.next(3);
      In in = base(bg == 2 ? 6 : 0);
      if (bg == 1) { int n = 0; for (auto& e : order) { n++; if (double* x = in.at(e)) { const bool s2 = e.name.substr(0, 2) == "s2"; *x = s2 ? n*1e-3 : n + 0.5; } } }
      if (bg == 2) { in.MSt[0] = 700; in.MSt[1] = 900; in.s2t = 0.4; in.MW = 70; in.MZ = 75; in.Mt = 140; in.Mb = 3; in.Mtau = 1; }
      double* x = in.at(order[k]);
      if (!x) return;
      *x = v;
      StubLink l; l.data = in.list();
      seen = nullptr; mode = 1;
      const Outcome o = call(l);
      mode = 0;
      std::unique_ptr<Parameters> got(seen); seen = nullptr;
      r.count("inputs");
      if (!r.check("inputs.reached", bool(got), "no point reached the library: " + (o.error.empty() ? std::string("no message") : o.error.back()))) return;
      const auto diff = flds::differ(*got, in.point());
      r.check("inputs." + order[k].name, diff.empty(), "position " + std::to_string(k) + " (" + order[k].name + (order[k].i ? "[" + std::to_string(order[k].i) + "," + std::to_string(order[k].j) + "]" : "") + ") = " + vh::fmt(v) + ": parameter " + diff + " has the wrong value");
      expect_failure(r, "inputs.stopped", o);
      for (double y : flds::values(*got)) r.state(vh::bits(y));
   }});

   // ---- optional masses: every combination in each sector
   static const double mv[] = {-1., 0., 600., 1e-9}, sv[] = {-2., -1.0000001, -1., -0.3, 0., 0.5, 1., 1.0000001, 2.};
   c.families.push_back({"optional", "sector x (m1,m2) in {-1,0,600,1e-9}^2 x 9 values of sin 2theta x other sectors set or not", 3u*4*4*9*2, [] (std::size_t i, vh::Report& r) {
      vh::Digits d(i);
      const auto sec = d.next(3); const double a = d.pick(mv), b = d.pick(mv), s = d.pick(sv); const bool others = d.next(2);
      In in = base(0);
      if (others) { in.MSt[0] = in.MSb[0] = in.MStau[0] = 500; in.MSt[1] = in.MSb[1] = in.MStau[1] = 800; in.s2t = in.s2b = in.s2tau = 0.2; }
      double* m = sec == 0 ? in.MSt : sec == 1 ? in.MSb : in.MStau; double& x = sec == 0 ? in.s2t : sec == 1 ? in.s2b : in.s2tau;
      m[0] = a; m[1] = b; x = s;
      StubLink l; l.data = in.list();
      seen = nullptr; mode = 1; const Outcome o = call(l); mode = 0;
      std::unique_ptr<Parameters> got(seen); seen = nullptr;
      r.count("inputs");
      if (!r.check("optional.reached", bool(got), "no point reached the library")) return;
      const auto diff = flds::differ(*got, in.point());
      r.check("optional", diff.empty(), "parameter " + diff + " has the wrong value for masses " + vh::fmt(a) + ", " + vh::fmt(b) + ", sin " + vh::fmt(s));
   }});

   // ---- outputs
   c.families.push_back({"outputs", "12 points x bottom x loopOrder 0..3 x verbose", NBASE*2u*4*2, [] (std::size_t i, vh::Report& r) {
      vh::Digits d(i);
      const auto k = d.next(NBASE); const bool b = d.next(2); const int lo = d.next(4); const bool v = d.next(2);
      In in = base(k); in.bottom = b; in.loopOrder = lo; in.verbose = v;
      reference(in);      // the library's own one-time banner is out of the way
      const Outcome o = normal(in);
      r.check("outputs.read", !o.readpast, "reads beyond the end of the argument");
      judge(r, "outputs", o, in);
      r.count("points");
   }});
   if (T) {
      static const double q3[] = {500, 1500, 3000}, u3[] = {600, 1500, 2600}, mg[] = {400, 1500, 3300}, mq[] = {1600, 3400}, xt[] = {-2000, 0, 1500};
      c.families.push_back({"grid", "mQ3 x mU3 x mG x mQ x Xt grid (162) x bottom x loopOrder 1..3", 162u*2*3, [] (std::size_t i, vh::Report& r) {
         vh::Digits d(i);
         pts::Spec s; s.mQ3 = d.pick(q3); s.mU3 = d.pick(u3); s.MG = d.pick(mg); s.mQ = s.mU = s.mD = d.pick(mq); s.Xt = d.pick(xt);
         In in; in.p = pts::make(s); in.bottom = d.next(2); in.loopOrder = 1 + d.next(3);
         reference(in);
         const Outcome o = normal(in);
         judge(r, "grid", o, in);
         r.count("points");
      }});
   }

   // ---- faults of the transfer
   static const std::vector<int> lens = {0, 1, 2, 63, 126, 128, 129, 254, 1000};
   c.families.push_back({"transfer", "each reading operation failing; each element not a number; wrong list lengths; argument no list; x verbose x loopOrder 2/3; followed by a normal call", (2*NP + 6 + lens.size() + 1)*4, [] (std::size_t i, vh::Report& r) {
      vh::Digits d(i);
      const bool v = d.next(2); const int lo = 2 + d.next(2); const std::size_t f = i/4;
      In in = base(0); in.verbose = v; in.loopOrder = lo;
      reference(in);
      StubLink l; l.data = in.list();
      const std::size_t NF = NP + 6;
      std::string key;
      if (f < NF) { l.fail_in = f; key = "transfer.operation"; }
      else if (f < NF + NP) { l.bad.assign(NP, false); l.bad[f - NF] = true; key = "transfer.element"; }
      else if (f < NF + NP + lens.size()) { l.data.resize(lens[f - NF - NP], 1.); key = "transfer.length"; }
      else { l.innerlist = false; key = "transfer.nolist"; }
      const Outcome o = call(l);
      r.count("faults");
      r.check(key + ".read", !o.readpast || f >= NF + NP, "reads beyond the end of the argument");
      if (f < NF && o.ins <= static_cast<long>(f)) judge(r, "transfer.unaffected", o, in);     // fewer operations than that
      else if (f == 0) {    // the arguments themselves could not be read: nothing is written, an error code is returned
         r.check(key + ".code", !o.thrown && o.code != LIBRARY_NO_ERROR, "no error code although the arguments could not be read");
         r.check(key + ".partial", o.tokens.empty(), "partial output");
         r.check(key + ".streams", o.restored, "streams not restored");
      } else expect_failure(r, key, o);
      In in2 = base(1);
      const Outcome o2 = normal(in2);
      judge(r, key + ".next", o2, in2);
   }});
   c.families.push_back({"arguments", "number of arguments 0, 2, 3, not a list; x verbose; followed by a normal call", 4*2, [] (std::size_t i, vh::Report& r) {
      vh::Digits d(i);
      static const int n[] = {0, 2, 3, 1};
      const auto k = d.next(4); In in = base(0); in.verbose = d.next(2);
      StubLink l; l.data = in.list(); l.args = n[k]; l.arglist = k != 3;
      const Outcome o = call(l);
      r.count("faults");
      r.check("arguments.code", !o.thrown && o.code != LIBRARY_NO_ERROR, "no error code for the wrong number of arguments");
      r.check("arguments.partial", o.tokens.empty(), "output although the arguments are wrong");
      r.check("arguments.streams", o.restored, "streams not restored");
      r.check("arguments.message", !o.stray.empty(), "no message");
      In in2 = base(1);
      judge(r, "arguments.next", normal(in2), in2);
   }});
   // ---- faults of the answer: the link dies at any token
   static const std::size_t NOUT = 90;
   c.families.push_back({"answer", "the link dies at any token of the answer (top, bottom, loopOrder 2, invalid point); followed by a normal call", NOUT*4, [] (std::size_t i, vh::Report& r) {
      vh::Digits d(i);
      const auto k = d.next(4), f = d.next(NOUT);
      In in = base(k == 3 ? 11 : 0); in.bottom = k == 1; in.loopOrder = k == 2 ? 2 : 3;
      reference(in);
      StubLink l; l.data = in.list(); l.fail_out = f;
      const Outcome o = call(l);
      r.count("faults");
      r.check("answer.noexcept", !o.thrown, "exception leaves the interface");
      r.check("answer.streams", o.restored, "streams not restored");
      r.check("answer.stray", o.stray.empty(), "printed outside the link: " + o.stray);
      In in2 = base(1);
      judge(r, "answer.next", normal(in2), in2);
   }});

   // ---- invalid points
   static const std::vector<double> ext = {-1e6, -1., 0., 1e-300, 1e300, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()};
   c.families.push_back({"invalid", "every position x {-1e6,-1,0,1e-300,1e300,inf,-inf,nan} x loopOrder 2,3: complete answer or message and failure, as the C++ interface", NP*ext.size()*2, [] (std::size_t i, vh::Report& r) {
      vh::Digits d(i);
      const auto k = d.next(NP); const double v = ext[d.next(ext.size())]; const int lo = 2 + d.next(2);
      if (k < 3) return;      // the settings: every documented value is explored above
      In in = base(0); in.loopOrder = lo; in.verbose = 0;
      double* x = in.at(order[k]); if (!x) return;
      *x = v;
      const Outcome o = normal(in);
      judge(r, "invalid", o, in);
      r.count("invalid points");
      In in2 = base(1); in2.loopOrder = 2;
      judge(r, "invalid.next", normal(in2), in2);
   }});

   // ---- histories
   static const int NA = 10;
   const auto letter = [] (std::size_t a, In& in, StubLink& l, int& kind) {   // kind 0: as the C++ interface, 1: failure, 2: error code
      kind = 0;
      in = base(0);
      switch (a) {
      case 0: break;
      case 1: in.bottom = 1; break;
      case 2: in.loopOrder = 2; in = base(1); in.loopOrder = 2; break;
      case 3: in = base(7); in.verbose = 0; break;
      case 4: in = base(11); kind = 1; break;                    // no suitable hierarchy
      case 5: in.p.mq2(2,2) = -1e7; kind = 1; break;             // invalid
      case 6: l.fail_in = 60; kind = 1; break;
      case 7: l.args = 2; kind = 2; break;
      case 8: in = base(5); in.bottom = 1; in.loopOrder = 1; break;
      default: in.p.Yu(2,2) = 0.7; in.p.MA = 0; break;
      }
      l.data = in.list();
   };
   std::size_t depth = T ? 4 : 3, total = 1; for (std::size_t k = 0; k < depth; k++) total *= NA;
   c.families.push_back({"histories", "all call sequences of depth " + std::to_string(depth) + " over 10 calls (top, bottom, low orders, silent, no hierarchy, invalid, failing transfer, wrong arguments): every call answers as the first of a process", total, [depth, letter] (std::size_t i, vh::Report& r) {
      vh::Digits d(i);
      std::string h;
      // expected answers: recorded once per letter in this process
      static std::map<std::size_t, std::vector<Token>> first;
      for (std::size_t k = 0; k < depth; k++) {
         const auto a = d.next(NA);
         h += char('0' + a);
         In in; StubLink l; int kind;
         letter(a, in, l, kind);
         static std::map<std::size_t, bool> known;
         static std::map<std::size_t, Ref> refs;
         if (!known[a]) { known[a] = true; refs[a] = reference(in); }
         const Outcome o = call(l);
         r.count("calls");
         const std::string key = "histories." + std::to_string(a);
         if (kind == 2) {
            r.check(key, !o.thrown && o.code != LIBRARY_NO_ERROR && o.tokens.empty() && o.restored, "wrong number of arguments not reported after " + h);
         } else if (kind == 1 || refs[a].threw) expect_failure(r, key, o);
         else expect_success(r, key, o, in, refs[a]);
      }
      r.count("sequences");
   }});

   c.assumptions = {"the link is a stand-in: an expression is transferred if the sequence of tokens written forms exactly one complete expression; the real link's inactive state after an error is not modelled",
                    "the package itself is read as text (which option goes to which position), its Mathematica code is not run"};
   c.c_states = "output numbers"; c.c_transitions = "comparisons"; c.c_traces = "calls";
   c.required = {"inputs", "successful calls", "failing calls", "output numbers", "faults", "sequences", "invalid points"};
   return vh::run(argc, argv, c);
}
