// visits every number of a parameter point
#pragma once
#include "himalaya/Himalaya_interface.hpp"
#include <cstring>
#include <string>
#include <vector>

namespace flds {

template <class P, class F> void each(P& p, F f)
{
   f("scale", p.scale); f("mu", p.mu); f("g1", p.g1); f("g2", p.g2); f("g3", p.g3); f("vd", p.vd); f("vu", p.vu);
   const auto m = [&f] (const char* n, auto& x) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) f(std::string(n) + "(" + std::to_string(i) + "," + std::to_string(j) + ")", x(i,j)); };
   m("mq2", p.mq2); m("md2", p.md2); m("mu2", p.mu2); m("ml2", p.ml2); m("me2", p.me2);
   m("Au", p.Au); m("Ad", p.Ad); m("Ae", p.Ae); m("Yu", p.Yu); m("Yd", p.Yd); m("Ye", p.Ye);
   f("M1", p.M1); f("M2", p.M2); f("MG", p.MG); f("MW", p.MW); f("MZ", p.MZ); f("Mt", p.Mt); f("Mb", p.Mb); f("Mtau", p.Mtau); f("MA", p.MA);
   f("MSt0", p.MSt(0)); f("MSt1", p.MSt(1)); f("MSb0", p.MSb(0)); f("MSb1", p.MSb(1)); f("MStau0", p.MStau(0)); f("MStau1", p.MStau(1));
   f("s2t", p.s2t); f("s2b", p.s2b); f("s2tau", p.s2tau); f("theta_t", p.theta_t); f("theta_b", p.theta_b); f("theta_tau", p.theta_tau);
}

inline std::vector<double> values(const himalaya::Parameters& p)
{ std::vector<double> v; each(p, [&v] (const std::string&, const double& d) { v.push_back(d); }); v.push_back(p.massLimit3LThreshold); return v; }
inline std::vector<std::string> names()
{ himalaya::Parameters p; std::vector<std::string> v; each(p, [&v] (const std::string& n, double&) { v.push_back(n); }); v.push_back("massLimit3LThreshold"); return v; }

/// first field that differs bitwise, "" if none
inline std::string differ(const himalaya::Parameters& a, const himalaya::Parameters& b, const std::vector<std::string>& except = {})
{
   static const auto n = names();
   const auto x = values(a), y = values(b);
   for (std::size_t i = 0; i < x.size(); i++) {
      bool skip = false; for (auto& e : except) skip |= e == n[i];
      if (skip) continue;
      if (x[i] != x[i] && y[i] != y[i]) continue;
      if (std::memcmp(&x[i], &y[i], sizeof(double)) != 0 && !(x[i] == y[i])) return n[i];
   }
   return "";
}

} // namespace flds
