// Parameter points used by the checks (all dimensionful arguments in GeV).
#pragma once
#include "himalaya/Himalaya_interface.hpp"
#include <cmath>

namespace pts {

struct Spec {
   double scale = 1000, mu = 1000, tb = 10, v = 246;
   double g1 = 0.46, g2 = 0.65, g3 = 1.1, yt = 0.85, yb = 0.15, ytau = 0.1;
   double mQ3 = 1000, mU3 = 1200, mD3 = 1300, mL3 = 900, mE3 = 950;
   double mQ = 1500, mU = 1500, mD = 1500, mL = 1100, mE = 1150;   // 1st and 2nd generation
   double M1 = 400, M2 = 700, MG = 1400, MA = 1600;
   double Xt = 1000, Ab = 300, Atau = 200;   // At = Xt + mu/tb
};

inline himalaya::Parameters make(const Spec& s)
{
   himalaya::Parameters p;
   const double beta = std::atan(s.tb);
   p.scale = s.scale; p.mu = s.mu; p.g1 = s.g1; p.g2 = s.g2; p.g3 = s.g3;
   p.vu = s.v*std::sin(beta); p.vd = s.v*std::cos(beta);
   const auto diag = [] (double a, double b) {
      himalaya::RM33 m = himalaya::RM33::Zero(); m(0,0) = m(1,1) = a*a; m(2,2) = b*b; return m; };
   p.mq2 = diag(s.mQ, s.mQ3); p.mu2 = diag(s.mU, s.mU3); p.md2 = diag(s.mD, s.mD3);
   p.ml2 = diag(s.mL, s.mL3); p.me2 = diag(s.mE, s.mE3);
   p.Au(2,2) = s.Xt + s.mu/s.tb; p.Ad(2,2) = s.Ab; p.Ae(2,2) = s.Atau;
   p.Yu(2,2) = s.yt; p.Yd(2,2) = s.yb; p.Ye(2,2) = s.ytau;
   p.M1 = s.M1; p.M2 = s.M2; p.MG = s.MG; p.MA = s.MA;
   return p;
}

} // namespace pts
