struct Tol { double t[4]; };
const std::map<std::string, Tol> TOLERANCES = {
   {"DRbarPrimeToMSbarShift/4/log", {1.74e-04, 7.58e-03, 6.22e+01, 1.00e-05}},
   {"DRbarPrimeToMSbarShift/4/nolog", {1.86e-04, 1.21e-02, 9.05e+01, 1.02e-05}},
   {"DRbarPrimeToMSbarShift/5/log", {1.74e-04, 7.58e-03, 6.22e+01, 1.00e-05}},
   {"DRbarPrimeToMSbarShift/5/nolog", {1.86e-04, 1.21e-02, 9.05e+01, 1.02e-05}},
   {"DRbarPrimeToMSbarShift/6/log", {1.74e-04, 7.58e-03, 6.22e+01, 1.00e-05}},
   {"DRbarPrimeToMSbarShift/6/nolog", {1.86e-04, 1.21e-02, 9.05e+01, 1.02e-05}},
   {"DRbarPrimeToMSbarShift/xtlogs/log", {2.64e-04, 6.79e-03, 8.20e+01, 1.00e-05}},
   {"DRbarPrimeToMSbarShift/xtlogs/nolog", {3.99e-04, 1.21e-02, 9.05e+01, 1.00e-05}},
   {"G1_G1/nolog", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"G2_G2/log", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"G2_G2/nolog", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"G3_AS/log", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"G3_AS/log/test", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"G3_AS/nolog", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"G3_AS/nolog/test", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"LAMBDA_AT/log", {2.00e-05, 3.84e-03, 2.87e+01, 1.00e-05}},
   {"LAMBDA_AT/nolog", {2.00e-05, 1.46e-02, 1.10e+02, 1.00e-05}},
   {"LAMBDA_AT_AS/log", {2.03e-05, 3.31e-03, 2.94e+01, 1.00e-05}},
   {"LAMBDA_AT_AS/log/test", {2.25e-05, 5.14e-03, 6.14e+01, 1.00e-05}},
   {"LAMBDA_AT_AS/nolog", {2.01e-05, 9.31e-03, 8.29e+01, 1.00e-05}},
   {"LAMBDA_AT_AS/nolog/test", {2.08e-05, 5.91e-03, 1.62e+02, 1.00e-05}},
   {"LAMBDA_AT_AS2/log", {1.78e-04, 3.64e-03, 4.36e+01, 5.97e-05}},
   {"LAMBDA_AT_AS2/log/test", {1.67e-04, 4.89e-03, 3.97e+01, 3.81e-05}},
   {"LAMBDA_AT_AS2/nolog", {1.22e-04, 5.98e-03, 6.29e+01, 3.07e-05}},
   {"LAMBDA_AT_AS2/nolog/test", {5.75e-05, 6.17e-03, 8.18e+01, 1.85e-05}},
   {"LAMBDA_CHI_G12_G22/log", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"LAMBDA_CHI_G12_G22/nolog", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"LAMBDA_CHI_G14/log", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"LAMBDA_CHI_G14/nolog", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"LAMBDA_CHI_G24/log", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"LAMBDA_CHI_G24/nolog", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"LAMBDA_G12_G22/log", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"LAMBDA_G12_G22/nolog", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"LAMBDA_G14/log", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"LAMBDA_G14/nolog", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"LAMBDA_G24/log", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"LAMBDA_G24/nolog", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"LAMBDA_REG_G12_G22/log", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"LAMBDA_REG_G12_G22/nolog", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"LAMBDA_REG_G14/log", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"LAMBDA_REG_G14/nolog", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"LAMBDA_REG_G24/log", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"LAMBDA_REG_G24/nolog", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"LAMBDA_YB2_G12/log", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"LAMBDA_YB2_G12/nolog", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"LAMBDA_YB2_G22/log", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"LAMBDA_YB2_G22/nolog", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"LAMBDA_YB4/log", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"LAMBDA_YB4/nolog", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"LAMBDA_YB4_G32/log", {2.27e-05, 3.23e-03, 2.65e+01, 1.25e-05}},
   {"LAMBDA_YB4_G32/nolog", {2.18e-05, 5.11e-03, 4.43e+01, 1.00e-05}},
   {"LAMBDA_YB6/log", {2.08e-05, 5.08e-05, 2.02e-02, 1.06e-05}},
   {"LAMBDA_YB6/nolog", {2.24e-05, 5.24e-05, 2.19e-02, 1.17e-05}},
   {"LAMBDA_YT2_G12/log", {2.00e-05, 5.00e-05, 2.01e-02, 1.00e-05}},
   {"LAMBDA_YT2_G12/nolog", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"LAMBDA_YT2_G22/log", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"LAMBDA_YT2_G22/nolog", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"LAMBDA_YT2_YB4/log", {4.58e-05, 7.93e-05, 3.78e-02, 1.01e-05}},
   {"LAMBDA_YT2_YB4/nolog", {4.81e-05, 7.97e-05, 3.80e-02, 1.01e-05}},
   {"LAMBDA_YT4_YB2/log", {1.22e-03, 1.12e-03, 3.13e-01, 1.03e-05}},
   {"LAMBDA_YT4_YB2/nolog", {2.74e-03, 2.51e-03, 5.87e-01, 1.01e-05}},
   {"LAMBDA_YT6/log", {2.08e-04, 1.31e-04, 1.09e-01, 1.00e-05}},
   {"LAMBDA_YT6/nolog", {4.21e-04, 2.96e-04, 1.03e+00, 2.50e-05}},
   {"LAMBDA_YTAU2_G12/log", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"LAMBDA_YTAU2_G12/nolog", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"LAMBDA_YTAU2_G22/log", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"LAMBDA_YTAU2_G22/nolog", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"LAMBDA_YTAU2_YB4/log", {2.06e-05, 5.06e-05, 2.04e-02, 1.00e-05}},
   {"LAMBDA_YTAU2_YB4/nolog", {2.00e-05, 5.00e-05, 2.00e-02, 1.02e-05}},
   {"LAMBDA_YTAU4/log", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"LAMBDA_YTAU4/nolog", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"LAMBDA_YTAU4_YB2/log", {2.00e-05, 5.00e-05, 2.00e-02, 1.01e-05}},
   {"LAMBDA_YTAU4_YB2/nolog", {2.01e-05, 5.01e-05, 2.01e-02, 1.00e-05}},
   {"LAMBDA_YTAU6/log", {3.54e-05, 5.82e-05, 2.00e-02, 1.00e-05}},
   {"LAMBDA_YTAU6/nolog", {3.35e-05, 5.82e-05, 2.01e-02, 1.00e-05}},
   {"VEV_YB2/log", {2.00e-05, 1.85e-04, 1.05e+00, 1.00e-05}},
   {"VEV_YB2/nolog", {2.00e-05, 1.85e-04, 1.05e+00, 1.00e-05}},
   {"VEV_YT2/log", {2.09e-05, 5.75e-04, 3.98e+00, 1.00e-05}},
   {"VEV_YT2/nolog", {2.09e-05, 5.75e-04, 3.98e+00, 1.00e-05}},
   {"VEV_YTAU2/log", {2.09e-05, 5.88e-04, 4.06e+00, 1.00e-05}},
   {"VEV_YTAU2/nolog", {2.09e-05, 5.88e-04, 4.06e+00, 1.00e-05}},
   {"YB_AS/log", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"YB_AS/nolog", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"YB_YB/log", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"YB_YB/nolog", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"YB_YT/log", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"YB_YT/nolog", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"YB_YTAU/log", {2.03e-05, 5.03e-05, 2.03e-02, 1.00e-05}},
   {"YB_YTAU/nolog", {2.03e-05, 5.03e-05, 2.03e-02, 1.00e-05}},
   {"YTAU_YB/log", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"YTAU_YB/nolog", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"YTAU_YTAU/log", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"YTAU_YTAU/nolog", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"YT_AS/log", {2.26e-05, 2.43e-03, 1.80e+01, 1.00e-05}},
   {"YT_AS/log/test", {2.26e-05, 2.43e-03, 1.80e+01, 1.00e-05}},
   {"YT_AS/nolog", {2.20e-05, 2.56e-03, 1.89e+01, 1.00e-05}},
   {"YT_AS/nolog/test", {2.20e-05, 2.56e-03, 1.89e+01, 1.00e-05}},
   {"YT_AS2/log", {1.71e-04, 4.61e-03, 3.45e+01, 1.02e-05}},
   {"YT_AS2/log/test", {2.00e-04, 6.55e-03, 5.09e+01, 1.02e-05}},
   {"YT_AS2/nolog", {2.60e-04, 4.51e-03, 3.40e+01, 1.02e-05}},
   {"YT_AS2/nolog/test", {1.90e-04, 9.19e-03, 6.91e+01, 1.02e-05}},
   {"YT_YB/log", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"YT_YB/nolog", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"YT_YT/log", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"YT_YT/nolog", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"fo1", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"fo1d", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"fo1g", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"fo1p", {2.00e-05, 5.00e-05, 2.00e-02, 1.00e-05}},
   {"fo2.G32YB4", {2.29e-05, 2.15e-04, 5.36e-02, 1.39e-05}},
   {"fo2.G32YT4", {2.27e-05, 8.97e-05, 2.01e-02, 1.00e-05}},
   {"fo2.YT6", {2.03e-04, 4.17e-04, 4.03e-02, 1.16e-05}},
   {"fo2.YT6.only", {2.18e-05, 5.18e-05, 2.15e-02, 1.05e-05}},
   {"fo2.YT6.only/t0", {1.68e-04, 3.51e-04, 3.47e-02, 1.02e-05}},
   {"fo2.YT6/t0", {5.62e-04, 6.94e-04, 1.05e-01, 1.16e-05}},
   {"fo2.YTAU2YB4", {2.02e-05, 8.97e-05, 3.16e-02, 1.06e-05}},
   {"fo2.YTAU6", {2.11e-05, 8.01e-04, 5.51e-02, 1.08e-05}},
};
double tolerance(const std::string& n, int c) { const auto i = TOLERANCES.find(n); return i == TOLERANCES.end() ? 1e-4 : i->second.t[c]; }
