/// largest error of each expansion: name.loop.element.distance, 1.5 times the largest one of the thorough lattice
double bound(const std::string& n)
{
   static const std::map<std::string, double> b = {
   {"exact.h3.1.0.0", 2.43e-04},
   {"exact.h3.1.0.1", 2.41e-04},
   {"exact.h3.1.0.2", 7.08e-04},
   {"exact.h3.1.0.3", 2.44e-04},
   {"exact.h3.1.0.4", 3.66e-04},
   {"exact.h3.1.1.0", 1.48e-04},
   {"exact.h3.1.1.1", 2.53e-04},
   {"exact.h3.1.1.2", 3.45e-04},
   {"exact.h3.1.1.3", 7.92e-05},
   {"exact.h3.1.1.4", 3.18e-04},
   {"exact.h3.1.2.0", 2.31e-05},
   {"exact.h3.1.2.1", 8.13e-05},
   {"exact.h3.1.2.2", 2.54e-04},
   {"exact.h3.1.2.3", 6.16e-06},
   {"exact.h3.1.2.4", 1.62e-04},
   {"exact.h3.2.0.0", 1.46e-05},
   {"exact.h3.2.0.1", 2.35e-05},
   {"exact.h3.2.0.2", 8.21e-05},
   {"exact.h3.2.0.3", 1.22e-05},
   {"exact.h3.2.0.4", 4.86e-05},
   {"exact.h3.2.1.0", 5.70e-06},
   {"exact.h3.2.1.1", 4.11e-05},
   {"exact.h3.2.1.2", 3.05e-04},
   {"exact.h3.2.1.3", 1.79e-06},
   {"exact.h3.2.1.4", 1.33e-04},
   {"exact.h3.2.2.0", 2.15e-05},
   {"exact.h3.2.2.1", 7.68e-05},
   {"exact.h3.2.2.2", 2.46e-04},
   {"exact.h3.2.2.3", 5.62e-06},
   {"exact.h3.2.2.4", 1.54e-04},
   {"exact.h32q2g.1.0.0", 1.35e-04},
   {"exact.h32q2g.1.0.1", 3.03e-04},
   {"exact.h32q2g.1.0.2", 1.32e-03},
   {"exact.h32q2g.1.0.3", 2.20e-04},
   {"exact.h32q2g.1.0.4", 7.80e-04},
   {"exact.h32q2g.1.1.0", 1.95e-04},
   {"exact.h32q2g.1.1.1", 3.08e-04},
   {"exact.h32q2g.1.1.2", 3.18e-04},
   {"exact.h32q2g.1.1.3", 1.08e-04},
   {"exact.h32q2g.1.1.4", 3.46e-04},
   {"exact.h32q2g.1.2.0", 4.30e-05},
   {"exact.h32q2g.1.2.1", 1.44e-04},
   {"exact.h32q2g.1.2.2", 4.13e-04},
   {"exact.h32q2g.1.2.3", 1.18e-05},
   {"exact.h32q2g.1.2.4", 2.74e-04},
   {"exact.h32q2g.2.0.0", 1.43e-05},
   {"exact.h32q2g.2.0.1", 4.18e-05},
   {"exact.h32q2g.2.0.2", 2.09e-04},
   {"exact.h32q2g.2.0.3", 1.45e-05},
   {"exact.h32q2g.2.0.4", 9.09e-05},
   {"exact.h32q2g.2.1.0", 1.40e-05},
   {"exact.h32q2g.2.1.1", 9.79e-05},
   {"exact.h32q2g.2.1.2", 6.36e-04},
   {"exact.h32q2g.2.1.3", 2.66e-06},
   {"exact.h32q2g.2.1.4", 2.97e-04},
   {"exact.h32q2g.2.2.0", 4.06e-05},
   {"exact.h32q2g.2.2.1", 1.36e-04},
   {"exact.h32q2g.2.2.2", 3.90e-04},
   {"exact.h32q2g.2.2.3", 1.10e-05},
   {"exact.h32q2g.2.2.4", 2.59e-04},
   {"exact.h3q22g.1.0.0", 1.91e-04},
   {"exact.h3q22g.1.0.1", 1.06e-04},
   {"exact.h3q22g.1.0.2", 7.08e-04},
   {"exact.h3q22g.1.0.3", 2.33e-04},
   {"exact.h3q22g.1.0.4", 3.66e-04},
   {"exact.h3q22g.1.1.0", 1.48e-04},
   {"exact.h3q22g.1.1.1", 2.53e-04},
   {"exact.h3q22g.1.1.2", 3.45e-04},
   {"exact.h3q22g.1.1.3", 7.92e-05},
   {"exact.h3q22g.1.1.4", 3.18e-04},
   {"exact.h3q22g.1.2.0", 2.31e-05},
   {"exact.h3q22g.1.2.1", 8.13e-05},
   {"exact.h3q22g.1.2.2", 2.54e-04},
   {"exact.h3q22g.1.2.3", 6.16e-06},
   {"exact.h3q22g.1.2.4", 1.62e-04},
   {"exact.h3q22g.2.0.0", 1.56e-05},
   {"exact.h3q22g.2.0.1", 2.26e-05},
   {"exact.h3q22g.2.0.2", 8.20e-05},
   {"exact.h3q22g.2.0.3", 1.28e-05},
   {"exact.h3q22g.2.0.4", 4.78e-05},
   {"exact.h3q22g.2.1.0", 5.49e-06},
   {"exact.h3q22g.2.1.1", 3.81e-05},
   {"exact.h3q22g.2.1.2", 2.60e-04},
   {"exact.h3q22g.2.1.3", 1.77e-06},
   {"exact.h3q22g.2.1.4", 1.18e-04},
   {"exact.h3q22g.2.2.0", 2.18e-05},
   {"exact.h3q22g.2.2.1", 7.69e-05},
   {"exact.h3q22g.2.2.2", 2.40e-04},
   {"exact.h3q22g.2.2.3", 5.72e-06},
   {"exact.h3q22g.2.2.4", 1.53e-04},
   {"exact.h4.1.0.0", 3.46e-02},
   {"exact.h4.1.0.1", 3.65e-02},
   {"exact.h4.1.0.2", 4.02e-02},
   {"exact.h4.1.0.3", 3.36e-02},
   {"exact.h4.1.0.4", 3.83e-02},
   {"exact.h4.2.0.0", 1.65e-02},
   {"exact.h4.2.0.1", 1.60e-02},
   {"exact.h4.2.0.2", 1.49e-02},
   {"exact.h4.2.0.3", 1.68e-02},
   {"exact.h4.2.0.4", 1.55e-02},
   {"exact.h5.1.0.0", 1.75e-04},
   {"exact.h5.1.0.1", 1.75e-04},
   {"exact.h5.1.0.2", 1.75e-04},
   {"exact.h5.1.0.3", 1.75e-04},
   {"exact.h5.1.0.4", 1.75e-04},
   {"exact.h5.2.0.0", 1.44e-02},
   {"exact.h5.2.0.1", 1.42e-02},
   {"exact.h5.2.0.2", 1.39e-02},
   {"exact.h5.2.0.3", 1.45e-02},
   {"exact.h5.2.0.4", 1.41e-02},
   {"exact.h5g1.1.0.0", 1.75e-04},
   {"exact.h5g1.1.0.1", 1.75e-04},
   {"exact.h5g1.1.0.2", 1.75e-04},
   {"exact.h5g1.1.0.3", 1.75e-04},
   {"exact.h5g1.1.0.4", 1.75e-04},
   {"exact.h5g1.2.0.0", 1.64e-02},
   {"exact.h5g1.2.0.1", 1.84e-02},
   {"exact.h5g1.2.0.2", 2.28e-02},
   {"exact.h5g1.2.0.3", 1.55e-02},
   {"exact.h5g1.2.0.4", 2.06e-02},
   {"exact.h6.1.0.0", 7.80e-05},
   {"exact.h6.1.0.1", 7.80e-05},
   {"exact.h6.1.0.2", 7.80e-05},
   {"exact.h6.1.0.3", 7.80e-05},
   {"exact.h6.1.0.4", 7.80e-05},
   {"exact.h6.2.0.0", 1.20e-02},
   {"exact.h6.2.0.1", 1.33e-02},
   {"exact.h6.2.0.2", 1.61e-02},
   {"exact.h6.2.0.3", 1.15e-02},
   {"exact.h6.2.0.4", 1.46e-02},
   {"exact.h6b.1.0.0", 7.80e-05},
   {"exact.h6b.1.0.1", 7.80e-05},
   {"exact.h6b.1.0.2", 7.80e-05},
   {"exact.h6b.1.0.3", 7.80e-05},
   {"exact.h6b.1.0.4", 7.80e-05},
   {"exact.h6b.2.0.0", 1.20e-02},
   {"exact.h6b.2.0.1", 1.33e-02},
   {"exact.h6b.2.0.2", 1.61e-02},
   {"exact.h6b.2.0.3", 1.15e-02},
   {"exact.h6b.2.0.4", 1.46e-02},
   {"exact.h6b2qg2.1.0.0", 7.80e-05},
   {"exact.h6b2qg2.1.0.1", 7.80e-05},
   {"exact.h6b2qg2.1.0.2", 7.80e-05},
   {"exact.h6b2qg2.1.0.3", 7.80e-05},
   {"exact.h6b2qg2.1.0.4", 7.80e-05},
   {"exact.h6b2qg2.2.0.0", 1.08e-02},
   {"exact.h6b2qg2.2.0.1", 1.07e-02},
   {"exact.h6b2qg2.2.0.2", 1.05e-02},
   {"exact.h6b2qg2.2.0.3", 1.09e-02},
   {"exact.h6b2qg2.2.0.4", 1.06e-02},
   {"exact.h6bq22g.1.0.0", 7.80e-05},
   {"exact.h6bq22g.1.0.1", 7.80e-05},
   {"exact.h6bq22g.1.0.2", 7.80e-05},
   {"exact.h6bq22g.1.0.3", 7.80e-05},
   {"exact.h6bq22g.1.0.4", 7.80e-05},
   {"exact.h6bq22g.2.0.0", 1.20e-02},
   {"exact.h6bq22g.2.0.1", 1.33e-02},
   {"exact.h6bq22g.2.0.2", 1.61e-02},
   {"exact.h6bq22g.2.0.3", 1.15e-02},
   {"exact.h6bq22g.2.0.4", 1.46e-02},
   {"exact.h6bq2g2.1.0.0", 7.80e-05},
   {"exact.h6bq2g2.1.0.1", 7.80e-05},
   {"exact.h6bq2g2.1.0.2", 7.80e-05},
   {"exact.h6bq2g2.1.0.3", 7.80e-05},
   {"exact.h6bq2g2.1.0.4", 7.80e-05},
   {"exact.h6bq2g2.2.0.0", 1.08e-02},
   {"exact.h6bq2g2.2.0.1", 1.07e-02},
   {"exact.h6bq2g2.2.0.2", 1.05e-02},
   {"exact.h6bq2g2.2.0.3", 1.09e-02},
   {"exact.h6bq2g2.2.0.4", 1.06e-02},
   {"exact.h6g2.1.0.0", 7.80e-05},
   {"exact.h6g2.1.0.1", 7.80e-05},
   {"exact.h6g2.1.0.2", 7.80e-05},
   {"exact.h6g2.1.0.3", 7.80e-05},
   {"exact.h6g2.1.0.4", 7.80e-05},
   {"exact.h6g2.2.0.0", 1.08e-02},
   {"exact.h6g2.2.0.1", 1.07e-02},
   {"exact.h6g2.2.0.2", 1.05e-02},
   {"exact.h6g2.2.0.3", 1.09e-02},
   {"exact.h6g2.2.0.4", 1.06e-02},
   {"exact.h9.1.0.0", 2.42e-04},
   {"exact.h9.1.0.1", 2.40e-04},
   {"exact.h9.1.0.2", 1.00e-03},
   {"exact.h9.1.0.3", 2.44e-04},
   {"exact.h9.1.0.4", 5.66e-04},
   {"exact.h9.1.1.0", 1.72e-04},
   {"exact.h9.1.1.1", 2.84e-04},
   {"exact.h9.1.1.2", 3.42e-04},
   {"exact.h9.1.1.3", 9.37e-05},
   {"exact.h9.1.1.4", 3.39e-04},
   {"exact.h9.1.2.0", 3.24e-05},
   {"exact.h9.1.2.1", 1.11e-04},
   {"exact.h9.1.2.2", 3.33e-04},
   {"exact.h9.1.2.3", 8.76e-06},
   {"exact.h9.1.2.4", 2.16e-04},
   {"exact.h9.2.0.0", 4.18e-05},
   {"exact.h9.2.0.1", 4.10e-05},
   {"exact.h9.2.0.2", 1.22e-04},
   {"exact.h9.2.0.3", 4.31e-05},
   {"exact.h9.2.0.4", 5.50e-05},
   {"exact.h9.2.1.0", 8.48e-06},
   {"exact.h9.2.1.1", 1.55e-05},
   {"exact.h9.2.1.2", 4.36e-05},
   {"exact.h9.2.1.3", 1.37e-05},
   {"exact.h9.2.1.4", 2.26e-05},
   {"exact.h9.2.2.0", 2.47e-05},
   {"exact.h9.2.2.1", 1.66e-05},
   {"exact.h9.2.2.2", 6.64e-05},
   {"exact.h9.2.2.3", 2.67e-04},
   {"exact.h9.2.2.4", 3.76e-05},
   {"exact.h9q2.1.0.0", 2.42e-04},
   {"exact.h9q2.1.0.1", 2.40e-04},
   {"exact.h9q2.1.0.2", 1.00e-03},
   {"exact.h9q2.1.0.3", 2.44e-04},
   {"exact.h9q2.1.0.4", 5.66e-04},
   {"exact.h9q2.1.1.0", 1.72e-04},
   {"exact.h9q2.1.1.1", 2.84e-04},
   {"exact.h9q2.1.1.2", 3.42e-04},
   {"exact.h9q2.1.1.3", 9.37e-05},
   {"exact.h9q2.1.1.4", 3.39e-04},
   {"exact.h9q2.1.2.0", 3.24e-05},
   {"exact.h9q2.1.2.1", 1.11e-04},
   {"exact.h9q2.1.2.2", 3.33e-04},
   {"exact.h9q2.1.2.3", 8.76e-06},
   {"exact.h9q2.1.2.4", 2.16e-04},
   {"exact.h9q2.2.0.0", 4.18e-05},
   {"exact.h9q2.2.0.1", 4.10e-05},
   {"exact.h9q2.2.0.2", 1.22e-04},
   {"exact.h9q2.2.0.3", 4.31e-05},
   {"exact.h9q2.2.0.4", 5.50e-05},
   {"exact.h9q2.2.1.0", 8.48e-06},
   {"exact.h9q2.2.1.1", 1.55e-05},
   {"exact.h9q2.2.1.2", 4.36e-05},
   {"exact.h9q2.2.1.3", 1.37e-05},
   {"exact.h9q2.2.1.4", 2.26e-05},
   {"exact.h9q2.2.2.0", 2.47e-05},
   {"exact.h9q2.2.2.1", 1.66e-05},
   {"exact.h9q2.2.2.2", 6.64e-05},
   {"exact.h9q2.2.2.3", 2.67e-04},
   {"exact.h9q2.2.2.4", 3.76e-05},
   {"overlap.0.0.0", 5.71e-07},
   {"overlap.0.0.1", 2.07e-06},
   {"overlap.0.0.2", 1.37e-05},
   {"overlap.0.0.3", 2.03e-07},
   {"overlap.0.0.4", 5.49e-06},
   {"overlap.0.1.0", 1.10e-06},
   {"overlap.0.1.1", 4.65e-06},
   {"overlap.0.1.2", 2.53e-05},
   {"overlap.0.1.3", 3.63e-07},
   {"overlap.0.1.4", 1.23e-05},
   {"overlap.0.2.0", 2.19e-07},
   {"overlap.0.2.1", 9.04e-07},
   {"overlap.0.2.2", 4.90e-06},
   {"overlap.0.2.3", 7.29e-08},
   {"overlap.0.2.4", 2.32e-06},
   {"overlap.1.0.0", 2.67e-07},
   {"overlap.1.0.1", 2.02e-06},
   {"overlap.1.0.2", 2.68e-05},
   {"overlap.1.0.3", 1.10e-07},
   {"overlap.1.0.4", 8.89e-06},
   {"overlap.1.1.0", 9.59e-08},
   {"overlap.1.1.1", 7.78e-07},
   {"overlap.1.1.2", 7.55e-06},
   {"overlap.1.1.3", 1.63e-08},
   {"overlap.1.1.4", 2.78e-06},
   {"overlap.1.2.0", 1.00e-08},
   {"overlap.1.2.1", 5.24e-08},
   {"overlap.1.2.2", 2.67e-07},
   {"overlap.1.2.3", 1.00e-08},
   {"overlap.1.2.4", 1.18e-07},
   {"overlap.3.0.0", 5.84e-04},
   {"overlap.3.0.1", 9.40e-04},
   {"overlap.3.0.2", 2.14e-03},
   {"overlap.3.0.3", 4.50e-04},
   {"overlap.3.0.4", 1.44e-03},
   {"overlap.3.1.0", 1.22e-03},
   {"overlap.3.1.1", 1.93e-03},
   {"overlap.3.1.2", 6.00e-03},
   {"overlap.3.1.3", 9.46e-04},
   {"overlap.3.1.4", 2.91e-03},
   {"overlap.3.2.0", 5.41e-05},
   {"overlap.3.2.1", 2.42e-04},
   {"overlap.3.2.2", 1.49e-03},
   {"overlap.3.2.3", 2.04e-05},
   {"overlap.3.2.4", 6.74e-04},
   {"overlap.4.0.0", 7.72e-05},
   {"overlap.4.0.1", 2.10e-04},
   {"overlap.4.0.2", 8.40e-04},
   {"overlap.4.0.3", 4.02e-05},
   {"overlap.4.0.4", 4.52e-04},
   {"overlap.4.1.0", 6.50e-05},
   {"overlap.4.1.1", 1.78e-04},
   {"overlap.4.1.2", 7.15e-04},
   {"overlap.4.1.3", 3.38e-05},
   {"overlap.4.1.4", 3.83e-04},
   {"overlap.4.2.0", 6.01e-05},
   {"overlap.4.2.1", 1.69e-04},
   {"overlap.4.2.2", 7.19e-04},
   {"overlap.4.2.3", 3.09e-05},
   {"overlap.4.2.4", 3.74e-04},
   {"overlap.5.0.0", 1.77e-05},
   {"overlap.5.0.1", 8.31e-05},
   {"overlap.5.0.2", 5.60e-04},
   {"overlap.5.0.3", 5.27e-06},
   {"overlap.5.0.4", 2.34e-04},
   {"overlap.5.1.0", 1.25e-05},
   {"overlap.5.1.1", 5.83e-05},
   {"overlap.5.1.2", 4.99e-04},
   {"overlap.5.1.3", 3.72e-06},
   {"overlap.5.1.4", 2.02e-04},
   {"overlap.5.2.0", 8.66e-06},
   {"overlap.5.2.1", 4.07e-05},
   {"overlap.5.2.2", 2.50e-04},
   {"overlap.5.2.3", 2.57e-06},
   {"overlap.5.2.4", 1.14e-04},
   {"scheme.h3.0", 1.11e-04},
   {"scheme.h3.1", 5.94e-05},
   {"scheme.h3.2", 3.85e-05},
   {"scheme.h3.3", 2.41e-04},
   {"scheme.h3.4", 4.55e-05},
   {"scheme.h32q2g.0", 2.17e-05},
   {"scheme.h32q2g.1", 1.69e-05},
   {"scheme.h32q2g.2", 1.06e-05},
   {"scheme.h32q2g.3", 2.83e-05},
   {"scheme.h32q2g.4", 1.33e-05},
   {"scheme.h3q22g.0", 2.50e-05},
   {"scheme.h3q22g.1", 2.07e-05},
   {"scheme.h3q22g.2", 2.03e-05},
   {"scheme.h3q22g.3", 3.35e-05},
   {"scheme.h3q22g.4", 1.99e-05},
   {"scheme.h4.0", 3.29e-02},
   {"scheme.h4.1", 1.02e-02},
   {"scheme.h4.2", 2.68e-03},
   {"scheme.h4.3", 8.26e-02},
   {"scheme.h4.4", 4.77e-03},
   {"scheme.h5.0", 4.35e-03},
   {"scheme.h5.1", 3.21e-03},
   {"scheme.h5.2", 1.54e-03},
   {"scheme.h5.3", 2.26e-02},
   {"scheme.h5.4", 2.24e-03},
   {"scheme.h5g1.0", 4.26e-03},
   {"scheme.h5g1.1", 3.10e-03},
   {"scheme.h5g1.2", 1.46e-03},
   {"scheme.h5g1.3", 2.27e-02},
   {"scheme.h5g1.4", 2.15e-03},
   {"scheme.h6.0", 2.04e-02},
   {"scheme.h6.1", 1.39e-02},
   {"scheme.h6.2", 6.99e-03},
   {"scheme.h6.3", 1.68e-02},
   {"scheme.h6.4", 8.20e-03},
   {"scheme.h6b.0", 5.76e-03},
   {"scheme.h6b.1", 6.31e-03},
   {"scheme.h6b.2", 7.49e-03},
   {"scheme.h6b.3", 5.50e-03},
   {"scheme.h6b.4", 6.88e-03},
   {"scheme.h6b2qg2.0", 5.25e-03},
   {"scheme.h6b2qg2.1", 5.26e-03},
   {"scheme.h6b2qg2.2", 6.07e-03},
   {"scheme.h6b2qg2.3", 5.25e-03},
   {"scheme.h6b2qg2.4", 5.41e-03},
   {"scheme.h6bq22g.0", 5.67e-03},
   {"scheme.h6bq22g.1", 6.12e-03},
   {"scheme.h6bq22g.2", 7.11e-03},
   {"scheme.h6bq22g.3", 5.46e-03},
   {"scheme.h6bq22g.4", 6.60e-03},
   {"scheme.h6bq2g2.0", 5.16e-03},
   {"scheme.h6bq2g2.1", 5.07e-03},
   {"scheme.h6bq2g2.2", 5.44e-03},
   {"scheme.h6bq2g2.3", 5.20e-03},
   {"scheme.h6bq2g2.4", 4.98e-03},
   {"scheme.h6g2.0", 2.16e-02},
   {"scheme.h6g2.1", 1.51e-02},
   {"scheme.h6g2.2", 5.24e-03},
   {"scheme.h6g2.3", 1.75e-02},
   {"scheme.h6g2.4", 8.93e-03},
   {"scheme.h9.0", 2.11e-05},
   {"scheme.h9.1", 2.17e-05},
   {"scheme.h9.2", 2.50e-05},
   {"scheme.h9.3", 1.14e-04},
   {"scheme.h9.4", 2.45e-05},
   {"scheme.h9q2.0", 2.62e-05},
   {"scheme.h9q2.1", 2.47e-05},
   {"scheme.h9q2.2", 3.29e-05},
   {"scheme.h9q2.3", 1.59e-04},
   {"scheme.h9q2.4", 2.91e-05},
   };
   const auto i = b.find(n); return i == b.end() ? 0 : i->second;
}
