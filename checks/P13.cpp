// P13: tree-level masses and mixings are eigenvalues / eigenvectors of the (textbook) mass matrices.
//
// Oracle: mass matrices written down from the Lagrangian in terms of MZ, MW,
// cos(2 beta), charges and fermion masses (long double); every reported mass
// and mixing is inserted into M = U^T diag U; eigenvalues of 2x2 matrices from
// the closed formula.  Spaces: per sector, full products of small alphabets
// that contain all coincidences, zeros, signs and hierarchies; for the linear
// algebra all matrices over a small alphabet of entries.
#include "vh.hpp"
#include "points.hpp"
#include "himalaya/mh2_fo/MSSM_spectrum.hpp"
#include "himalaya/mh2_fo/MSSM_mass_eigenstates.hpp"
#include "himalaya/mh2_fo/Linalg.hpp"
#include <complex>
#include <memory>
using namespace himalaya;
using mh2_fo::MSSM_spectrum;
using mh2_fo::MSSM_mass_eigenstates;
using vh::Digits; using vh::Report;
typedef long double L;
typedef Eigen::Matrix<L,2,2> ML2;

namespace {

L sq(L x) { return x*x; }
L cube(L x) { return x*x*x; }

template <class A, class B> L norm(const Eigen::MatrixBase<A>& m, const Eigen::MatrixBase<B>&) { return m.cwiseAbs().maxCoeff(); }

const double EPS = 2e-14;

// m == U^T diag(w) U, U orthogonal, |w| ascending
template <int N>
void eigen(const std::string& key, const Eigen::Matrix<L,N,N>& m, const Eigen::Array<double,N,1>& w, const Eigen::Matrix<double,N,N>& U, Report& r, const std::string& at)
{
   const Eigen::Matrix<L,N,N> u = U.template cast<L>();
   const L n = std::max(m.cwiseAbs().maxCoeff(), L(1e-300L));
   const Eigen::Matrix<L,N,N> back = u.transpose()*w.matrix().template cast<L>().asDiagonal()*u - m;
   const Eigen::Matrix<L,N,N> on = u*u.transpose() - Eigen::Matrix<L,N,N>::Identity();
   r.close(key + " diagonalises", double(back.cwiseAbs().maxCoeff()/n), 0, 10*N*EPS, at);
   r.close(key + " orthogonal", double(on.cwiseAbs().maxCoeff()), 0, 4*N*EPS, at);
   for (int i = 0; i + 1 < N; i++)
      r.check(key + " ordered", std::abs(w(i)) <= std::abs(w(i+1)), at + " " + vh::fmt(w(i)) + " " + vh::fmt(w(i+1)));
   r.check(key + " normalised", (U.array().abs() <= 1).all(), at);
   L tr = 0, tm = 0; for (int i = 0; i < N; i++) { tr += w(i); tm += m(i,i); }
   r.close(key + " trace", double((tr - tm)/n), 0, 10*N*EPS, at);
}

// eigenvalues of a symmetric 2x2 matrix, |.| ascending
void eig2(const ML2& m, L& a, L& b)
{
   const L h = (m(0,0) + m(1,1))/2, d = std::hypot((m(0,0) - m(1,1))/2, m(0,1));
   a = h - d; b = h + d; if (std::abs(a) > std::abs(b)) std::swap(a, b);
}

template <class M> void matrix(const std::string& key, const M& got, const Eigen::Matrix<L,M::RowsAtCompileTime,M::ColsAtCompileTime>& ref, L scale, Report& r, const std::string& at)
{
   const L n = std::max(scale, L(1e-300L));
   for (int i = 0; i < got.rows(); i++) for (int k = 0; k < got.cols(); k++)
      r.close(key + "(" + std::to_string(i) + "," + std::to_string(k) + ")", double(got(i,k)/n), double(ref(i,k)/n), 20*EPS, at);
}

struct EW { L v2, mz2, mw2, sw2, cb, sb, c2b; };
EW ew(const Parameters& p)
{
   EW e; const L gy2 = 3*sq(p.g1)/5, g2 = sq(p.g2);
   e.v2 = sq(p.vu) + sq(p.vd); e.mz2 = (gy2 + g2)*e.v2/4; e.mw2 = g2*e.v2/4;
   e.sw2 = gy2 + g2 > 0 ? gy2/(gy2 + g2) : 0; e.cb = p.vd/std::sqrt(e.v2); e.sb = p.vu/std::sqrt(e.v2); e.c2b = e.cb*e.cb - e.sb*e.sb;
   return e;
}

// sfermion mass matrix from the D terms M_Z^2 cos(2 beta) (T3 - Q sw^2)
ML2 sfermion(const EW& e, L m2L, L m2R, L T3, L Q, L mf, L X)
{
   ML2 m; m(0,0) = m2L + mf*mf + e.mz2*e.c2b*(T3 - Q*e.sw2); m(1,1) = m2R + mf*mf + e.mz2*e.c2b*Q*e.sw2; m(0,1) = m(1,0) = mf*X;
   return m;
}

std::string show(const Parameters& p)
{
   std::ostringstream o; o.precision(17);
   o << "[mu=" << p.mu << " g1=" << p.g1 << " g2=" << p.g2 << " vu=" << p.vu << " vd=" << p.vd << " MA=" << p.MA << " M1=" << p.M1 << " M2=" << p.M2
     << " mq2=" << p.mq2(2,2) << " mu2=" << p.mu2(2,2) << " md2=" << p.md2(2,2) << " ml2=" << p.ml2(2,2) << " me2=" << p.me2(2,2) << " At=" << p.Au(2,2) << " Ab=" << p.Ad(2,2) << " yt=" << p.Yu(2,2) << " yb=" << p.Yd(2,2) << "]";
   return o.str();
}

void spectrum(const Parameters& p, Report& r)
{
   const MSSM_spectrum s(p); const EW e = ew(p); const std::string at = show(p);
   r.count("spectra");
   r.close("MZ", s.M2VZ, double(e.mz2), 20*EPS*double(e.mz2), at);
   r.close("MW", s.M2VWm, double(e.mw2), 20*EPS*double(e.mw2), at);
   const L rt2 = std::sqrt(L(2)), mt = p.Yu(2,2)*p.vu/rt2, mb = p.Yd(2,2)*p.vd/rt2, ml = p.Ye(2,2)*p.vd/rt2;
   r.close("mt", s.MFt, double(mt), 20*EPS*std::abs(double(mt)), at);
   r.close("mb", s.MFb, double(mb), 20*EPS*std::abs(double(mb)), at);
   r.close("mtau", s.MFtau, double(ml), 20*EPS*std::abs(double(ml)), at);
   const L tb = e.sb/e.cb;
   struct SF { const char* n; const MSSM_spectrum::A2* w; const RM22* z; RM22 mm; double l, rr; L T3, Q, mf, X; };
   const SF sf[] = {
      {"Su", &s.M2Su, &s.ZU, s.get_mass_matrix_Su(), p.mq2(0,0), p.mu2(0,0), .5L, 2/L(3), 0, 0},
      {"Sc", &s.M2Sc, &s.ZC, s.get_mass_matrix_Sc(), p.mq2(1,1), p.mu2(1,1), .5L, 2/L(3), 0, 0},
      {"St", &s.M2St, &s.ZT, s.get_mass_matrix_St(), p.mq2(2,2), p.mu2(2,2), .5L, 2/L(3), mt, p.Au(2,2) - p.mu/tb},
      {"Sd", &s.M2Sd, &s.ZD, s.get_mass_matrix_Sd(), p.mq2(0,0), p.md2(0,0), -.5L, -1/L(3), 0, 0},
      {"Ss", &s.M2Ss, &s.ZS, s.get_mass_matrix_Ss(), p.mq2(1,1), p.md2(1,1), -.5L, -1/L(3), 0, 0},
      {"Sb", &s.M2Sb, &s.ZB, s.get_mass_matrix_Sb(), p.mq2(2,2), p.md2(2,2), -.5L, -1/L(3), mb, p.Ad(2,2) - p.mu*tb},
      {"Se", &s.M2Se, &s.ZE, s.get_mass_matrix_Se(), p.ml2(0,0), p.me2(0,0), -.5L, -1, 0, 0},
      {"Sm", &s.M2Sm, &s.ZM, s.get_mass_matrix_Sm(), p.ml2(1,1), p.me2(1,1), -.5L, -1, 0, 0},
      {"Stau", &s.M2Stau, &s.ZTau, s.get_mass_matrix_Stau(), p.ml2(2,2), p.me2(2,2), -.5L, -1, ml, p.Ae(2,2) - p.mu*tb},
   };
   for (auto& f : sf) {
      const ML2 m = sfermion(e, f.l, f.rr, f.T3, f.Q, f.mf, f.X);
      const L n = std::max({std::abs(L(f.l)), std::abs(L(f.rr)), m.cwiseAbs().maxCoeff(), e.mz2, std::abs(f.mf*p.mu), std::abs(f.mf)*std::abs(L(p.mu))*tb, L(1e-300L)});
      matrix(std::string("matrix ") + f.n, f.mm, m, n, r, at);
      eigen<2>(f.n, f.mm.cast<L>(), *f.w, *f.z, r, at);
      L a, b; eig2(f.mm.cast<L>(), a, b);
      r.close(std::string(f.n) + " lighter", (*f.w)(0)/double(n), double(a/n), 20*EPS, at); r.close(std::string(f.n) + " heavier", (*f.w)(1)/double(n), double(b/n), 20*EPS, at);
      r.state(vh::mix(vh::bits((*f.w)(0)), vh::bits((*f.z)(0,0)))); r.count(std::string("sector ") + f.n);
   }
   const double sv[3] = {s.M2SveL, s.M2SvmL, s.M2SvtL};
   for (int g = 0; g < 3; g++) {
      const L m = p.ml2(g,g) + e.mz2*e.c2b/2, n = std::max({std::abs(L(p.ml2(g,g))), e.mz2, L(1e-300L)});
      r.close("sneutrino " + std::to_string(g), sv[g]/double(n), double(m/n), 20*EPS, at);
   }
   // Higgs sector (Feynman gauge: Goldstone bosons have the vector boson masses)
   const L mA2 = sq(p.MA), n = std::max({mA2, e.mz2, L(1e-300L)})*std::max(L(1), 1/(e.sb*e.cb)/4);
   ML2 hh, ah, hp;
   hh << mA2*sq(e.sb) + e.mz2*sq(e.cb), -(mA2 + e.mz2)*e.sb*e.cb, -(mA2 + e.mz2)*e.sb*e.cb, mA2*sq(e.cb) + e.mz2*sq(e.sb);
   ah << mA2*sq(e.sb) + e.mz2*sq(e.cb), (mA2 - e.mz2)*e.sb*e.cb, (mA2 - e.mz2)*e.sb*e.cb, mA2*sq(e.cb) + e.mz2*sq(e.sb);
   const L mc2 = mA2 + e.mw2;
   hp << mc2*sq(e.sb) + e.mw2*sq(e.cb), (mc2 - e.mw2)*e.sb*e.cb, (mc2 - e.mw2)*e.sb*e.cb, mc2*sq(e.cb) + e.mw2*sq(e.sb);
   matrix("matrix hh", s.get_mass_matrix_hh(), hh, n, r, at); matrix("matrix Ah", s.get_mass_matrix_Ah(), ah, n, r, at); matrix("matrix Hpm", s.get_mass_matrix_Hpm(), hp, n, r, at);
   eigen<2>("hh", s.get_mass_matrix_hh().cast<L>(), s.M2hh, s.ZH, r, at); eigen<2>("Ah", s.get_mass_matrix_Ah().cast<L>(), s.M2Ah, s.ZA, r, at); eigen<2>("Hpm", s.get_mass_matrix_Hpm().cast<L>(), s.M2Hpm, s.ZP, r, at);
   const auto pair = [&] (const char* k, const MSSM_spectrum::A2& w, L a, L b) {
      if (a > b) std::swap(a, b);
      r.close(std::string(k) + " lighter", w(0)/double(n), double(a/n), 40*EPS, at); r.close(std::string(k) + " heavier", w(1)/double(n), double(b/n), 40*EPS, at);
      r.check(std::string(k) + " non-negative", w(0) >= -1e-13*double(n), at);
   };
   const L D = std::sqrt(std::max(L(0), sq(mA2 + e.mz2) - 4*mA2*e.mz2*sq(e.c2b)));
   pair("mh,mH", s.M2hh, (mA2 + e.mz2 - D)/2, (mA2 + e.mz2 + D)/2); pair("mG,mA", s.M2Ah, e.mz2, mA2); pair("mG+,mH+", s.M2Hpm, e.mw2, mc2);
   r.state(vh::mix(vh::bits(s.M2hh(0)), vh::bits(s.ZH(0,0))));
   // neutralinos: (B, W3, Hd, Hu)
   Eigen::Matrix<L,4,4> ch = Eigen::Matrix<L,4,4>::Zero(); const L gy = std::sqrt(3/L(5))*p.g1;
   ch(0,0) = p.M1; ch(1,1) = p.M2; ch(0,2) = ch(2,0) = -gy*p.vd/2; ch(0,3) = ch(3,0) = gy*p.vu/2; ch(1,2) = ch(2,1) = L(p.g2)*p.vd/2; ch(1,3) = ch(3,1) = -L(p.g2)*p.vu/2; ch(2,3) = ch(3,2) = -p.mu;
   matrix("matrix Chi", s.get_mass_matrix_Chi(), ch, ch.cwiseAbs().maxCoeff(), r, at);
   eigen<4>("Chi", s.get_mass_matrix_Chi().cast<L>(), s.MChi, s.ZN, r, at);
   ML2 cha; cha << p.M2, L(p.g2)*p.vu/rt2, L(p.g2)*p.vd/rt2, p.mu; const L nc = std::max(cha.cwiseAbs().maxCoeff(), L(1e-300L));
   matrix("matrix Cha", s.get_mass_matrix_Cha(), cha, nc, r, at);
   const ML2 um = s.UM.cast<L>(), up = s.UP.cast<L>();
   const ML2 back = um.transpose()*s.MCha.matrix().cast<L>().asDiagonal()*up - cha;
   r.close("Cha diagonalises", double(back.cwiseAbs().maxCoeff()/nc), 0, 20*EPS, at);
   r.close("UM unitary", double((um*um.transpose() - ML2::Identity()).cwiseAbs().maxCoeff()), 0, 10*EPS, at); r.close("UP unitary", double((up*up.transpose() - ML2::Identity()).cwiseAbs().maxCoeff()), 0, 10*EPS, at);
   r.check("Cha ordered and non-negative", s.MCha(0) >= 0 && s.MCha(0) <= s.MCha(1), at);
   // sum rules between the reported numbers
   r.close("sum rule h,H,A,Z", s.M2hh.sum()/double(n), s.M2Ah.sum()/double(n), 80*EPS, at);
   r.close("sum rule H+,A,W", s.M2Hpm.sum()/double(n), double((mA2 + 2*e.mw2)/n), 80*EPS, at);
   const L nd = s.M2VZ + s.M2VWm + std::abs(p.mq2(0,0)) + std::abs(p.ml2(0,0)) + 1e-300L;
   r.close("sum rule u-d", double((sf[0].mm(0,0) - sf[3].mm(0,0) - e.mw2*e.c2b)/nd), 0, 40*EPS, at);
   r.close("sum rule nu-e", double((s.M2SveL - sf[6].mm(0,0) - e.mw2*e.c2b)/nd), 0, 40*EPS, at);
   r.state(vh::mix(vh::bits(s.MChi(0)), vh::bits(s.MCha(0))));
}

// ---- families --------------------------------------------------------------------
Parameters base() { pts::Spec s; auto p = pts::make(s); for (int g = 0; g < 2; g++) { p.mq2(g,g) += 1e4*g; p.mu2(g,g) += 2e4*g + 5; p.md2(g,g) += 3e4*g + 7; p.ml2(g,g) += 4e4*g; p.me2(g,g) += 5e4*g; p.Au(g,g) = 100; p.Ad(g,g) = 200; p.Ae(g,g) = 300; } return p; }

void tanb(Parameters& p, double tb, double v) { p.vu = v*tb/std::sqrt(1 + tb*tb); p.vd = v/std::sqrt(1 + tb*tb); }

const std::vector<double> TB = {1, 1.0001, 0.3, 2, 10, 100};
const std::vector<std::pair<double,double>> GG = {{.46,.65}, {0,0}, {0,.65}, {.46,0}, {1,1}, {1e-4,1e-5}};

std::size_t n_higgs() { return TB.size()*GG.size()*(vh::thorough() ? 41 : 15); }
void higgs(std::size_t i, Report& r)
{
   Digits d(i); Parameters p = base(); const double tb = d.pick(TB); const auto g = d.pick(GG); p.g1 = g.first; p.g2 = g.second; tanb(p, tb, 246);
   const double mz = std::sqrt((3*p.g1*p.g1/5 + p.g2*p.g2)/4)*246, mw = p.g2*123;
   const double special[] = {0, 1e-3, 1, mz, std::nextafter(mz, 1e3), std::nextafter(mz, 0.), mw, mz*(1 + 1e-9), mz*(1 - 1e-6), 2*mz, 200, 1000, 1e4, 1e6, 50};
   const auto k = d.i; p.MA = k < 15 ? special[k] : 3*std::pow(1.3, double(k) - 15);
   spectrum(p, r);
}

const std::vector<double> M2S = {1e6, 1e6*(1 + 1e-15), 1.0000001e6, 1.44e6, 1e4, 0, -1e5, 1e10, 25};
const std::vector<double> XS = {0, 1e-8, 100, 2449.4897, -2449.4897, 1e5};
const std::vector<double> YS = {.85, 0, 1e-6, 1.2};
std::size_t n_sf() { return M2S.size()*M2S.size()*XS.size()*YS.size()*(vh::thorough() ? TB.size()*GG.size()*3 : 3); }
void sfermions(std::size_t i, Report& r)
{
   Digits d(i); Parameters p = base();
   const double l = d.pick(M2S), rr = d.pick(M2S), X = d.pick(XS), y = d.pick(YS); const auto m = d.next(3);
   const double tb = vh::thorough() ? d.pick(TB) : 3; if (vh::thorough()) { const auto g = d.pick(GG); p.g1 = g.first; p.g2 = g.second; } tanb(p, tb, 246);
   p.mu = m == 0 ? 0 : m == 1 ? 500 : -1500;
   for (int g = 0; g < 3; g++) { p.mq2(g,g) = p.ml2(g,g) = l; p.mu2(g,g) = p.md2(g,g) = p.me2(g,g) = rr; }
   p.mu2(0,0) = l; p.mq2(1,1) = rr; p.md2(1,1) = 1; p.me2(0,0) = 3e5;
   p.Au(2,2) = X + p.mu/tb; p.Ad(2,2) = X + p.mu*tb; p.Ae(2,2) = -X + p.mu*tb; p.Yu(2,2) = y; p.Yd(2,2) = y; p.Ye(2,2) = y/3;
   spectrum(p, r);
}

const std::vector<double> MG = {0, 100, -100, 100*(1 + 1e-12), 1000, -1000, 1e6, 1e-3};
std::size_t n_inos() { return MG.size()*MG.size()*MG.size()*TB.size()*GG.size()*(vh::thorough() ? 4 : 1); }
void inos(std::size_t i, Report& r)
{
   Digits d(i); Parameters p = base(); p.M1 = d.pick(MG); p.M2 = d.pick(MG); p.mu = d.pick(MG);
   const double tb = d.pick(TB); const auto g = d.pick(GG); p.g1 = g.first; p.g2 = g.second; const double vs[] = {246, 1e-3, 3000, 174}; tanb(p, tb, vs[d.next(4)]);
   p.Ad(2,2) = 0; p.Ae(2,2) = 0;
   spectrum(p, r);
}

// ---- linear algebra ------------------------------------------------------------
const double SC[] = {1, 1e-6, 1e8};

template <int N> std::size_t n_sym(std::size_t radix, std::size_t scales) { std::size_t n = scales; for (int k = 0; k < N*(N + 1)/2; k++) n *= radix; return n; }

template <int N> Eigen::Matrix<double,N,N> sym(Digits& d, const std::vector<double>& e)
{
   Eigen::Matrix<double,N,N> m; for (int i = 0; i < N; i++) for (int k = i; k < N; k++) m(i,k) = m(k,i) = d.pick(e);
   return m;
}

template <int N> void linalg_symmetric(const std::vector<double>& e, std::size_t i, Report& r)
{
   Digits d(i); Eigen::Matrix<double,N,N> m = sym<N>(d, e); const double sc = SC[d.next(3)]; m *= sc;
   std::ostringstream o; o << m.format(Eigen::IOFormat(17, 0, ",", ";", "", "", "[", "]")); const std::string at = o.str(), k = std::to_string(N) + "x" + std::to_string(N);
   Eigen::Array<double,N,1> w, w2; Eigen::Matrix<double,N,N> z;
   fs_diagonalize_hermitian(m, w, z); eigen<N>("hermitian " + k, m.template cast<L>(), w, z, r, at);
   fs_diagonalize_hermitian(m, w2); for (int j = 0; j < N; j++) r.close("hermitian " + k + " eigenvalues only", std::abs(w2(j)), std::abs(w(j)), 1e-13*m.cwiseAbs().maxCoeff(), at);
   Eigen::Array<double,N,1> s; Eigen::Matrix<std::complex<double>,N,N> u; const double n = std::max(m.cwiseAbs().maxCoeff(), 1e-300);
   fs_diagonalize_symmetric(m, s, u);
   r.check("symmetric " + k + " non-negative", (s >= 0).all(), at);
   for (int j = 0; j + 1 < N; j++) r.check("symmetric " + k + " ordered", s(j) <= s(j+1), at);
   const Eigen::Matrix<std::complex<double>,N,N> back = u.transpose()*s.matrix().template cast<std::complex<double>>().asDiagonal()*u - m.template cast<std::complex<double>>();
   r.close("symmetric " + k + " diagonalises", back.cwiseAbs().maxCoeff()/n, 0, 10*N*EPS, at);
   r.close("symmetric " + k + " unitary", (u*u.adjoint() - Eigen::Matrix<std::complex<double>,N,N>::Identity()).cwiseAbs().maxCoeff(), 0, 4*N*EPS, at);
   for (int j = 0; j < N; j++) r.close("symmetric " + k + " singular values", s(j)/n, std::abs(w(j))/n, 10*N*EPS, at);
   r.count("matrices"); r.state(vh::mix(vh::bits(w(0)), vh::mix(vh::bits(w(N-1)), std::uint64_t(N) + vh::bits(z(0,0)))));
}

template <int N> void linalg_svd(const std::vector<double>& e, std::size_t i, Report& r)
{
   Digits d(i); Eigen::Matrix<double,N,N> m; for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) m(a,b) = d.pick(e);
   const double sc = SC[d.next(3)]; m *= sc;
   std::ostringstream o; o << m.format(Eigen::IOFormat(17, 0, ",", ";", "", "", "[", "]")); const std::string at = o.str(), k = std::to_string(N) + "x" + std::to_string(N);
   Eigen::Array<double,N,1> s; Eigen::Matrix<double,N,N> u, v; const double n = std::max(m.cwiseAbs().maxCoeff(), 1e-300);
   fs_svd(m, s, u, v);
   r.check("svd " + k + " ordered and non-negative", s(0) >= 0, at); for (int j = 0; j + 1 < N; j++) r.check("svd " + k + " ordered and non-negative", s(j) <= s(j+1), at);
   r.close("svd " + k + " decomposes", (u.transpose()*s.matrix().asDiagonal()*v - m).cwiseAbs().maxCoeff()/n, 0, 10*N*EPS, at);
   r.close("svd " + k + " u", (u*u.transpose() - Eigen::Matrix<double,N,N>::Identity()).cwiseAbs().maxCoeff(), 0, 4*N*EPS, at);
   r.close("svd " + k + " v", (v*v.transpose() - Eigen::Matrix<double,N,N>::Identity()).cwiseAbs().maxCoeff(), 0, 4*N*EPS, at);
   Eigen::Matrix<std::complex<double>,N,N> cu, cv; Eigen::Array<double,N,1> cs; fs_svd(m, cs, cu, cv);
   r.close("svd " + k + " complex", (cu.transpose()*cs.matrix().template cast<std::complex<double>>().asDiagonal()*cv - m.template cast<std::complex<double>>()).cwiseAbs().maxCoeff()/n, 0, 10*N*EPS, at);
   r.count("matrices"); r.state(vh::mix(vh::bits(s(0)), vh::mix(vh::bits(u(0,0)), vh::bits(s(N-1)))));
}

// perturbative diagonalisation against Rayleigh-Schroedinger perturbation theory in the eigenbasis of m0
const std::vector<double> PE = {-1, 0, 2};
void pert(const RM22& m0, const RM22& m1, const RM22& m2, const RM22& m3, Report& r)
{
   std::ostringstream o; o.precision(17); o << "m0=" << m0.reshaped().transpose() << " m1=" << m1.reshaped().transpose() << " m2=" << m2.reshaped().transpose() << " m3=" << m3.reshaped().transpose();
   const L h = L(m0(0,0) - m0(1,1))/2, D = std::hypot(h, L(m0(0,1))); const L sum = L(m0(0,0) + m0(1,1))/2;
   const L th = std::atan2(L(m0(0,1)), h)/2, c = std::cos(th), s = std::sin(th);      // eigenvector (c,s) belongs to the larger eigenvalue
   ML2 R; R << -s, c, c, s;
   const auto rot = [&] (const RM22& m) { return ML2(R*m.cast<L>()*R.transpose()); };
   const ML2 a1 = rot(m1), a2 = rot(m2), a3 = rot(m3);
   const auto got = fs_diagonalize_hermitian_perturbatively(m0, m1, m2, m3);
   for (int i = 0; i < 2; i++) {
      const int j = 1 - i; const L g = i == 0 ? -2*D : 2*D;      // E_i - E_j
      const L e0 = sum + (i == 0 ? -D : D), e1 = a1(i,i), e2 = a2(i,i) + sq(a1(i,j))/g, e3 = a3(i,i) + 2*a1(i,j)*a2(i,j)/g + sq(a1(i,j))*(a1(j,j) - a1(i,i))/sq(g);
      const L n1 = m1.cwiseAbs().maxCoeff(), n2 = m2.cwiseAbs().maxCoeff() + n1*n1/(2*D), n3 = m3.cwiseAbs().maxCoeff() + n1*m2.cwiseAbs().maxCoeff()/D + cube(n1)/D/D, q = m0.cwiseAbs().maxCoeff()/D;
      r.close("perturbative 0", std::get<0>(got)(i), double(e0), double(1e-13*m0.cwiseAbs().maxCoeff()*q*q), o.str());
      r.close("perturbative 1", std::get<1>(got)(i), double(e1), double(1e-13*n1*q*q), o.str());
      r.close("perturbative 2", std::get<2>(got)(i), double(e2), double(1e-13*n2*q*q), o.str());
      r.close("perturbative 3", std::get<3>(got)(i), double(e3), double(3e-13*n3*q*q), o.str());
   }
   r.count("perturbative"); r.state(vh::mix(vh::bits(std::get<2>(got)(0)), vh::bits(std::get<3>(got)(0))));
}
std::size_t n_pert() { std::size_t n = 5; for (int k = 0; k < 12; k++) n *= vh::thorough() ? 3 : k < 9 ? 3 : 2; return n; }
void pert_case(std::size_t i, Report& r)
{
   Digits d(i); const std::vector<double> e3 = vh::thorough() ? PE : std::vector<double>{-1, 2};
   const auto kind = d.next(5); RM22 m1 = sym<2>(d, PE), m2 = sym<2>(d, PE), m3 = sym<2>(d, e3);
   RM22 m0;
   if (kind < 2) { Parameters p = base(); p.MA = kind ? 80 : 1000; m0 = MSSM_spectrum(p).get_mass_matrix_hh(); m1 *= 300; m2 *= 40; m3 *= 7; (void)sym<2>(d, {0}); }
   else { m0 = sym<2>(d, PE); if (kind == 3) m0(0,0) += 1e6; if (kind == 4) m0 *= 1e-5; if (m0(0,0) == m0(1,1) && m0(0,1) == 0) { r.count("degenerate skipped"); return; } }
   if (kind < 2) { Digits dd(i); dd.next(5); }
   pert(m0, m1, m2, m3, r);
}

// calculate_Mh2 puts its pieces together as the chosen diagonalisation requires
std::size_t n_mh2() { return TB.size()*4*3*2*2*2*4; }
void mh2(std::size_t i, Report& r)
{
   Digits d(i); pts::Spec s; s.tb = d.pick(TB); const double ma[] = {150, 500, 1500, 5000}; s.MA = d.pick(ma); const double x[] = {0, 1800, -1500}; s.Xt = d.pick(x);
   s.yb = d.next(2) ? .3 : .02; s.Ab = 350; s.Atau = 250; const bool only = d.next(2); const bool num = d.next(2); const auto mi = d.next(4);
   Parameters p = pts::make(s); p.validate(false);
   MSSM_mass_eigenstates me(p, only); me.set_diagonalization(num ? mh2_fo::Diagonalization::num : mh2_fo::Diagonalization::pert);
   const auto it = mi == 0 ? mh2_fo::Momentum_iteration::off : mi == 1 ? mh2_fo::Momentum_iteration::pert : mh2_fo::Momentum_iteration::num;
   if (mi) me.set_mom_it(it, mi == 3 ? 1e-10 : 1e-5); else me.set_mom_it(it);
   double a, b, c; std::tie(a, b, c) = me.calculate_Mh2(); const std::string at = show(p) + " only_at=" + std::to_string(only) + " num=" + std::to_string(num) + " mom_it=" + std::to_string(mi);
   const RM22 m0 = me.get_mass_matrix_hh(), m2 = me.delta_mh2_2loop(); const auto ev = [] (const RM22& m, int k) { L x, y; eig2(m.cast<L>(), x, y); return double(k ? y : x); };
   const double p2 = ev(m0, 0); const RM22 m1 = me.delta_mh2_1loop(p2);
   const double n = std::max(1., m0.cwiseAbs().maxCoeff())*1e-12;
   // textbook tree-level matrices (with and without gauge couplings)
   { const EW e = ew(p); const L k = only ? 0 : e.mz2, A = sq(p.MA); ML2 h, g; h << A*sq(e.sb) + k*sq(e.cb), -(A + k)*e.sb*e.cb, -(A + k)*e.sb*e.cb, A*sq(e.cb) + k*sq(e.sb); g << A*sq(e.sb), -A*e.sb*e.cb, -A*e.sb*e.cb, A*sq(e.cb);
     matrix("Higgs matrix", m0, h, A + k, r, at); matrix("gaugeless Higgs matrix", me.get_mass_matrix_hh_gaugeless(), g, A, r, at); }
   if (num) {
      r.close("numeric tree", a, ev(m0, 0), n, at); r.close("numeric 1L", b, ev(m0 + m1, 0) - ev(m0, 0), 3*n, at); r.close("numeric 2L", c, ev(m0 + m1 + m2, 0) - ev(m0 + m1, 0), 3*n, at);
   } else {
      const RM22 g0 = me.get_mass_matrix_hh_gaugeless(), g1 = me.delta_mh2_1loop_gaugeless();
      // eigenvalue expansion from finite differences of exact eigenvalues is replaced by the eigenbasis formula
      const auto rs = [] (const RM22& m0, const RM22& m1, const RM22& m2, double& e1, double& e2) {
         const L h = L(m0(0,0) - m0(1,1))/2, D = std::hypot(h, L(m0(0,1))), th = std::atan2(L(m0(0,1)), h)/2, cc = std::cos(th), ss = std::sin(th); ML2 R; R << -ss, cc, cc, ss;
         const ML2 a1 = R*m1.cast<L>()*R.transpose(), a2 = R*m2.cast<L>()*R.transpose(); e1 = double(a1(0,0)); e2 = double(a2(0,0) - sq(a1(0,1))/(2*D)); };
      double e1, e2, f1, f2; rs(m0, m1, m2, e1, e2); rs(g0, g1, m2, f1, f2);
      r.close("perturbative tree", a, p2, n, at); r.close("perturbative 1L", b, e1, 1e-9*(1 + std::abs(e1)), at); r.close("perturbative 2L", c, f2, 1e-9*(1 + std::abs(f2)), at);
   }
   // momentum iteration: fixed point of the one-loop pole equation / product of derivative and shift
   if (mi >= 2) {
      const double prec = mi == 3 ? 1e-10 : 1e-5; const RM22 dm = me.delta_mh2_2loop_mom_it_num(prec, 100);
      const double pole = ev(m0 + m1 + dm, 0); r.close("momentum iteration is a fixed point", ev(m0 + me.delta_mh2_1loop(pole), 0), pole, 3*prec*std::abs(pole) + 1e-9, at); r.count("fixed points");
   }
   r.state(vh::mix(vh::bits(b), vh::bits(c)));
   r.sample(at + " Mh2 = " + vh::fmt(a) + ", " + vh::fmt(b) + ", " + vh::fmt(c));
}

// gaugeless limit: the full one-loop matrix for g1 = g2 = 0, and its derivative with respect to p^2 (five-point difference)
std::size_t n_gl() { return 4*4*4*4*4*(vh::thorough() ? 4 : 1); }
void gaugeless(std::size_t i, Report& r)
{
   Digits d(i); pts::Spec s; const double tb[] = {1, .5, 2, 5}; s.tb = d.pick(tb); const double ma[] = {150, 500, 1500, 5000}; s.MA = d.pick(ma); const double x[] = {0, 1800, -1500, 2500}; s.Xt = d.pick(x); s.Ab = d.pick(x) + 50;
   const double mu[] = {1000, -300, 700, 50}; s.mu = d.pick(mu); const double y[] = {.8, .5, 1.1, .65}; s.yb = d.pick(y); s.ytau = 1.3 - s.yb; s.Atau = -s.Ab; if (s.tb == 5) { s.yb = std::max(s.yb, .8); s.ytau = .8; }
   Parameters p = pts::make(s); p.validate(false); const std::string at = show(p);
   MSSM_mass_eigenstates me(p); Parameters q = p; q.g1 = q.g2 = 0; MSSM_mass_eigenstates gl(q);
   const RM22 a = me.delta_mh2_1loop_gaugeless(), b = gl.delta_mh2_1loop(0); const double sc = b.cwiseAbs().maxCoeff();
   for (int k = 0; k < 2; k++) for (int l = 0; l < 2; l++) r.close("gaugeless one-loop matrix", a(k,l)/sc, b(k,l)/sc, 1e-9, at);
   const double h = 4; const auto f = [&] (int k) { return gl.delta_mh2_1loop(k*h); };      // p^2 >= 0
   const RM22 num = (-25*f(0) + 48*f(1) - 36*f(2) + 16*f(3) - 3*f(4))/(12*h), an = me.delta_mh2_1loop_gaugeless_deriv(); const double sd = an.cwiseAbs().maxCoeff();
   for (int k = 0; k < 2; k++) for (int l = 0; l < 2; l++) r.close("gaugeless derivative", an(k,l)/sd, num(k,l)/sd, 3e-6, at);
   const RM22 it = me.delta_mh2_2loop_mom_it_pert();
   { const RM22 g0 = me.get_mass_matrix_hh_gaugeless(); const L h2 = L(g0(0,0) - g0(1,1))/2, th = std::atan2(L(g0(0,1)), h2)/2, c = std::cos(th), sn = std::sin(th); const L e1 = sn*sn*a(0,0) - 2*sn*c*a(0,1) + c*c*a(1,1);
     for (int k = 0; k < 2; k++) for (int l = 0; l < 2; l++) r.close("perturbative momentum iteration", it(k,l), double(an(k,l)*e1), 1e-9*std::abs(sd*double(e1)) + 1e-9*sd*sc, at); }
   r.count("derivatives"); r.state(vh::bits(an(1,1)));
}

} // namespace

int main(int argc, char** argv)
{
   vh::Check c;
   const bool t = vh::thorough();
   const std::vector<double> e3 = {-1, 0, 2}, e2 = {-3, -1, 0, 1e-9, 2, 2 + 1e-12, 5}, e01 = {0, 1}, ez = {-1, 0, 1};
   c.id = "P13"; c.rule = "distinct (eigenvalue, mixing) pairs and correction values";
   c.families = {
      {"Higgs and gauge sector", "tan(beta) x gauge couplings x MA (including MA = MZ, MW, 0 and neighbours)", n_higgs(), higgs},
      {"sfermions", "left mass x right mass (equal, zero, negative, hierarchical) x mixing x Yukawa x mu", n_sf(), sfermions},
      {"charginos and neutralinos", "M1 x M2 x mu (all signs, ties, zeros, hierarchies) x tan(beta) x gauge couplings", n_inos(), inos},
      {"all symmetric 2x2 matrices", "entries from 7 values, 3 scales", n_sym<2>(7, 3), [e2] (std::size_t i, Report& r) { linalg_symmetric<2>(e2, i, r); }},
      {"all symmetric 3x3 matrices", "entries from {-1,0,2}, 3 scales", n_sym<3>(3, 3), [e3] (std::size_t i, Report& r) { linalg_symmetric<3>(e3, i, r); }},
      {"all symmetric 4x4 matrices", t ? "entries from {-1,0,1}, 3 scales" : "entries from {0,1}, 3 scales", t ? n_sym<4>(3, 3) : n_sym<4>(2, 3), [e01, ez, t] (std::size_t i, Report& r) { linalg_symmetric<4>(t ? ez : e01, i, r); }},
      {"all 2x2 matrices (svd)", "entries from 7 values, 3 scales", 7*7*7*7*3, [e2] (std::size_t i, Report& r) { linalg_svd<2>(e2, i, r); }},
      {"all 3x3 matrices (svd)", t ? "entries from {-1,0,1}, 3 scales" : "entries from {0,1}, 3 scales", (t ? 19683u : 512u)*3, [e01, ez, t] (std::size_t i, Report& r) { linalg_svd<3>(t ? ez : e01, i, r); }},
      {"perturbative diagonalisation", "matrices of all four loop orders with entries from small alphabets", n_pert(), pert_case},
      {"Higgs mass assembly", "tan(beta) x MA x Xt x yb x only_at x diagonalisation x momentum iteration", n_mh2(), mh2},
      {"gaugeless limit and momentum derivative", "tan(beta) x MA x Xt x Ab x mu x yb", n_gl(), gaugeless},
   };
   c.assumptions = {"Feynman gauge for the Goldstone bosons, first two generations massless, as documented"};
   c.required = {"spectra", "matrices", "perturbative", "fixed points", "derivatives", "sector St", "sector Stau"};
   return vh::run(argc, argv, c);
}
