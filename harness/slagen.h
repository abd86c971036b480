// random sparse/dense vectors and matrices, with an independent dense reading of them
#ifndef SLAGEN_H
#define SLAGEN_H
#include "zh.h"
#include "zmdpCommonDefs.h"
#include "sla.h"
#include "slaMatrixUtils.h"
#include "MatrixUtils.h"
#include "sla_mask.h"
namespace zh {
using namespace sla;
typedef std::vector<double> V;
typedef std::vector<std::vector<double>> M;   // M[r][c]
inline double val(Rng &g) {
  switch (g.i(8)) { case 0: return 1; case 1: return -1; case 2: return g.in(-3, 3) * 0.5 + 0.25; case 3: return g.r(-1000, 1000); case 4: return g.r(0, 1); default: return g.r(-2, 2); }
}
inline cvector mkc(Rng &g, int n, double dens) { cvector x; x.resize(n); for (int i = 0; i < n; i++) if (g.p(dens)) { double v = val(g); if (g.p(0.05)) v = 0; x.push_back(i, v); } return x; }
inline dvector mkd(Rng &g, int n) { dvector x; x.resize(n); for (int i = 0; i < n; i++) x.data[i] = g.p(0.3) ? 0 : val(g); return x; }
inline cmatrix mkm(Rng &g, int r, int cc, double dens) {
  cmatrix A; A.size1_ = r; A.size2_ = cc; A.col_starts.assign(1, 0);
  for (int c = 0; c < cc; c++) { for (int i = 0; i < r; i++) if (g.p(dens)) A.data.push_back(cvector_entry(i, val(g))); A.col_starts.push_back(A.data.size()); }
  return A;
}
inline V den(const cvector &x) { V v(x.size_, 0); for (auto &e : x.data) v[e.index] = e.value; return v; }
inline V den(const dvector &x) { return V(x.data.begin(), x.data.end()); }
inline M den(const cmatrix &A) { M m(A.size1_, V(A.size2_, 0)); for (unsigned c = 0; c < A.size2_; c++) for (unsigned k = A.col_starts[c]; k < A.col_starts[c + 1]; k++) m[A.data[k].index][c] = A.data[k].value; return m; }
inline bool wf(const cvector &x) { for (size_t k = 0; k < x.data.size(); k++) { if (x.data[k].index >= x.size_) return false; if (k && x.data[k - 1].index >= x.data[k].index) return false; } return true; }
inline bool wf(const cmatrix &A) {
  if (A.col_starts.size() != A.size2_ + 1u || A.col_starts[0] != 0 || A.col_starts.back() != A.data.size()) return false;
  for (unsigned c = 0; c < A.size2_; c++) { if (A.col_starts[c] > A.col_starts[c + 1] || A.col_starts[c + 1] > A.data.size()) return false;
    for (unsigned k = A.col_starts[c]; k < A.col_starts[c + 1]; k++) { if (A.data[k].index >= A.size1_) return false; if (k > A.col_starts[c] && A.data[k - 1].index >= A.data[k].index) return false; } }
  return true;
}
inline bool same(const cvector &a, const cvector &b) { if (a.size_ != b.size_ || a.data.size() != b.data.size()) return false; for (size_t i = 0; i < a.data.size(); i++) if (a.data[i].index != b.data[i].index || a.data[i].value != b.data[i].value) return false; return true; }
inline bool same(const dvector &a, const dvector &b) { return a.data == b.data; }
inline bool same(const cmatrix &a, const cmatrix &b) { if (a.size1_ != b.size1_ || a.size2_ != b.size2_ || a.col_starts != b.col_starts || a.data.size() != b.data.size()) return false; for (size_t i = 0; i < a.data.size(); i++) if (a.data[i].index != b.data[i].index || a.data[i].value != b.data[i].value) return false; return true; }
inline std::string show(const V &v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += strf("%s%.17g", i ? "," : "", v[i]); return s + "]"; }
inline std::string show(const cvector &x) { std::string s = strf("c%u{", x.size_); for (auto &e : x.data) s += strf("%u:%.17g ", e.index, e.value); return s + "}"; }
inline std::string show(const dvector &x) { return "d" + show(den(x)); }
inline std::string show(const cmatrix &A) { std::string s = strf("m%ux%u{", A.size1_, A.size2_); for (unsigned c = 0; c + 1 < A.col_starts.size(); c++) for (unsigned k = A.col_starts[c]; k < A.col_starts[c + 1] && k < A.data.size(); k++) s += strf("(%u,%u):%.17g ", A.data[k].index, c, A.data[k].value); return s + "}"; }
inline bool eq(const V &a, const V &b, double tol = 1e-9) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!close(a[i], b[i], tol)) return false; return true; }
inline int rsize(Rng &g) { return g.p(0.15) ? g.in(0, 1) : g.p(0.15) ? g.in(20, 60) : g.in(1, 9); }
inline double rdens(Rng &g) { static const double d[] = {0, 0.02, 0.15, 0.4, 0.7, 1}; return d[g.i(6)]; }
}
#endif
