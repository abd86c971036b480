#include "slagen.h"
using namespace zh;
using namespace sla;
#define CK(ok, ...) do { if (!(ok)) c.fail(__VA_ARGS__); } while (0)
SECTION(canonical_vectors, "well-formedness and declared dimension of every sparse vector result") {
  for (int t = 0; t < c.n(6000, 100000); t++) {
    int n = rsize(c.g), k = c.g.p(0.5) ? n : rsize(c.g); cvector x = mkc(c.g, n, rdens(c.g)), y = mkc(c.g, n, rdens(c.g)); dvector u = mkd(c.g, n); cmatrix A = mkm(c.g, n, k, rdens(c.g));
    c.cur("x=%s y=%s u=%s A=%s", show(x).c_str(), show(y).c_str(), show(u).c_str(), show(A).c_str());
    cvector r = mkc(c.g, rsize(c.g), 0.6);
#define RES(what, sz) CK(wf(r) && r.size_ == (unsigned)(sz), "%s gives ill-formed %s", what, show(r).c_str()); if (c.g.p(0.3)) r = mkc(c.g, rsize(c.g), 0.6);
    add(r, x, y); RES("add", n) subtract(r, x, y); RES("subtract", n) emult(r, x, y); RES("emult", n) copy(r, u); RES("copy(c,d)", n) copy(r, x); RES("copy(c,c)", n)
    set_to_one(r, n); RES("set_to_one", n) CK(true, " ");
    mult(r, x, A); RES("mult(x,A)", k)
    { cvector w = mkc(c.g, k, rdens(c.g)); mult(r, A, w); RES("mult(A,x)", n) }
    for (int j = 0; j < k; j++) { copy_from_column(r, A, j); RES("copy_from_column", n) CK(true, " "); emult_column(r, A, j, x); RES("emult_column", n) }
    r = x; r += y; RES("+=", n) r = x; r -= y; RES("-=", n) r = x; r *= -2.5; RES("*=", n)
    // stale data: resizing clears
    r = x; r.resize(k); CK(r.size_ == (unsigned)k && r.data.empty(), "resize keeps old entries"); dvector d = u; d.resize(k); bool z = d.size() == (unsigned)k; for (double v : d.data) z = z && v == 0; CK(z, "dvector resize is not zero-filled: %s", show(d).c_str());
    // masks
    mvector m; mask_set_all(m, n); CK(wf(m) && m.size_ == (unsigned)n && (int)m.data.size() == n, "mask_set_all gives %s", show(m).c_str());
    mvector mm = mkc(c.g, n, rdens(c.g)); for (auto &e : mm.data) e.value = 1;
    mask_set_to_one(r, mm); bool one = wf(r) && r.size_ == mm.size_ && r.data.size() == mm.data.size(); if (one) for (size_t i = 0; i < r.data.size(); i++) one = one && r.data[i].index == mm.data[i].index && r.data[i].value == 1; CK(one, "mask_set_to_one(%s) gives %s", show(mm).c_str(), show(r).c_str());
    V dm = den(mm), dx = den(x), du = den(u), e(n), f(n); for (int i = 0; i < n; i++) { e[i] = dm[i] ? dx[i] : 0; f[i] = dm[i] ? du[i] : 0; }
    mask_copy(r, x, mm); CK(wf(r) && r.size_ == (unsigned)n && den(r) == e, "mask_copy(c, %s) gives %s", show(mm).c_str(), show(r).c_str());
    mask_copy(r, u, mm); CK(wf(r) && r.size_ == (unsigned)n && den(r) == f, "mask_copy(d, %s) gives %s", show(mm).c_str(), show(r).c_str());
  }
}
SECTION(canonical_matrices, "kmatrix/cmatrix canonical form, last pushed value wins, resize clears") {
  for (int t = 0; t < c.n(6000, 100000); t++) {
    int r = rsize(c.g), k = rsize(c.g); kmatrix K; if (c.g.p(0.3)) { K.resize(2, 2); K.push_back(1, 1, 5); } K.resize(r, k);
    M kk(r, V(k, 0)); std::vector<std::vector<int>> set(r, std::vector<int>(k, 0)); int m = r && k ? c.g.i(c.g.p(0.3) ? 6 * r * k : r * k) : 0; std::string ps;
    int hot = r && k ? c.g.i(r * k) : 0;
    for (int q = 0; q < m; q++) { int cell = c.g.p(0.3) ? hot : c.g.i(r * k); int i = cell / k, j = cell % k; double v = c.g.p(0.3) ? 0 : val(c.g); K.push_back(i, j, v); kk[i][j] = v; set[i][j] = 1; if (q < 80) ps += strf("(%d,%d)=%g ", i, j, v); }
    c.cur("kmatrix %dx%d pushes %s", r, k, ps.c_str());
    kmatrix K2 = K; K2.canonicalize(); bool ok = K2.size1_ == (unsigned)r && K2.size2_ == (unsigned)k; size_t cnt = 0; for (auto &v : set) for (int b : v) cnt += b; ok = ok && K2.data.size() == cnt;
    for (size_t q = 0; ok && q < K2.data.size(); q++) { auto &e = K2.data[q]; ok = ok && e.r < (unsigned)r && e.c < (unsigned)k && set[e.r][e.c] && e.value == kk[e.r][e.c]; if (q) { auto &p = K2.data[q - 1]; ok = ok && (p.c < e.c || (p.c == e.c && p.r < e.r)); } }
    CK(ok, "canonicalize: not one entry per cell in column-major order with the last value");
    cmatrix B = mkm(c.g, rsize(c.g), rsize(c.g), 0.5); copy(B, K); CK(wf(B) && B.size1_ == (unsigned)r && B.size2_ == (unsigned)k, "copy(cmatrix,kmatrix) ill-formed: %s", show(B).c_str());
    if (wf(B)) { M b = den(B); bool g = true; for (int i = 0; i < r; i++) for (int j = 0; j < k; j++) g = g && b[i][j] == (fabs(kk[i][j]) > 1e-10 ? kk[i][j] : 0); CK(g, "copy(cmatrix,kmatrix) gives %s", show(B).c_str()); for (int j = 0; j < k; j++) CK(B.filled_in_column(j) == B.col_starts[j + 1] - B.col_starts[j], "filled_in_column"); }
    B.resize(k, r); bool z = B.size1_ == (unsigned)k && B.size2_ == (unsigned)r && B.data.empty() && B.col_starts.size() == (unsigned)r + 1; for (auto v : B.col_starts) z = z && v == 0; CK(z, "cmatrix resize keeps stale data");
    // direct construction
    for (int j = 0; j < r; j++) { if (c.g.p(0.4)) continue; for (int i = 0; i < k; i++) if (c.g.p(0.5)) B.push_back(i, j, val(c.g)); } B.canonicalize(); if (r > 0) CK(wf(B), "push_back/canonicalize ill-formed: %s", show(B).c_str());
    kmatrix T = K; kmatrix_transpose_in_place(T); bool tk = T.size1_ == (unsigned)k && T.size2_ == (unsigned)r && T.data.size() == cnt; for (size_t q = 0; tk && q < T.data.size(); q++) { auto &e = T.data[q]; tk = e.r < (unsigned)k && e.c < (unsigned)r && e.value == kk[e.c][e.r]; if (q) { auto &p = T.data[q - 1]; tk = tk && (p.c < e.c || (p.c == e.c && p.r < e.r)); } } CK(tk, "transpose not canonical");
  }
}
SECTION(file_roundtrip, "reading vectors and matrices from their text form") {
  for (int t = 0; t < c.n(300, 3000); t++) {
    int r = c.g.in(1, 7), k = c.g.in(1, 7); cmatrix A = mkm(c.g, r, k, rdens(c.g)); for (auto &e : A.data) e.value = c.g.in(1, 1000) / 8.0;
    c.cur("A=%s", show(A).c_str());
    std::stringstream s; A.write(s); cmatrix B = mkm(c.g, 3, 3, 0.5); B.read(s); CK(wf(B) && same(A, B), "cmatrix write/read gives %s", show(B).c_str());
    dvector u = mkd(c.g, r); for (auto &v : u.data) v = c.g.in(-1000, 1000) / 8.0; std::stringstream s2; u.write(s2); dvector w = mkd(c.g, 4); w.read(s2); CK(same(u, w), "dvector write/read gives %s", show(w).c_str());
  }
}
