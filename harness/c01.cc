#include "slagen.h"
using namespace zh;
using namespace sla;
#define CK(ok, ...) do { if (!(ok)) c.fail(__VA_ARGS__); } while (0)
static V res(const dvector &r) { return den(r); }
SECTION(reductions, "norm_1, norm_inf, sum, element access, argmax_elt") {
  for (int t = 0; t < c.n(3000, 60000); t++) {
    int n = rsize(c.g); cvector x = mkc(c.g, n, rdens(c.g)); dvector y = mkd(c.g, n);
    c.cur("x=%s y=%s", show(x).c_str(), show(y).c_str());
    V dx = den(x), dy = den(y); double s1 = 0, s = 0, mx = 0, sy = 0, my = 0;
    for (double v : dx) { s1 += fabs(v); s += v; mx = std::max(mx, fabs(v)); }
    for (double v : dy) { sy += v; my = std::max(my, fabs(v)); }
    CK(close(norm_1(x), s1, 1e-9), "norm_1 is %.17g", norm_1(x));
    CK(norm_inf(x) == mx, "norm_inf(cvector) is %.17g", norm_inf(x));
    CK(norm_inf(y) == my, "norm_inf(dvector) is %.17g", norm_inf(y));
    CK(close(sum(x), s, 1e-9), "sum(cvector) is %.17g", sum(x));
    CK(close(sum(y), sy, 1e-9), "sum(dvector) is %.17g", sum(y));
    for (int i = 0; i < n; i++) { CK(x(i) == dx[i], "x(%d) is %.17g", i, x(i)); CK(((const dvector &)y)(i) == dy[i], "y(%d)", i); }
    if (n > 0) {
      int a = MatrixUtils::argmax_elt(x), b = MatrixUtils::argmax_elt(y);
      CK(a >= 0 && a < n && dx[a] == *std::max_element(dx.begin(), dx.end()), "argmax_elt(cvector) is %d", a);
      CK(b >= 0 && b < n && dy[b] == *std::max_element(dy.begin(), dy.end()), "argmax_elt(dvector) is %d", b);
    }
  }
}
SECTION(vectorops, "add, subtract, scaling, element-wise products and maxima, copies, inner products") {
  for (int t = 0; t < c.n(4000, 80000); t++) {
    int n = rsize(c.g); cvector x = mkc(c.g, n, rdens(c.g)), y = mkc(c.g, n, rdens(c.g)); dvector u = mkd(c.g, n), w = mkd(c.g, n); double s = val(c.g);
    c.cur("x=%s y=%s u=%s w=%s s=%g", show(x).c_str(), show(y).c_str(), show(u).c_str(), show(w).c_str(), s);
    V dx = den(x), dy = den(y), du = den(u), dw = den(w), e(n);
    cvector x0 = x, y0 = y; dvector u0 = u, w0 = w;
    auto garbage = [&](cvector &r) { r = mkc(c.g, rsize(c.g), 0.5); };
    auto dgarbage = [&](dvector &r) { r = mkd(c.g, rsize(c.g)); };
    cvector r; dvector d;
#define E(expr) for (int i = 0; i < n; i++) e[i] = (expr);
    garbage(r); add(r, x, y); E(dx[i] + dy[i]) CK(wf(r) && eq(den(r), e), "add gives %s", show(r).c_str());
    garbage(r); subtract(r, x, y); E(dx[i] - dy[i]) CK(wf(r) && eq(den(r), e), "subtract gives %s", show(r).c_str());
    garbage(r); emult(r, x, y); E(dx[i] * dy[i]) CK(wf(r) && eq(den(r), e), "emult(c,c) gives %s", show(r).c_str());
    dgarbage(d); emult(d, u, w); E(du[i] * dw[i]) CK(eq(den(d), e), "emult(d,d) gives %s", show(d).c_str());
    dgarbage(d); emult(d, u, y); E(du[i] * dy[i]) CK(eq(den(d), e), "emult(d,c) gives %s", show(d).c_str());
    dgarbage(d); emax(d, u, w); E(std::max(du[i], dw[i])) CK(eq(den(d), e), "emax gives %s", show(d).c_str());
    d = u; max_assign(d, w); CK(eq(den(d), e), "max_assign gives %s", show(d).c_str());
    r = x; r += y; E(dx[i] + dy[i]) CK(eq(den(r), e), "+= gives %s", show(r).c_str());
    r = x; r -= y; E(dx[i] - dy[i]) CK(eq(den(r), e), "-= gives %s", show(r).c_str());
    r = x; r *= s; E(dx[i] * s) CK(eq(den(r), e), "*= gives %s", show(r).c_str());
    r = x; r += r; E(2 * dx[i]) CK(eq(den(r), e), "x += x gives %s", show(r).c_str());
    d = u; d += w; E(du[i] + dw[i]) CK(eq(den(d), e), "dvector += gives %s", show(d).c_str());
    d = u; d -= w; E(du[i] - dw[i]) CK(eq(den(d), e), "dvector -= gives %s", show(d).c_str());
    d = u; d *= s; E(du[i] * s) CK(eq(den(d), e), "dvector *= gives %s", show(d).c_str());
    dgarbage(d); copy(d, x); CK(eq(den(d), dx, 0), "copy(d,c) gives %s", show(d).c_str());
    dgarbage(d); copy(d, u); CK(eq(den(d), du, 0), "copy(d,d)");
    garbage(r); copy(r, x); CK(eq(den(r), dx, 0), "copy(c,c)");
    garbage(r); copy(r, u); E(fabs(du[i]) > 1e-10 ? du[i] : 0) CK(wf(r) && eq(den(r), e, 0), "copy(c,d) gives %s", show(r).c_str());
    garbage(r); set_to_one(r, n); E(1) CK(wf(r) && eq(den(r), e), "set_to_one(c) gives %s", show(r).c_str());
    dgarbage(d); set_to_one(d, n); CK(eq(den(d), e), "set_to_one(d)");
    double p = 0, q = 0; for (int i = 0; i < n; i++) { p += du[i] * dy[i]; q += dx[i] * dy[i]; }
    CK(close(inner_prod(u, y), p, 1e-8), "inner_prod(d,c) = %.17g, expected %.17g", inner_prod(u, y), p);
    CK(close(inner_prod(x, y), q, 1e-8), "inner_prod(c,c) = %.17g, expected %.17g", inner_prod(x, y), q);
    CK(same(x, x0) && same(y, y0) && same(u, u0) && same(w, w0), "an operand was changed");
  }
}
SECTION(matrixops, "matrix products, columns, matrix element access, coordinate-to-column conversion, transposition") {
  for (int t = 0; t < c.n(4000, 80000); t++) {
    int r = rsize(c.g), k = rsize(c.g); if (c.g.p(0.5)) k = r;
    cmatrix A = mkm(c.g, r, k, rdens(c.g)); cvector x = mkc(c.g, r, rdens(c.g)); dvector u = mkd(c.g, r);
    c.cur("A=%s x=%s u=%s", show(A).c_str(), show(x).c_str(), show(u).c_str());
    M a = den(A); V dx = den(x), du = den(u); cmatrix A0 = A; cvector x0 = x; dvector u0 = u;
    V e(k), f(k); for (int j = 0; j < k; j++) { e[j] = f[j] = 0; for (int i = 0; i < r; i++) { e[j] += dx[i] * a[i][j]; f[j] += du[i] * a[i][j]; } }
    dvector d = mkd(c.g, rsize(c.g)); cvector z = mkc(c.g, rsize(c.g), 0.5);
    mult(d, x, A); CK(eq(den(d), e, 1e-8), "mult(d,c,A) gives %s", show(d).c_str());
    mult(d, u, A); CK(eq(den(d), f, 1e-8), "mult(d,d,A) gives %s", show(d).c_str());
    mult(z, x, A); CK(wf(z) && eq(den(z), e, 1e-8), "mult(c,c,A) gives %s", show(z).c_str());
    for (int j = 0; j < k; j++) {
      V col(r); for (int i = 0; i < r; i++) { col[i] = a[i][j]; CK(A(i, j) == a[i][j], "A(%d,%d) = %.17g", i, j, A(i, j)); }
      copy_from_column(d, A, j); CK(eq(den(d), col, 0), "copy_from_column(d,%d) gives %s", j, show(d).c_str());
      copy_from_column(z, A, j); CK(wf(z) && eq(den(z), col, 0), "copy_from_column(c,%d) gives %s", j, show(z).c_str());
      V em(r), ed(r); double ip = 0; for (int i = 0; i < r; i++) { em[i] = col[i] * dx[i]; ed[i] = col[i] * du[i]; ip += em[i]; }
      emult_column(z, A, j, x); CK(wf(z) && eq(den(z), em), "emult_column(c,%d) gives %s", j, show(z).c_str());
      emult_column(d, A, j, u); CK(eq(den(d), ed), "emult_column(d,%d) gives %s", j, show(d).c_str());
      CK(close(inner_prod_column(A, j, x), ip, 1e-8), "inner_prod_column(%d) = %.17g", j, inner_prod_column(A, j, x));
    }
    { cvector w = mkc(c.g, k, rdens(c.g)); V dw = den(w);
      V ax(r, 0); for (int i = 0; i < r; i++) for (int j = 0; j < k; j++) ax[i] += a[i][j] * dw[j];
      mult(d, A, w); CK(eq(den(d), ax, 1e-8), "mult(d,A,%s) gives %s", show(w).c_str(), show(d).c_str());
      mult(z, A, w); CK(wf(z) && eq(den(z), ax, 1e-8), "mult(c,A,%s) gives %s", show(w).c_str(), show(z).c_str());
    }
    CK(same(A, A0) && same(x, x0) && same(u, u0), "an operand was changed");
    // coordinate matrix: last pushed value of each cell
    kmatrix K; K.resize(r, k); M kk(r, V(k, 0)); int m = r && k ? c.g.i(2 * r * k + 1) : 0; std::string ps;
    for (int q = 0; q < m; q++) { int i = c.g.i(r), j = c.g.i(k); double v = c.g.p(0.2) ? 0 : val(c.g); if (c.g.p(0.5)) K.push_back(i, j, v); else kmatrix_set_entry(K, i, j, v); kk[i][j] = v; if (q < 60) ps += strf("(%d,%d)=%g ", i, j, v); }
    c.cur("kmatrix %dx%d pushes %s", r, k, ps.c_str());
    kmatrix K2 = K, K3 = K; cmatrix B = mkm(c.g, rsize(c.g), rsize(c.g), 0.5);
    copy(B, K2); M b; CK(wf(B), "copy(cmatrix,kmatrix) is not canonical: %s", show(B).c_str());
    if (wf(B)) { b = den(B); CK((int)B.size1_ == r && (int)B.size2_ == k, "size %ux%u", B.size1_, B.size2_); bool ok = true; for (int i = 0; i < r; i++) for (int j = 0; j < k; j++) { double w = fabs(kk[i][j]) > 1e-10 ? kk[i][j] : 0; ok = ok && b[i][j] == w && K2(i, j) == kk[i][j]; } CK(ok, "copy(cmatrix,kmatrix) gives %s", show(B).c_str()); }
    kmatrix_transpose_in_place(K3); bool ok = (int)K3.size1_ == k && (int)K3.size2_ == r; if (ok) for (int i = 0; i < r; i++) for (int j = 0; j < k; j++) ok = ok && K3(j, i) == kk[i][j];
    CK(ok, "transpose is wrong");
  }
}
