#include "common.h"
using namespace etools;
typedef Eigen::MatrixXd M;
VP_HARNESS(ata)
{
    int r = vp_choose("r", 1, 3), c = vp_choose("c", 1, 3), off = vp_choose("off", 0, 2), extra = vp_choose("extra", 0, 1);
    M a = symMat("a", r, c);
    M ref = mul(a.transpose(), a);
    M h;
    getATA(h, a);
    vp_check(h.rows() == c && h.cols() == c, "AtA size");
    for (int i = 0; i < c; ++i) for (int j = 0; j <= i; ++j) vp_eq(h(i, j), ref(i, j), "lower part of AtA");
    convertLLTtoSymmetric(h);
    eqMat(h, ref, "symmetric AtA");
    M g;
    int n = c + off + extra;
    getATA(g, a, off, n);
    M gref = M::Zero(n, n);
    gref.block(off, off, c, c) = ref;
    vp_check(g.rows() == n && g.cols() == n, "AtA with offset: size");
    for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) vp_eq(g(i, j), gref(i, j), "lower part of AtA with offset");
    M b = symMat("b", r, c);
    M refb = mul(b.transpose(), b);
    M s;
    getATA(s, a);
    addATA(s, b);
    for (int i = 0; i < c; ++i) for (int j = 0; j <= i; ++j) vp_eq(s(i, j), ref(i, j) + refb(i, j), "lower part of a sum of AtA");
    // into matrices which were used before
    M h2 = symMat("h2", c, c), g2 = symMat("g2", n, n), g3 = symMat("g3", n + 1, n);
    getATA(h2, b);
    for (int i = 0; i < c; ++i) for (int j = 0; j <= i; ++j) vp_eq(h2(i, j), refb(i, j), "lower part of AtA in a used matrix");
    getATA(g2, a, off, n);
    getATA(g3, a, off, n);
    vp_check(g3.rows() == n && g3.cols() == n, "AtA with offset: size of a used matrix");
    for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) { vp_eq(g2(i, j), gref(i, j), "lower part of AtA with offset in a used matrix"); vp_eq(g3(i, j), gref(i, j), "lower part of AtA with offset in a used matrix of a different size"); }
    addATA(g, b, off);
    gref.block(off, off, c, c) += refb;
    for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) vp_eq(g(i, j), gref(i, j), "lower part of a sum of AtA with offset");
}
VP_HARNESS(block_diagonal)
{
    int n = vp_choose("n", 0, 3);
    std::vector<M> v;
    int rows = 0, cols = 0;
    for (int k = 0; k < n; ++k)
    {
        char b[16]; snprintf(b, 16, "m%d", k);
        int r = vp_choose("r", 0, 2), c = vp_choose("c", 0, 2);
        v.push_back(symMat(b, r, c));
        rows += r; cols += c;
    }
    M ref = M::Zero(rows, cols);
    rows = cols = 0;
    for (auto &m : v) { ref.block(rows, cols, m.rows(), m.cols()) = m; rows += m.rows(); cols += m.cols(); }
    eqMat(makeBlockDiagonal(v), ref, "block diagonal");
    M one = symMat("one", 2, 3);
    M cref = M::Zero(2 * n, 3 * n);
    for (int k = 0; k < n; ++k) cref.block(2 * k, 3 * k, 2, 3) = one;
    eqMat(makeBlockDiagonal(one, n), cref, "block diagonal of copies");
}
VP_HARNESS(concat_vertical)
{
    int n = vp_choose("n", 0, 4);
    std::vector<M> v;
    int rows = 0, cols = 2;
    for (int k = 0; k < n; ++k)
    {
        char b[16]; snprintf(b, 16, "m%d", k);
        int r = vp_choose("r", 0, 2);
        if (r) v.push_back(symMat(b, r, cols)); else v.push_back(M());
        rows += r;
    }
    M ref = M::Zero(rows, rows ? cols : 0);
    int at = 0;
    for (auto &m : v) if (m.rows()) { ref.block(at, 0, m.rows(), cols) = m; at += m.rows(); }
    M res = M::Zero(7, 7);
    concatenateMatricesVertically(res, v);
    eqMat(res, ref, "vertical concatenation stacks all nonempty matrices in order");
    v.push_back(symMat("x", 1, 3));
    v.push_back(symMat("y", 1, 2));
    vp_check(throws([&] { M r; concatenateMatricesVertically(r, v); }), "inconsistent numbers of columns are rejected");
}
VP_HARNESS(concat_horizontal)
{
    int n = vp_choose("n", 1, 2);
    M m[3];
    int cols = 0;
    for (int k = 0; k < 3; ++k)
    {
        char b[16]; snprintf(b, 16, "m%d", k);
        int c = vp_choose("c", 0, 2);
        m[k] = c ? symMat(b, n, c) : M();
        cols += c;
    }
    auto ref = [&](int from) {
        int w = 0;
        for (int k = from; k < 3; ++k) w += m[k].cols();
        M r(w ? n : 0, w);
        w = 0;
        for (int k = from; k < 3; ++k) if (m[k].cols()) { r.block(0, w, n, m[k].cols()) = m[k]; w += m[k].cols(); }
        return r;
    };
    M res;
    concatenateMatricesHorizontally(res, m[0], m[1], m[2]);
    eqMat(res, ref(0), "horizontal concatenation of three matrices");
    concatenateMatricesHorizontally(res, m[1], m[2]);
    eqMat(res, ref(1), "horizontal concatenation of two matrices");
    M bad = M::Zero(n + 1, 1);
    if (m[0].rows()) vp_check(throws([&] { M r; concatenateMatricesHorizontally(r, m[0], bad); }), "inconsistent numbers of rows are rejected");
    if (m[0].rows() && m[1].rows()) vp_check(throws([&] { M r; concatenateMatricesHorizontally(r, m[0], m[1], bad); }), "inconsistent numbers of rows are rejected");
}
VP_HARNESS(remove_row)
{
    int r = vp_choose("r", 1, 4), c = vp_choose("c", 1, 3), k = vp_choose("k", 0, 5);
    M m = symMat("m", r, c);
    M x = m;
    bool t = throws([&] { removeRow(x, k); });
    vp_check(t == (k >= r), "removal of a row that does not exist is rejected, others are not");
    if (t) return;
    M ref(r - 1, c);
    for (int i = 0; i < r - 1; ++i) for (int j = 0; j < c; ++j) ref(i, j) = m(i < k ? i : i + 1, j);
    eqMat(x, ref, "row removal keeps all other rows in order");
}
VP_HARNESS(remove_column)
{
    int r = vp_choose("r", 1, 3), c = vp_choose("c", 1, 4), k = vp_choose("k", 0, 5);
    M m = symMat("m", r, c);
    M x = m;
    bool t = throws([&] { removeColumn(x, k); });
    vp_check(t == (k >= c), "removal of a column that does not exist is rejected, others are not");
    if (t) return;
    M ref(r, c - 1);
    for (int i = 0; i < r; ++i) for (int j = 0; j < c - 1; ++j) ref(i, j) = m(i, j < k ? j : j + 1);
    eqMat(x, ref, "column removal keeps all other columns in order");
}
VP_HARNESS(kronecker_identity)
{
    int nv = vp_choose("nv", 1, 2), nh = vp_choose("nh", 1, 2), r = vp_choose("r", 1, 2), c = vp_choose("c", 1, 3), n = vp_choose("n", 1, 3);
    M m = symMat("m", r * nv, c * nh);
    eqMat(multiplyBlockKroneckerIdentity(m, r, c, n), kronRef(m, r, c, n), "block Kronecker identity");
    vp_check(throws([&] { multiplyBlockKroneckerIdentity(m, r * nv + 1, c, n); }), "wrong block size is rejected");
    vp_check(throws([&] { multiplyBlockKroneckerIdentity(m, r, c * nh + 1, n); }), "wrong block size is rejected");
}
VP_HARNESS(select_rows)
{
    int r = vp_choose("r", 1, 6), c = vp_choose("c", 1, 2), step = vp_choose("step", 1, 4), first = vp_choose("first", 0, 5);
    if (first >= r) vp_stop();
    M m = symMat("m", r, c);
    int n = 0;
    for (int i = first; i < r; i += step) ++n;
    M ref(n, c);
    for (int i = 0; i < n; ++i) for (int j = 0; j < c; ++j) ref(i, j) = m(first + i * step, j);
    eqMat(selectRows(m, step, first), ref, "row selection");
    SelectionMatrix s(step, first);
    eqMat(s * m, ref, "selection matrix");
}
VP_HARNESS(transform_points)
{
    M p = symMat("p", 3, 2);
    Matrix3 R; Vector3 t;
    for (int i = 0; i < 3; ++i) { t(i) = vp_real("t", -4, 4); for (int j = 0; j < 3; ++j) R(i, j) = vp_real("R", -2, 2); }
    M ref = mul(R, p);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) ref(i, j) += t(i);
    eqMat(transform(p, R, t), ref, "transform");
    Eigen::Matrix<double, 2, 3> q = symMat("q", 2, 3);
    Eigen::Matrix2d R2 = symMat("R2", 2, 2); Vector2 t2 = symVec("t2", 2);
    M ref2 = mul(R2, q);
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) ref2(i, j) += t2(i);
    eqMat(transform(q, R2, t2), ref2, "planar transform");
}
VP_HARNESS(cross_product)
{
    Vector3 a = symVec("a", 3), b = symVec("b", 3);
    Vector3 ref(a(1) * b(2) - a(2) * b(1), a(2) * b(0) - a(0) * b(2), a(0) * b(1) - a(1) * b(0));
    eqMat(CrossProductMatrix::eval(a) * b, ref, "cross product matrix");
    CrossProductMatrix cp(a);
    eqMat(cp.eval() * b, ref, "cross product matrix (member)");
    eqMat(cp * b, ref, "cross product * vector");
    M m = symMat("m", 2, 3);
    eqMat(m * cp, mul(m, CrossProductMatrix::eval(a)), "matrix * cross product");
    Eigen::Matrix<double, 1, 3> bt = b.transpose();
    // b^T [a]x = (b x a)^T
    eqMat(bt * cp, M(-ref.transpose()), "row * cross product");
}
VP_HARNESS(unset_matrix)
{
    M m = symMat("m", 2, 2);
    unsetMatrix(m);
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) vp_check(m(i, j) != m(i, j), "an unset matrix contains no value");
}
