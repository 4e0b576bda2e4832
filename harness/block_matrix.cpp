#include "common.h"
using namespace etools;
typedef Eigen::MatrixXd M;
static const int DYN = MatrixBlockSizeType::DYNAMIC;
static const int UND = MatrixBlockSizeType::UNDEFINED;

template <class BM> static void access(BM &bm, const M &m, int r, int c, int nv, int nh)
{
    const BM &cbm = bm;
    vp_check(cbm.getNumberOfBlocksVertical() == nv, "vertical block count");
    vp_check(cbm.getNumberOfBlocksHorizontal() == nh, "horizontal block count");
    vp_check(cbm.getNumberOfRows() == nv * r, "row count");
    vp_check(cbm.getNumberOfColumns() == nh * c, "column count");
    vp_check(cbm.getBlockRowsNum() == r && cbm.getBlockColsNum() == c, "block size");
    eqMat(cbm.getRaw(), m, "raw matrix");
    int i = vp_choose("i", 0, nv - 1), j = vp_choose("j", 0, nh - 1);
    eqMat(cbm(i, j), m.block(i * r, j * c, r, c), "const block");
    eqMat(bm(i, j), m.block(i * r, j * c, r, c), "block");
    if (i < nh) { eqMat(bm(i), m.block(i * r, i * c, r, c), "diagonal block"); eqMat(cbm(i), m.block(i * r, i * c, r, c), "const diagonal block"); }
    eqMat(bm.column(j), m.block(0, j * c, nv * r, c), "block column");
    eqMat(cbm.column(j, i), m.block(i * r, j * c, (nv - i) * r, c), "block column from a row");
    eqMat(bm.column(j, i), m.block(i * r, j * c, (nv - i) * r, c), "block column from a row");
    eqMat(bm.column(j, i, 1), m.block(i * r, j * c, r, c), "part of a block column");
    eqMat(cbm.column(j, i, 1), m.block(i * r, j * c, r, c), "const part of a block column");
    eqMat(bm.row(i), m.block(i * r, 0, r, nh * c), "block row");
    eqMat(cbm.row(i, j), m.block(i * r, j * c, r, (nh - j) * c), "block row from a column");
    eqMat(bm.row(i, j), m.block(i * r, j * c, r, (nh - j) * c), "block row from a column");
    eqMat(bm.row(i, j, 1), m.block(i * r, j * c, r, c), "part of a block row");
    eqMat(cbm.row(i, j, 1), m.block(i * r, j * c, r, c), "const part of a block row");
}
template <class BM> static void writes(BM &bm, int r, int c, int nv, int nh)
{
    // writing a block changes exactly that block
    M m = bm.getRaw();
    int i = vp_choose("wi", 0, nv - 1), j = vp_choose("wj", 0, nh - 1);
    M b = symMat("w", r, c);
    bm(i, j) = b;
    m.block(i * r, j * c, r, c) = b;
    eqMat(bm.getRaw(), m, "a block write changes exactly that block");
    M col = symMat("wc", nv * r, c);
    bm.column(j) = col;
    m.block(0, j * c, nv * r, c) = col;
    eqMat(bm.getRaw(), m, "a block column write changes exactly that column");
    M row = symMat("wr", r, nh * c);
    bm.row(i) = row;
    m.block(i * r, 0, r, nh * c) = row;
    eqMat(bm.getRaw(), m, "a block row write changes exactly that row");
    bm.setZero(nv + 1, nh);
    eqMat(bm.getRaw(), M(M::Zero((nv + 1) * r, nh * c)), "setZero");
    vp_check(bm.getNumberOfBlocksVertical() == nv + 1 && bm.getNumberOfBlocksHorizontal() == nh, "setZero block counts");
    bm.resize(nv, nh + 1);
    vp_check(bm.getRaw().rows() == nv * r && bm.getRaw().cols() == (nh + 1) * c, "resize");
    vp_check(bm.getNumberOfBlocksVertical() == nv && bm.getNumberOfBlocksHorizontal() == nh + 1, "resize block counts");
    bm.setZero(2);
    eqMat(bm.getRaw(), M(M::Zero(2 * r, 2 * c)), "setZero square");
    bm.resize(3);
    vp_check(bm.getNumberOfRows() == 3 * r && bm.getNumberOfColumns() == 3 * c, "resize square");
    M big = symMat("big", r, 2 * c);
    bm.set(big);
    eqMat(bm.getRaw(), big, "set");
    vp_check(bm.getNumberOfBlocksVertical() == 1 && bm.getNumberOfBlocksHorizontal() == 2, "set block counts");
}
VP_HARNESS(access_static)
{
    int nv = vp_choose("nv", 1, 3), nh = vp_choose("nh", 1, 2);
    M m = symMat("m", 2 * nv, 3 * nh);
    GenericBlockMatrix<2, 3> bm(m);
    access(bm, m, 2, 3, nv, nh);
}
VP_HARNESS(access_dynamic)
{
    int nv = vp_choose("nv", 1, 3), nh = vp_choose("nh", 1, 2);
    int r = vp_choose("r", 1, 2), c = vp_choose("c", 1, 2);
    M m = symMat("m", r * nv, c * nh);
    GenericBlockMatrix<DYN, DYN> bm(m, r, c);
    access(bm, m, r, c, nv, nh);
    GenericBlockMatrix<DYN, DYN> other(m);
    other.setBlockSize(r, c);
    access(other, m, r, c, nv, nh);
}
VP_HARNESS(access_mixed)
{
    int nv = vp_choose("nv", 1, 2), nh = vp_choose("nh", 1, 2);
    int k = vp_choose("k", 1, 2);
    M m = symMat("m", k * nv, 3 * nh);
    GenericBlockMatrix<DYN, 3> bm(m, k, UND);
    access(bm, m, k, 3, nv, nh);
    M n = symMat("n", 3 * nv, k * nh);
    LeftLowerTriangularBlockMatrix<3, DYN> bn(n, UND, k);
    access(bn, n, 3, k, nv, nh);
}
VP_HARNESS(access_diagonal)
{
    int nv = vp_choose("nv", 1, 3), nh = vp_choose("nh", 1, 2);
    M m = symMat("m", 2 * nv, 1 * nh);
    DiagonalBlockMatrix<2, 1> bm(m);
    access(bm, m, 2, 1, nv, nh);
}
VP_HARNESS(access_scalar)
{
    int nv = vp_choose("nv", 1, 3), nh = vp_choose("nh", 1, 3);
    M m = symMat("m", nv, nh);
    LeftLowerTriangularBlockMatrix<1, 1> bm(m);
    const LeftLowerTriangularBlockMatrix<1, 1> &cbm = bm;
    int i = vp_choose("i", 0, nv - 1), j = vp_choose("j", 0, nh - 1);
    vp_eq(bm(i, j), m(i, j), "element");
    vp_eq(cbm(i, j), m(i, j), "const element");
    if (i < nh) { vp_eq(bm(i), m(i, i), "diagonal element"); vp_eq(cbm(i), m(i, i), "const diagonal element"); }
    double v = vp_real("v", -4, 4);
    bm(i, j) = v;
    m(i, j) = v;
    eqMat(bm.getRaw(), m, "element write");
}
VP_HARNESS(write_static)
{
    int nv = vp_choose("nv", 1, 3), nh = vp_choose("nh", 1, 2);
    M m = symMat("m", 2 * nv, 3 * nh);
    GenericBlockMatrix<2, 3> bm(m);
    writes(bm, 2, 3, nv, nh);
}
VP_HARNESS(write_dynamic)
{
    int nv = vp_choose("nv", 1, 2), nh = vp_choose("nh", 1, 2);
    int r = vp_choose("r", 1, 2), c = vp_choose("c", 1, 2);
    M m = symMat("m", r * nv, c * nh);
    LeftLowerTriangularBlockMatrix<DYN, DYN> bm(m, r, c);
    writes(bm, r, c, nv, nh);
}
VP_HARNESS(write_mixed)
{
    int nv = vp_choose("nv", 1, 2), nh = vp_choose("nh", 1, 2);
    int k = vp_choose("k", 1, 2);
    M m = symMat("m", k * nv, 2 * nh);
    GenericBlockMatrix<DYN, 2> bm(m, k, UND);
    writes(bm, k, 2, nv, nh);
}
VP_HARNESS(interface)
{
    // an interface works on the matrix it refers to
    int nv = vp_choose("nv", 1, 3), nh = vp_choose("nh", 1, 2);
    M m = symMat("m", 2 * nv, nh);
    M ref = m;
    BlockMatrixInterface<2, 1, MatrixSparsityType::NONE> bmi(m);
    access(bmi, ref, 2, 1, nv, nh);
    M b = symMat("b", 2, 1);
    int i = vp_choose("bi", 0, nv - 1), j = vp_choose("bj", 0, nh - 1);
    bmi(i, j) = b;
    ref.block(2 * i, j, 2, 1) = b;
    eqMat(m, ref, "write through the interface");
    const ConstBlockMatrixInterface<2, 1, MatrixSparsityType::NONE> cbmi(m);
    eqMat(cbmi.row(i), ref.block(2 * i, 0, 2, nh), "const interface");
}
VP_HARNESS(wrong_sizes)
{
    // a matrix which does not consist of whole blocks is rejected
    int rows = vp_choose("rows", 1, 6), cols = vp_choose("cols", 1, 6);
    M m = M::Zero(rows, cols);
    bool good = rows % 2 == 0 && cols % 3 == 0;
    vp_check(throws([&] { GenericBlockMatrix<2, 3> bm(m); }) == !good, "static block size mismatch is detected");
    vp_check(throws([&] { GenericBlockMatrix<DYN, DYN> bm(m, 2, 3); }) == !good, "dynamic block size mismatch is detected");
    vp_check(throws([&] { GenericBlockMatrix<DYN, DYN> bm(m); bm.setBlockSize(2, 3); }) == !good, "block size mismatch is detected in setBlockSize");
    vp_check(throws([&] { GenericBlockMatrix<2, 3> bm; bm.set(m); }) == !good, "block size mismatch is detected in set");
    vp_check(throws([&] { GenericBlockMatrix<2, 3> bm(m, 2, 3); }), "sizes given for a static block are rejected");
    vp_check(throws([&] { GenericBlockMatrix<DYN, DYN> bm; bm.setBlockSize(rows, 0); }), "zero block size is rejected");
    vp_check(throws([&] { GenericBlockMatrix<DYN, DYN> bm; bm.setBlockSize(0, cols); }), "zero block size is rejected");
}
// results are stored in matrices which already contain something
template <class L, class R> static void intoRight(const L &l, const R &r, const M &ref, const char *msg)
{
    M same = symMat("old", ref.rows(), ref.cols()), other = symMat("older", ref.rows() + 1, ref.cols());
    l.multiplyRight(same, r);
    eqMat(same, ref, msg);
    l.multiplyRight(other, r);
    eqMat(other, ref, msg);
}
template <class L, class R> static void intoLeft(const L &l, const R &r, const M &ref, const char *msg)
{
    M same = symMat("old", ref.rows(), ref.cols()), other = symMat("older", ref.rows(), ref.cols() + 1);
    r.multiplyLeft(same, l);
    eqMat(same, ref, msg);
    r.multiplyLeft(other, l);
    eqMat(other, ref, msg);
}
VP_HARNESS(mult_generic)
{
    int nv = vp_choose("nv", 1, 2), nh = vp_choose("nh", 1, 2), k = vp_choose("k", 1, 2);
    M m = symMat("m", 2 * nv, 2 * nh), x = symMat("x", 2 * nh, k);
    GenericBlockMatrix<2, 2> g(m);
    eqMat(g * x, mul(m, x), "generic block matrix * matrix");
    M res;
    g.multiplyRight(res, x);
    eqMat(res, mul(m, x), "generic multiplyRight");
    intoRight(g, x, mul(m, x), "generic multiplyRight into a used matrix");
    GenericBlockMatrix<DYN, DYN> d(m, 2, 2);
    eqMat(d * x, mul(m, x), "dynamic generic block matrix * matrix");
}
VP_HARNESS(mult_lower)
{
    int n = vp_choose("n", 1, 3), k = vp_choose("k", 1, 2);
    M m = blockLowerRef(symMat("m", 2 * n, n), 2, 1), x = symMat("x", n, k);
    LeftLowerTriangularBlockMatrix<2, 1> g(m);
    eqMat(g * x, mul(m, x), "block lower triangular * matrix");
    M s = blockLowerRef(symMat("s", n, n), 1, 1);
    LeftLowerTriangularBlockMatrix<1, 1> t(s);
    eqMat(t * x, mul(s, x), "scalar lower triangular * matrix");
    intoRight(g, x, mul(m, x), "block lower triangular * matrix into a used matrix");
    intoRight(t, x, mul(s, x), "scalar lower triangular * matrix into a used matrix");
    vp_check(throws([&] { t * M(M::Zero(n + 1, 1)); }), "size mismatch is detected");
}
VP_HARNESS(mult_diagonal)
{
    int n = vp_choose("n", 1, 3), k = vp_choose("k", 1, 2);
    M m = blockDiagRef(symMat("m", 2 * n, 3 * n), 2, 3);
    M x = symMat("x", 3 * n, k), y = symMat("y", k, 2 * n);
    DiagonalBlockMatrix<2, 3> d(m);
    eqMat(d * x, mul(m, x), "diagonal block matrix * matrix");
    M res;
    d.multiplyLeft(res, y);
    eqMat(res, mul(y, m), "matrix * diagonal block matrix");
    DiagonalBlockMatrix<DYN, DYN> dd(m, 2, 3);
    eqMat(dd * x, mul(m, x), "dynamic diagonal block matrix * matrix");
    intoRight(d, x, mul(m, x), "diagonal block matrix * matrix into a used matrix");
    intoLeft(y, d, mul(y, m), "matrix * diagonal block matrix into a used matrix");
    dd.multiplyLeft(res, y);
    eqMat(res, mul(y, m), "matrix * dynamic diagonal block matrix");
    vp_check(throws([&] { d * M(M::Zero(3 * n + 1, 1)); }), "size mismatch is detected");
    vp_check(throws([&] { d.multiplyLeft(res, M(M::Zero(1, 2 * n + 1))); }), "size mismatch is detected");
}
VP_HARNESS(mult_blocks)
{
    // products of block matrices
    int n = vp_choose("n", 1, 2), nh = vp_choose("nh", 1, 2);
    M a = blockDiagRef(symMat("a", 2 * n, 3 * n), 2, 3);
    M b = symMat("b", 3 * n, 1 * nh);
    M c = symMat("c", 3 * nh, 2 * n);
    DiagonalBlockMatrix<2, 3> A(a);
    GenericBlockMatrix<3, 1> B(b);
    GenericBlockMatrix<3, 2> C(c);
    eqMat(A * B, mul(a, b), "diagonal * generic");
    eqMat(C * A, mul(c, a), "generic * diagonal");
    M l = blockLowerRef(symMat("l", n, 2 * n), 1, 2);
    LeftLowerTriangularBlockMatrix<1, 2> L(l);
    eqMat(L * A, mul(l, a), "lower triangular * diagonal");
    intoRight(A, B, mul(a, b), "diagonal * generic into a used matrix");
}
// options: the kernels below are plain equalities of polynomials
template <class KP> static void kron(const KP &kp, const M &ref, int n)
{
    eqMat(kp.evaluate(), ref, "Kronecker product evaluation");
    M out;
    kp.evaluate(out);
    eqMat(out, ref, "Kronecker product evaluation (in place)");
    M used = symMat("used", ref.rows(), ref.cols()), other = symMat("other", 1, 2);
    kp.evaluate(used);
    eqMat(used, ref, "Kronecker product evaluation (into a used matrix)");
    kp.evaluate(other);
    eqMat(other, ref, "Kronecker product evaluation (into a matrix of a different size)");
    M big = symMat("big", ref.rows() + 1, ref.cols() + 2);
    M bigref = big;
    bigref.block(1, 1, ref.rows(), ref.cols()) = ref;
    kp.evaluate(big.block(1, 1, ref.rows(), ref.cols()));
    eqMat(big, bigref, "Kronecker product evaluation into a block");
}
template <class KP> static void kronVec(const KP &kp, const M &ref)
{
    Eigen::VectorXd v = symVec("v", ref.cols());
    eqMat(kp * v, mul(ref, v), "Kronecker product * vector");
    Eigen::VectorXd same = symVec("oldv", ref.rows()), other = symVec("olderv", ref.rows() + 1);
    kp.multiplyRight(same, v);
    eqMat(same, mul(ref, v), "Kronecker product * vector into a used vector");
    kp.multiplyRight(other, v);
    eqMat(other, mul(ref, v), "Kronecker product * vector into a vector of a different size");
}
VP_HARNESS(kron_generic)
{
    int nv = vp_choose("nv", 1, 2), nh = vp_choose("nh", 1, 2), n = vp_choose("n", 2, 3);
    M m = symMat("m", 2 * nv, 3 * nh);
    GenericBlockKroneckerProduct<2, 3> kp(m, n);
    M ref = kronRef(m, 2, 3, n);
    kron(kp, ref, n);
    kronVec(kp, ref);
    GenericBlockMatrix<2, 3> g(m);
    eqMat(g.getBlockKroneckerProduct(n).evaluate(), ref, "getBlockKroneckerProduct");
    vp_check(throws([&] { GenericBlockKroneckerProduct<2, 3> bad(m, 1); }), "identity size below two is rejected");
}
VP_HARNESS(kron_dynamic)
{
    int nv = vp_choose("nv", 1, 2), nh = vp_choose("nh", 1, 2), n = 2, r = vp_choose("r", 1, 2), c = vp_choose("c", 1, 2);
    M m = symMat("m", r * nv, c * nh);
    GenericBlockMatrix<DYN, DYN> g(m, r, c);
    M ref = kronRef(m, r, c, n);
    eqMat(g.getBlockKroneckerProduct(n).evaluate(), ref, "dynamic getBlockKroneckerProduct");
    kronVec(g.getBlockKroneckerProduct(n), ref);
}
VP_HARNESS(kron_scalar)
{
    int nv = vp_choose("nv", 1, 3), nh = vp_choose("nh", 1, 3), n = vp_choose("n", 2, 3);
    M m = symMat("m", nv, nh);
    GenericBlockKroneckerProduct<1, 1> kp(m, n);
    kron(kp, kronRef(m, 1, 1, n), n);
}
VP_HARNESS(kron_lower)
{
    int nb = vp_choose("nb", 1, 3), n = vp_choose("n", 2, 3);
    M m = blockLowerRef(symMat("m", 3 * nb, nb), 3, 1);
    LeftLowerTriangularBlockKroneckerProduct<3, 1> kp(m, n);
    kron(kp, kronRef(m, 3, 1, n), n);
    LeftLowerTriangularBlockMatrix<3, 1> u(m);
    eqMat(u.getBlockKroneckerProduct(n).evaluate(), kronRef(m, 3, 1, n), "lower triangular getBlockKroneckerProduct");
}
VP_HARNESS(kron_lower_scalar)
{
    int nb = vp_choose("nb", 1, 3), n = vp_choose("n", 2, 3);
    M m = blockLowerRef(symMat("m", nb, nb), 1, 1);
    LeftLowerTriangularBlockKroneckerProduct<1, 1> kp(m, n);
    kron(kp, kronRef(m, 1, 1, n), n);
}
// products with block-diagonal matrices
VP_HARNESS(kron_times_diag_generic)
{
    int nv = vp_choose("nv", 1, 2), nh = vp_choose("nh", 1, 2);
    M m = symMat("m", 3 * nv, nh);
    M d = blockDiagRef(symMat("d", 2 * nh, 2 * nh), 2, 2);
    DiagonalBlockMatrix<2, 2> D(d);
    GenericBlockMatrix<3, 1> g(m);
    eqMat(g.getBlockKroneckerProduct(2) * D, mul(kronRef(m, 3, 1, 2), d), "Kronecker product * diagonal block matrix");
    M d3 = blockDiagRef(symMat("e", 2 * nh, 3 * nh), 2, 3);
    DiagonalBlockMatrix<2, 3> D3(d3);
    eqMat(g.getBlockKroneckerProduct(2) * D3, mul(kronRef(m, 3, 1, 2), d3), "Kronecker product * rectangular diagonal block matrix");
    intoRight(g.getBlockKroneckerProduct(2), D3, mul(kronRef(m, 3, 1, 2), d3), "Kronecker product * diagonal block matrix into a used matrix");
    M bad = M::Zero(2 * (nh + 1), 2 * (nh + 1));
    DiagonalBlockMatrix<2, 2> B(bad);
    vp_check(throws([&] { g.getBlockKroneckerProduct(2) * B; }), "size mismatch is detected");
}
VP_HARNESS(kron_times_diag_generic_wide)
{
    int nv = vp_choose("nv", 1, 2), nh = vp_choose("nh", 1, 2), n = vp_choose("n", 2, 3);
    M m = symMat("m", 2 * nv, 2 * nh);
    M d = blockDiagRef(symMat("d", 2 * n * nh, nh), 2 * n, 1);
    DiagonalBlockMatrix<DYN, 1> D(d, 2 * n, UND);
    GenericBlockMatrix<2, 2> g(m);
    eqMat(g.getBlockKroneckerProduct(n) * D, mul(kronRef(m, 2, 2, n), d), "Kronecker product * diagonal block matrix (wide blocks)");
}
VP_HARNESS(kron_times_diag_lower)
{
    int nb = vp_choose("nb", 1, 3);
    M m = blockLowerRef(symMat("m", 3 * nb, nb), 3, 1);
    M d = blockDiagRef(symMat("d", 2 * nb, 2 * nb), 2, 2);
    DiagonalBlockMatrix<2, 2> D(d);
    LeftLowerTriangularBlockMatrix<3, 1> u(m);
    eqMat(u.getBlockKroneckerProduct(2) * D, mul(kronRef(m, 3, 1, 2), d), "lower triangular Kronecker product * diagonal block matrix");
    intoRight(u.getBlockKroneckerProduct(2), D, mul(kronRef(m, 3, 1, 2), d), "lower triangular Kronecker product * diagonal block matrix into a used matrix");
}
VP_HARNESS(kron_times_diag_scalar)
{
    int nv = vp_choose("nv", 1, 3), nh = vp_choose("nh", 1, 3);
    M m = symMat("m", nv, nh);
    M d = blockDiagRef(symMat("d", 2 * nh, 2 * nh), 2, 2);

    DiagonalBlockMatrix<2, 2> D(d);
    GenericBlockMatrix<1, 1> g(m);
    eqMat(g.getBlockKroneckerProduct(2) * D, mul(kronRef(m, 1, 1, 2), d), "scalar Kronecker product * diagonal block matrix");
    intoRight(g.getBlockKroneckerProduct(2), D, mul(kronRef(m, 1, 1, 2), d), "scalar Kronecker product * diagonal block matrix into a used matrix");
    M bad = M::Zero(2 * (nh + 1), 2 * (nh + 1));
    DiagonalBlockMatrix<2, 2> B(bad);
    vp_check(throws([&] { g.getBlockKroneckerProduct(2) * B; }), "size mismatch is detected");
}
VP_HARNESS(kron_times_diag_scalar_lower)
{
    int nb = vp_choose("nb", 1, 3);
    M m = blockLowerRef(symMat("m", nb, nb), 1, 1);
    M d = blockDiagRef(symMat("d", 2 * nb, 2 * nb), 2, 2);
    DiagonalBlockMatrix<2, 2> D(d);
    LeftLowerTriangularBlockMatrix<1, 1> g(m);
    eqMat(g.getBlockKroneckerProduct(2) * D, mul(kronRef(m, 1, 1, 2), d), "scalar lower triangular Kronecker product * diagonal block matrix");
    eqMat(D * g.getBlockKroneckerProduct(2), mul(d, kronRef(m, 1, 1, 2)), "diagonal block matrix * scalar lower triangular Kronecker product");
    intoRight(g.getBlockKroneckerProduct(2), D, mul(kronRef(m, 1, 1, 2), d), "scalar lower triangular Kronecker product * diagonal block matrix into a used matrix");
    intoLeft(D, g.getBlockKroneckerProduct(2), mul(d, kronRef(m, 1, 1, 2)), "diagonal block matrix * scalar lower triangular Kronecker product into a used matrix");
    M d1 = blockDiagRef(symMat("e", 2 * nb, nb), 2, 1);
    DiagonalBlockMatrix<2, 1> D1(d1);
    eqMat(g.getBlockKroneckerProduct(2) * D1, mul(kronRef(m, 1, 1, 2), d1), "scalar lower triangular Kronecker product * rectangular diagonal block matrix");
}
VP_HARNESS(select_rows_in_blocks)
{
    int nv = vp_choose("nv", 1, 3), nh = vp_choose("nh", 1, 3);
    M m = symMat("m", 3 * nv, 1 * nh);
    int row = vp_choose("row", 0, 2);
    M sel(nv, nh);
    for (int i = 0; i < nv; ++i) for (int j = 0; j < nh; ++j) sel(i, j) = m(3 * i + row, j);
    GenericBlockMatrix<3, 1> g(m);
    eqMat(g.selectRowInBlocksAsMatrix(row), sel, "selectRowInBlocksAsMatrix");
    eqMat(g.selectRowInBlocks(row).getRaw(), sel, "selectRowInBlocks");
    vp_check(g.selectRowInBlocks(row).getBlockRowsNum() == 1 && g.selectRowInBlocks(row).getBlockColsNum() == 1, "block size of selected rows");
    M out;
    g.selectRowInBlocks(row).getBlockKroneckerProduct(2).evaluate(out);
    eqMat(out, kronRef(sel, 1, 1, 2), "Kronecker product of selected rows");
    M m3 = symMat("n", 3 * nv, 3);
    GenericBlockMatrix<3, 3> g3(m3);
    M sel3(nv, 3);
    for (int i = 0; i < nv; ++i) for (int j = 0; j < 3; ++j) sel3(i, j) = m3(3 * i + row, j);
    vp_check(g3.selectRowInBlocks(row).getNumberOfBlocksHorizontal() == 1, "number of selected blocks");
    Eigen::VectorXd v = symVec("v", 6);
    eqMat(g3.selectRowInBlocks(row).getBlockKroneckerProduct(2) * v, mul(kronRef(sel3, 1, 3, 2), v), "Kronecker product of selected rows * vector");
}
VP_HARNESS(select_rows_dynamic)
{
    int nv = vp_choose("nv", 1, 2), r = vp_choose("r", 1, 3), c = vp_choose("c", 1, 3);
    M m = symMat("m", r * nv, c * 2);
    int row = vp_choose("row", 0, r - 1);
    M sel(nv, 2 * c);
    for (int i = 0; i < nv; ++i) for (int j = 0; j < 2 * c; ++j) sel(i, j) = m(r * i + row, j);
    GenericBlockMatrix<DYN, DYN> g(m, r, c);
    auto s = g.selectRowInBlocks(row);
    eqMat(s.getRaw(), sel, "dynamic selectRowInBlocks");
    vp_check(s.getBlockRowsNum() == 1, "selected block rows");
    vp_check(s.getBlockColsNum() == c, "selected block columns");
    vp_check(s.getNumberOfBlocksHorizontal() == 2 && s.getNumberOfBlocksVertical() == nv, "numbers of selected blocks");
    M out;
    s.getBlockKroneckerProduct(2).evaluate(out);
    eqMat(out, kronRef(sel, 1, c, 2), "Kronecker product of selected rows");
}
