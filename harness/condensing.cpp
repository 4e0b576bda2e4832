// Condensing of a time-varying linear system: against the recursion, written out.
#include "tasks.h"
namespace et = etools;
typedef std::vector<M> Ms;
struct Mpc : public humoto::MPC
{
    void log(humoto::Logger &, const humoto::LogEntryName &, const std::string &) const {}
    template <class... A> static void dense(A &&... a) { condense(std::forward<A>(a)...); }
    template <class... A> static void output(A &&... a) { condenseOutput(std::forward<A>(a)...); }
    template <class... A> static void invariant(A &&... a) { condenseTimeInvariant(std::forward<A>(a)...); }
};
static Ms seq(const char *n, int k, int r, int c)
{
    Ms v;
    for (int i = 0; i < k; ++i) { char b[16]; snprintf(b, 16, "%s%d", n, i); v.push_back(symMat(b, r, c)); }
    return v;
}
template <class T> static std::vector<T> fixedSeq(const Ms &m) { std::vector<T> v; for (size_t i = 0; i < m.size(); ++i) v.push_back(m[i]); return v; }
// expected matrices: x_{k+1} = A_k x_k + B_k u_k
static void reference(M &S, M &U, const Ms &A, const Ms &B)
{
    int N = A.size(), s = A[0].rows(), u = B[0].cols();
    S = M::Zero(N * s, s);
    U = M::Zero(N * s, N * u);
    M x = M::Identity(s, s), w = M::Zero(s, N * u);
    for (int k = 0; k < N; ++k)
    {
        x = mul(A[k], x);
        w = mul(A[k], w);
        for (int i = 0; i < s; ++i) for (int j = 0; j < u; ++j) w(i, k * u + j) += B[k](i, j);
        for (int i = 0; i < s; ++i)
        {
            for (int j = 0; j < s; ++j) S(k * s + i, j) = x(i, j);
            for (int j = 0; j < N * u; ++j) U(k * s + i, j) = w(i, j);
        }
    }
}
// fill a block matrix block by block
template <class T> static void fill(T &b, const M &m, int r, int c, bool lower)
{
    for (int i = 0; i < m.rows() / r; ++i)
        for (int j = 0; j < m.cols() / c; ++j)
            if (!lower || j <= i) b(i, j) = m.block(i * r, j * c, r, c);
}
// y_k = D_k x_k + E_k u_k, k = 0 .. N-1
static void referenceOutput(M &Ox, M &Ou, const Ms &D, const Ms &E, const M &S, const M &U)
{
    int N = D.size(), y = D[0].rows(), s = D[0].cols(), u = E[0].cols();
    Ox = M::Zero(N * y, s);
    Ou = M::Zero(N * y, N * u);
    for (int k = 0; k < N; ++k)
    {
        M x = k ? M(S.middleRows((k - 1) * s, s)) : M(M::Identity(s, s)), w = k ? M(U.middleRows((k - 1) * s, s)) : M(M::Zero(s, N * u));
        M a = mul(D[k], x), b = mul(D[k], w);
        for (int i = 0; i < y; ++i)
        {
            for (int j = 0; j < s; ++j) Ox(k * y + i, j) = a(i, j);
            for (int j = 0; j < N * u; ++j) Ou(k * y + i, j) = b(i, j);
            for (int j = 0; j < u; ++j) Ou(k * y + i, k * u + j) += E[k](i, j);
        }
    }
}
template <int s, int u> static void denseCase(int N)
{
    Ms A = seq("A", N, s, s), B = seq("B", N, s, u);
    M S, U, Sr, Ur;
    reference(Sr, Ur, A, B);
    Mpc::dense(S, U, A, B);
    eqMat(S, Sr, "condensed state matrix (dense)");
    eqMat(U, Ur, "condensed control matrix (dense)");
    // matrices of fixed sizes
    std::vector<Eigen::Matrix<double, s, s> > Af = fixedSeq<Eigen::Matrix<double, s, s> >(A);
    std::vector<Eigen::Matrix<double, s, u> > Bf = fixedSeq<Eigen::Matrix<double, s, u> >(B);
    Mpc::dense(S, U, Af, Bf);
    eqMat(S, Sr, "condensed state matrix (dense, fixed size)");
    eqMat(U, Ur, "condensed control matrix (dense, fixed size)");
}
VP_HARNESS(condense_dense)
{
    int N = vp_choose("N", 1, 4), sz = vp_choose("sizes", 0, 2);
    if (sz == 0) denseCase<2, 1>(N); else if (sz == 1) denseCase<1, 2>(N); else denseCase<2, 2>(std::min(N, 3));
}
template <int s, int u> static void blockCase(int N)
{
    typedef Eigen::Matrix<double, s, s> TA;
    typedef Eigen::Matrix<double, s, u> TB;
    Ms A = seq("A", N, s, s), B = seq("B", N, s, u);
    std::vector<TA> Af = fixedSeq<TA>(A);
    std::vector<TB> Bf = fixedSeq<TB>(B);
    M Sr, Ur;
    reference(Sr, Ur, A, B);
    et::GenericBlockMatrix<s, s> S;
    et::LeftLowerTriangularBlockMatrix<s, u> U;
    Mpc::dense(S, U, Af, Bf);
    eqMat(S.getRaw(), Sr, "condensed state matrix (blocks)");
    eqMat(U.getRaw(), Ur, "condensed control matrix (triangular blocks)");
    et::GenericBlockMatrix<s, s> S2;
    et::GenericBlockMatrix<s, u> U2;
    Mpc::dense(S2, U2, Af, Bf);
    eqMat(S2.getRaw(), Sr, "condensed state matrix (blocks)");
    eqMat(U2.getRaw(), Ur, "condensed control matrix (generic blocks)");
    // the outputs of any point of the condensed system follow the recursion
    V x0 = symVec("x", s), v = symVec("v", N * u), x = x0;
    V all = mul(S.getRaw(), x0) + mul(U.getRaw(), v);
    for (int k = 0; k < N; ++k)
    {
        x = V(mul(A[k], x) + mul(B[k], v.segment(k * u, u)));
        for (int i = 0; i < s; ++i) vp_eq(all(k * s + i), x(i), "predicted state");
    }
}
VP_HARNESS(condense_blocks)
{
    int N = vp_choose("N", 1, 4), sz = vp_choose("sizes", 0, 2);
    if (sz == 0) blockCase<2, 1>(N); else if (sz == 1) blockCase<2, 3>(std::min(N, 3)); else blockCase<2, 2>(std::min(N, 3));
}
VP_HARNESS(condense_blocks_long_thorough)
{
    int N = vp_choose("N", 5, 8);
    blockCase<2, 1>(N);
    denseCase<1, 1>(N);
}
VP_HARNESS(time_invariant)
{
    int N = vp_choose("N", 1, 4), s = vp_choose("states", 1, 2), u = vp_choose("controls", 1, 2);
    M a = symMat("A", s, s), b = symMat("B", s, u), S, U, Sr, Ur, S2, U2;
    Ms A(N, a), B(N, b);
    reference(Sr, Ur, A, B);
    Mpc::invariant(S, U, N, a, b);
    eqMat(S, Sr, "condensed state matrix (time invariant)");
    eqMat(U, Ur, "condensed control matrix (time invariant)");
    Mpc::dense(S2, U2, A, B);
    eqMat(S, S2, "time invariant and general versions agree");
    eqMat(U, U2, "time invariant and general versions agree");
}
VP_HARNESS(output_dense)
{
    int N = vp_choose("N", 1, 4), s = vp_choose("states", 1, 2), u = vp_choose("controls", 1, 2), y = vp_choose("outputs", 1, 2);
    // the prediction matrices are arbitrary
    M S = symMat("S", N * s, s), U = symMat("U", N * s, N * u), D = symMat("D", y, s), E = symMat("E", y, u), Ox, Ou, Xr, Ur;
    for (int k = 0; k < N; ++k) for (int j = (k + 1) * u; j < N * u; ++j) for (int i = 0; i < s; ++i) U(k * s + i, j) = 0;
    referenceOutput(Xr, Ur, Ms(N, D), Ms(N, E), S, U);
    Mpc::output(Ox, Ou, D, E, S, U);
    eqMat(Ox, Xr, "output matrix of the state (dense)");
    eqMat(Ou, Ur, "output matrix of the controls (dense)");
    M bad = symMat("W", N * s + s, N * u);
    vp_check(throws([&] { Mpc::output(Ox, Ou, D, E, S, bad); }), "mismatching sizes are rejected");
    M bad2 = symMat("X", N * s, N * u + 1);
    vp_check(throws([&] { Mpc::output(Ox, Ou, D, E, S, bad2); }), "mismatching sizes are rejected");
    M bad3 = symMat("Y", N * s, s + 1);
    vp_check(throws([&] { Mpc::output(Ox, Ou, D, E, bad3, U); }), "mismatching sizes are rejected");
}
template <int s, int u, int y> static void outputBlocks(int N)
{
    typedef Eigen::Matrix<double, y, s> TD;
    typedef Eigen::Matrix<double, y, u> TE;
    Ms D = seq("D", N, y, s), E = seq("E", N, y, u);
    et::GenericBlockMatrix<s, s> S;
    et::LeftLowerTriangularBlockMatrix<s, u> U;
    S.resize(N, 1);
    fill(S, symMat("S", N * s, s), s, s, false);
    U.setZero(N, N);
    fill(U, symMat("U", N * s, N * u), s, u, true);
    M Xr, Ur;
    referenceOutput(Xr, Ur, D, E, S.getRaw(), U.getRaw());
    et::GenericBlockMatrix<y, s> Ox;
    et::LeftLowerTriangularBlockMatrix<y, u> Ou;
    std::vector<TD> Df = fixedSeq<TD>(D);
    std::vector<TE> Ef = fixedSeq<TE>(E);
    Mpc::output(Ox, Ou, Df, Ef, S, U);
    eqMat(Ox.getRaw(), Xr, "output matrix of the state (blocks)");
    eqMat(Ou.getRaw(), Ur, "output matrix of the controls (blocks)");
    Mpc::output(Ox, Ou, D, E, S, U);
    eqMat(Ox.getRaw(), Xr, "output matrix of the state (blocks, dynamic size)");
    eqMat(Ou.getRaw(), Ur, "output matrix of the controls (blocks, dynamic size)");
    std::vector<TE> less(Ef.begin(), Ef.end() - 1);
    vp_check(throws([&] { Mpc::output(Ox, Ou, Df, less, S, U); }), "mismatching numbers of matrices are rejected");
    std::vector<TD> lessD(Df.begin(), Df.end() - 1);
    vp_check(throws([&] { Mpc::output(Ox, Ou, lessD, less, S, U); }), "mismatching numbers of matrices are rejected");
    et::LeftLowerTriangularBlockMatrix<s, u> wrong;
    wrong.setZero(N + 1, N + 1);
    vp_check(throws([&] { Mpc::output(Ox, Ou, Df, Ef, S, wrong); }), "mismatching sizes are rejected");
}
VP_HARNESS(output_blocks)
{
    int N = vp_choose("N", 1, 4), sz = vp_choose("sizes", 0, 2);
    if (sz == 0) outputBlocks<2, 1, 2>(N); else if (sz == 1) outputBlocks<2, 2, 2>(N); else outputBlocks<3, 2, 1>(N);
}
// several groups of controls with their own matrices
template <int s, int y> static void outputGroups(int N, const std::vector<int> &widths)
{
    int u = 0;
    for (size_t g = 0; g < widths.size(); ++g) u += widths[g];
    typedef Eigen::Matrix<double, y, s> TD;
    Ms D = seq("D", N, y, s), E = seq("E", N, y, u);
    et::GenericBlockMatrix<s, s> S;
    S.resize(N, 1);
    fill(S, symMat("S", N * s, s), s, s, false);
    typedef et::LeftLowerTriangularBlockMatrix<s, et::MatrixBlockSizeType::DYNAMIC> TU;
    typedef et::LeftLowerTriangularBlockMatrix<y, et::MatrixBlockSizeType::DYNAMIC> TO;
    std::vector<TU> U(widths.size());
    std::vector<TO> Ou;
    for (size_t g = 0; g < widths.size(); ++g)
    {
        char b[16];
        snprintf(b, 16, "U%d", (int)g);
        U[g].setBlockSize(et::MatrixBlockSizeType::UNDEFINED, widths[g]);
        U[g].setZero(N, N);
        fill(U[g], symMat(b, N * s, N * widths[g]), s, widths[g], true);
    }
    et::GenericBlockMatrix<y, s> Ox;
    std::vector<TD> Df = fixedSeq<TD>(D);
    Mpc::output(Ox, Ou, Df, E, S, U);
    vp_check(Ou.size() == U.size(), "number of groups of controls");
    int off = 0;
    for (size_t g = 0; g < Ou.size(); ++g)
    {
        Ms e;
        for (int k = 0; k < N; ++k) e.push_back(E[k].middleCols(off, widths[g]));
        M Xr, Ur;
        referenceOutput(Xr, Ur, D, e, S.getRaw(), U[g].getRaw());
        eqMat(Ox.getRaw(), Xr, "output matrix of the state (groups of controls)");
        eqMat(Ou[g].getRaw(), Ur, "output matrix of a group of controls");
        off += widths[g];
    }
}
VP_HARNESS(output_groups)
{
    int N = vp_choose("N", 1, 4), k = vp_choose("groups", 0, 3);
    static const int w[4][3] = {{1, 0, 0}, {2, 1, 0}, {1, 2, 0}, {1, 1, 2}};
    static const int n[4] = {1, 2, 2, 3};
    outputGroups<2, 1>(N, std::vector<int>(w[k], w[k] + n[k]));
    if (N <= 2) outputGroups<3, 2>(N, std::vector<int>(w[k], w[k] + n[k]));
}
VP_HARNESS(rejected)
{
    int na = vp_choose("nA", 0, 2), nb = vp_choose("nB", 0, 2);
    Ms A = seq("A", na, 2, 2), B = seq("B", nb, 2, 1);
    M S, U;
    vp_check(throws([&] { Mpc::dense(S, U, A, B); }) == (na != nb || na == 0), "mismatching numbers of matrices are rejected");
    std::vector<Eigen::Matrix<double, 2, 2> > Af = fixedSeq<Eigen::Matrix<double, 2, 2> >(A);
    std::vector<Eigen::Matrix<double, 2, 1> > Bf = fixedSeq<Eigen::Matrix<double, 2, 1> >(B);
    et::GenericBlockMatrix<2, 2> Sb;
    et::LeftLowerTriangularBlockMatrix<2, 1> Ub;
    vp_check(throws([&] { Mpc::dense(Sb, Ub, Af, Bf); }) == (na != nb || na == 0), "mismatching numbers of matrices are rejected");
    Ms C = seq("C", 1, 2, 3), D = seq("D", 1, 2, 1);
    vp_check(throws([&] { Mpc::dense(S, U, C, D); }), "mismatching sizes are rejected");
}
