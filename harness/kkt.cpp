#include "tasks.h"
#include "humoto/kktsolver.h"
namespace kk = humoto::kktsolver;
typedef kk::SolverParameters Par;
struct Setup
{
    TestModel model;
    humoto::Solution s;
    humoto::OptimizationProblem p;
    M A, C; V b, d;     // objective |A x - b|^2, constraints C x = d
    int n;
};
static void build(Setup &t, const M &A, const V &b, const M &C, const V &d, int objtype)
{
    int n = A.cols();
    t.n = n; t.A = A; t.b = b; t.C = C; t.d = d;
    TestProblem cp(n);
    Data o, c;
    o.A = A; o.b = b;
    if (objtype == 18) { o.I.resize(n); for (int i = 0; i < n; ++i) o.I(i) = i; }
    if (objtype == 13) { o.I.resize(n); o.gains.resize(n); for (int i = 0; i < n; ++i) { o.I(i) = i; o.gains(i) = A(i, i); } }
    c.A = C; c.b = d;
    t.p.reset(C.rows() ? 2 : 1);
    t.p.pushTask(newTask(objtype, o), C.rows() ? 1 : 0);
    if (C.rows()) t.p.pushTask(newTask(3, c), 0);
    t.p.form(t.s, t.model, cp);
}
// the optimality conditions: constraints, and the gradient orthogonal to every feasible direction (columns of Z)
static void optimal(const Setup &t, const M &Z, double reg, const char *what)
{
    const V &x = t.s.x_;
    vp_check(x.rows() == t.n, "size of the solution");
    vp_check(t.s.return_status_ == humoto::SolverStatus::OK, "status of the solver");
    for (int i = 0; i < t.C.rows(); ++i) vp_eq(rowTimes(t.C, i, x), t.d(i), "the solution satisfies the constraints");
    V r(t.A.rows());
    for (int i = 0; i < t.A.rows(); ++i) r(i) = rowTimes(t.A, i, x) - t.b(i);
    M Ft = t.A.transpose();
    V g = V(mul(Ft, r));
    for (int k = 0; k < Z.cols(); ++k)
    {
        double v = 0;
        for (int i = 0; i < t.n; ++i) v += Z(i, k) * (g(i) + reg * x(i));
        vp_eq(v, 0.0, what);
    }
}
static Par par(int method) { Par p; p.solution_method_ = method == 0 ? Par::LU : method == 1 ? Par::QR : Par::CONSTRAINT_ELIMINATION_LLT; return p; }
static const char *STAT = "no feasible direction decreases the objective";
// orthogonal complement of the rows of C, computed by elimination on numbers
static M nullspace(const M &C, int n)
{
    if (!C.rows()) return M::Identity(n, n);
    Eigen::FullPivLU<M> lu(C);
    return lu.kernel();
}
static M fixedMat(int r, int c, int seed)
{
    M m(r, c);
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { seed = (seed * 37 + 11) % 101; m(i, j) = (seed % 9) - 4 + (i == j ? 5 : 0); }
    return m;
}
static void directCase(int n, int m, int k, int method)
{
    Setup t;
    build(t, fixedMat(n + 1, n, 3 + k), symVec("b", n + 1), fixedMat(m, n, 7 + 5 * k), symVec("d", m), 3);
    kk::Solver solver(par(method));
    solver.solve(t.s, t.p);
    optimal(t, nullspace(t.C, n), 0, STAT);
}
VP_HARNESS(direct)
{
    // fixed matrices, all right hand sides
    static const int nm[4][2] = {{1, 0}, {2, 0}, {2, 1}, {3, 1}};
    int size = vp_choose("size", 0, 3), k = vp_choose("matrix", 0, 1), method = vp_choose("method", 0, 1), n = nm[size][0], m = nm[size][1];
    directCase(n, m, k, method);
}
VP_HARNESS(direct_thorough)
{
    static const int nm[4][2] = {{3, 0}, {3, 1}, {3, 2}, {4, 1}};
    int size = vp_choose("size", 0, 3), k = vp_choose("matrix", 2, 4), method = vp_choose("method", 0, 1), n = nm[size][0], m = nm[size][1];
    directCase(n, m, k, method);
}
VP_HARNESS(direct_symbolic)
{
    // all numbers of small problems
    int kind = vp_choose("kind", 0, 3);
    Setup t;
    int n = kind == 0 || kind == 2 ? 1 : 2, m = kind >= 2 ? 1 : 0;
    M A = symMat("A", n, n), C = symMat("C", m, n);
    if (n == 1) vp_assume(A(0, 0) * A(0, 0) > 0.01);
    else { A(0, 1) = 0; A(1, 1) = 2; vp_assume(A(0, 0) * A(0, 0) > 0.01); }
    if (m == 1 && n == 1) vp_assume(C(0, 0) * C(0, 0) > 0.01);
    if (m == 1 && n == 2) { A = fixedMat(2, 2, 5); vp_assume(C(0, 0) * C(0, 0) + C(0, 1) * C(0, 1) > 0.01); }
    build(t, A, symVec("b", n), C, symVec("d", m), 3);
    kk::Solver solver(par(0));
    solver.solve(t.s, t.p);
    M Z = M::Identity(n, n);
    if (m == 1 && n == 1) Z = M::Zero(1, 0);
    if (m == 1 && n == 2) { Z = M(2, 1); Z << -C(0, 1), C(0, 0); }
    optimal(t, Z, 0, STAT);
}
VP_HARNESS(elimination)
{
    // diagonal objectives; the reported regularization is the only deviation
    int n = vp_choose("n", 1, 3), m = vp_choose("m", 0, 2), k = vp_choose("matrix", 2, 3), objtype = vp_choose("weighted", 0, 1);
    if (m > n) vp_stop();
    Setup t;
    M A = M::Identity(n, n);
    if (objtype) for (int i = 0; i < n; ++i) A(i, i) = 1 + i * 0.5;
    build(t, A, symVec("b", n), fixedMat(m, n, 7 + 5 * k), symVec("d", m), objtype ? 13 : 18);
    Par p = par(2);
    if (k == 3) p.elimination_regularization_factor_ = 0.25;
    kk::Solver solver;
    solver.solve(t.s, t.p, p);
    optimal(t, m == n ? M(M::Zero(n, 0)) : nullspace(t.C, n), p.elimination_regularization_factor_, STAT);
}
VP_HARNESS(elimination_symbolic)
{
    // all weights of a small problem with one constraint
    int n = 2;
    Setup t;
    M A = M::Zero(n, n), C = symMat("C", 1, n);
    for (int i = 0; i < n; ++i) { char b[8]; snprintf(b, 8, "w%d", i); A(i, i) = vp_real(b, 0.1, 4); }
    if (vp_choose("fixed", 0, 1)) C << 1, 2; else { A = M::Identity(2, 2); C(0, 0) = 1; }
    build(t, A, symVec("b", n), C, symVec("d", 1), 13);
    Par p = par(2);
    p.elimination_regularization_factor_ = vp_real("reg", 0.1, 1);
    kk::Solver solver(p);
    solver.solve(t.s, t.p);
    M Z = M::Zero(n, 0);
    if (n == 2) { Z = M(2, 1); Z << -C(0, 1), C(0, 0); }
    optimal(t, Z, p.elimination_regularization_factor_, STAT);
}
VP_HARNESS(reuse)
{
    // one solver object for a sequence of different problems
    int m1 = vp_choose("m1", 0, 1), m2 = vp_choose("m2", 0, 1), method = vp_choose("method", 0, 2), same = method != 1;
    kk::Solver solver(par(method));
    Setup t, u;
    int n = same ? 2 : 3, type = method == 2 ? 18 : 3;
    build(t, method == 2 ? M(M::Identity(2, 2)) : fixedMat(2, 2, 3), symVec("b", 2), fixedMat(m1, 2, 4), symVec("d", m1), type);
    build(u, method == 2 ? M(M::Identity(n, n)) : fixedMat(n, n, 9), symVec("e", n), fixedMat(m2, n, 5), symVec("f", m2), type);
    double reg = method == 2 ? 1e-8 : 0;
    solver.solve(t.s, t.p);
    optimal(t, nullspace(t.C, 2), reg, STAT);
    V first = t.s.x_;
    solver.solve(u.s, u.p);
    optimal(u, nullspace(u.C, n), reg, STAT);
    eqMat(t.s.x_, first, "other solutions are not changed");
    solver.solve(t.s, t.p);
    eqMat(t.s.x_, first, "solving the same problem again gives the same solution");
}
VP_HARNESS(rejected)
{
    // problems which the solver cannot handle are rejected
    int ctr = vp_choose("constraints", 0, NUM_TYPES - 1), obj = vp_choose("objective", 0, NUM_TYPES - 1), method = vp_choose("method", 0, 3);
    TestModel model;
    TestProblem cp(2);
    humoto::Solution s;
    humoto::OptimizationProblem p;
    p.reset(2);
    Data o, c;
    // a well posed problem of every type: the objective selects all variables, the constraint the first one
    o.A = M::Identity(2, 2); o.I.resize(2); o.I << 0, 1; o.gains = V::Ones(2);
    o.b = symVec("b", 2); o.lb = o.b; o.ub = o.b;
    c.A = M::Identity(1, 2); c.I.resize(1); c.I << 0; c.gains = V::Ones(1);
    if (ctr / 5 == 1) { c.A = M::Ones(1, 1); }
    c.b = symVec("d", 1); c.lb = c.b; c.ub = c.b;
    p.pushTask(newTask(ctr, c), 0);
    p.pushTask(newTask(obj, o), 1);
    p.form(s, model, cp);
    Par q = par(method);
    if (method == 3) q.solution_method_ = Par::UNDEFINED;
    kk::Solver solver(q);
    bool failed = throws([&] { solver.solve(s, p); });
    bool bad = !typeIsEquality(ctr) || !typeIsEquality(obj) || method == 3 || (method == 2 && !typeIsSimple(obj));
    vp_check(failed == bad, "unsupported problems are rejected, supported ones are not");
    if (!failed)
    {
        double d = ctr % 5 == 4 ? 0.0 : c.b(0), b1 = obj % 5 == 4 ? 0.0 : o.b(1);
        vp_eq(s.x_(0), d, "solution of a constrained variable");
        vp_eq(s.x_(1), b1, "solution of a free variable");
    }
}
