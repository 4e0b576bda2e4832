#include "tasks.h"
static const int N = 3;
static const int EQ[8] = {3, 4, 8, 9, 13, 14, 18, 19};
typedef humoto::QPProblem_ILU_ALU QP;
// sum of squared residuals of tasks, as a quadratic form
struct Ref
{
    M H; V g; double c;
    Ref(const std::vector<TestTaskInfo> &ts, int n) : H(M::Zero(n, n)), g(V::Zero(n)), c(0)
    {
        for (size_t k = 0; k < ts.size(); ++k)
            for (int r = 0; r < ts[k].m.rows(); ++r)
            {
                for (int i = 0; i < n; ++i)
                {
                    for (int j = 0; j < n; ++j) H(i, j) += ts[k].m.A(r, i) * ts[k].m.A(r, j);
                    g(i) -= ts[k].m.A(r, i) * ts[k].m.lb(r);
                }
                c += ts[k].m.lb(r) * ts[k].m.lb(r);
            }
    }
};
static void checkObjective(const humoto::QPObjective &q, const Ref &f, bool upper, bool simple, int n)
{
    const M &H = q.getHessian();
    const V &g = q.getGradient();
    vp_check(H.rows() == n && H.cols() == n && g.rows() == n, "size of the objective");
    if (H.rows() != n || H.cols() != n || g.rows() != n) return;
    for (int i = 0; i < n; ++i)
    {
        vp_eq(g(i), f.g(i), "gradient");
        for (int j = 0; j < n; ++j) if (upper || j <= i) vp_eq(H(i, j), f.H(i, j), "Hessian");
    }
    int t = q.getHessianType();
    if (t == humoto::QPObjective::HESSIAN_DIAGONAL)
    {
        for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) vp_eq(f.H(i, j), 0.0, "a Hessian reported as diagonal is diagonal");
    }
    vp_check((t == humoto::QPObjective::HESSIAN_DIAGONAL) == simple, "diagonal Hessians are reported");
    if (!simple) vp_check(t == (upper ? humoto::QPObjective::HESSIAN_GENERIC : humoto::QPObjective::HESSIAN_LOWER_TRIANGULAR), "type of the Hessian");
    vp_check(q.getStatus() == humoto::QPObjective::INITIALIZED, "status of the objective");
}
static void run(const std::vector<TestTaskInfo> &ts, const std::vector<int> &order, bool upper, bool constrained)
{
    TestModel model;
    TestProblem cp(N);
    humoto::Solution s;
    humoto::OptimizationProblem p;
    p.reset(constrained ? 2 : 1);
    bool simple = true;
    for (size_t k = 0; k < ts.size(); ++k) { p.pushTask(ts[order[k]].ptr, constrained ? 1 : 0); simple = simple && (ts[k].m.simple || !ts[k].m.rows()); }
    if (constrained) { TestTaskInfo c = makeTask("ctr", 3, 1, N, 0); p.pushTask(c.ptr, 0); }
    p.form(s, model, cp);
    QP qp;
    p.getQPProblem(qp, s, upper);
    checkObjective(qp, Ref(ts, N), upper, simple, N);
    if (upper)
    {
        // the value of the objective at any point
        V x = symVec("x", N);
        double v = 0, w = 0;
        for (size_t k = 0; k < ts.size(); ++k)
            for (int r = 0; r < ts[k].m.rows(); ++r) { double e = rowTimes(ts[k].m.A, r, x) - ts[k].m.lb(r); v += e * e; }
        const QP &q = qp;
        for (int i = 0; i < N; ++i) { w += 2 * q.getGradient()(i) * x(i); for (int j = 0; j < N; ++j) w += x(i) * q.getHessian()(i, j) * x(j); }
        vp_eq(w + Ref(ts, N).c, v, "value of the objective is the sum of squared residuals");
    }
}
VP_HARNESS(single)
{
    int t = EQ[vp_choose("type", 0, 7)], rows = vp_choose("rows", 1, 3), lay = vp_choose("layout", 0, 5), c = vp_choose("form", 0, 3);
    std::vector<TestTaskInfo> ts(1, makeTask("a", t, rows, N, lay * 2));
    run(ts, std::vector<int>(1, 0), c % 2, c / 2);
}
VP_HARNESS(pair)
{
    int t1 = EQ[vp_choose("type1", 0, 7)], t2 = EQ[vp_choose("type2", 0, 7)], c = vp_choose("form", 0, 3);
    std::vector<TestTaskInfo> ts;
    ts.push_back(makeTask("a", t1, 2, N, 1 + t2 % 3));
    ts.push_back(makeTask("b", t2, 2, N, 4 + t1 % 5));
    std::vector<int> o(2, 0);
    o[1] = 1;
    run(ts, o, c % 2, c / 2);
}
VP_HARNESS(triple)
{
    int t = EQ[vp_choose("type", 0, 7)], order = vp_choose("order", 0, 5);
    static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    std::vector<TestTaskInfo> ts;
    ts.push_back(makeTask("a", t, 2, N, 2));
    ts.push_back(makeTask("b", 8, 1, N, 4));
    ts.push_back(makeTask("c", 18, 2, N, 5));
    run(ts, std::vector<int>(perm[order], perm[order] + 3), true, false);
}
VP_HARNESS(empty_tasks)
{
    // tasks without rows contribute nothing
    int t1 = EQ[vp_choose("type1", 0, 7)], t2 = EQ[vp_choose("type2", 0, 7)], first = vp_choose("first", 0, 1);
    std::vector<TestTaskInfo> ts;
    ts.push_back(makeTask("a", t1, 0, N, 1));
    ts.push_back(makeTask("b", t2, 2, N, 4));
    std::vector<int> o(2, first);
    o[1] = 1 - first;
    run(ts, o, true, false);
}
VP_HARNESS(reuse)
{
    // one QP object used for different problems
    int t1 = EQ[vp_choose("type1", 0, 7)], t2 = EQ[vp_choose("type2", 0, 7)], u1 = vp_choose("upper1", 0, 1), u2 = vp_choose("upper2", 0, 1);
    TestModel model;
    TestProblem cp(N), cp2(N + 1);
    humoto::Solution s;
    humoto::OptimizationProblem p;
    p.reset(1);
    std::vector<TestTaskInfo> a(1, makeTask("a", t1, 2, N, 1)), b(1, makeTask("b", t2, 1, N + 1, 2));
    p.pushTask(a[0].ptr, 0);
    p.form(s, model, cp);
    humoto::QPProblem_AB qp;
    p.getQPProblem(qp, s, u1);
    checkObjective(qp, Ref(a, N), u1, a[0].m.simple, N);
    humoto::OptimizationProblem r;
    r.reset(1);
    r.pushTask(b[0].ptr, 0);
    r.form(s, model, cp2);
    r.getQPProblem(qp, s, u2);
    checkObjective(qp, Ref(b, N + 1), u2, b[0].m.simple, N + 1);
    // the same level again, with different numbers
    TestTaskInfo c = makeTask("c", t1, 1, N, 3);
    a[0].w->d = a[0].d = c.d;
    a[0].m = c.m;
    p.form(s, model, cp);
    p.getQPProblem(qp, s, u1);
    checkObjective(qp, Ref(a, N), u1, a[0].m.simple, N);
}
VP_HARNESS(regularization)
{
    int t = EQ[vp_choose("type", 0, 7)];
    TestModel model;
    TestProblem cp(N);
    humoto::Solution s;
    humoto::OptimizationProblem p;
    p.reset(1);
    std::vector<TestTaskInfo> ts(1, makeTask("a", t, 2, N, 1));
    p.pushTask(ts[0].ptr, 0);
    p.form(s, model, cp);
    QP qp;
    p.getQPProblem(qp, s);
    double c = vp_real("c", 0, 4);
    qp.regularize(c);
    Ref f(ts, N);
    const QP &q = qp;
    for (int i = 0; i < N; ++i)
    {
        vp_eq(q.getGradient()(i), f.g(i), "regularization preserves the gradient");
        for (int j = 0; j < N; ++j) vp_eq(q.getHessian()(i, j), f.H(i, j) + (i == j ? c : 0.0), "regularization adds to the diagonal");
    }
    vp_check(qp.getStatus() == humoto::QPObjective::MODIFIED, "a regularized objective is reported as modified");
    QP q2;
    p.getQPProblem(q2, s);
    q2.getGradient();
    vp_check(q2.getStatus() == humoto::QPObjective::MODIFIED && (q2.getHessianType() == humoto::QPObjective::HESSIAN_DIAGONAL) == ts[0].m.simple, "access to the gradient");
    q2.getHessian();
    vp_check(q2.getStatus() == humoto::QPObjective::MODIFIED && q2.getHessianType() == humoto::QPObjective::HESSIAN_GENERIC, "a Hessian which may be changed is not reported as diagonal");
}
VP_HARNESS(rejected)
{
    // objectives with inequalities, and too many or too few levels, are rejected
    int t = vp_choose("type", 0, NUM_TYPES - 1), levels = vp_choose("levels", 1, 3);
    TestModel model;
    TestProblem cp(N);
    humoto::Solution s;
    humoto::OptimizationProblem p;
    p.reset(levels);
    TestTaskInfo a = makeTask("a", t, 1, N, 1), b = makeTask("b", 3, 1, N, 1), c = makeTask("c", 4, 1, N, 1);
    p.pushTask(a.ptr, levels - 1);
    p.pushTask(b.ptr, levels - 1);
    if (levels > 1) p.pushTask(b.ptr, 0);
    if (levels > 2) p.pushTask(c.ptr, 1);
    p.form(s, model, cp);
    QP qp;
    vp_check(throws([&] { p.getQPProblem(qp, s); }) == (levels > 2 || !typeIsEquality(t)), "objectives with inequalities and wrong numbers of levels are rejected");
    humoto::OptimizationProblem none;
    vp_check(throws([&] { none.getQPProblem(qp, s); }), "an empty hierarchy is rejected");
}
