#include "tasks.h"
using namespace humoto::constraints;
static const int N = 3;
// everything a level offers, against the meaning of its tasks
static void checkLevel(humoto::OptimizationProblem &p, int level, const std::vector<TestTaskInfo> &ts, const humoto::Solution &s, int n = N)
{
    const humoto::HierarchyLevel &l = p[level];
    int total = 0, eq = 0, simple = 0, two = 0;
    bool gained = false;
    for (size_t k = 0; k < ts.size(); ++k)
    {
        int r = ts[k].m.rows();
        total += r;
        if (ts[k].m.eq) eq += r;
        if (ts[k].m.simple) simple += r;
        if (ts[k].m.l && ts[k].m.u) two += r;
        if (ts[k].m.gained) gained = true;
    }
    vp_check((int)l.getNumberOfConstraints() == total, "number of constraints");
    vp_check((int)l.getNumberOfEqualityConstraints() == eq, "number of equalities");
    vp_check((int)l.getNumberOfInequalityConstraints() == total - eq, "number of inequalities");
    vp_check((int)l.getNumberOfInequalityConstraintsOneSided() == total - eq + two, "number of one-sided inequalities");
    vp_check((int)l.getNumberOfSimpleConstraints() == simple, "number of simple constraints");
    vp_check((int)l.getNumberOfGeneralConstraints() == total - simple, "number of general constraints");
    vp_check(l.isEquality() == (total == eq), "equality level");
    vp_check(l.isSimple() == (total == simple), "simple level");
    // all constraints, row by row
    ContainerALU alu;
    l.getAllConstraints(alu, s);
    vp_check((int)alu.getNumberOfConstraints() == total && alu.getLowerBounds().rows() == total && alu.getUpperBounds().rows() == total && alu.getA().cols() == n, "size of the set of all constraints");
    std::vector<int> covered(total, 0);
    for (size_t k = 0; k < ts.size(); ++k)
    {
        humoto::Location loc = where(l, ts[k].ptr);
        vp_check((int)loc.length_ == ts[k].m.rows() && (int)(loc.offset_ + loc.length_) <= total, "location of a task");
        if ((int)loc.length_ != ts[k].m.rows() || (int)(loc.offset_ + loc.length_) > total) return;
        for (int i = 0; i < ts[k].m.rows(); ++i)
        {
            int r = loc.offset_ + i;
            covered[r]++;
            for (int j = 0; j < n; ++j) vp_eq(alu.getA()(r, j), ts[k].m.A(i, j), "matrix of all constraints");
            vp_eq(alu.getLowerBounds()(r), ts[k].m.lb(i), "lower bounds of all constraints");
            vp_eq(alu.getUpperBounds()(r), ts[k].m.ub(i), "upper bounds of all constraints");
        }
    }
    for (int r = 0; r < total; ++r) vp_check(covered[r] == 1, "each constraint belongs to one task");
    // equalities, inequalities, general and simple constraints: tasks follow each other in the order of the level
    ContainerAB ab;
    l.getEqualityConstraints(ab, s);
    vp_check((int)ab.getNumberOfConstraints() == eq && ab.getB().rows() == eq && ab.getA().cols() == n, "size of the set of equalities");
    ContainerAL al;
    l.getInequalityConstraints(al, s);
    vp_check((int)al.getNumberOfConstraints() == total - eq + two && al.getLowerBounds().rows() == total - eq + two && al.getA().cols() == n, "size of the set of inequalities");
    ContainerALU g;
    l.getGeneralConstraints(g, s);
    vp_check((int)g.getNumberOfConstraints() == total - simple && g.getLowerBounds().rows() == total - simple && g.getUpperBounds().rows() == total - simple, "size of the set of general constraints");
    ContainerILU b;
    if (!gained) l.getSimpleConstraints(b, s); else vp_check(simple == 0 || throws([&] { l.getSimpleConstraints(b, s); }), "simple constraints with gains are not bounds");
    if (!gained) vp_check((int)b.getNumberOfConstraints() == simple && b.getLowerBounds().rows() == simple && b.getUpperBounds().rows() == simple && b.getIndices().rows() == simple, "size of the set of simple constraints");
    int re = 0, ri = 0, rg = 0, rs = 0;
    for (std::list<humoto::HierarchyLevel::TaskInfo>::const_iterator it = l.tasks_.begin(); it != l.tasks_.end(); ++it)
        for (size_t k = 0; k < ts.size(); ++k)
            if (ts[k].ptr == it->ptr_)
            {
                const Meaning &m = ts[k].m;
                int r = m.rows();
                if (m.eq)
                {
                    for (int q = 0; q < r; ++q, ++re)
                    {
                        for (int j = 0; j < n; ++j) vp_eq(ab.getA()(re, j), m.A(q, j), "matrix of equalities");
                        vp_eq(ab.getB()(re), m.lb(q), "right hand side of equalities");
                    }
                }
                else
                {
                    if (m.l) for (int q = 0; q < r; ++q, ++ri)
                    {
                        for (int j = 0; j < n; ++j) vp_eq(al.getA()(ri, j), m.A(q, j), "matrix of lower inequalities");
                        vp_eq(al.getLowerBounds()(ri), m.lb(q), "bounds of lower inequalities");
                    }
                    if (m.u) for (int q = 0; q < r; ++q, ++ri)
                    {
                        for (int j = 0; j < n; ++j) vp_eq(al.getA()(ri, j), -m.A(q, j), "matrix of upper inequalities");
                        vp_eq(al.getLowerBounds()(ri), -m.ub(q), "bounds of upper inequalities");
                    }
                }
                if (!m.simple)
                {
                    for (int q = 0; q < r; ++q, ++rg)
                    {
                        for (int j = 0; j < n; ++j) vp_eq(g.getA()(rg, j), m.A(q, j), "matrix of general constraints");
                        vp_eq(g.getLowerBounds()(rg), m.lb(q), "lower bounds of general constraints");
                        vp_eq(g.getUpperBounds()(rg), m.ub(q), "upper bounds of general constraints");
                    }
                }
                else if (!gained)
                {
                    for (int q = 0; q < r; ++q, ++rs)
                    {
                        vp_check((int)b.getIndices()(rs) == (int)ts[k].d.I(q), "indices of simple constraints");
                        vp_eq(b.getLowerBounds()(rs), m.lb(q), "lower bounds of simple constraints");
                        vp_eq(b.getUpperBounds()(rs), m.ub(q), "upper bounds of simple constraints");
                    }
                }
            }
}
// the same, said with a point: it is feasible for the constraints exactly when it satisfies the task
VP_HARNESS(feasible_points)
{
    int type = vp_choose("type", 0, NUM_TYPES - 1);
    TestModel model;
    TestProblem cp(2);
    humoto::Solution s;
    humoto::OptimizationProblem p;
    p.reset(1);
    TestTaskInfo t = makeTask("a", type, 1, 2, 1);
    p.pushTask(t.ptr, 0);
    p.form(s, model, cp);
    V x = symVec("x", 2);
    double v = rowTimes(t.m.A, 0, x);
    ContainerALU alu;
    p[0].getAllConstraints(alu, s);
    double w = rowTimes(alu.getA(), 0, x);
    if (t.m.eq)
    {
        ContainerAB ab;
        p[0].getEqualityConstraints(ab, s);
        vp_check((rowTimes(ab.getA(), 0, x) == ab.getB()(0)) == (v == t.m.lb(0)), "equality");
    }
    else
    {
        ContainerAL al;
        p[0].getInequalityConstraints(al, s);
        int r = 0;
        if (t.m.l) { vp_check((rowTimes(al.getA(), r, x) >= al.getLowerBounds()(r)) == (v >= t.m.lb(0)), "lower inequality"); ++r; }
        if (t.m.u) { vp_check((rowTimes(al.getA(), r, x) >= al.getLowerBounds()(r)) == (v <= t.m.ub(0)), "upper inequality"); ++r; }
    }
    vp_check((w >= alu.getLowerBounds()(0)) == (v >= t.m.lb(0)), "lower bound");
    vp_check((w <= alu.getUpperBounds()(0)) == (v <= t.m.ub(0)), "upper bound");
}
VP_HARNESS(single)
{
    int type = vp_choose("type", 0, NUM_TYPES - 1), n = vp_choose("variables", 1, 4), rows = vp_choose("rows", 1, 2), lay = vp_choose("layout", 0, 5);
    if (n == 1 && lay) vp_stop();
    TestModel model;
    TestProblem cp(n);
    humoto::Solution s;
    humoto::OptimizationProblem p;
    p.reset(1);
    std::vector<TestTaskInfo> ts(1, makeTask("a", type, rows, n, lay));
    p.pushTask(ts[0].ptr, 0);
    p.form(s, model, cp);
    checkLevel(p, 0, ts, s, n);
}
VP_HARNESS(pair)
{
    int t1 = vp_choose("type1", 0, NUM_TYPES - 1), t2 = vp_choose("type2", 0, NUM_TYPES - 1);
    TestModel model;
    TestProblem cp(N);
    humoto::Solution s;
    humoto::OptimizationProblem p;
    p.reset(1);
    std::vector<TestTaskInfo> ts;
    ts.push_back(makeTask("a", t1, 2, N, 1 + t2 % 3));
    ts.push_back(makeTask("b", t2, 1, N, 4 + t1 % 5));
    p.pushTask(ts[0].ptr, 0);
    p.pushTask(ts[1].ptr, 0);
    p.form(s, model, cp);
    checkLevel(p, 0, ts, s);
}
VP_HARNESS(triple)
{
    // general, gained simple and plain simple tasks in any order of addition
    int order = vp_choose("order", 0, 5), t = vp_choose("bounds", 0, 4), u = vp_choose("bounds2", 0, 4);
    static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    TestModel model;
    TestProblem cp(N);
    humoto::Solution s;
    humoto::OptimizationProblem p;
    p.reset(1);
    std::vector<TestTaskInfo> ts;
    ts.push_back(makeTask("a", t, 2, N, 0));
    ts.push_back(makeTask("b", 5 + (t + u) % 5, 1, N, 1));
    ts.push_back(makeTask("c", 15 + u, 2, N, 5));
    for (int k = 0; k < 3; ++k) p.pushTask(ts[perm[order][k]].ptr, 0);
    p.form(s, model, cp);
    checkLevel(p, 0, ts, s);
}
VP_HARNESS(levels)
{
    // two levels do not mix; forming again replaces the data
    int t1 = vp_choose("type1", 0, NUM_TYPES - 1), t2 = vp_choose("type2", 0, 4);
    TestModel model;
    TestProblem cp(N);
    humoto::Solution s;
    humoto::OptimizationProblem p;
    p.reset(2);
    std::vector<TestTaskInfo> a(1, makeTask("a", t1, 1, N, 1)), b(1, makeTask("b", t2 * 4 + t1 % 4, 2, N, 2));
    p.pushTask(a[0].ptr, 0);
    p.pushTask(b[0].ptr, 1);
    p.form(s, model, cp);
    vp_check(p.getNumberOfLevels() == 2, "number of levels");
    checkLevel(p, 0, a, s);
    checkLevel(p, 1, b, s);
    vp_check(throws([&] { p.pushTask(a[0].ptr, 2); }), "a level which does not exist is rejected");
    TestTaskInfo c = makeTask("c", t1, 2, N, 3);
    a[0].w->d = a[0].d = c.d;
    a[0].m = c.m;
    p.form(s, model, cp);
    checkLevel(p, 0, a, s);
    checkLevel(p, 1, b, s);
}
VP_HARNESS(empty_task)
{
    // tasks without constraints are neutral
    int t1 = vp_choose("type1", 0, NUM_TYPES - 1), t2 = vp_choose("type2", 0, NUM_TYPES - 1), first = vp_choose("first", 0, 1);
    TestModel model;
    TestProblem cp(N);
    humoto::Solution s;
    humoto::OptimizationProblem p;
    p.reset(1);
    std::vector<TestTaskInfo> ts;
    ts.push_back(makeTask("a", t1, 0, N, 1));
    ts.push_back(makeTask("b", t2, 2, N, 5));
    p.pushTask(ts[first].ptr, 0);
    p.pushTask(ts[1 - first].ptr, 0);
    p.form(s, model, cp);
    checkLevel(p, 0, ts, s);
}
VP_HARNESS(inconsistent)
{
    // mismatching sizes are rejected
    int type = vp_choose("type", 0, NUM_TYPES - 1), what = vp_choose("what", 0, 3);
    TestModel model;
    TestProblem cp(N);
    humoto::Solution s;
    humoto::OptimizationProblem p;
    p.reset(1);
    TestTaskInfo t = makeTask("a", type, 2, N, 1);
    int body = type / 5, bnd = type % 5;
    bool bad = false;
    if (what == 0 && (bnd == 0 || bnd == 1)) { t.w->d.lb = symVec("w", 3); bad = true; }
    if (what == 1 && (bnd == 0 || bnd == 2)) { t.w->d.ub = symVec("w", 1); bad = true; }
    if (what == 0 && bnd == 3) { t.w->d.b = symVec("w", 3); bad = true; }
    if (what == 2 && body == 0) { t.w->d.A = symMat("w", 2, N + 1); bad = true; }
    if (what == 3 && body == 0) { t.w->d.A = symMat("w", 2, N - 1); bad = true; }
    if (what == 2 && body == 1) { t.w->d.A = symMat("w", 2, 2); t.w->d.offset = N - 1; bad = true; }
    if (what == 2 && body == 2) { t.w->d.gains = symVec("w", 1); bad = true; }
    p.pushTask(t.ptr, 0);
    vp_check(throws([&] { p.form(s, model, cp); }) == bad, "inconsistent sizes are rejected, consistent ones are not");
    humoto::OptimizationProblem q;
    vp_check(throws([&] { q.form(s, model, cp); }), "an empty hierarchy is rejected");
    q.reset(1);
    vp_check(throws([&] { q.form(s, model, cp); }), "an empty level is rejected");
    TestProblem none;
    vp_check(throws([&] { p.form(s, model, none); }), "a problem without variables is rejected");
}
// the form of constraints used by QP solvers
static void sameLU(const ContainerALU &g, const Meaning &m)
{
    eqMat(g.getA(), m.A, "matrix of the general constraints of a QP");
    eqMat(g.getLowerBounds(), m.lb, "lower bounds of the general constraints of a QP");
    eqMat(g.getUpperBounds(), m.ub, "upper bounds of the general constraints of a QP");
}
VP_HARNESS(qp_bounds)
{
    // simple bounds of several tasks on the same variables are intersected
    int t1 = vp_choose("type1", 15, 19), t2 = vp_choose("type2", 15, 19), lay = vp_choose("layout", 0, 8);
    TestModel model;
    TestProblem cp(N);
    humoto::Solution s;
    humoto::OptimizationProblem p;
    p.reset(2);
    std::vector<TestTaskInfo> ts;
    ts.push_back(makeTask("a", t1, 2, N, lay));
    ts.push_back(makeTask("b", t2, 1, N, lay % 3));
    TestTaskInfo gen = makeTask("c", t1 % 5, 1, N, 0), obj = makeTask("o", 3, 2, N, 0);
    p.pushTask(ts[0].ptr, 0);
    p.pushTask(gen.ptr, 0);
    p.pushTask(ts[1].ptr, 0);
    p.pushTask(obj.ptr, 1);
    p.form(s, model, cp);
    humoto::QPProblem_ILU_ALU qp;
    bool failed = throws([&] { p.getQPProblem(qp, s); });
    // bounds are consistent when some point satisfies them
    double lo[N], hi[N];
    for (int j = 0; j < N; ++j)
    {
        lo[j] = -humoto::g_infinity; hi[j] = humoto::g_infinity;
        for (int k = 0; k < 2; ++k)
            for (int i = 0; i < ts[k].m.rows(); ++i)
                if ((int)ts[k].d.I(i) == j)
                {
                    lo[j] = std::max(lo[j], ts[k].m.lb(i));
                    hi[j] = std::min(hi[j], ts[k].m.ub(i));
                }
    }
    bool empty = false;
    for (int j = 0; j < N; ++j) empty = empty | (lo[j] > hi[j]);
    vp_check(failed == empty, "inconsistent bounds are rejected, consistent ones are not");
    if (failed) return;
    vp_check(qp.getSolutionLowerBounds().rows() == N && qp.getSolutionUpperBounds().rows() == N, "number of bounds");
    for (int j = 0; j < N; ++j)
    {
        vp_eq(qp.getSolutionLowerBounds()(j), lo[j], "lower bound of a variable");
        vp_eq(qp.getSolutionUpperBounds()(j), hi[j], "upper bound of a variable");
    }
    const ContainerALU &g = qp.getGeneralConstraints();
    vp_check((int)g.getNumberOfConstraints() == 1, "number of general constraints");
    sameLU(g, gen.m);
}
VP_HARNESS(qp_no_bounds)
{
    int t1 = vp_choose("type1", 0, 9), with = vp_choose("levels", 1, 2);
    TestModel model;
    TestProblem cp(N);
    humoto::Solution s;
    humoto::OptimizationProblem p;
    p.reset(with);
    TestTaskInfo gen = makeTask("c", t1, 2, N, 1), obj = makeTask("o", 3, 2, N, 0);
    if (with == 2) p.pushTask(gen.ptr, 0);
    p.pushTask(obj.ptr, with - 1);
    p.form(s, model, cp);
    humoto::QPProblem_ILU_ALU qp;
    p.getQPProblem(qp, s);
    vp_check(qp.getSolutionLowerBounds().rows() == 0 && qp.getSolutionUpperBounds().rows() == 0, "no bounds without simple constraints");
    const ContainerALU &g = qp.getGeneralConstraints();
    vp_check((int)g.getNumberOfConstraints() == (with == 2 ? 2 : 0), "number of general constraints");
    if (with == 2) sameLU(g, gen.m);
    humoto::QPProblem_AB_AL qq;
    p.getQPProblem(qq, s);
    if (with == 2)
    {
        int ne = gen.m.eq ? 2 : 0, ni = gen.m.eq ? 0 : (gen.m.l ? 2 : 0) + (gen.m.u ? 2 : 0);
        vp_check((int)qq.getEqualities().getNumberOfConstraints() == ne && (int)qq.getInequalities().getNumberOfConstraints() == ni, "number of equalities and inequalities of a QP");
        if (gen.m.eq) { eqMat(qq.getEqualities().getA(), gen.m.A, "matrix of equalities of a QP"); eqMat(qq.getEqualities().getB(), gen.m.lb, "right hand side of equalities of a QP"); }
        if (gen.m.l) { eqMat(qq.getInequalities().getA().topRows(2), gen.m.A, "matrix of inequalities of a QP"); eqMat(qq.getInequalities().getLowerBounds().head(2), gen.m.lb, "bounds of inequalities of a QP"); }
        if (gen.m.u) { eqMat(qq.getInequalities().getA().bottomRows(2), M(-gen.m.A), "matrix of inequalities of a QP"); eqMat(qq.getInequalities().getLowerBounds().tail(2), M(-gen.m.ub), "bounds of inequalities of a QP"); }
        humoto::QPProblem_AB qe;
        vp_check(throws([&] { p.getQPProblem(qe, s); }) == !gen.m.eq, "inequalities are rejected by an equality constrained QP");
        if (gen.m.eq) { eqMat(qe.getEqualities().getA(), gen.m.A, "matrix of an equality constrained QP"); eqMat(qe.getEqualities().getB(), gen.m.lb, "right hand side of an equality constrained QP"); }
    }
    else
        vp_check(qq.getEqualities().getNumberOfConstraints() == 0 && qq.getInequalities().getNumberOfConstraints() == 0, "no constraints on a single level");
}
VP_HARNESS(qp_reuse)
{
    // a QP obtained from another hierarchy does not keep anything of the previous one
    int t1 = vp_choose("type1", 0, 3), t2 = vp_choose("type2", 0, 4);
    static const int types[5] = {3, 8, 0, 16, -1};
    TestModel model;
    TestProblem cp(N), cp2(N + 1);
    humoto::Solution s;
    humoto::QPProblem_ILU_ALU qp;
    humoto::QPProblem_AB_AL qq;
    humoto::QPProblem_AB qe;
    for (int k = 0; k < 2; ++k)
    {
        int n = k ? N + 1 : N, t = types[k ? t2 : t1];
        humoto::OptimizationProblem p;
        p.reset(t < 0 ? 1 : 2);
        TestTaskInfo obj = makeTask(k ? "p" : "o", 4, 2, n, 0), c;
        if (t >= 0) { c = makeTask(k ? "d" : "c", t, k ? 1 : 2, n, 1); p.pushTask(c.ptr, 0); }
        p.pushTask(obj.ptr, t < 0 ? 0 : 1);
        p.form(s, model, k ? cp2 : cp);
        p.getQPProblem(qp, s);
        p.getQPProblem(qq, s);
        bool eq = t < 0 || c.m.eq;
        if (eq) p.getQPProblem(qe, s);
        if (!k) continue;
        int g = t < 0 || c.m.simple ? 0 : 1, e = t >= 0 && eq ? 1 : 0;
        vp_check((int)qp.getGeneralConstraints().getNumberOfConstraints() == g && qp.getGeneralConstraints().getA().cols() == n, "general constraints of a reused QP");
        vp_check(qp.getSolutionLowerBounds().rows() == (t >= 0 && c.m.simple ? n : 0) && qp.getSolutionUpperBounds().rows() == qp.getSolutionLowerBounds().rows(), "bounds of a reused QP");
        vp_check((int)qp.getSimpleBounds().getNumberOfConstraints() == (t >= 0 && c.m.simple ? 1 : 0), "simple bounds of a reused QP");
        vp_check((int)qq.getEqualities().getNumberOfConstraints() == e && qq.getEqualities().getA().cols() == n, "equalities of a reused QP");
        vp_check((int)qq.getInequalities().getNumberOfConstraints() == (t < 0 || eq ? 0 : (c.m.l ? 1 : 0) + (c.m.u ? 1 : 0)), "inequalities of a reused QP");
        if (eq) vp_check((int)qe.getEqualities().getNumberOfConstraints() == e && qe.getEqualities().getA().cols() == n, "equalities of a reused equality constrained QP");
        if (g) sameLU(qp.getGeneralConstraints(), c.m);
        if (e) { eqMat(qe.getEqualities().getA(), c.m.A, "equalities of a reused QP"); eqMat(qe.getEqualities().getB(), c.m.lb, "equalities of a reused QP"); }
    }
}
VP_HARNESS(container_errors)
{
    // a task which does not fit into a container is rejected
    int rows = vp_choose("rows", 1, 3), off = vp_choose("offset", 0, 3), t = vp_choose("type", 0, 3);
    ContainerALU alu; ContainerAL al; ContainerAB ab; ContainerILU ilu;
    alu.reset(2, N); al.reset(2, N); ab.reset(2, N); ilu.reset(2, N);
    TestModel model;
    TestProblem cp(N);
    humoto::Solution s;
    humoto::OptimizationProblem p;
    p.reset(1);
    static const int types[4] = {1, 1, 3, 16};
    TestTaskInfo a = makeTask("a", types[t], rows, N, 1);
    p.pushTask(a.ptr, 0);
    p.form(s, model, cp);
    bool bad = rows + off > 2;
    std::size_t next = 0;
    bool failed = throws([&] { next = t == 0 ? a.ptr->copyTo(alu, off) : t == 1 ? a.ptr->copyTo(al, off) : t == 2 ? a.ptr->copyTo(ab, off) : a.ptr->copyTo(ilu, off); });
    vp_check(failed == bad, "constraints which exceed the space of a container are rejected");
    if (!bad) vp_check((int)next == off + rows, "offset of the next constraints");
    vp_check(throws([&] { if (t == 2) a.ptr->copyTo(al, 0); else a.ptr->copyTo(ab, 0); }), "equalities and inequalities are not confused");
    if (t != 3) vp_check(throws([&] { a.ptr->copyTo(ilu, 0); }), "general constraints are not simple bounds");
}
