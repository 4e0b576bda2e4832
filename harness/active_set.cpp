#include "tasks.h"
typedef humoto::ConstraintActivationType CT;
static const int N = 2;
// expected activation and violation of one row
static int expectType(const Meaning &m, int i, double v)
{
    if (m.eq) return CT::EQUALITY;
    if (m.l && m.u)
    {
        if (m.lb(i) > m.ub(i)) return CT::UNDEFINED;
        if (m.lb(i) == m.ub(i)) return CT::EQUALITY;
    }
    if (m.l && v <= m.lb(i)) return CT::LOWER_BOUND;
    if (m.u && v >= m.ub(i)) return CT::UPPER_BOUND;
    return CT::INACTIVE;
}
static void expectViolation(const humoto::ViolationsConstraints &w, int pos, const Meaning &m, int i, double v)
{
    bool ordered = !(m.l && m.u && m.lb(i) > m.ub(i));
    if (m.l || m.eq) vp_eq(w.getLower(pos), v - m.lb(i), "distance to the lower bound");
    if (m.u || m.eq) vp_eq(w.getUpper(pos), v - m.ub(i), "distance to the upper bound");
    if (!(m.l || m.eq)) vp_eq(w.getLower(pos), 0.0, "no lower bound");
    if (!(m.u || m.eq)) vp_eq(w.getUpper(pos), 0.0, "no upper bound");
    if (!ordered) return;
    double e = 0;
    if ((m.l || m.eq) && v < m.lb(i)) e = v - m.lb(i);
    else if ((m.u || m.eq) && v > m.ub(i)) e = v - m.ub(i);
    vp_eq(w[pos], e, "violation is the signed distance to the violated bound");
}
static void checkAll(const humoto::OptimizationProblem &p, const std::vector<std::vector<TestTaskInfo> > &ls, const humoto::Solution &s)
{
    humoto::ActiveSet as;
    humoto::Violations w;
    p.determineActiveSet(as, s);
    p.computeViolations(w, s);
    vp_check(as.size() == ls.size() && w.size() == ls.size(), "number of levels");
    if (as.size() != ls.size() || w.size() != ls.size()) return;
    for (size_t l = 0; l < ls.size(); ++l)
    {
        int total = 0, active = 0;
        for (size_t k = 0; k < ls[l].size(); ++k) total += ls[l][k].m.rows();
        vp_check((int)as[l].size() == total && (int)w[l].size() == total, "number of entries");
        if ((int)as[l].size() != total || (int)w[l].size() != total) return;
        for (size_t k = 0; k < ls[l].size(); ++k)
        {
            humoto::Location loc = where(p[l], ls[l][k].ptr);
            for (int i = 0; i < ls[l][k].m.rows(); ++i)
            {
                double v = rowTimes(ls[l][k].m.A, i, s.x_);
                int e = expectType(ls[l][k].m, i, v);
                if (e == CT::LOWER_BOUND || e == CT::UPPER_BOUND) ++active;
                vp_check(as[l][loc.offset_ + i] == e, "type of activation");
                expectViolation(w[l], loc.offset_ + i, ls[l][k].m, i, v);
            }
        }
        vp_check((int)as[l].countActiveInequalities() == active, "number of active inequalities");
    }
}
VP_HARNESS(single)
{
    int type = vp_choose("type", 0, NUM_TYPES - 1), rows = vp_choose("rows", 1, 2), lay = vp_choose("layout", 0, 1);
    TestModel model;
    TestProblem cp(N);
    humoto::Solution s;
    humoto::OptimizationProblem p;
    p.reset(1);
    std::vector<std::vector<TestTaskInfo> > ls(1, std::vector<TestTaskInfo>(1, makeTask("a", type, rows, N, 1 + lay)));
    p.pushTask(ls[0][0].ptr, 0);
    p.form(s, model, cp);
    s.x_ = symVec("x", N);
    checkAll(p, ls, s);
}
// tasks of any types on one level, another one on the next
static void twoTasks(int t1, int t2)
{
    TestModel model;
    TestProblem cp(N);
    humoto::Solution s;
    humoto::OptimizationProblem p;
    p.reset(2);
    std::vector<std::vector<TestTaskInfo> > ls(2);
    ls[0].push_back(makeTask("a", t1, 1, N, 1, true));
    ls[0].push_back(makeTask("b", t2, 1, N, 0, true));
    ls[1].push_back(makeTask("c", t2 / 5 * 5 + 1, 1, N, 1));
    p.pushTask(ls[0][0].ptr, 0);
    p.pushTask(ls[0][1].ptr, 0);
    p.pushTask(ls[1][0].ptr, 1);
    p.form(s, model, cp);
    s.x_ = symVec("x", N);
    checkAll(p, ls, s);
}
VP_HARNESS(pair)
{
    int t1 = vp_choose("type1", 0, NUM_TYPES - 1), k = vp_choose("type2", 0, 3);
    twoTasks(t1, k * 5 + (t1 + k) % 5);
}
VP_HARNESS(pair_thorough)
{
    int t1 = vp_choose("type1", 0, NUM_TYPES - 1), t2 = vp_choose("type2", 0, NUM_TYPES - 1);
    twoTasks(t1, t2);
}
VP_HARNESS(mapping)
{
    // the rows of each task stay at the place reported for it: three tasks of different sizes in any order
    int order = vp_choose("order", 0, 5), t = vp_choose("bounds", 0, 4);
    static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    TestModel model;
    TestProblem cp(N);
    humoto::Solution s;
    humoto::OptimizationProblem p;
    p.reset(1);
    std::vector<std::vector<TestTaskInfo> > ls(1);
    ls[0].push_back(makeTask("a", t, 1, N, 1, true));
    ls[0].push_back(makeTask("b", 5 + (t + 1) % 5, t % 2 ? 1 : 2, N, 0, true));
    ls[0].push_back(makeTask("c", 15 + (t + 2) % 5, t % 2 ? 2 : 1, N, 1, true));
    for (int k = 0; k < 3; ++k) p.pushTask(ls[0][perm[order][k]].ptr, 0);
    p.form(s, model, cp);
    s.x_ = symVec("x", N);
    checkAll(p, ls, s);
}
VP_HARNESS(violation_arithmetic)
{
    humoto::ViolationsConstraints v, part, sub;
    int n = vp_choose("size", 1, 3), off = vp_choose("offset", 0, 2), len = vp_choose("length", 0, 3);
    v.initialize(n);
    vp_check((int)v.size() == n, "size");
    V lo = symVec("lo", n), up = symVec("up", n);
    for (int i = 0; i < n; ++i) v.set(i, lo(i), up(i));
    for (int i = 0; i < n; ++i)
    {
        vp_eq(v.getLower(i), lo(i), "lower distance");
        vp_eq(v.getUpper(i), up(i), "upper distance");
        if (lo(i) >= 0 && up(i) <= 0) vp_eq(v[i], 0.0, "satisfied");
        else if (lo(i) >= 0) vp_eq(v[i], up(i), "violated upper bound");
        else if (up(i) <= 0) vp_eq(v[i], lo(i), "violated lower bound");
    }
    vp_check(throws([&] { v[n]; }) && throws([&] { v.getLower(n); }) && throws([&] { v.getUpper(n); }) && throws([&] { v.set(n, 0, 0); }), "indices are checked");
    humoto::Location loc(off, len);
    bool bad = off + len > n;
    vp_check(throws([&] { part.initialize(v, loc); }) == bad, "locations are checked");
    if (!bad)
    {
        vp_check((int)part.size() == len, "size of a part");
        for (int i = 0; i < len; ++i) { vp_eq(part.getLower(i), lo(off + i), "part"); vp_eq(part.getUpper(i), up(off + i), "part"); vp_eq(part[i], v[off + i], "part"); }
        // parts of any size can be taken again
        for (int k = 0; k <= n; ++k) { part.initialize(v, humoto::Location(n - k, k)); vp_check((int)part.size() == k, "size of a part"); for (int i = 0; i < k; ++i) { vp_eq(part[i], v[n - k + i], "part"); vp_eq(part.getLower(i), lo(n - k + i), "part"); vp_eq(part.getUpper(i), up(n - k + i), "part"); } }
        part.initialize(v, loc);
        vp_check((int)part.size() == len, "size of a part");
        humoto::ViolationsConstraints z;
        z.initialize(n);
        z.setZero();
        z.copyTo(loc, part);
        for (int i = 0; i < n; ++i) { bool in = i >= off && i < off + len; vp_eq(z[i], in ? v[i] : 0.0, "copied part"); vp_eq(z.getLower(i), in ? lo(i) : 0.0, "copied part"); vp_eq(z.getUpper(i), in ? up(i) : 0.0, "copied part"); }
        // a part of another size does not fit
        int other = vp_choose("other_length", 0, 4);
        humoto::ViolationsConstraints y;
        y.initialize(other);
        y.setZero();
        if (other != len)
        {
            z = v;
            vp_check(throws([&] { z.copyTo(loc, y); }), "sizes of parts are checked");
            for (int i = 0; i < n; ++i) { vp_eq(z[i], v[i], "nothing is copied"); vp_eq(z.getLower(i), lo(i), "nothing is copied"); vp_eq(z.getUpper(i), up(i), "nothing is copied"); }
        }
        v.setZero(loc);
        for (int i = 0; i < n; ++i)
            if (i >= off && i < off + len) { vp_eq(v[i], 0.0, "zeroed part"); vp_eq(v.getLower(i), 0.0, "zeroed part"); vp_eq(v.getUpper(i), 0.0, "zeroed part"); }
            else { vp_eq(v.getLower(i), lo(i), "part which is not zeroed"); vp_eq(v.getUpper(i), up(i), "part which is not zeroed"); }
    }
}
VP_HARNESS(several_levels)
{
    // sizes and resetting of whole sets
    int n = vp_choose("levels", 0, 3);
    std::vector<std::size_t> sizes;
    for (int i = 0; i < n; ++i) sizes.push_back(2 * i + 1);
    humoto::Violations w;
    humoto::ActiveSet a;
    w.initialize(n, sizes);
    a.initialize(n, sizes);
    vp_check((int)w.size() == n && (int)a.size() == n, "number of levels");
    for (int i = 0; i < n; ++i)
    {
        vp_check((int)w[i].size() == 2 * i + 1 && (int)a[i].size() == 2 * i + 1, "size of a level");
        for (int k = 0; k < 2 * i + 1; ++k) w[i].set(k, vp_real("a", -1, 1), 0);
        w.setZero(i);
        for (int k = 0; k < 2 * i + 1; ++k) { vp_eq(w[i][k], 0.0, "zeroed level"); vp_check(a[i][k] == CT::UNDEFINED, "initial activation"); }
        a.set(i, CT::LOWER_BOUND);
        for (int k = 0; k < 2 * i + 1; ++k) vp_check(a[i][k] == CT::LOWER_BOUND, "activation of a whole level");
        vp_check((int)a[i].countActiveInequalities() == 2 * i + 1, "number of active inequalities");
        if (i) vp_check(a[i - 1][0] == CT::LOWER_BOUND, "other levels");
    }
    vp_check(throws([&] { w[n]; }) && throws([&] { a[n]; }) && throws([&] { w.setZero(n); }) && throws([&] { a.set(n, CT::INACTIVE); }), "indices of levels are checked");
    w.reset(); a.reset();
    vp_check(w.size() == 0 && a.size() == 0, "reset");
}
