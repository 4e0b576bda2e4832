#include "tasks.h"
typedef humoto::ConstraintActivationType CT;
static const int N = 2;
static CT::Type sym(const char *n) { return (CT::Type)vp_int(n, 0, 4); }
// an active set with symbolic entries, handed to the tasks, comes back for the tasks which did not change
static void guessRoundTrip(int t1, int t2, int m1, int m2, int guess)
{
    TestModel model;
    TestProblem cp(N);
    humoto::Solution s, old, g;
    humoto::OptimizationProblem p;
    p.reset(2);
    std::vector<TestTaskInfo> a;
    a.push_back(makeTask("a", t1, 2, N, 1));
    a.push_back(makeTask("b", t2, 1, N, 0));
    a.push_back(makeTask("c", (t1 + 5) % NUM_TYPES, 1, N, 1));
    p.pushTask(a[0].ptr, 0);
    p.pushTask(a[1].ptr, 0);
    p.pushTask(a[2].ptr, 1);
    humoto::ActiveSet first, as, second;
    p.form(s, first, model, cp);
    int level[3] = {0, 0, 1};
    for (int k = 0; k < 3; ++k)
    {
        humoto::Location l = where(p[level[k]], a[k].ptr);
        for (int i = 0; i < a[k].m.rows(); ++i)
            vp_check(first[level[k]][l.offset_ + i] == (a[k].m.eq ? CT::EQUALITY : CT::INACTIVE), "the first guess: equalities are active, inequalities are not");
    }
    p.initializeActiveSet(as);
    vp_check(as.size() == 2 && as[0].size() == 3 && as[1].size() == 1, "size of an active set");
    char name[16];
    for (int l = 0; l < 2; ++l) for (size_t i = 0; i < as[l].size(); ++i) { snprintf(name, 16, "as_%d_%d", l, (int)i); as[l][i] = sym(name); }
    p.processActiveSet(as);
    a[0].w->d.unmodified = m1;
    a[1].w->d.unmodified = m2;
    a[2].w->d.unmodified = m1 != m2;
    if (guess == 0) p.form(s, second, model, cp);
    else { old.initialize(cp.structure(), 0.0); p.form(s, g, second, model, cp, old); }
    bool un[3] = {m1 != 0, m2 != 0, m1 != m2};
    for (int k = 0; k < 3; ++k)
    {
        humoto::Location l = where(p[level[k]], a[k].ptr);
        for (int i = 0; i < a[k].m.rows(); ++i)
        {
            int got = second[level[k]][l.offset_ + i];
            if (un[k]) vp_check(got == as[level[k]][l.offset_ + i], "unmodified tasks return the active set which was given to them");
            else vp_check(got == (a[k].m.eq ? CT::EQUALITY : CT::INACTIVE), "modified tasks return the default guess");
        }
    }
    // giving the guess back and asking again changes nothing
    p.processActiveSet(second);
    a[0].w->d.unmodified = a[1].w->d.unmodified = a[2].w->d.unmodified = true;
    humoto::ActiveSet third;
    p.form(s, third, model, cp);
    for (int l = 0; l < 2; ++l) for (size_t i = 0; i < second[l].size(); ++i) vp_check(third[l][i] == second[l][i], "round trip");
    // tasks which were not modified once are not assumed to stay so
    for (int l = 0; l < 2; ++l) for (size_t i = 0; i < third[l].size(); ++i) { snprintf(name, 16, "bs_%d_%d", l, (int)i); third[l][i] = sym(name); }
    p.processActiveSet(third);
    a[0].w->d.unmodified = m2;
    a[1].w->d.unmodified = m1 == m2;
    a[2].w->d.unmodified = false;
    humoto::ActiveSet fourth;
    p.form(s, fourth, model, cp);
    bool still[3] = {m2 != 0, m1 == m2, false};
    for (int k = 0; k < 3; ++k)
    {
        humoto::Location l = where(p[level[k]], a[k].ptr);
        for (int i = 0; i < a[k].m.rows(); ++i)
        {
            int got = fourth[level[k]][l.offset_ + i];
            if (still[k]) vp_check(got == third[level[k]][l.offset_ + i], "unmodified tasks return the active set which was given to them");
            else vp_check(got == (a[k].m.eq ? CT::EQUALITY : CT::INACTIVE), "tasks which are modified again return the default guess");
        }
    }
}
VP_HARNESS(round_trip)
{
    int t1 = vp_choose("type1", 0, NUM_TYPES - 1), t2 = vp_choose("type2", 0, NUM_TYPES - 1);
    guessRoundTrip(t1, t2, t1 % 2, t2 % 3 % 2, (t1 + t2) % 2);
}
VP_HARNESS(round_trip_modes)
{
    int t1 = vp_choose("type1", 0, 3), t2 = vp_choose("type2", 0, 3), m1 = vp_choose("m1", 0, 1), m2 = vp_choose("m2", 0, 1), g = vp_choose("guess", 0, 1);
    static const int ts[4] = {0, 8, 13, 16};
    guessRoundTrip(ts[t1], ts[t2], m1, m2, g);
}
VP_HARNESS(resized_task)
{
    // a task which changes its size is not given a stale guess; declaring it unmodified is an error
    int type = vp_choose("type", 0, NUM_TYPES - 1), un = vp_choose("unmodified", 0, 1), rows = vp_choose("rows", 1, 3), guessing = vp_choose("guessing", 0, 1);
    TestModel model;
    TestProblem cp(N);
    humoto::Solution s;
    humoto::OptimizationProblem p;
    p.reset(1);
    TestTaskInfo a = makeTask("a", type, 2, N, 1), b = makeTask("b", type, rows, N, 2);
    p.pushTask(a.ptr, 0);
    humoto::ActiveSet as, second;
    p.form(s, as, model, cp);
    as[0][0] = sym("s0");
    as[0][1] = sym("s1");
    p.processActiveSet(as);
    a.w->d = b.d;
    a.w->d.unmodified = un;
    bool failed = throws([&] { if (guessing) p.form(s, second, model, cp); else p.form(s, model, cp); });
    vp_check(failed == (un && guessing && rows != 2), "only a resized task which is declared unmodified is rejected");
    if (failed || !guessing) return;
    vp_check((int)second[0].size() == rows, "size of the guess");
    for (int i = 0; i < rows; ++i)
        if (un) vp_check(second[0][i] == as[0][i], "unmodified task");
        else vp_check(second[0][i] == (a.m.eq ? CT::EQUALITY : CT::INACTIVE), "modified task");
    // the resized task accepts active sets of its new size
    static const char *names[3] = {"t0", "t1", "t2"};
    std::vector<int> ref(rows);
    for (int i = 0; i < rows; ++i) { second[0][i] = sym(names[i]); ref[i] = second[0][i]; }
    p.processActiveSet(second);
    a.w->d.unmodified = 1;
    humoto::ActiveSet third;
    p.form(s, third, model, cp);
    vp_check((int)third[0].size() == rows, "size of the guess of a task which was resized");
    for (int i = 0; i < rows; ++i) vp_check(third[0][i] == ref[i], "a task which was resized returns the active set given to it");
    // it may be resized once more
    TestTaskInfo c = makeTask("c", type, rows % 3 + 1, N, 0);
    a.w->d = c.d;
    humoto::ActiveSet fourth;
    vp_check(!throws([&] { p.form(s, fourth, model, cp); }), "tasks which were not modified once may be resized later");
    vp_check((int)fourth[0].size() == rows % 3 + 1, "size of the guess of a task which was resized again");
    for (int i = 0; i < rows % 3 + 1; ++i) vp_check(fourth[0][i] == (a.m.eq ? CT::EQUALITY : CT::INACTIVE), "a task which is resized again returns the default guess");
}
VP_HARNESS(wrong_sizes)
{
    // active sets which do not match the hierarchy are rejected
    TestModel model;
    TestProblem cp(N);
    humoto::Solution s;
    humoto::OptimizationProblem p;
    p.reset(2);
    TestTaskInfo a = makeTask("a", 0, 2, N, 1), b = makeTask("b", 3, 1, N, 1);
    p.pushTask(a.ptr, 0);
    p.pushTask(b.ptr, 1);
    p.form(s, model, cp);
    int levels = vp_choose("levels", 1, 3), rows = vp_choose("rows", 1, 3);
    humoto::ActiveSet as;
    std::vector<std::size_t> sizes(levels, 1);
    sizes[0] = rows;
    as.initialize(levels, sizes);
    vp_check(throws([&] { p.processActiveSet(as); }) == (levels != 2 || rows < 2), "active sets of wrong sizes are rejected");
}
VP_HARNESS(container)
{
    // set, copy
    int n = vp_choose("size", 1, 4), off = vp_choose("offset", 0, 3), len = vp_choose("length", 0, 4);
    humoto::ActiveSetConstraints a, part, c;
    a.initialize(n);
    std::vector<int> ref(n);
    char name[16];
    for (int i = 0; i < n; ++i) { snprintf(name, 16, "a_%d", i); a[i] = sym(name); ref[i] = a[i]; }
    CT::Type t = sym("t");
    vp_check(throws([&] { a[n]; }), "indices are checked");
    humoto::Location loc(off, len);
    bool bad = off + len > n;
    vp_check(throws([&] { part.initialize(a, loc); }) == bad, "locations are checked");
    if (!bad)
    {
        vp_check((int)part.size() == len, "size of a part");
        for (int i = 0; i < len; ++i) vp_check(part[i] == ref[off + i], "part");
        c.initialize(n, t);
        for (int i = 0; i < n; ++i) vp_check(c[i] == t, "initial value");
        c.copyTo(loc, part);
        for (int i = 0; i < n; ++i) vp_check(c[i] == (i >= off && i < off + len ? ref[i] : (int)t), "copied part");
        c = a;
        c.set(loc, t);
        for (int i = 0; i < n; ++i) vp_check(c[i] == (i >= off && i < off + len ? (int)t : ref[i]), "part set to a value");
    }
    else { vp_check(throws([&] { a.set(loc, t); }), "locations are checked"); part.initialize(len); vp_check(throws([&] { a.copyTo(loc, part); }), "locations are checked"); }
    // a part of another size does not fit
    int other = vp_choose("other_length", 0, 5);
    c = a;
    part.initialize(other, t);
    vp_check(throws([&] { c.copyTo(loc, part); }) == (bad || other != len), "sizes of parts are checked");
    vp_check((int)c.size() == n, "size after copying a part");
    for (int i = 0; i < n; ++i) vp_check(c[i] == (!bad && other == len && i >= off && i < off + len ? (int)t : ref[i]), "only the part is copied");
    c.initialize(len);
    vp_check(throws([&] { c.copyFrom(a, loc); }) == bad, "locations are checked");
    if (!bad) { for (int i = 0; i < len; ++i) vp_check(c[i] == ref[off + i], "copy of a part"); }
}
VP_HARNESS(shift)
{
    int n = vp_choose("size", 1, 5), k = vp_choose("shift", 0, 5);
    humoto::ActiveSetConstraints a, c;
    a.initialize(n);
    std::vector<int> ref(n);
    char name[16];
    for (int i = 0; i < n; ++i) { snprintf(name, 16, "a_%d", i); a[i] = sym(name); ref[i] = a[i]; }
    CT::Type t = sym("t");
    c = a;
    vp_check(throws([&] { c.shift(k, t); }) == (k > n), "shifts by more than the size are rejected");
    if (k <= n) for (int i = 0; i < n; ++i) vp_check(c[i] == (i + k < n ? ref[i + k] : (int)t), "shifted values");
    c = a;
    c.set(t);
    for (int i = 0; i < n; ++i) vp_check(c[i] == t, "all values");
    // containers can be initialized again
    int m = vp_choose("again", 1, 3);
    c.initialize(m, t);
    vp_check((int)c.size() == m, "size of a container which is used again");
    for (int i = 0; i < m; ++i) vp_check(c[i] == t, "initial values of a container which is used again");
    CT::Type u = sym("u");
    c.initialize(m, u);
    for (int i = 0; i < m; ++i) vp_check(c[i] == u, "initial values of a container which is used again");
    a.reset();
    vp_check(a.size() == 0, "reset");
}
VP_HARNESS(count)
{
    int n = vp_choose("size", 0, 3);
    humoto::ActiveSetConstraints a;
    a.initialize(n);
    std::vector<int> ref(n);
    char name[16];
    for (int i = 0; i < n; ++i) { snprintf(name, 16, "a_%d", i); a[i] = sym(name); ref[i] = a[i]; }
    int cnt = 0;
    for (int i = 0; i < n; ++i) cnt += (ref[i] == CT::LOWER_BOUND) | (ref[i] == CT::UPPER_BOUND);
    vp_check((int)a.countActiveInequalities() == cnt, "number of active inequalities");
}
VP_HARNESS(form_overloads)
{
    // all ways to form a hierarchy give the same hierarchy; guesses are computed when they are requested
    int which = vp_choose("overload", 0, 3), type = vp_choose("type", 0, 3) * 5 + 3, un = vp_choose("unmodified", 0, 1), other = vp_choose("old_size", 0, 1);
    TestModel model;
    TestProblem cp(N), before(N + other);
    humoto::Solution s, old, guess;
    before.initSolutionStructure(old);
    old.x_ = symVec("old", N + other);
    V o = old.x_;
    humoto::OptimizationProblem p;
    p.reset(2);
    TestTaskInfo a = makeTask("a", 0, 2, N, 1), b = makeTask("b", type, 1, N, 2);
    p.pushTask(a.ptr, 0);
    p.pushTask(b.ptr, 1);
    humoto::ActiveSet as, first;
    p.form(s, first, model, cp);
    CT::Type s0 = sym("s0"), s1 = sym("s1");
    first[0][0] = s0;
    first[0][1] = s1;
    first[1].set(CT::EQUALITY);
    p.processActiveSet(first);
    TestTaskInfo c = makeTask("c", 0, 2, N, 0);
    a.w->d = c.d;
    a.w->d.unmodified = un;
    a.m = c.m;
    switch (which)
    {
        case 0: p.form(s, model, cp); break;
        case 1: p.form(s, as, model, cp); break;
        case 2: p.form(s, guess, as, model, cp, old); break;
        default: p.form(s, guess, model, cp, old);
    }
    vp_check((int)s.getNumberOfVariables() == N && s.x_.rows() == N, "size of the solution");
    vp_check(p.getNumberOfLevels() == 2 && p[0].getNumberOfConstraints() == 2 && p[1].getNumberOfConstraints() == b.m.A.rows(), "size of the hierarchy");
    M A; V lb, ub;
    humoto::constraints::ContainerALU k;
    p[0].getGeneralConstraints(k, s);
    eqMat(k.getA(), c.m.A, "constraints of a hierarchy which is formed again");
    eqMat(k.getLowerBounds(), c.m.lb, "constraints of a hierarchy which is formed again");
    eqMat(k.getUpperBounds(), c.m.ub, "constraints of a hierarchy which is formed again");
    if (which >= 2)
    {
        vp_check((int)guess.getNumberOfVariables() == N && guess.x_.rows() == N, "size of the guess of the solution");
        for (int i = 0; i < N; ++i) vp_eq(guess.x_(i), other ? 0.0 : o(i), "guess of the solution");
        eqMat(old.x_, o, "the old solution is preserved");
    }
    else vp_check(guess.x_.rows() == 0, "the guess of the solution is not changed");
    if (which == 1 || which == 2)
    {
        vp_check(as.size() == 2 && as[0].size() == 2 && as[1].size() == (std::size_t)b.m.A.rows(), "size of the guess of the active set");
        vp_check(as[0][0] == (un ? s0 : CT::INACTIVE) && as[0][1] == (un ? s1 : CT::INACTIVE), "guess of the active set");
        for (std::size_t i = 0; i < as[1].size(); ++i) vp_check(as[1][i] == CT::EQUALITY, "guess of the active set");
    }
    else vp_check(as.size() == 0, "the guess of the active set is not changed");
}
