#include "tasks.h"
// three named parts with symbolic lengths chosen by forking
static const char *NAMES[3] = {"b", "c", "a"};
static void build(humoto::SolutionStructure &s, const int *len, const int *order, int n)
{
    for (int i = 0; i < n; ++i) s.addSolutionPart(NAMES[order[i]], len[order[i]]);
}
static const int PERM[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
VP_HARNESS(partition)
{
    // parts are consecutive, disjoint, in the order of addition, and cover all variables
    int len[3] = {(int)vp_choose("l0", 0, 3), (int)vp_choose("l1", 0, 3), (int)vp_choose("l2", 0, 2)}, p = vp_choose("order", 0, 5);
    humoto::SolutionStructure s;
    vp_check(!s.isNonEmpty() && s.getNumberOfVariables() == 0, "empty structure");
    build(s, len, PERM[p], 3);
    int n = len[0] + len[1] + len[2], off = 0;
    vp_check(s.isNonEmpty() && (int)s.getNumberOfVariables() == n, "number of variables");
    for (int i = 0; i < 3; ++i)
    {
        humoto::Location l = s.getSolutionPartLocation(NAMES[PERM[p][i]]);
        vp_check((int)l.offset_ == off && (int)l.length_ == len[PERM[p][i]], "location of a part");
        off += len[PERM[p][i]];
    }
    humoto::SolutionStructure t = s;
    vp_check(throws([&] { t.addSolutionPart("c", 2); }), "a part cannot be added twice");
    vp_check((int)t.getNumberOfVariables() == n, "a rejected part does not change the structure");
    humoto::Location l = s.getSolutionPartLocation("z");
    vp_check(l.length_ == 0, "unknown parts are empty");
    M A = symMat("A", 2, n);
    const M &Ac = A;
    for (int i = 0; i < 3; ++i)
    {
        humoto::Location l = s.getSolutionPartLocation(NAMES[i]);
        eqMat(s.getMatrixPart(NAMES[i], Ac), A.middleCols(l.offset_, l.length_), "columns of a part");
        M B = A;
        s.getMatrixPart(NAMES[i], B).setZero();
        for (int r = 0; r < 2; ++r) for (int c = 0; c < n; ++c)
            vp_eq(B(r, c), c >= (int)l.offset_ && c < (int)(l.offset_ + l.length_) ? 0.0 : A(r, c), "modified columns of a part");
    }
    humoto::Solution x;
    x.initialize(s);
    vp_check(x.x_.rows() == n && (int)x.getNumberOfVariables() == n, "size of a solution");
    double v = vp_real("v", -1, 1);
    x.initialize(s, v);
    vp_check(x.x_.rows() == n, "size of a solution");
    for (int i = 0; i < n; ++i) vp_eq(x.x_(i), v, "constant solution");
    x.x_ = symVec("x", n);
    V ref = x.x_;
    const humoto::Solution &xc = x;
    for (int i = 0; i < 3; ++i)
    {
        humoto::Location l = s.getSolutionPartLocation(NAMES[i]);
        V part = xc.getSolutionPart(NAMES[i]);
        vp_check(part.rows() == len[i], "size of a part");
        for (int k = 0; k < len[i]; ++k) vp_eq(part(k), ref(l.offset_ + k), "values of a part");
        eqMat(xc.getData(l), part, "values at a location");
        x.getSolutionPart(NAMES[i]).setConstant(v);
        for (int k = 0; k < len[i]; ++k) ref(l.offset_ + k) = v;
        eqMat(x.x_, ref, "only the requested part is changed");
    }
    eqMat(xc.get_x(), ref, "whole solution");
    vp_check(throws([&] { xc.getData(humoto::Location(n, 1)); }) && throws([&] { x.getData(humoto::Location(0, n + 1)); }), "locations outside of the solution are rejected");
    s.reset();
    vp_check(!s.isNonEmpty() && s.getNumberOfVariables() == 0 && s.getSolutionPartLocation("a").length_ == 0, "reset");
}
VP_HARNESS(guess_by_name)
{
    // an old solution is transferred by the names of parts
    int a[3] = {(int)vp_choose("a0", 1, 2), (int)vp_choose("a1", 0, 2), 2}, b[3] = {(int)vp_choose("b0", 0, 2), 2, (int)vp_choose("b2", 1, 2)};
    int p = vp_choose("order1", 0, 5), q = vp_choose("order2", 0, 5), na = vp_choose("n1", 1, 3), nb = vp_choose("n2", 1, 3);
    TestProblem cp;
    humoto::SolutionStructure os;
    build(os, a, PERM[p], na);
    build(cp.structure(), b, PERM[q], nb);
    humoto::Solution old, g;
    old.initialize(os);
    old.x_ = symVec("o", os.getNumberOfVariables());
    V keep = old.x_;
    cp.guessSolution(g, old);
    vp_check(g.x_.rows() == (int)cp.structure().getNumberOfVariables() && (int)g.getNumberOfVariables() == g.x_.rows(), "size of the guess");
    eqMat(old.x_, keep, "the old solution is preserved");
    for (int i = 0; i < nb; ++i)
    {
        int k = PERM[q][i];
        humoto::Location l = cp.structure().getSolutionPartLocation(NAMES[k]), m = os.getSolutionPartLocation(NAMES[k]);
        for (int r = 0; r < (int)l.length_; ++r)
            vp_eq(g.x_(l.offset_ + r), l.length_ == m.length_ ? old.x_(m.offset_ + r) : 0.0, "parts of the same name and length are copied, others are zero");
    }
}
VP_HARNESS(guess_lengths)
{
    // parts of any length; parts which change their lengths are never copied, not even partially
    int a = vp_choose("old_a", 0, 4), b = vp_choose("old_b", 0, 3), c = vp_choose("new_a", 0, 4), d = vp_choose("new_b", 0, 3);
    int p = vp_choose("order1", 0, 1), q = vp_choose("order2", 0, 1);
    TestProblem cp;
    humoto::SolutionStructure os;
    os.addSolutionPart(p ? "b" : "a", p ? b : a);
    os.addSolutionPart(p ? "a" : "b", p ? a : b);
    cp.structure().addSolutionPart(q ? "b" : "a", q ? d : c);
    cp.structure().addSolutionPart(q ? "a" : "b", q ? c : d);
    vp_assume(c + d > 0);
    humoto::Solution old, g;
    old.initialize(os);
    old.x_ = symVec("o", a + b);
    cp.guessSolution(g, old);
    vp_check(g.x_.rows() == c + d, "size of the guess");
    for (int i = 0; i < c; ++i) vp_eq(g.x_((q ? d : 0) + i), a == c ? old.x_((p ? b : 0) + i) : 0.0, "parts of the same name and length are copied, others are zero");
    for (int i = 0; i < d; ++i) vp_eq(g.x_((q ? 0 : c) + i), b == d ? old.x_((p ? 0 : a) + i) : 0.0, "parts of the same name and length are copied, others are zero");
}
VP_HARNESS(reinitialize)
{
    // a solution object can be reused
    int l1 = vp_choose("l1", 0, 3), l2 = vp_choose("l2", 1, 3);
    TestProblem cp(l2);
    humoto::SolutionStructure s;
    s.addSolutionPart("y", l1);
    s.addSolutionPart("x", 1);
    humoto::Solution x;
    x.initialize(s, vp_real("v", -1, 1));
    cp.initSolutionStructure(x);
    vp_check((int)x.getNumberOfVariables() == l2 && x.x_.rows() == l2, "size of a reused solution");
    vp_check((int)x.getSolutionPartLocation("x").length_ == l2 && x.getSolutionPartLocation("x").offset_ == 0 && x.getSolutionPartLocation("y").length_ == 0, "parts of a reused solution");
    TestProblem none;
    vp_check(throws([&] { none.initSolutionStructure(x); }), "an empty structure is rejected");
}
VP_HARNESS(location)
{
    int off = vp_int("offset", 0, 6), len = vp_int("length", 0, 6), n = vp_int("size", 0, 12);
    humoto::Location l(off, len);
    vp_check((int)l.offset_ == off && (int)l.length_ == len && (int)l.front() == off && (int)l.end() == off + len, "limits of a location");
    vp_check(l.checkLength(n) == (off + len <= n), "location within a range");
    humoto::Location d;
    vp_check(d.length_ == 0, "default location");
}
