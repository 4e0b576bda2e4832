// C22: the tasks which are shipped with the core mean what they are named after.
// VP: stubs=msgpack
#include "config_mem.h"
#include "tasks.h"
#include "humoto/humoto.h"
typedef humoto::TaskSharedPointer TP;

// access to the values of a task
static void expectZero(const humoto::TaskGIB0 &t, const std::vector<unsigned> &vars, double gain)
{
    vp_check(t.isEquality(), "the task is an equality");
    vp_check((size_t)t.getIndices().size() == vars.size() && (size_t)t.getIGains().size() == vars.size(), "number of variables of the task");
    if ((size_t)t.getIndices().size() != vars.size() || (size_t)t.getIGains().size() != vars.size()) return;
    for (size_t i = 0; i < vars.size(); ++i)
    {
        vp_check(t.getIndices()(i) == vars[i], "indices of variables");
        vp_eq(t.getIGains()(i), gain, "gain of the task");
    }
}
// structure of variables: parts a, b, c in some order, or without c
static void structure(humoto::SolutionStructure &s, int k)
{
    s.reset();
    switch (k)
    {
        case 0: s.addSolutionPart("a", 2); s.addSolutionPart("b", 1); break;
        case 1: s.addSolutionPart("a", 2); s.addSolutionPart("b", 2); break;
        case 2: s.addSolutionPart("b", 1); s.addSolutionPart("a", 2); break;
        default: s.addSolutionPart("a", 1); s.addSolutionPart("c", 1); s.addSolutionPart("b", 1);
    }
}
static std::vector<unsigned> part(int k, int id)
{
    static const int at[4][2][2] = {{{0, 2}, {2, 1}}, {{0, 2}, {2, 2}}, {{1, 2}, {0, 1}}, {{0, 1}, {2, 1}}};   // a, b: offset, length
    static const int n[4] = {3, 4, 3, 3};
    std::vector<unsigned> v;
    if (id == 0) for (int i = 0; i < n[k]; ++i) v.push_back(i);
    else for (int i = 0; i < at[k][id - 1][1]; ++i) v.push_back(at[k][id - 1][0] + i);
    return v;
}
static const char *IDS[3] = {"", "a", "b"};
static void zeroVariables(int count)
{
    double gain = vp_real("gain", -5, 5);
    int id = vp_choose("id", 0, 2);
    humoto::TaskZeroVariables *t = new humoto::TaskZeroVariables(gain, "zero", IDS[id]);
    TP p(t);
    vp_check(t->getDescription() == "zero", "name of the task");
    vp_eq(t->getGain(), gain, "gain given to the constructor");
    TestModel model;
    TestProblem mpc;
    humoto::OptimizationProblem h;
    h.reset(1);
    h.pushTask(p, 0);
    for (int k = 0; k < count; ++k)
    {
        char q[32];
        if (k)
        {
            snprintf(q, 32, "change%d", k);
            int c = vp_choose(q, 0, 2);
            if (c == 1) { snprintf(q, 32, "gain%d", k); gain = vp_real(q, -5, 5); t->setGain(gain); }
            if (c == 2) { snprintf(q, 32, "id%d", k); id = vp_choose(q, 0, 2); t->setVariablesID(IDS[id]); }
        }
        snprintf(q, 32, "structure%d", k);
        int s = vp_choose(q, 0, 3);
        structure(mpc.structure(), s);
        humoto::Solution x, guess, old;
        humoto::ActiveSet as;
        h.form(x, guess, as, model, mpc, old);
        std::vector<unsigned> v = part(s, id);
        expectZero(*t, v, gain);
        // the constraints of the level
        V sol = symVec("x", x.x_.size());
        vp_check(h[0].getNumberOfConstraints() == v.size() && as[0].size() == v.size(), "number of constraints");
        if (h[0].getNumberOfConstraints() != v.size() || as[0].size() != v.size()) return;
        for (size_t i = 0; i < v.size(); ++i) vp_check(as[0][i] == humoto::ConstraintActivationType::EQUALITY, "the task is an equality");
        humoto::constraints::ContainerAB c;
        h[0].getEqualityConstraints(c, x);
        M A = c.getA();
        V b = c.getB();
        if (A.rows() != (int)v.size() || b.rows() != (int)v.size() || A.cols() != sol.size()) { vp_fail("size of the equalities"); return; }
        for (size_t i = 0; i < v.size(); ++i) vp_eq(rowTimes(A, i, sol) - b(i), gain * sol(v[i]), "the residual is the variable times the gain");
        h.processActiveSet(as);
    }
}
VP_HARNESS(zero_variables) { zeroVariables(2); }
VP_HARNESS(zero_variables_thorough) { zeroVariables(3); }
VP_HARNESS(zero_defaults)
{
    // without arguments: all variables, a positive gain
    humoto::TaskZeroVariables *t = new humoto::TaskZeroVariables;
    TP p(t);
    TestModel model;
    TestProblem mpc;
    int s = vp_choose("structure", 0, 3);
    structure(mpc.structure(), s);
    humoto::OptimizationProblem h;
    h.reset(1);
    h.pushTask(p, 0);
    humoto::Solution x, guess, old;
    humoto::ActiveSet as;
    h.form(x, guess, as, model, mpc, old);
    vp_check(t->getGain() > 0, "default gain");
    expectZero(*t, part(s, 0), t->getGain());
    vp_check(throws([&] { t->setVariablesID("nothing"); h.form(x, guess, as, model, mpc, old); }), "unknown parts of the solution are reported");
}
VP_HARNESS(zero_selected)
{
    int n = vp_choose("number", 1, 3);
    humoto::IndexVector I(n);
    std::vector<unsigned> v;
    for (int i = 0; i < n; ++i)
    {
        char q[32]; snprintf(q, 32, "i%d", i);
        I(i) = vp_choose(q, 0, 3);
        v.push_back(I(i));
    }
    double gain = vp_real("gain", -5, 5);
    humoto::TaskZeroSelectedVariables *t = new humoto::TaskZeroSelectedVariables(I, gain, "selected");
    TP p(t);
    vp_check(t->getDescription() == "selected", "name of the task");
    TestModel model;
    TestProblem mpc(4);
    humoto::OptimizationProblem h;
    h.reset(1);
    h.pushTask(p, 0);
    for (int k = 0; k < 2; ++k)
    {
        humoto::Solution x, guess, old;
        humoto::ActiveSet as;
        int change = k ? vp_choose("change", 0, 2) : 0;
        if (change == 1) { gain = vp_real("gain1", -5, 5); t->setGain(gain); }
        if (change == 2)
        {
            // other variables are read from a configuration file
            int m = vp_choose("next_number", 1, 2);
            gain = vp_real("gain1", -5, 5);
            v.clear();
            for (int i = 0; i < m; ++i) v.push_back(3 - i);
            std::string file = cfgFile();
            {
                CfgWriter w(file);
                w.initRoot();
                w.descend("selected", 2);
                w.writeScalar(gain, "gain");
                w.writeCompound(v, "variables_indices");
                w.ascend();
                w.flush();
            }
            t->readConfig<CfgReader>(file);
        }
        h.form(x, guess, as, model, mpc, old);
        expectZero(*t, v, gain);
        h.processActiveSet(as);
    }
}
VP_HARNESS(infeasible)
{
    humoto::TaskInfeasibleInequality *t = new humoto::TaskInfeasibleInequality(vp_real("gain", -5, 5), "infeasible");
    TP p(t);
    TestModel model;
    humoto::OptimizationProblem h;
    h.reset(1);
    h.pushTask(p, 0);
    for (int k = 0; k < 3; ++k)
    {
        char q[32]; snprintf(q, 32, "n%d", k);
        int n = vp_choose(q, 1, 3);
        TestProblem mpc(n);
        humoto::Solution x, guess, old;
        humoto::ActiveSet as;
        h.form(x, guess, as, model, mpc, old);
        vp_check(!t->isEquality() && t->getNumberOfConstraints() == 1, "the task is one inequality");
        snprintf(q, 32, "x%d", k);
        V v = symVec(q, n);
        M A = t->getA();
        V lb = t->getLowerBounds(), ub = t->getUpperBounds();
        if (A.rows() != 1 || A.cols() != n || lb.size() != 1 || ub.size() != 1) { vp_fail("size of the inequality"); return; }
        double s = rowTimes(A, 0, v);
        vp_check(!(s >= lb(0) && s <= ub(0)), "the inequality is infeasible");
        // ... with a margin which is independent of scaling of the variables
        vp_check(lb(0) - ub(0) >= 1e-3, "bounds are inconsistent");
        h.processActiveSet(as);
    }
}
