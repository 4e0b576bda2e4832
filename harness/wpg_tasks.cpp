// VP: unchecked=1
// VP: stubs=msgpack
#include "wpg.h"
// Tasks of the walking pattern generator for all solutions, and guesses in a closed loop.
typedef humoto::ConstraintActivationType CT;
typedef humoto::TaskSharedPointer TP;
static humoto::Location where(const humoto::HierarchyLevel &l, const TP &t)
{
    for (std::list<humoto::HierarchyLevel::TaskInfo>::const_iterator it = l.tasks_.begin(); it != l.tasks_.end(); ++it)
        if (it->ptr_ == t) return it->location_;
    vp_fail("the task is not in its level");
    return humoto::Location(0, 0);
}
// symbolic gains, set as a user does; the default ones when "g" is 0
static double gain(bool own, const char *name, double def) { return own ? vp_real(name, -4, 4) : def; }
static void values(int which, int n)
{
    Times t = times(which, n);
    int f = FIRST[vp_choose("first_stance", 0, 2)], steps = 2 * vp_choose("steps", 0, 1);
    int end = f == ST::DS && !steps ? t.first : t.first + (steps + 1) * t.tds + steps * t.ss + t.last;
    int shift = t.subsampling * vp_choose("shift", 0, 11);
    bool own = shift / t.subsampling % 2, fixed = shift / t.subsampling % 3 == 1;
    if (shift >= end) vp_stop();
    World w(f, steps, t, shift, true, true);
    RefPreview r(w);
    if (!r.ok) vp_stop();
    MPCforWPG mpc(w.mp);
    if (mpc.update(w.model, w.fsm, w.wp) != humoto::ControlProblemStatus::OK) { vp_fail("update"); return; }
    const humoto::SolutionStructure &ss = mpc.getSolutionStructure();
    int nv = 2 * n + 2 * r.steps.size();
    double gv = gain(own, "g_velocity", std::sqrt(0.5)), gz = gain(own, "g_cop_velocity", std::sqrt(0.05)), gp = gain(own, "g_cop", std::sqrt(150.)), gt = gain(own, "g_terminal", 1);
    TaskCoMVelocity *tv = own ? new TaskCoMVelocity(gv) : new TaskCoMVelocity;
    TaskCoPVelocity *tz = own ? new TaskCoPVelocity(gz) : new TaskCoPVelocity;
    TaskCoPPosition *tp = own ? new TaskCoPPosition(gp) : new TaskCoPPosition;
    TaskTerminalConstraint *tt = own ? new TaskTerminalConstraint(gt) : new TaskTerminalConstraint;
    TaskCoPBounds *tb = new TaskCoPBounds;
    TaskFootstepBounds *tf = fixed ? new TaskFootstepBounds(true) : new TaskFootstepBounds;
    humoto::OptimizationProblem p;
    p.reset(2);
    TP pv(tv), pz(tz), pp(tp), pt(tt), pb(tb), pf(tf);
    p.pushTask(pb, 0); p.pushTask(pf, 0); p.pushTask(pt, 0); p.pushTask(pv, 1); p.pushTask(pz, 1); p.pushTask(pp, 1);
    humoto::Solution s, guess;
    humoto::ActiveSet as;
    p.form(s, guess, as, w.model, mpc, humoto::Solution());
    V local = symVec("cop", 2 * n), feet = symVec("step", 2 * r.steps.size()), x(nv);
    x << local, feet;
    if ((int)ss.getNumberOfVariables() != nv || (int)s.getNumberOfVariables() != nv || (int)guess.getNumberOfVariables() != nv) { vp_fail("number of variables"); return; }
    eqMat(guess.x_, M(M::Zero(nv, 1)), "guess without a previous solution");
    RefMotion m(w, r, w.support(r.st[0].type), local, feet);
    // objectives
    double om = std::sqrt(humoto::g_gravitational_acceleration / COM_HEIGHT);
    V ev(2 * n), et(2);
    for (int i = 0; i < n; ++i)
    {
        const RefStance &q = r.st[r.iv[i].stance];
        V2 ref = rot(q.theta) * q.vel;
        for (int k = 0; k < 2; ++k) ev(2 * i + k) = gv * (m.cstate(6 * i + 3 * k + 1) - ref(k));
    }
    for (int k = 0; k < 2; ++k) et(k) = gt * (m.cstate(6 * n - 6 + 3 * k + 1) + m.cstate(6 * n - 6 + 3 * k + 2) / om);
    eqMat(M(tv->getA() * x - tv->getB()), ev, "velocity of the center of mass");
    eqMat(M(tz->getA() * x - tz->getB()), M(gz * m.dcop), "velocity of the center of pressure");
    eqMat(M(tt->getA() * x - tt->getB()), et, "velocity of the capture point at the end of the preview");
    vp_check((int)tp->getIndices().size() == 2 * n && (int)tp->getIGains().size() == 2 * n, "size of the task");
    for (int i = 0; i < 2 * n; ++i) { vp_check(tp->getIndices()(i) == (unsigned)i, "positions of the center of pressure"); vp_eq(tp->getIGains()(i), gp, "gains of positions of the center of pressure"); }
    // bounds: the center of pressure is within the support, landing feet are within their bounds
    vp_check((int)tb->getIndices().size() == 2 * n && (int)tf->getIndices().size() == nv - 2 * n, "number of bounds");
    if ((int)tb->getIndices().size() != 2 * n || (int)tf->getIndices().size() != nv - 2 * n) return;
    for (int i = 0; i < n; ++i)
    {
        const RefStance &q = r.st[r.iv[i].stance];
        for (int k = 0; k < 2; ++k)
        {
            vp_check((int)tb->getIndices()(2 * i + k) == 2 * i + k, "indices of bounds of the center of pressure");
            vp_eq(tb->getLowerBounds()(2 * i + k), q.cop(k, 0), "lower bounds of the center of pressure");
            vp_eq(tb->getUpperBounds()(2 * i + k), q.cop(k, 1), "upper bounds of the center of pressure");
        }
    }
    for (size_t i = 0; i < r.steps.size(); ++i)
    {
        const RefStance &q = r.st[i + 1];
        for (int k = 0; k < 2; ++k)
        {
            double l = q.fd(k, 0), u = q.fd(k, 1);
            if (fixed)
            {
                // steps of the maximal length next to the other foot
                if (k == 0) l = u;
                else if (q.type == ST::RSS) l = u;
                else u = l;
            }
            vp_check((int)tf->getIndices()(2 * i + k) == 2 * n + 2 * (int)i + k, "indices of bounds of steps");
            vp_eq(tf->getLowerBounds()(2 * i + k), l, "lower bounds of steps");
            vp_eq(tf->getUpperBounds()(2 * i + k), u, "upper bounds of steps");
        }
    }
    // first guesses of active sets
    humoto::Location lb = where(p[0], pb), lf = where(p[0], pf), lt = where(p[0], pt);
    for (size_t i = 0; i < lb.length_; ++i) vp_check(as[0][lb.offset_ + i] == CT::INACTIVE, "bounds of the center of pressure are not active");
    for (size_t i = 0; i < lf.length_; ++i) vp_check(as[0][lf.offset_ + i] == (fixed ? CT::EQUALITY : CT::INACTIVE), "bounds of steps");
    for (size_t i = 0; i < lt.length_; ++i) vp_check(as[0][lt.offset_ + i] == CT::EQUALITY, "the terminal constraint is an equality");
}
VP_HARNESS(values_200) { values(0, 4); }
VP_HARNESS(values_50) { values(1, 4); }
VP_HARNESS(values_20) { values(2, 5); }
VP_HARNESS(values_long_thorough) { values(3, 8); }
// Guesses: the previous solution and active set are shifted by one interval.
static void guesses(int which, int n, int first, int steps, bool fixed, int count)
{
    Times t = times(which, n);
    World w(first, steps, t, 0, false, true);
    MPCforWPG mpc(w.mp);
    TP pb(new TaskCoPBounds), pf(new TaskFootstepBounds(fixed));
    humoto::OptimizationProblem p;
    p.reset(1);
    p.pushTask(pf, 0); p.pushTask(pb, 0);
    humoto::Solution old;
    V local0, feet0;
    std::vector<int> actb, actf;
    for (int k = 0; k < count; ++k)
    {
        RefPreview r(w);
        if (mpc.update(w.model, w.fsm, w.wp) != humoto::ControlProblemStatus::OK || !r.ok) return;
        humoto::Solution s, guess;
        humoto::ActiveSet as;
        p.form(s, guess, as, w.model, mpc, old);
        int nf = 2 * r.steps.size(), nv = 2 * n + nf;
        if ((int)guess.getNumberOfVariables() != nv || (int)as[0].size() != nv) { vp_fail("size of the guess"); return; }
        V g = V::Zero(nv);
        std::vector<int> b(2 * n, CT::INACTIVE), f(nf, fixed ? CT::EQUALITY : CT::INACTIVE);
        if (k)
        {
            for (int i = 2; i < 2 * n; ++i) { g(i - 2) = local0(i); b[i - 2] = actb[i]; }
            int of = feet0.size(), drop = of > nf ? 2 : 0;
            for (int i = 0; i + drop < of && i < nf; ++i) { g(2 * n + i) = feet0(i + drop); if (!fixed) f[i] = actf[i + drop]; }
        }
        eqMat(guess.x_, g, "guess of the solution");
        humoto::Location lb = where(p[0], pb), lf = where(p[0], pf);
        vp_check(lb.length_ == b.size() && lf.length_ == f.size(), "sizes of active sets");
        if (lb.length_ != b.size() || lf.length_ != f.size()) return;
        for (size_t i = 0; i < b.size(); ++i) vp_check(as[0][lb.offset_ + i] == b[i], "guess of active bounds of the center of pressure");
        for (size_t i = 0; i < f.size(); ++i) vp_check(as[0][lf.offset_ + i] == f[i], "guess of active bounds of steps");
        // any solution and active set
        char q[32];
        snprintf(q, 32, "cop%d", k); local0 = symVec(q, 2 * n);
        snprintf(q, 32, "step%d", k); feet0 = symVec(q, nf);
        s.getData(s.getSolutionPartLocation(COP_VARIABLES_ID)) = local0;
        s.getData(s.getSolutionPartLocation(FOOTPOS_VARIABLES_ID)) = feet0;
        actb.resize(2 * n); actf.resize(nf);
        humoto::ActiveSet a;
        p.initializeActiveSet(a);
        for (int i = 0; i < 2 * n; ++i) { snprintf(q, 32, "b%d_%d", k, i); actb[i] = vp_int(q, 0, 4); a[0][lb.offset_ + i] = (CT::Type)actb[i]; }
        for (int i = 0; i < nf; ++i) { snprintf(q, 32, "f%d_%d", k, i); actf[i] = vp_int(q, 0, 4); a[0][lf.offset_ + i] = (CT::Type)actf[i]; }
        p.processActiveSet(a);
        w.fsm.shiftTime(t.subsampling);
        ModelState x = mpc.getNextModelState(s, w.fsm, w.model);
        w.model.updateState(x);
        old = s;
        // the reference only needs the support and the yaw of the feet
        w.yaw[0] = w.model.getFootState(LR::LEFT).rpy_(2);
        w.yaw[1] = w.model.getFootState(LR::RIGHT).rpy_(2);
    }
}
VP_HARNESS(guesses_200) { int f = vp_choose("fixed", 0, 1); guesses(0, 3 + f, FIRST[vp_choose("first_stance", 0, 2)], 2, f, 9); }
// two steps are in the preview
VP_HARNESS(guesses_two_steps) { guesses(4, 4, FIRST[vp_choose("first_stance", 0, 2)], 3, false, 8); }
VP_HARNESS(guesses_50) { guesses(1, 2, ST::DS, 2, vp_choose("fixed", 0, 1), 10); }
VP_HARNESS(guesses_long_thorough) { guesses(0, 5, FIRST[vp_choose("first_stance", 0, 2)], 3, false, 14); }
