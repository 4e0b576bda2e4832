// VP: stubs=msgpack
#include "pepper.h"
// Tasks of the controller of a moving base for all solutions, and guesses in a closed loop.
typedef humoto::ConstraintActivationType CT;
typedef humoto::TaskSharedPointer TP;
static humoto::Location where(const humoto::HierarchyLevel &l, const TP &t)
{
    for (std::list<humoto::HierarchyLevel::TaskInfo>::const_iterator it = l.tasks_.begin(); it != l.tasks_.end(); ++it)
        if (it->ptr_ == t) return it->location_;
    vp_fail("the task is not in its level");
    return humoto::Location(0, 0);
}
static double gain(bool own, const char *name, double def) { return own ? vp_real(name, -4, 4) : def; }
// bounds of a general constraint: lb <= A x <= ub
template <class T> static void eqBounds(T *t, const V &x, const V &value, const V &lb, const V &ub, const char *what)
{
    V ax = t->getA() * x;
    vp_check(t->getLowerBounds().size() == value.size() && t->getUpperBounds().size() == value.size() && ax.size() == value.size(), what);
    if (t->getLowerBounds().size() != value.size() || t->getUpperBounds().size() != value.size() || ax.size() != value.size()) return;
    eqMat(V(t->getLowerBounds() - ax), V(lb - value), what);
    eqMat(V(t->getUpperBounds() - ax), V(ub - value), what);
}
static V rep(const M &box, int col, int n) { V r(2 * n); for (int i = 0; i < n; ++i) r.segment(2 * i, 2) = box.col(col); return r; }
static void values(int n, int ms)
{
    double T = ms / 1000.;
    bool own = vp_choose("own_gains", 0, 1);
    Robot r(false, true);
    MPCforMG mpc(MPCParameters(n, ms, ms));
    MotionParameters m = motion("m");
    if (mpc.update(m, r.model) != Status::OK) { vp_fail("update"); return; }
    double q = std::sqrt(0.5);
    double g[6] = {gain(own, "g0", q), gain(own, "g1", 1), gain(own, "g2", q), gain(own, "g3", q), gain(own, "g4", q), gain(own, "g5", q)};
    TaskBasePositionReference *bp = own ? new TaskBasePositionReference(g[0]) : new TaskBasePositionReference;
    TaskBaseVelocityReference *bv = own ? new TaskBaseVelocityReference(g[1]) : new TaskBaseVelocityReference;
    TaskBodyPositionReference *dp = own ? new TaskBodyPositionReference(g[2]) : new TaskBodyPositionReference;
    TaskBaseJerkMinimization *bj = own ? new TaskBaseJerkMinimization(g[3]) : new TaskBaseJerkMinimization;
    TaskBodyJerkMinimization *dj = own ? new TaskBodyJerkMinimization(g[4]) : new TaskBodyJerkMinimization;
    TaskCoPCentering *cc = own ? new TaskCoPCentering(g[5]) : new TaskCoPCentering;
    TaskBaseVelocityBounds *vb = new TaskBaseVelocityBounds;
    TaskBodyPositionBounds *pb = new TaskBodyPositionBounds;
    TaskCoPPositionBounds *cb = new TaskCoPPositionBounds;
    TaskBaseAccelerationBounds *ab = new TaskBaseAccelerationBounds;
    TP all[10] = {TP(vb), TP(pb), TP(cb), TP(ab), TP(bp), TP(bv), TP(dp), TP(bj), TP(dj), TP(cc)};
    humoto::OptimizationProblem p;
    p.reset(2);
    for (int k = 0; k < 10; ++k) p.pushTask(all[k], k >= 4);
    humoto::Solution s, guess;
    humoto::ActiveSet as;
    p.form(s, guess, as, r.model, mpc, humoto::Solution());
    eqMat(guess.x_, M(M::Zero(4 * n, 1)), "guess without a previous solution");
    for (size_t i = 0; i < as[0].size(); ++i) vp_check(as[0][i] == CT::INACTIVE, "bounds are not active");
    for (size_t i = 0; i < as[1].size(); ++i) vp_check(as[1][i] == CT::EQUALITY, "objectives are equalities");
    V u = symVec("u", 2 * n), j = symVec("j", 2 * n), x(4 * n);
    x << u, j;
    PepperMotion e(r, u, j, T);
    V pos(2 * n), acc(2 * n), off(2 * n), vref(2 * n), pref(2 * n);
    double th = r.theta;
    for (int i = 0; i < n; ++i)
    {
        th += m.base_angular_velocity_ * T;
        pos.segment(2 * i, 2) = e.position(e.base, i);
        acc.segment(2 * i, 2) = V2(e.base(6 * i + 2), e.base(6 * i + 5));
        off.segment(2 * i, 2) = rot(th).transpose() * (e.position(e.base, i) - e.position(e.top, i));
        vref.segment(2 * i, 2) = rot(th) * m.base_velocity_;
        pref.segment(2 * i, 2) = m.base_position_;
    }
    // objectives
    vp_check(bp->getOffset() == 0 && bj->getOffset() == 0 && ab->getOffset() == 0, "offsets");
    eqMat(M(bp->getA() * u - bp->getB()), M(g[0] * (pos - pref)), "position of the base");
    eqMat(M(bj->getA() * u - bj->getB()), M(g[3] * e.jerk), "jerk of the base");
    eqMat(M(dp->getA() * x - dp->getB()), M(g[2] * off), "position of the body");
    eqMat(M(cc->getA() * x - cc->getB()), M(g[5] * e.cop), "position of the center of pressure");
    vp_check(bv->getIndices().size() == 2 * n && dj->getIndices().size() == 2 * n && vb->getIndices().size() == 2 * n, "sizes");
    if (bv->getIndices().size() != 2 * n || dj->getIndices().size() != 2 * n || vb->getIndices().size() != 2 * n) return;
    for (int i = 0; i < 2 * n; ++i)
    {
        vp_check((int)bv->getIndices()(i) == i && (int)vb->getIndices()(i) == i && (int)dj->getIndices()(i) == 2 * n + i, "indices");
        vp_eq(bv->getIGains()(i) * u(i) - bv->getB()(i), g[1] * (u(i) - vref(i)), "velocity of the base");
        vp_eq(dj->getIGains()(i), g[4], "gains of the jerk of the body");
        vp_eq(vb->getLowerBounds()(i), -Robot::half(r.nv), "bounds of the velocity"); vp_eq(vb->getUpperBounds()(i), Robot::half(r.nv), "bounds of the velocity");
    }
    // bounds
    M cop = Robot::box(Robot::half(r.radius)), a = Robot::box(Robot::half(r.na));
    eqBounds(cb, x, e.cop, rep(cop, 0, n), rep(cop, 1, n), "bounds of the center of pressure");
    eqBounds(ab, u, acc, rep(a, 0, n), rep(a, 1, n), "bounds of the acceleration of the base");
    eqBounds(pb, x, off, rep(r.body, 0, n), rep(r.body, 1, n), "bounds of the position of the body");
}
VP_HARNESS(values_100) { values(vp_choose("n", 1, 3), 100); }
VP_HARNESS(values_long_thorough) { values(vp_choose("n", 4, 8), vp_choose("ms", 0, 1) ? 20 : 62); }
// Guesses: previous solutions are shifted by one interval, previous active sets too unless an interval is divided.
static void guesses(int n, int sub, int count)
{
    int ms = 100;
    Robot r(false, false);
    MPCforMG mpc(MPCParameters(n, ms, sub));
    MotionParameters m = motion("m");
    TP t[4] = {TP(new TaskBaseAccelerationBounds), TP(new TaskBaseVelocityBounds), TP(new TaskCoPPositionBounds), TP(new TaskBodyPositionBounds)};
    humoto::OptimizationProblem p;
    p.reset(1);
    for (int k = 0; k < 4; ++k) p.pushTask(t[k], 0);
    humoto::Solution old;
    V u, j;
    std::vector<int> act[4];
    for (int k = 0; k < count; ++k)
    {
        if (mpc.update(m, r.model) != Status::OK) { vp_fail("update"); return; }
        humoto::Solution s, guess;
        humoto::ActiveSet as;
        p.form(s, guess, as, r.model, mpc, old);
        V g = V::Zero(4 * n);
        if (k) for (int i = 2; i < 2 * n; ++i) { g(i - 2) = u(i); g(2 * n + i - 2) = j(i); }
        eqMat(guess.x_, g, "guess of the solution");
        for (int q = 0; q < 4; ++q)
        {
            humoto::Location l = where(p[0], t[q]);
            vp_check((int)l.length_ == 2 * n, "size of an active set");
            if ((int)l.length_ != 2 * n) return;
            for (int i = 0; i < 2 * n; ++i)
            {
                int e = k && ms == sub && i + 2 < 2 * n ? act[q][i + 2] : CT::INACTIVE;
                vp_check(as[0][l.offset_ + i] == e, "guess of the active set");
            }
        }
        char b[32];
        snprintf(b, 32, "u%d", k); u = symVec(b, 2 * n);
        snprintf(b, 32, "j%d", k); j = symVec(b, 2 * n);
        s.getData(s.getSolutionPartLocation(BASE_VEL_VARIABLES_ID)) = u;
        s.getData(s.getSolutionPartLocation(BODY_JERK_VARIABLES_ID)) = j;
        humoto::ActiveSet a;
        p.initializeActiveSet(a);
        for (int q = 0; q < 4; ++q)
        {
            humoto::Location l = where(p[0], t[q]);
            act[q].resize(2 * n);
            for (int i = 0; i < 2 * n; ++i) { snprintf(b, 32, "a%d_%d_%d", k, q, i); act[q][i] = vp_int(b, 0, 4); a[0][l.offset_ + i] = (CT::Type)act[q][i]; }
        }
        p.processActiveSet(a);
        old = s;
    }
}
VP_HARNESS(guesses) { guesses(vp_choose("n", 1, 3), vp_choose("sub", 0, 1) ? 100 : 20, 3); }
