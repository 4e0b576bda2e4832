// VP: stubs=msgpack
#include "pepper.h"
// ------------------------------------------------------------------ states and parameters
VP_HARNESS(states)
{
    double hb = vp_real("base_height", 0, 2), hd = vp_real("body_height", 0, 2), off = vp_real("offset", -1, 1);
    ModelState a(hb, hd, off);
    eqMat(a.base_state_.position_, etools::Vector3(0, 0, hb), "position of the base");
    eqMat(a.body_state_.position_, etools::Vector3(off, 0, hd), "position of the body");
    double mb = vp_real("base_mass", 1, 20), md = vp_real("body_mass", 1, 20), th = vp_real("theta", -3, 3);
    etools::Vector3 pb = symVec("pb", 3), pd = symVec("pd", 3), vb = symVec("vb", 3), qb = symVec("qb", 3), qd = symVec("qd", 3);
    ModelState b(mb, md, pb, pd);
    eqMat(b.base_state_.position_, pb, "position of the base"); eqMat(b.body_state_.position_, pd, "position of the body");
    eqMat(b.base_state_.velocity_, etools::Vector3(0, 0, 0), "velocity of the base");
    vp_eq(b.base_mass_, mb, "mass of the base"); vp_eq(b.body_mass_, md, "mass of the body");
    b.base_state_.velocity_ = vb;
    b.update(md, mb, qb, qd, th);
    eqMat(b.base_state_.position_, qb, "position of the base"); eqMat(b.body_state_.position_, qd, "position of the body");
    eqMat(b.base_state_.velocity_, vb, "velocity of the base is not changed by an update of positions");
    vp_eq(b.base_mass_, md, "mass of the base"); vp_eq(b.body_mass_, mb, "mass of the body");
    vp_eq(b.base_state_.rpy_(2), th, "orientation of the base");
}
VP_HARNESS(model)
{
    Robot r;
    eqMat(r.model.getMPCBaseState(), r.base, "state of the base");
    eqMat(r.model.getMPCBodyState(), r.top, "state of the body");
    V x(12);
    x << r.base, r.top;
    eqMat(r.model.getMPCState(), x, "state");
    eqMat(r.model.getCoP(), r.cop(r.base, r.top), "center of pressure");
    eqMat(r.model.current_base_position_, V2(r.base(0), r.base(3)), "position of the base");
    vp_eq(r.model.getTheta(), r.theta, "orientation"); vp_eq(r.model.getBaseOrientation(), r.theta, "orientation");
    vp_eq(r.model.getBodyHeight(), r.hd, "height of the body"); vp_eq(r.model.getBaseHeight(), r.hb, "height of the base");
    vp_eq(r.model.getBodyMass(), r.md, "mass of the body"); vp_eq(r.model.getBaseMass(), r.mb, "mass of the base");
    eqMat(r.model.robot_parameters_.getCoPBounds(), Robot::box(Robot::half(r.radius)), "square within the base");
    eqMat(r.model.robot_parameters_.getNominalBaseVelocityBounds(), Robot::box(Robot::half(r.nv)), "bounds of the velocity");
    eqMat(r.model.robot_parameters_.getNominalBaseAccelerationBounds(), Robot::box(Robot::half(r.na)), "bounds of the acceleration");
    eqMat(r.model.robot_parameters_.getBodyBounds(), r.body, "bounds of the body");
}
VP_HARNESS(evaluation)
{
    Robot r(true, false);
    double T = vp_real("T", 0.015625, 2), t = vp_choose("end", 0, 1) ? T : vp_real("t", 0, 2);
    V u = symVec("u", 2), j = symVec("j", 2);
    V b = jerkMotion(r.base, jerkFor(r.base, u, T), t), d = jerkMotion(r.top, j, t);
    ModelState s;
    r.model.getNextState(s, T, t, u, j, r.hb, r.hd, r.theta);
    // multiplied by T^2 in order to get polynomials
    double q = T * T;
    eqMat(M(s.base_state_.position_ * q), etools::Vector3(b(0) * q, b(3) * q, r.hb * q), "position of the base");
    eqMat(M(s.base_state_.velocity_ * q), etools::Vector3(b(1) * q, b(4) * q, 0), "velocity of the base");
    eqMat(M(s.base_state_.acceleration_ * q), etools::Vector3(b(2) * q, b(5) * q, 0), "acceleration of the base");
    eqMat(s.body_state_.position_, etools::Vector3(d(0), d(3), r.hd), "position of the body");
    eqMat(s.body_state_.velocity_, etools::Vector3(d(1), d(4), 0), "velocity of the body");
    eqMat(s.body_state_.acceleration_, etools::Vector3(d(2), d(5), 0), "acceleration of the body");
    vp_eq(s.base_state_.rpy_(2), r.theta, "orientation of the base");
    vp_eq(s.base_mass_, r.mb, "mass of the base"); vp_eq(s.body_mass_, r.md, "mass of the body");
    eqMat(r.model.getMPCState(), V((V(12) << r.base, r.top).finished()), "the state of the model is not changed");
}
// ------------------------------------------------------------------ previews
static void eqIntervals(const PreviewHorizon &p, const Robot &r, const std::vector<const MotionParameters *> &m, int ms)
{
    double th = r.theta, T = ms / 1000.;
    vp_check(p.getPreviewHorizonLength() == m.size(), "length of the preview");
    if (p.getPreviewHorizonLength() != m.size()) return;
    for (size_t i = 0; i < m.size(); ++i)
    {
        th += m[i]->base_angular_velocity_ * T;
        vp_eq(p.intervals_[i].theta_, th, "orientation in the preview");
        eqMat(p.getRotationMatrix(i), rot(th), "rotation in the preview");
        eqMat(p.getBaseReferenceVelocity(i), M(rot(th) * m[i]->base_velocity_), "reference velocity");
        eqMat(p.getBaseReferencePosition(i), m[i]->base_position_, "reference position");
        eqMat(p.getCoPBounds(i), Robot::box(Robot::half(r.radius)), "bounds of the center of pressure");
        eqMat(p.getNominalBaseVelocityBounds(i), Robot::box(Robot::half(r.nv)), "bounds of the velocity");
        eqMat(p.getNominalBaseAccelerationBounds(i), Robot::box(Robot::half(r.na)), "bounds of the acceleration");
        eqMat(p.getBodyBounds(i), r.body, "bounds of the body");
        vp_check((int)p.intervals_[i].T_ms_ == ms, "duration of an interval");
        vp_eq(p.intervals_[i].T_, T, "duration of an interval");
        vp_eq(p.intervals_[i].base_mass_, r.mb, "mass of the base"); vp_eq(p.intervals_[i].body_mass_, r.md, "mass of the body");
        vp_eq(p.intervals_[i].base_height_, r.hb, "height of the base"); vp_eq(p.intervals_[i].body_height_, r.hd, "height of the body");
    }
}
VP_HARNESS(preview_one)
{
    Robot r;
    int n = vp_choose("n", 1, 3), ms = vp_choose("ms", 0, 1) ? 100 : 20;
    MPCParameters p(n, ms, ms);
    bool unlimited = vp_choose("unlimited", 0, 1);
    MotionParameters m = motion("m", unlimited ? -1 : vp_int("duration", 0, 500));
    PreviewHorizon h;
    bool ok = h.form(p, r.model, m), e = unlimited || n * ms <= m.duration_ms_;
    vp_check(ok == e, "a preview is formed if the motion is long enough");
    if (!ok || !e) return;
    eqIntervals(h, r, std::vector<const MotionParameters *>(n, &m), ms);
}
static std::deque<MotionParameters> modes(int count, bool unlimited, int max)
{
    std::deque<MotionParameters> q;
    for (int k = 0; k < count; ++k)
    {
        char b[20]; snprintf(b, 20, "m%d", k);
        char d[20]; snprintf(d, 20, "duration%d", k);
        q.push_back(motion(b, unlimited && k == count - 1 ? -1 : vp_int(d, 0, max)));
    }
    return q;
}
// the mode at a moment: the first one which ends not earlier; 0 when the motion is over
static const MotionParameters *at(const std::deque<MotionParameters> &q, long t)
{
    long s = 0;
    for (size_t k = 0; k < q.size(); ++k)
    {
        if (q[k].duration_ms_ == -1) return &q[k];
        s += q[k].duration_ms_;
        if (t <= s) return &q[k];
    }
    return 0;
}
VP_HARNESS(preview_sequence)
{
    Robot r(true, false);
    int n = vp_choose("n", 1, 3), ms = vp_choose("ms", 20, 20), count = vp_choose("modes", 0, 3);
    MPCParameters p(n, ms, ms);
    std::deque<MotionParameters> q = modes(count, vp_choose("unlimited", 0, 1), 70);
    PreviewHorizon h;
    bool ok = h.form(p, r.model, q);
    std::vector<const MotionParameters *> m;
    for (int i = 0; i < n; ++i) if (const MotionParameters *x = at(q, (i + 1) * ms)) m.push_back(x);
    bool e = (int)m.size() == n;
    vp_check(ok == e, "a preview is formed if the motion is long enough");
    if (!ok || !e) return;
    eqIntervals(h, r, m, ms);
}
VP_HARNESS(shift_one)
{
    MPCParameters p(3, 50, 10);
    MPCforMG mpc(p);
    bool unlimited = vp_choose("unlimited", 0, 1), def = vp_choose("default", 0, 1);
    long d = unlimited ? -1 : vp_int("duration", 0, 300);
    MotionParameters m = motion("m", d), o = m;
    int t = def ? 50 : vp_int("shift", 0, 300);
    if (def) mpc.shift(m); else mpc.shift(m, t);
    vp_check(m.duration_ms_ == (unlimited ? -1 : d > t ? d - t : 0), "time which is left");
    eqMat(m.base_velocity_, o.base_velocity_, "the motion is not changed"); eqMat(m.base_position_, o.base_position_, "the motion is not changed");
    vp_eq(m.base_angular_velocity_, o.base_angular_velocity_, "the motion is not changed");
}
VP_HARNESS(shift_sequence)
{
    MPCParameters p(3, 50, 10);
    MPCforMG mpc(p);
    int count = vp_choose("modes", 0, 3);
    bool unlimited = vp_choose("unlimited", 0, 1), def = vp_choose("default", 0, 1);
    std::deque<MotionParameters> q = modes(count, unlimited, 100), o = q;
    int t = def ? 50 : vp_int("shift", 0, 300);
    if (def) mpc.shift(q); else mpc.shift(q, t);
    // at any moment later on the motion is the one which was planned
    int s = vp_int("moment", 1, 300);
    const MotionParameters *a = at(q, s), *b = at(o, t + s);
    vp_check((a == 0) == (b == 0), "end of the motion");
    if (!a || !b) return;
    eqMat(a->base_velocity_, b->base_velocity_, "velocity in a shifted motion");
    eqMat(a->base_position_, b->base_position_, "position in a shifted motion");
    vp_eq(a->base_angular_velocity_, b->base_angular_velocity_, "angular velocity in a shifted motion");
}
// ------------------------------------------------------------------ prediction
static void prediction(int n, int ms)
{
    double T = ms / 1000.;
    Robot r(false, false);
    MPCParameters p(n, ms, ms);
    MPCforMG mpc(p);
    MotionParameters m = motion("m");
    vp_check(mpc.update(m, r.model) == Status::OK, "update");
    const humoto::SolutionStructure &ss = mpc.getSolutionStructure();
    vp_check((int)ss.getNumberOfVariables() == 4 * n, "number of variables");
    vp_check((int)mpc.getPreviewHorizonLength() == n, "length of the preview");
    V u = symVec("u", 2 * n), j = symVec("j", 2 * n), x(4 * n);
    x << u, j;
    humoto::Solution s;
    s.initialize(ss);
    s.getData(ss.getSolutionPartLocation(BASE_VEL_VARIABLES_ID)) = u;
    s.getData(ss.getSolutionPartLocation(BODY_JERK_VARIABLES_ID)) = j;
    eqMat(s.x_, x, "order of variables");
    PepperMotion e(r, u, j, T);
    // nothing is available before the solution is given
    vp_check(throws([&] { mpc.getModelState(r.model, (std::size_t)0); }), "no results before a solution is parsed");
    vp_check(throws([&] { mpc.getModelState(r.model, 0.0); }), "no results before a solution is parsed");
    vp_check(throws([&] { const MPCforMG &c = mpc; c.getNextModelState(r.model); }), "no results before a solution is parsed");
    double th1 = r.theta + m.base_angular_velocity_ * T;
    eqState(mpc.getNextModelState(s, r.model), r, e.b[1], e.d[1], th1, "next state");
    eqState(mpc.getNextModelState(r.model), r, e.b[1], e.d[1], th1, "next state");
    vp_check(throws([&] { mpc.getNextModelState(s, r.model); }), "a solution is parsed once");
    V all(12 * n);
    all << e.base, e.top;
    eqMat(mpc.cstate_profile_, all, "predicted states");
    eqMat(M(mpc.S_ * x + mpc.s_), all, "predicted states");
    eqMat(mpc.cop_profile_, e.cop, "predicted centers of pressure");
    eqMat(M(mpc.Ap_ * x + mpc.sp_), e.cop, "predicted centers of pressure");
    eqMat(mpc.base_jerk_profile_, e.jerk, "predicted jerks of the base");
    eqMat(M(mpc.Ajs_ * u + mpc.sjs_), e.jerk, "predicted jerks of the base");
    V pos(2 * n), acc(2 * n), off(2 * n);
    double th = r.theta;
    for (int i = 0; i < n; ++i)
    {
        th += m.base_angular_velocity_ * T;
        pos.segment(2 * i, 2) = e.position(e.base, i);
        acc.segment(2 * i, 2) = V2(e.base(6 * i + 2), e.base(6 * i + 5));
        off.segment(2 * i, 2) = rot(th).transpose() * (e.position(e.base, i) - e.position(e.top, i));
    }
    eqMat(M(mpc.Aps_ * u + mpc.sps_), pos, "predicted positions of the base");
    eqMat(M(mpc.Aas_ * u + mpc.sas_), acc, "predicted accelerations of the base");
    eqMat(M(mpc.Apd_ * x + mpc.spd_), off, "predicted positions of the base with respect to the body in the frame of the base");
    // states at moments
    for (int i = 0; i < n; ++i)
        for (int k = 0; k < 3; ++k)
        {
            int dt = k == 0 ? (i ? 1 : 0) : k == 1 ? ms / 2 : ms;
            V b = jerkMotion(e.b[i], e.jerk.segment(2 * i, 2), dt / 1000.), d = jerkMotion(e.d[i], j.segment(2 * i, 2), dt / 1000.);
            double a = r.theta + m.base_angular_velocity_ * (i * ms + dt) / 1000.;
            eqState(mpc.getModelState(r.model, (std::size_t)(i * ms + dt)), r, b, d, a, "state at a moment");
        }
    vp_check(throws([&] { mpc.getModelState(r.model, (std::size_t)(n * ms + 1)); }), "moments outside of the preview are rejected");
    vp_check(throws([&] { mpc.getModelState(r.model, (n * ms + 1) / 1000.); }), "moments outside of the preview are rejected");
}
VP_HARNESS(prediction_100) { prediction(vp_choose("n", 1, 3), 100); }
VP_HARNESS(prediction_20) { prediction(3, 20); }
VP_HARNESS(prediction_long_thorough) { prediction(vp_choose("n", 4, 8), vp_choose("ms", 0, 1) ? 100 : 62); }
// any moment
VP_HARNESS(any_moment)
{
    int n = 2, ms = 125, i = vp_choose("interval", 0, 1);
    double T = ms / 1000.;
    Robot r(false, false);
    MPCforMG mpc(MPCParameters(n, ms, ms));
    MotionParameters m = motion("m");
    mpc.update(m, r.model);
    V u = symVec("u", 2 * n), j = symVec("j", 2 * n);
    humoto::Solution s;
    s.initialize(mpc.getSolutionStructure());
    s.x_ << u, j;
    mpc.parseSolution(s);
    PepperMotion e(r, u, j, T);
    double t = vp_real("t", 0, 0.125);
    if (i) vp_assume(t >= 1. / 1024);
    V b = jerkMotion(e.b[i], e.jerk.segment(2 * i, 2), t), d = jerkMotion(e.d[i], j.segment(2 * i, 2), t);
    double a = r.theta + m.base_angular_velocity_ * (i * T + t);
    eqState(mpc.getModelState(r.model, i * T + t), r, b, d, a, "state at any moment");
}
// ------------------------------------------------------------------ closed loop
static void loop(int n, int ms, int sub, int count, bool deque)
{
    double T = ms / 1000.;
    Robot r(false, false);
    MPCforMG mpc(MPCParameters(n, ms, sub));
    MotionParameters m = motion("m", -1);
    std::deque<MotionParameters> q, full;
    if (deque)
    {
        int left = n * ms + (count - 2) * sub;
        q.push_back(motion("first", left / 2)); q.push_back(motion("second", left - left / 2));
        full = q;
    }
    for (int k = 0; k < count; ++k)
    {
        Status::Status st = deque ? mpc.updateAndShift(q, r.model, sub) : mpc.updateAndShift(m, r.model, sub);
        bool ok = !deque || k < count - 1;
        vp_check((st == Status::OK) == ok, "the control problem is stopped only when the motion ends");
        if (st != Status::OK || !ok) return;
        char b[20]; snprintf(b, 20, "u%d", k);
        V u = symVec(b, 2 * n);
        snprintf(b, 20, "j%d", k);
        V j = symVec(b, 2 * n);
        humoto::Solution s;
        s.initialize(mpc.getSolutionStructure());
        s.x_ << u, j;
        ModelState x;
        if (ms == sub) x = mpc.getNextModelState(s, r.model);
        else { mpc.parseSolution(s); x = mpc.getModelState(r.model, (std::size_t)sub); }
        // reference
        const MotionParameters *o = deque ? at(full, k * sub + ms) : &m;
        V jb = jerkFor(r.base, u.head(2), T);
        r.base = jerkMotion(r.base, jb, sub / 1000.);
        r.top = jerkMotion(r.top, j.head(2), sub / 1000.);
        r.theta += o->base_angular_velocity_ * (sub / 1000.);
        eqState(x, r, r.base, r.top, r.theta, "next state");
        r.model.updateState(x);
        eqMat(r.model.getMPCBaseState(), r.base, "state of the base");
        eqMat(r.model.getMPCBodyState(), r.top, "state of the body");
    }
}
VP_HARNESS(loop_one) { loop(2, 100, vp_choose("sub", 0, 1) ? 100 : 20, 4, false); }
VP_HARNESS(loop_sequence) { loop(2, 100, vp_choose("sub", 0, 1) ? 100 : 20, 6, true); }
VP_HARNESS(loop_long_thorough) { loop(5, 50, vp_choose("sub", 0, 1) ? 50 : 10, 8, vp_choose("sequence", 0, 1)); }
