// VP: unchecked=1
// VP: stubs=msgpack
#include "wpg.h"
static void preview(int which, int n)
{
    Times t = times(which, n);
    int f = FIRST[vp_choose("first_stance", 0, 2)], steps = 2 * vp_choose("steps", 0, 1);
    int end = f == ST::DS && !steps ? t.first : t.first + (steps + 1) * t.tds + steps * t.ss + t.last;
    int unit = t.subsampling, shift = unit * vp_choose("shift", 0, 15);
    if (shift >= end) vp_stop();
    World w(f, steps, t, shift);
    RefPreview r(w);
    PreviewHorizon p;
    bool ok = p.form(w.mp, w.model, w.fsm, w.wp);
    vp_check(ok == r.ok, "the preview is impossible only when the motion ends");
    if (!ok || !r.ok) return;
    vp_check(p.intervals_.size() == r.iv.size(), "number of intervals");
    vp_check(p.variable_steps_indices_.size() == r.steps.size() && p.getNumberOfVariableSteps() == r.steps.size(), "number of variable steps");
    if (p.intervals_.size() != r.iv.size() || p.variable_steps_indices_.size() != r.steps.size()) return;
    for (size_t k = 0; k < r.steps.size(); ++k)
    {
        vp_check((int)p.variable_steps_indices_[k] == r.steps[k], "intervals of variable steps");
        eqMat(p.getFootPositionBounds(k), r.st[k + 1].fd, "bounds of steps");
    }
    for (size_t i = 0; i < r.iv.size(); ++i)
    {
        const RefStance &s = r.st[r.iv[i].stance];
        vp_check((int)p.intervals_[i].T_ms_ == r.iv[i].ms, "durations of intervals");
        vp_eq(p.intervals_[i].T_, r.iv[i].ms / 1000., "durations of intervals");
        vp_eq(p.intervals_[i].com_height_, COM_HEIGHT, "height of the center of mass");
        vp_eq(p.intervals_[i].omega_, std::sqrt(humoto::g_gravitational_acceleration / COM_HEIGHT), "natural frequency");
        const WalkState &q = p.getWalkState(i);
        vp_check(q.type_ == s.type, "stances of intervals");
        vp_eq(q.theta_, s.theta, "orientations of supports");
        eqMat(p.getRotationMatrix(i), rot(s.theta), "rotations of supports");
        eqMat(p.getCoPBounds(i), s.cop, "bounds on the center of pressure");
        eqMat(q.cvel_ref_, s.vel, "reference velocity");
    }
}
static void prediction(int which, int n, bool one_yaw)
{
    Times t = times(which, n);
    int f = FIRST[vp_choose("first_stance", 0, 2)], steps = 2 * vp_choose("steps", 0, 1);
    int end = f == ST::DS && !steps ? t.first : t.first + (steps + 1) * t.tds + steps * t.ss + t.last;
    int shift = t.subsampling * vp_choose("shift", 0, 11);
    if (shift >= end) vp_stop();
    World w(f, steps, t, shift, false, one_yaw);
    RefPreview r(w);
    MPCforWPG mpc(w.mp);
    bool ok = mpc.update(w.model, w.fsm, w.wp) == humoto::ControlProblemStatus::OK;
    vp_check(ok == r.ok, "the control problem is stopped only when the motion ends");
    if (!ok || !r.ok) return;
    // position of the support
    V2 support = w.support(r.st[0].type);
    eqMat(w.model.current_support_position_, support, "position of the current support");
    const humoto::SolutionStructure &ss = mpc.getSolutionStructure();
    int nv = 2 * n + 2 * r.steps.size();
    vp_check((int)ss.getNumberOfVariables() == nv, "number of variables");
    if ((int)ss.getNumberOfVariables() != nv) return;
    V local = symVec("cop", 2 * n), feet = symVec("step", 2 * r.steps.size());
    humoto::Solution s;
    s.initialize(ss);
    s.getData(ss.getSolutionPartLocation(COP_VARIABLES_ID)) = local;
    s.getData(ss.getSolutionPartLocation(FOOTPOS_VARIABLES_ID)) = feet;
    mpc.parseSolution(s);
    RefMotion m(w, r, support, local, feet);
    eqMat(mpc.footpos_profile, m.feet, "positions of supports");
    eqMat(mpc.cop_profile, m.cop, "positions of the center of pressure");
    eqMat(mpc.dcop_profile, m.dcop, "velocities of the center of pressure");
    eqMat(mpc.cstate_profile, m.cstate, "states of the center of mass");
    V x(nv);
    x << local, feet;
    eqMat(M(mpc.S_ * x + mpc.s_), m.cstate, "predicted states");
    eqMat(M(mpc.Sdz_ * x + mpc.sdz_), m.dcop, "predicted velocities of the center of pressure");
    vp_check((int)mpc.getPreviewHorizonLength() == n, "length of the preview horizon");
    // interpolation of the motion
    int at = 0;
    V prev = w.cstate;
    for (int i = 0; i < n; ++i)
    {
        int d[2] = {r.iv[i].ms / 2, r.iv[i].ms};
        for (int k = 0; k < 2; ++k)
        {
            V e = move(prev, m.cop.segment(2 * i, 2), r.iv[i].ms / 1000., d[k] / 1000.);
            eqMat(PointMassModel6z::convertCoMState(mpc.getCoMState(w.model, at + d[k])), e, "state of the center of mass at a moment");
        }
        prev = m.cstate.segment(6 * i, 6);
        at += r.iv[i].ms;
    }
    eqMat(PointMassModel6z::convertCoMState(mpc.getCoMState(w.model, 0)), w.cstate, "state of the center of mass at the beginning");
    vp_check(throws([&] { mpc.getCoMState(w.model, at + 1); }), "moments outside of the preview are rejected");
}
VP_HARNESS(preview_200) { preview(0, vp_choose("n", 1, 2) * 2); }
VP_HARNESS(preview_50) { preview(1, 4); }
VP_HARNESS(preview_20) { preview(2, 5); }
VP_HARNESS(prediction_200) { prediction(0, 4, false); }
VP_HARNESS(prediction_50) { prediction(1, 4, false); }
VP_HARNESS(prediction_20) { prediction(2, 5, false); }
VP_HARNESS(prediction_long_thorough) { prediction(3, 8, false); }
VP_HARNESS(not_parsed)
{
    World w(ST::DS, 2, times(0, 3), 0, false);
    MPCforWPG mpc(w.mp);
    for (int k = 0; k < 2; ++k)
    {
        mpc.update(w.model, w.fsm, w.wp);
        vp_check(throws([&] { mpc.getCoMState(w.model, 10); }), "no results before a solution is parsed");
        vp_check(throws([&] { mpc.getNextModelState(w.fsm, w.model); }), "no results before a solution is parsed");
        humoto::Solution s;
        s.initialize(mpc.getSolutionStructure());
        mpc.parseSolution(s);
        vp_check(!throws([&] { mpc.getCoMState(w.model, 10); }), "results of a solution");
    }
}
