// VP: unchecked=1
// VP: stubs=msgpack
#include "wpg.h"
// A closed loop: preview, a solution (any numbers), shift of time, the next state.
static void walk(int which, int n, int first, int steps, int count, bool concrete)
{
    Times t = times(which, n);
    World w(first, steps, t, 0, false);
    if (concrete) vp_reach("concrete");
    MPCforWPG mpc(w.mp);
    for (int k = 0; k < count; ++k)
    {
        RefPreview r(w);
        bool ok = mpc.update(w.model, w.fsm, w.wp) == humoto::ControlProblemStatus::OK;
        vp_check(ok == r.ok, "the control problem is stopped only when the motion ends");
        if (!ok || !r.ok) return;
        V2 support = w.support(r.st[0].type);
        eqMat(w.model.current_support_position_, support, "position of the current support");
        const humoto::SolutionStructure &ss = mpc.getSolutionStructure();
        char b[32]; snprintf(b, 32, "cop%d", k);
        V local = symVec(b, 2 * n);
        snprintf(b, 32, "step%d", k);
        V feet = symVec(b, 2 * r.steps.size());
        humoto::Solution s;
        s.initialize(ss);
        s.getData(ss.getSolutionPartLocation(COP_VARIABLES_ID)) = local;
        s.getData(ss.getSolutionPartLocation(FOOTPOS_VARIABLES_ID)) = feet;
        ST::Type old = w.fsm.current_stance_.type_;
        // state of the swing foot at landing
        bool single = old == ST::LSS || old == ST::RSS;
        int swing = old == ST::LSS ? 1 : 0;
        V2 landing; double theta = 0;
        if (single && r.steps.size())
        {
            theta = r.st[1].theta;
            landing = support + V2(rot(r.st[0].theta) * feet.head(2));
            if (r.st[1].type == ST::DS)
            {
                double h = (swing ? -1 : 1) * w.dist / 2;
                landing = landing + V2(rot(theta) * V2(0, h));
            }
        }
        w.fsm.shiftTime(t.subsampling);
        ModelState x = mpc.getNextModelState(s, w.fsm, w.model);
        if (single && r.steps.size())
        {
            humoto::rigidbody::RigidBodyState f = mpc.getFootLandingState(w.model);
            eqMat(f.position_.head(2), landing, "position of a landing foot");
            vp_eq(f.position_(2), w.z[1 - swing], "height of a landing foot");
            vp_eq(f.rpy_(2), theta, "orientation of a landing foot");
            vp_eq(f.rpy_(0), 0, "orientation of a landing foot"); vp_eq(f.rpy_(1), 0, "orientation of a landing foot");
        }
        else if (!single) vp_check(throws([&] { mpc.getFootLandingState(w.model); }), "no foot lands in double support");
        ModelState same = mpc.getNextModelState(w.fsm, w.model);
        ST::Type now = w.fsm.current_stance_.type_;
        // reference
        V u = support + V2(rot(r.st[0].theta) * local.head(2));
        w.cstate = move(w.cstate, u, r.iv[0].ms / 1000., t.subsampling / 1000.);
        if (single && now == ST::TDS)
        {
            w.foot[swing] = landing;
            w.yaw[swing] = theta;
            w.z[swing] = w.z[1 - swing];
        }
        for (int q = 0; q < 2; ++q)
        {
            const ModelState &y = q ? same : x;
            vp_check(y.stance_type_ == now && y.next_stance_type_ == w.fsm.getNextStance().type_, "stances of the next state");
            eqMat(PointMassModel6z::convertCoMState(y.com_state_), w.cstate, "the next state of the center of mass");
            vp_eq(y.com_state_.position_(2), COM_HEIGHT, "height of the center of mass");
        }
        w.model.updateState(x);
        eqMat(w.model.getCState(), w.cstate, "state of the model");
        vp_eq(w.model.getCoMHeight(), COM_HEIGHT, "height of the center of mass");
        for (int k = 0; k < 2; ++k)
        {
            humoto::rigidbody::RigidBodyState f = w.model.getFootState(k ? LR::RIGHT : LR::LEFT);
            eqMat(f.position_.head(2), w.foot[k], "positions of feet");
            vp_eq(f.position_(2), w.z[k], "heights of feet");
            vp_eq(f.rpy_(2), w.yaw[k], "orientations of feet");
        }
    }
}
VP_HARNESS(walk_200) { walk(0, 3, FIRST[vp_choose("first_stance", 0, 2)], 2, 11, false); }
VP_HARNESS(walk_50) { walk(1, 2, FIRST[vp_choose("first_stance", 0, 2)], 2, 12, false); }
VP_HARNESS(walk_20) { walk(2, 3, ST::LSS, 0, 10, false); }
// two steps are in the preview
VP_HARNESS(walk_two_steps) { walk(4, 4, FIRST[vp_choose("first_stance", 0, 2)], 3, 8, false); }
VP_HARNESS(walk_long_thorough) { walk(0, 4, FIRST[vp_choose("first_stance", 0, 2)], 3, 16, false); }
VP_HARNESS(initial_state)
{
    // feet are placed next to the middle
    const RobotFootParameters p;
    double h = vp_real("height", 0.125, 4);
    ModelState s;
    if (vp_choose("set", 0, 1)) s.set(p, h);
    else s = ModelState(p, h);
    eqMat(s.feet_.getLeft().position_, etools::Vector3(0, 0.095, 0), "initial position of the left foot");
    eqMat(s.feet_.getRight().position_, etools::Vector3(0, -0.095, 0), "initial position of the right foot");
    eqMat(s.com_state_.position_, etools::Vector3(0, 0, h), "initial position of the center of mass");
    vp_check(s.stance_type_ == ST::DS, "initial stance");
    ModelState t;
    humoto::rigidbody::PointMassState c;
    humoto::rigidbody::RigidBodyState l, r;
    l.position_ = symVec("l", 3); r.position_ = symVec("r", 3); c.position_ = symVec("c", 3);
    static const ST::Type T[5] = {ST::LSS, ST::RSS, ST::DS, ST::TDS, ST::UNDEFINED};
    int k = vp_choose("type", 0, 4);
    vp_check(throws([&] { t.set(T[k], c, l, r); }) == (k > 2), "stance of a state");
    if (k > 2) return;
    eqMat(t.feet_.getLeft().position_, l.position_, "left foot"); eqMat(t.feet_.getRight().position_, r.position_, "right foot");
    eqMat(t.com_state_.position_, c.position_, "center of mass");
    vp_check(t.stance_type_ == T[k] && t.next_stance_type_ == ST::UNDEFINED, "stance of a state");
}
