// VP: unchecked=1
// VP: stubs=msgpack stubs=rbdl
#include "pepper_ik.h"
// ---- root of the model
template <int F> static void root()
{
    typedef ModelDescription<F> D;
    Model<F> m;
    m.loadParameters(urdfFile(F));
    Ref r(urdfFile(F));
    const char *link = F == TORSO ? "torso" : "Tibia";
    GeneralizedCoordinates<F> g;
    V joints = g.joint_angles_;
    const int n = D::ROOT_DOF_NUMBER;
    V3 p(vp_real("x", -2, 2), vp_real("y", -2, 2), F == PLANAR ? 0 : vp_real("z", -2, 2)), a(0, 0, 0), o;
    int axis = F == PLANAR ? 2 : vp_choose("axis", 0, 2);
    a(axis) = vp_real("angle", -1.5, 1.5);
    g.setRootPosition(p);
    g.setRootOrientation(a);
    eqMat(g.joint_angles_, joints, "angles of joints do not depend on the root");
    g.getRootPosition(o);
    eqMat(o, p, "position of the root");
    V q(g.asVector());
    r.t.move(q, V(V::Zero(q.rows())));
    eqMat(r[link].p, p, "the root is in the given position");
    eqMat(r[link].o, rpyRef(a), "the root has the given orientation");
    g.root_pose_.tail(n == 3 ? 1 : 3) = a.tail(n == 3 ? 1 : 3);
    g.getRootOrientation(o);
    q = g.asVector();
    r.t.move(q, V(V::Zero(q.rows())));
    eqMat(rpyRef(o), r[link].o, "orientation of the root");
}
VP_HARNESS(ik_root_torso) { vp_half_angles(); root<TORSO>(); }
VP_HARNESS(ik_root_tibia) { vp_half_angles(); root<TIBIA>(); }
VP_HARNESS(ik_root_planar)
{
    root<PLANAR>();
    GeneralizedCoordinates<PLANAR> g;
    int i = vp_choose("coordinate", 0, 2);
    double x = vp_real("value", -1, 1);
    V3 p(0.5, 0.25, 0), a(0, 0, 0.5);
    if (i == 0) p(2) = x; else a(i - 1) = x;
    vp_check(throws([&] { g.setRootPosition(p); g.setRootOrientation(a); }) == (x != 0), "a planar root cannot leave the plane");
}
// ---- joint angles and velocities of joints and wheels are limited
template <int F> static void limits()
{
    typedef typename Model<F>::Constraints C;
    Ref r(urdfFile(F));
    C c;
    const int *id = jointIds<F>();
    int what = vp_choose("what", 0, 2), i = vp_choose("joint", 0, 14), k = id[i];
    GeneralizedCoordinates<F> g, h;
    Urdf::Jnt j = r.u.joints[JOINTS[i]];
    double value = vp_real("value", -4, 4);
    if (what == 0)
    {
        g.joint_angles_(k) = value;
        bool bad = value < j.lower - 1e-6 || value > j.upper + 1e-6, good = value > j.lower && value < j.upper;
        Model<F> m;
        m.loadParameters(urdfFile(F));
        m.updateState(g);
        bool failed = throws([&] { m.checkCurrentState(); });
        if (bad) vp_check(failed, "an angle of a joint outside of its limits is rejected");
        if (good) vp_check(!failed, "an angle of a joint within its limits is accepted");
        if (bad || good) vp_check(throws([&] { c.checkJointPositions(g.joint_angles_); }) == bad, "limits of angles of joints");
        g.joint_angles_(k) = std::numeric_limits<double>::quiet_NaN();
        vp_check(throws([&] { c.checkJointPositions(g.joint_angles_); }), "an angle which is not a number is rejected");
    }
    else if (what == 1)
    {
        double dt = vp_real("dt", 0.0078125, 0.25);
        g.joint_angles_(k) = value;
        h.joint_angles_(k) = vp_real("next", -4, 4);
        double d = h.joint_angles_(k) - value, lim = j.velocity * dt;
        bool bad = d > lim * 1.000001 || d < -lim * 1.000001, good = d < lim * 0.999999 && d > -lim * 0.999999;
        if (bad || good) vp_check(throws([&] { c.checkJointVelocities(g.joint_angles_, h.joint_angles_, dt); }) == bad, "limits of velocities of joints");
    }
    else
    {
        vp_assume(i < 3);
        V3 w(vp_real("other", -6, 6), 0.5, -6);
        w(i) = vp_real("velocity", -20, 20);
        bool bad = w(i) > 6.2832 || w(i) < -6.2832, good = w(i) < 6.2831 && w(i) > -6.2831;
        if (bad || good) vp_check(throws([&] { c.checkWheelVelocities(w); }) == bad, "limits of velocities of wheels");
        w(i) = std::numeric_limits<double>::quiet_NaN();
        vp_check(throws([&] { c.checkWheelVelocities(w); }), "a velocity which is not a number is rejected");
    }
}
VP_HARNESS(ik_limits_torso) { limits<TORSO>(); }
VP_HARNESS(ik_limits_tibia) { limits<TIBIA>(); }
VP_HARNESS(ik_limits_planar) { limits<PLANAR>(); }
// ---- wheels: rolling without slip in the direction of a wheel
static V3 wheels(const V3 &base)
{
    const double angle[3] = {1.07519348146676, -1.07519348146676, M_PI}, px[3] = {0.09, 0.09, -0.17}, py[3] = {0.155, -0.155, 0};
    V3 w;
    for (int i = 0; i < 3; ++i)
    {
        // velocity of the center of the wheel, direction of rolling
        double vx = base(0) - base(2) * py[i], vy = base(1) + base(2) * px[i];
        w(i) = (vx * sin(angle[i]) - vy * cos(angle[i])) / 0.07;
    }
    return w;
}
VP_HARNESS(ik_wheels)
{
    V3 v = symVec("v", 3, -4, 4);
    eqMat(mul(ModelDescription<TORSO>::getRootMotionToWheelsTransform(), v), wheels(v), "velocities of wheels");
    eqMat(mul(ModelDescription<PLANAR>::getRootMotionToWheelsTransform(), v), wheels(v), "velocities of wheels");
}
// ---- commands
template <int F> static void command(int mode)
{
    typedef ModelDescription<F> D;
    typedef GeneralizedCoordinates<F> G;
    Model<F> m;
    m.loadParameters(urdfFile(F));
    Ref r(urdfFile(F));
    const int *id = jointIds<F>();
    G g, h;
    double dt = 0.125, yaw0 = 0.5, yaw1 = 0.25;
    V3 p0(0.25, -0.5, 0), p1 = p0;
    bool limited = false;
    if (mode == 0) // motion of the base
    {
        p1(0) += vp_real("dx", -0.03, 0.03); p1(1) += vp_real("dy", -0.03, 0.03);
        yaw0 = vp_real("yaw_from", -1, 1); yaw1 = vp_real("yaw_to", -1, 1);
        vp_assume(yaw1 - yaw0 <= 0.03 && yaw0 - yaw1 <= 0.03);
    }
    else if (mode == 1) // fast motion without rotation
    {
        yaw0 = yaw1 = 0;
        p1(0) += vp_real("dx", -1, 1);
        p1(1) += vp_real("dy", -1, 1);
    }
    else // motion of a joint
    {
        yaw1 = yaw0;
        int i = vp_choose("joint", 0, 14);
        double x = vp_real("from", -2, 2), y = vp_real("to", -2, 2);
        Urdf::Jnt j = r.u.joints[JOINTS[i]];
        vp_assume(x >= j.lower && x <= j.upper);
        g.joint_angles_(id[i]) = x; h.joint_angles_(id[i]) = y;
        double d = y - x, lim = j.velocity * dt;
        limited = y < j.lower || y > j.upper || d > lim || d < -lim;
        // not at the bounds
        vp_assume(limited ? y < j.lower - 1e-6 || y > j.upper + 1e-6 || d > lim * 1.000001 || d < -lim * 1.000001 : y > j.lower && y < j.upper && d < lim * 0.999999 && d > -lim * 0.999999);
    }
    g.root_pose_.setZero(); h.root_pose_.setZero();
    g.root_pose_.head(2) = p0.head(2); h.root_pose_.head(2) = p1.head(2);
    g.root_pose_(D::ROOT_DOF_NUMBER - 1) = yaw0; h.root_pose_(D::ROOT_DOF_NUMBER - 1) = yaw1;
    m.updateState(g);
    RobotCommand c;
    vp_check(throws([&] { m.getRobotCommand(c, dt); }), "commands require a saved state");
    m.saveCurrentState();
    m.updateState(h);
    V3 base((p1(0) - p0(0)) / dt, (p1(1) - p0(1)) / dt, sin(yaw1 - yaw0) / dt), local;
    local << base(0) * cos(yaw1) + base(1) * sin(yaw1), -base(0) * sin(yaw1) + base(1) * cos(yaw1), base(2);
    V3 w = wheels(local);
    if (mode == 1)
    {
        double big = 0;
        for (int i = 0; i < 3; ++i) { if (w(i) > big) big = w(i); if (-w(i) > big) big = -w(i); }
        limited = big > 6.28319;
        vp_assume(big > 6.2832 || big < 6.2831);
    }
    bool failed = throws([&] { m.getRobotCommand(c, dt); });
    if (mode != 0) vp_check(failed == limited, "commands respect the limits of velocities");
    if (failed) return;
    eqMat(c.base_velocities_, base, "velocity of the base in a command");
    eqMat(c.wheel_velocities_, w, "velocities of wheels in a command");
    eqMat(c.joint_angles_, h.joint_angles_, "angles of joints in a command");
    vp_eq(c.time_interval_, dt, "duration of a command");
    if (F != PLANAR)
    {
        vp_check(throws([&] { m.correct(c, 0.125); }), "correction is possible only for planar models");
        return;
    }
    // partial execution of the command
    double t = mode == 0 ? vp_real("t", -0.125, 0.25) : 0.0625;
    double u = t > 0 ? t : 0;
    if (vp_choose("given", 0, 1)) m.correct(g, c, t);
    else { m.updateState(g); m.correct(c, t); }
    G s = m.getState();
    V3 now(p0(0) + u * base(0), p0(1) + u * base(1), yaw0 + u * base(2));
    eqMat(s.root_pose_, now, "pose of the root after a part of a command");
    V3 zero(0, 0, 0);
    eqMat(s.joint_angles_, V(g.joint_angles_ + (h.joint_angles_ - g.joint_angles_) * u / dt), "angles of joints after a part of a command");
    eqMat(m.getBasePosition().head(2), now.head(2), "the corrected state is in effect");
}
VP_HARNESS(ik_command_planar) { command<PLANAR>(0); }
VP_HARNESS(ik_command_planar_fast) { command<PLANAR>(1); }
VP_HARNESS(ik_command_planar_joints) { command<PLANAR>(2); }
VP_HARNESS(ik_command_tibia) { command<TIBIA>(0); }
VP_HARNESS(ik_command_tibia_joints) { command<TIBIA>(2); }
// ---- transitions between states which move only joints
template <int F> static void transition()
{
    Model<F> m;
    m.loadParameters(urdfFile(F));
    Ref r(urdfFile(F));
    const int *id = jointIds<F>();
    typedef ModelDescription<F> D;
    GeneralizedCoordinates<F> g, h;
    int what = vp_choose("what", 0, 2);
    bool moved = what == 0 || vp_choose("moved", 0, 1);
    double dt = 0.125, x = !moved ? 0 : what == 2 && F != PLANAR ? (vp_choose("negative", 0, 1) ? -0.25 : 0.5) : vp_real("value", -1.5, 1.5);
    bool bad = false;
    const int n = D::ROOT_DOF_NUMBER;
    g.root_pose_.setZero();
    g.root_pose_.head(2) << 0.25, -0.5;
    h.root_pose_ = g.root_pose_;
    if (what == 0)
    {
        int i = vp_choose("joint", 0, 14);
        Urdf::Jnt j = r.u.joints[JOINTS[i]];
        g.joint_angles_(id[i]) = (j.lower + j.upper) / 2;
        h.joint_angles_(id[i]) = x;
        double d = x - g.joint_angles_(id[i]), lim = j.velocity * dt;
        bad = x < j.lower - 1e-6 || x > j.upper + 1e-6 || d > lim * 1.000001 || d < -lim * 1.000001;
        if (!bad) vp_assume(x > j.lower && x < j.upper && d < lim * 0.999999 && d > -lim * 0.999999);
    }
    else if (what == 1)
    {
        int i = vp_choose("coordinate", 0, n == 3 ? 1 : 2);
        h.root_pose_(i) += x;
        bad = moved;
        if (moved) vp_assume(x > 1e-3 || x < -1e-3);
    }
    else
    {
        h.root_pose_(n - 1) = x;
        bad = moved;
        if (moved) vp_assume(x > 1e-3 || x < -1e-3);
        if (moved) vp_assume(x > 0 ? sin(x) >= 0.5 * x : sin(x) <= 0.5 * x); // true for these angles
    }
    vp_check(throws([&] { m.checkStateTransition(g, h, dt); }) == bad, "transitions move only joints, not faster than possible");
    m.updateState(h);
    vp_check(throws([&] { m.checkStateTransition(g, dt); }) == bad, "transitions to the current state");
}
VP_HARNESS(ik_transition_planar) { vp_half_angles(); transition<PLANAR>(); }
VP_HARNESS(ik_transition_tibia) { vp_half_angles(); transition<TIBIA>(); }
// ---- errors and poses
template <int F> static void errors()
{
    Bot<F> b(chooseMoving<F>(), false);
    MotionParameters p, e;
    p.base_com_position_ = symVec("base", 3, -1, 1);
    p.body_com_position_ = symVec("body", 3, -1, 1);
    p.base_orientation_rpy_ << 0.25, -0.5, 0.125;
    b.m.getStateError(e, p);
    Ref::Mass base = b.r.mass(1), body = b.r.mass(2);
    eqMat(e.base_com_position_ * base.m, V3(p.base_com_position_ * base.m - base.p), "error of the position of the base");
    eqMat(e.body_com_position_ * body.m, V3(p.body_com_position_ * body.m - body.p), "error of the position of the body");
    eqMat(e.base_orientation_rpy_, rotError(b.r["base_footprint"].o, rpyRef(p.base_orientation_rpy_)), "error of the orientation of the base");
}
VP_HARNESS(ik_errors_torso) { errors<TORSO>(); }
VP_HARNESS(ik_errors_tibia) { errors<TIBIA>(); }
VP_HARNESS(ik_errors_planar) { errors<PLANAR>(); }
template <int F> static void poses()
{
    typedef ModelDescription<F> D;
    Ref r(urdfFile(F));
    Model<F> m;
    m.loadParameters(urdfFile(F));
    GeneralizedCoordinates<F> g;
    const int n = D::ROOT_DOF_NUMBER;
    g.joint_angles_.setZero();
    g.root_pose_.setZero();
    double yaw = vp_real("yaw", -1.5, 1.5);
    g.root_pose_(0) = vp_real("x", -1, 1); g.root_pose_(1) = vp_real("y", -1, 1);
    g.root_pose_(n - 1) = yaw;
    V q(g.asVector());
    r.t.move(q, V(V::Zero(q.rows())));
    m.updateState(g);
    double a = m.getBaseYaw();
    vp_eq(sin(a), sin(yaw), "yaw of the base"); vp_eq(cos(a), cos(yaw), "yaw of the base");
    humoto::rigidbody::RigidBodyPose pose = m.getTorsoRootPose();
    Node &torso = r["torso"];
    V3 off = F == TORSO ? V3(0, 0, 0) : V3(-2e-05, 0, 0.139);
    eqMat(pose.position_, V3(torso.p + V3(mul(torso.o, off))), "position of the root of the torso");
    eqMat(rpyRef(pose.rpy_), torso.o, "orientation of the root of the torso");
}
VP_HARNESS(ik_poses_torso) { poses<TORSO>(); }
VP_HARNESS(ik_poses_tibia) { poses<TIBIA>(); }
VP_HARNESS(ik_poses_planar) { poses<PLANAR>(); }
template <int OUT, int IN> static void reorder()
{
    const int *in = jointIds<IN>(), *out = jointIds<OUT>();
    M a = symMat("a", 2, ModelDescription<IN>::DOF_NUMBER);
    Eigen::MatrixXd b = a;
    ModelDescription<OUT>::template reorderJointsColumns<OUT, IN>(b);
    vp_check(b.rows() == 2 && b.cols() == ModelDescription<OUT>::DOF_NUMBER, "size of a reordered matrix");
    for (int i = 0; i < 15; ++i)
        eqMat(b.col(ModelDescription<OUT>::ROOT_DOF_NUMBER + out[i]), a.col(ModelDescription<IN>::ROOT_DOF_NUMBER + in[i]), "columns of joints");
}
VP_HARNESS(ik_reorder)
{
    switch (vp_choose("models", 0, 5))
    {
        case 0: reorder<TORSO, TIBIA>(); break;
        case 1: reorder<TIBIA, TORSO>(); break;
        case 2: reorder<TORSO, PLANAR>(); break;
        case 3: reorder<PLANAR, TORSO>(); break;
        case 4: reorder<TIBIA, PLANAR>(); break;
        default: reorder<PLANAR, TIBIA>();
    }
}
