// VP: unchecked=1
// VP: stubs=msgpack stubs=rbdl
#include <set>
#include "pepper_ik.h"
template <int F> struct Rig
{
    typedef WholeBodyController<F> W;
    Bot<F> b;
    MotionParameters p;
    WBCParameters wp;
    W w;
    double gain, k;
    humoto::OptimizationProblem o;
    humoto::Solution s;
    Rig(int moving, bool velocities = true) : b(moving, velocities), w(wp)
    {
        p.base_com_position_ = symVec("base", 3, -1, 1);
        p.body_com_position_ = symVec("body", 3, -1, 1);
        p.base_orientation_rpy_ << 0, 0, 0.5;
        vp_check(w.update(b.m, p) == humoto::ControlProblemStatus::OK, "status of the problem");
        int scaled = vp_choose("scaled", 0, 2);
        gain = scaled == 2 ? vp_real("gain", 1.125, 4) : scaled ? -0.5 : 1;
        k = vp_real("k", 0.125, 2);
    }
    template <class T> void form(T *t)
    {
        o.reset(1);
        o.pushTask(humoto::TaskSharedPointer(t), 0);
        o.form(s, b.m, w);
    }
    void check(humoto::TaskAB *t, const M &velocity, const M &value, const char *what)
    {
        std::string x(what);
        vp_check(t->getA().cols() == b.q.rows() && t->getA().rows() == value.rows() && t->getB().rows() == value.rows(), (x + ": size").c_str());
        eqMat(mul(t->getA(), b.dq), gain * velocity, (x + ": motion").c_str());
        eqMat(t->getB(), gain * k * value, (x + ": value").c_str());
    }
};
static M stack(const M &a, const M &b) { M r(a.rows() + b.rows(), a.cols()); r << a, b; return r; }
// all data of a task is scaled by its gain
template <int F> static void bodies()
{
    Rig<F> r(chooseMoving<F>());
    Ref::Mass base = r.b.r.mass(1), body = r.b.r.mass(2);
    Node &foot = r.b.r["base_footprint"];
    const int rows = F == PLANAR ? 2 : 3;
    TaskBaseCoMTracking<F> *t = new TaskBaseCoMTracking<F>(r.gain, r.k);
    r.form(t);
    r.check(t, M(base.v.head(rows) / base.m), M((r.p.base_com_position_ - base.p / base.m).head(rows)), "center of mass of the base");
    TaskBaseOrientation<F> *u = new TaskBaseOrientation<F>(r.gain, r.k);
    r.form(u);
    V3 e = rotError(foot.o, rpyRef(r.p.base_orientation_rpy_));
    r.check(u, F == PLANAR ? M(foot.w.tail(1)) : M(foot.w), F == PLANAR ? M(e.tail(1)) : M(e), "orientation of the base");
    TaskBodyCoMTracking<F> *v = new TaskBodyCoMTracking<F>(r.gain, r.k);
    r.form(v);
    r.check(v, M(body.v / body.m), M(r.p.body_com_position_ - body.p / body.m), "center of mass of the body");
}
VP_HARNESS(ik_task_bodies_torso) { bodies<TORSO>(); }
VP_HARNESS(ik_task_bodies_tibia) { bodies<TIBIA>(); }
VP_HARNESS(ik_task_bodies_planar) { bodies<PLANAR>(); }
VP_HARNESS(ik_task_axes)
{
    Rig<PLANAR> r(1);
    int flags = vp_choose("axes", 0, 15);
    int bit[3] = {humoto::AxisIndex::FLAG_X, humoto::AxisIndex::FLAG_Y, humoto::AxisIndex::FLAG_Z}, f = 0, n = 0;
    V3 v, e;
    Ref::Mass body = r.b.r.mass(2);
    for (int i = 0; i < 3; ++i)
        if (flags >> i & 1)
        {
            f |= bit[i];
            v(n) = body.v(i) / body.m;
            e(n++) = r.p.body_com_position_(i) - body.p(i) / body.m;
        }
    if (flags & 8) f |= 1 << 10;
    TaskBodyCoMTracking<PLANAR> *t = new TaskBodyCoMTracking<PLANAR>(r.gain, r.k, f);
    bool wrong = n == 0 || (flags & 8), failed = throws([&] { r.form(t); });
    vp_check(failed == wrong, "wrong axes are rejected");
    if (!failed) r.check(t, M(v.head(n)), M(e.head(n)), "center of mass of the body along some axes");
}
static const char *TAGS[2] = {"CameraTop_optical_frame", "l_wrist"};
template <int F> static void tags()
{
    // velocities are given in the frame of a link
    Rig<F> r(chooseMoving<F>());
    int which = vp_choose("tag", 0, 1), known = vp_choose("known", 0, 1);
    Node &n = r.b.r[TAGS[which]];
    etools::Vector6 local = symVec("local", 6, -1, 1);
    std::map<std::string, etools::Vector6> v;
    if (known) v[TAGS[which]] = local; else local.setZero();
    v["base_footprint"] = etools::Vector6::Ones();
    r.w.setTagsVelocity(v);
    V3 lin = V3(mul(n.o, local.head(3))), ang = V3(mul(n.o, local.tail(3)));
    eqMat(r.w.getTagVelocityInLocal(TAGS[which], SpT::COMPLETE), local, "local velocity");
    eqMat(r.w.getTagVelocityInLocal(TAGS[which], SpT::TRANSLATION), local.head(3), "local linear velocity");
    eqMat(r.w.getTagVelocityInLocal(TAGS[which], SpT::ROTATION), local.tail(3), "local angular velocity");
    vp_check(throws([&] { r.w.getTagVelocityInLocal(TAGS[which], SpT::UNDEFINED); }), "unsupported velocity is rejected");
    eqMat(r.w.getTagVelocityInGlobal(r.b.m, TAGS[which], local, SpT::TRANSLATION), lin, "velocity of a link");
    eqMat(r.w.getTagVelocityInGlobal(r.b.m, TAGS[which], local, SpT::ROTATION), ang, "angular velocity of a link");
    eqMat(r.w.getTagVelocityInGlobal(r.b.m, TAGS[which], local, SpT::COMPLETE), stack(ang, lin), "complete velocity of a link");
    vp_check(throws([&] { r.w.getTagVelocityInGlobal(r.b.m, TAGS[which], local, SpT::UNDEFINED); }), "unsupported velocity is rejected");
    // the body which carries the camera: velocity of its point which is at the origin of the global frame
    etools::Vector6 base; if (which == 0) base << ang, lin + n.p.cross(ang); else base.setZero();
    eqMat(r.w.getBaseVelocityInGlobal(r.b.m), base, "velocity of the base");
    TaskTagAngularVelocity<F> *t = new TaskTagAngularVelocity<F>(TAGS[which], r.gain, r.k);
    r.form(t);
    r.check(t, n.w, ang, "angular velocity of a link");
    TaskTagCompleteVelocity<F> *u = new TaskTagCompleteVelocity<F>(TAGS[which], r.gain, r.k);
    r.form(u);
    r.check(u, stack(n.w, n.v), stack(ang, lin), "velocity of a link");
    V3 rpy(0.25, -0.5, 0.125);
    TaskTagOrientation<F> *o = new TaskTagOrientation<F>(TAGS[which], rpy, r.gain, r.k);
    r.form(o);
    r.check(o, n.w, rotError(n.o, rpyRef(rpy)), "orientation of a link");
}
VP_HARNESS(ik_task_tags_torso) { tags<TORSO>(); }
VP_HARNESS(ik_task_tags_tibia) { tags<TIBIA>(); }
VP_HARNESS(ik_task_tags_planar) { tags<PLANAR>(); }
template <int F> static void targets()
{
    // desired poses are reached by moving with the given velocity
    Rig<F> r(vp_choose("moving", 1, 3));
    int which = vp_choose("tag", 0, 1), known = vp_choose("known", 0, 1);
    Node &n = r.b.r[TAGS[which]];
    etools::Vector6 target;
    target << 0.25, -0.5, 0.125, symVec("target", 3, -1, 1);
    if (known) r.w.tags_desired_pose_global_[TAGS[which]] = target;
    M e(6, 1);
    e.setZero();
    if (known) e << rotError(n.o, rpyRef(target.head(3))), V3(target.tail(3)) - n.p;
    eqMat(r.w.getTagPoseErrorInGlobal(r.b.m, TAGS[which]), e, "error of the pose of a link");
    TaskTagPose<F> *t = new TaskTagPose<F>(TAGS[which], r.gain, r.k);
    r.form(t);
    r.check(t, stack(n.w, n.v), e, "pose of a link");
    TaskTagPose3Dof<F> *u = new TaskTagPose3Dof<F>(TAGS[which], r.gain, r.k);
    r.form(u);
    e(2) = 0; e(3) = 0; e(4) = 0;
    r.check(u, stack(n.w, n.v), e, "roll, pitch and height of a link");
}
VP_HARNESS(ik_task_targets_torso) { targets<TORSO>(); }
VP_HARNESS(ik_task_targets_tibia) { targets<TIBIA>(); }
VP_HARNESS(ik_task_targets_planar) { targets<PLANAR>(); }
// small rotation in the frame of the link
static void turned(const M &from, const etools::Vector6 &local, const etools::Vector6 &pose)
{
    V3 e = rotError(from, rpyRef(pose.head(3))), v = V3(mul(from, local.tail(3))) * 0.0625;
    for (int i = 0; i < 3; ++i) vp_check(e(i) - v(i) < 0.004 && v(i) - e(i) < 0.004, "desired orientation of a link");
}
template <int F> static void poses()
{
    // the desired position of a link is the one after the control interval
    Bot<F> b(1, false);
    GeneralizedCoordinates<F> g;
    g.root_pose_.setConstant(0.25);
    g.root_pose_.head(2) = symVec("root", 2, -1, 1);
    b.set(g);
    WBCParameters p;
    p.control_interval_ = 0.0625;
    WholeBodyController<F> w(p);
    etools::Vector6 local = symVec("local", 6, -1, 1);
    // any angular velocity moves the orientation, but not the target of the position
    local.tail(3) << 0.25, 0.5, -0.125;
    std::map<std::string, etools::Vector6> v;
    v["l_wrist"] = local;
    w.setTagsVelocity(v);
    w.computeTagsDesiredPoseInGlobal(b.m);
    vp_check(w.tags_desired_pose_global_.size() == 1 && w.tags_desired_pose_global_.count("l_wrist"), "targets of links which move");
    Node &n = b.r["l_wrist"];
    eqMat(w.tags_desired_pose_global_["l_wrist"].tail(3), V3(n.p + 0.0625 * V3(mul(n.o, local.head(3)))), "desired position of a link");
    turned(n.o, local, w.tags_desired_pose_global_["l_wrist"]);
    // the next interval: the robot has moved, the link is stopped or gets another velocity
    g.root_pose_.head(2) = symVec("next_root", 2, -1, 1);
    g.root_pose_(g.root_pose_.rows() - 1) = 0.5;
    b.set(g);
    int next = vp_choose("next", 0, 3);
    if (next == 0)
        local.setZero();
    else
        local.head(3) = symVec("next_local", 3, -1, 1);
    if (next == 2) local.tail(3).setZero();
    if (next == 3) local.tail(3) << -0.5, 0.25, 0.5;
    v["l_wrist"] = local;
    w.setTagsVelocity(v);
    w.computeTagsDesiredPoseInGlobal(b.m);
    vp_check(w.tags_desired_pose_global_.size() == 1, "targets of links which still move");
    Node &l = b.r["l_wrist"];
    eqMat(w.tags_desired_pose_global_["l_wrist"].tail(3), V3(l.p + 0.0625 * V3(mul(l.o, local.head(3)))), "next desired position of a link");
    turned(l.o, local, w.tags_desired_pose_global_["l_wrist"]);
}
VP_HARNESS(ik_desired_poses_tibia) { poses<TIBIA>(); }
VP_HARNESS(ik_desired_poses_planar) { poses<PLANAR>(); }
VP_HARNESS(ik_desired_orientation)
{
    // rotation about one of the axes of the base
    int axis = vp_choose("axis", 0, 2);
    Bot<PLANAR> b(1, false);
    GeneralizedCoordinates<PLANAR> g;
    g.root_pose_.setZero();
    b.set(g);
    WBCParameters p;
    p.control_interval_ = 0.0625;
    WholeBodyController<PLANAR> w(p);
    etools::Vector6 local;
    local.setZero();
    local(3 + axis) = vp_real("velocity", -2, 2);
    std::map<std::string, etools::Vector6> v;
    v["base_footprint"] = local;
    w.setTagsVelocity(v);
    w.computeTagsDesiredPoseInGlobal(b.m);
    // first order: the result points in the direction of (1, velocity * interval)
    M r = rpyRef(w.tags_desired_pose_global_["base_footprint"].head(3));
    double d = local(3 + axis) * 0.0625;
    int i = (axis + 1) % 3, j = (axis + 2) % 3;
    vp_eq(r(j, i), d * r(i, i), "desired orientation of a link");
    vp_eq(r(axis, axis), 1, "axis of the desired rotation of a link");
    vp_check(r(i, i) > 0, "direction of the desired rotation of a link");
}
template <int F> static void joints()
{
    typedef ModelDescription<F> D;
    Rig<F> r(0, false);
    GeneralizedCoordinates<F> g;
    V current = symVec("angle", 15, -2, 2);
    g.joint_angles_ = current;
    r.b.m.updateState(g);
    const int *id = jointIds<F>(), n = D::ROOT_DOF_NUMBER;
    Ref &f = r.b.r;
    // fixed joints
    const char *arms[10] = {"LShoulderPitch", "LShoulderRoll", "LElbowYaw", "LElbowRoll", "LWristYaw", "RShoulderPitch", "RShoulderRoll", "RElbowYaw", "RElbowRoll", "RWristYaw"}, *head[2] = {"HeadYaw", "HeadPitch"};
    for (int k = 0; k < 2; ++k)
    {
        std::set<std::size_t> want, have;
        humoto::IndexVector ind;
        if (k == 0) { TaskFixArms<F> *t = new TaskFixArms<F>; r.form(t); ind = t->getIndices(); }
        else { TaskFixHead<F> *t = new TaskFixHead<F>; r.form(t); ind = t->getIndices(); }
        for (int i = 0; i < (k ? 2 : 10); ++i)
            for (std::size_t j = 0; j < f.joints.size(); ++j)
                if (f.joints[j] == (k ? head[i] : arms[i])) want.insert(n + j);
        for (int i = 0; i < (int)ind.size(); ++i) have.insert(ind[i]);
        vp_check(want == have && (int)ind.size() == (int)want.size(), k ? "joints of the head" : "joints of the arms");
    }
    // bounds: after any admissible motion the joints are within their limits
    TaskJointsBounds<F> *t = new TaskJointsBounds<F>;
    r.form(t);
    vp_check(t->getIndices().size() == 15 && t->getLowerBounds().rows() == 15 && t->getUpperBounds().rows() == 15, "all joints are bounded");
    TaskJointsReference<F> *u = new TaskJointsReference<F>(r.gain, r.k);
    V lb = t->getLowerBounds(), ub = t->getUpperBounds();
    humoto::IndexVector ind = t->getIndices();
    r.form(u);
    vp_check(u->getIndices().size() == 15 && u->getB().rows() == 15 && u->getIGains().rows() == 15, "all joints have references");
    V def = GeneralizedCoordinates<F>().joint_angles_;
    for (int i = 0; i < 15; ++i)
    {
        int j = (int)ind[i] - n;
        vp_check(j == i && (int)u->getIndices()[i] == n + i, "order of joints");
        Urdf::Jnt jn = f.u.joints[f.joints[i]];
        vp_eq(current(i) + lb(i), jn.lower, "lower bound of a joint");
        vp_eq(current(i) + ub(i), jn.upper, "upper bound of a joint");
        vp_eq(u->getIGains()(i), r.gain, "gain of the reference of a joint");
        vp_eq(u->getB()(i), r.gain * r.k * (def(i) - current(i)), "reference of a joint");
    }
    (void)id;
}
VP_HARNESS(ik_task_joints_torso) { joints<TORSO>(); }
VP_HARNESS(ik_task_joints_tibia) { joints<TIBIA>(); }
VP_HARNESS(ik_task_joints_planar) { joints<PLANAR>(); }
template <int F> static void controller()
{
    Rig<F> r(0, false);
    typedef ModelDescription<F> D;
    humoto::Solution s;
    s.initialize(r.w.getSolutionStructure(), 0.0);
    vp_check((int)s.x_.rows() == D::DOF_NUMBER, "number of variables");
    V x = symVec("x", D::DOF_NUMBER, -1, 1);
    s.x_ = x;
    GeneralizedCoordinates<F> next;
    int times = vp_choose("times", 0, 1);
    next = r.w.getNextGeneralizedCoordinates(s, r.b.m);
    eqMat(next.asVector(), V(r.b.q + x), "next generalized coordinates");
    eqMat(r.b.m.getState().asVector(), r.b.q, "the model is not moved");
    vp_check(throws([&] { r.w.getNextGeneralizedCoordinates(s, r.b.m); }), "a solution is used once");
    if (times)
    {
        r.b.m.updateState(next);
        MotionParameters p = r.p;
        p.base_com_position_ *= 2;
        r.w.update(r.b.m, p);
        eqMat(r.w.motion_parameters_.base_com_position_, V3(2 * r.p.base_com_position_), "motion parameters");
        next = r.w.getNextGeneralizedCoordinates(s, r.b.m);
        eqMat(next.asVector(), V(r.b.q + 2 * x), "next generalized coordinates");
    }
}
VP_HARNESS(ik_controller_torso) { controller<TORSO>(); }
VP_HARNESS(ik_controller_tibia) { controller<TIBIA>(); }
VP_HARNESS(ik_controller_planar) { controller<PLANAR>(); }
template <int F> struct Hierarchy : public humoto::pepper_ik::ConfigurableOptimizationProblem<F>
{
    using humoto::pepper_ik::ConfigurableOptimizationProblem<F>::getTask;
};
template <int F> static void names()
{
    Hierarchy<F> h;
#define NAMED(t) { humoto::TaskSharedPointer p = h.getTask(#t); vp_check(p && dynamic_cast<humoto::pepper_ik::t<F> *>(p.get()), "names of tasks"); }
    NAMED(TaskBaseCoMTracking) NAMED(TaskBaseOrientation) NAMED(TaskBodyCoMTracking) NAMED(TaskFixArms) NAMED(TaskFixHead) NAMED(TaskJointsBounds)
    NAMED(TaskJointsReference) NAMED(TaskTagOrientation) NAMED(TaskTagAngularVelocity) NAMED(TaskTagCompleteVelocity) NAMED(TaskTagPose) NAMED(TaskTagPose3Dof)
    vp_check(dynamic_cast<humoto::TaskZeroVariables *>(h.getTask("TaskZeroVariables").get()), "names of tasks of the library");
    vp_check(!h.getTask("TaskNothing"), "unknown tasks do not exist");
}
VP_HARNESS(ik_task_names) { names<TORSO>(); names<TIBIA>(); names<PLANAR>(); }
template <int F> struct Configured : public Hierarchy<F>
{
    humoto::TaskSharedPointer only()
    {
        if (this->hierarchy_.size() != 1 || this->hierarchy_[0].tasks_.size() != 1) return humoto::TaskSharedPointer();
        return this->hierarchy_[0].tasks_.begin()->ptr_;
    }
};
// tasks do what their configuration says
template <int F> static void configured()
{
    static const char *names[12] = {"TaskBaseCoMTracking", "TaskBaseOrientation", "TaskBodyCoMTracking", "TaskFixArms", "TaskFixHead", "TaskJointsBounds", "TaskJointsReference", "TaskTagOrientation", "TaskTagAngularVelocity", "TaskTagCompleteVelocity", "TaskTagPose", "TaskTagPose3Dof"};
    int c = vp_choose("class", 0, 11), again = vp_choose("again", 0, 1);
    Bot<F> b(1);
    double gain = vp_bool("small") ? 0.25 : vp_real("gain", 1.125, 4), k = vp_real("k", 0.125, 2);
    std::vector<std::vector<std::string> > cls(1), id(1);
    cls[0].push_back(names[c]); id[0].push_back("x");
    V3 rpy(0.25, -0.5, 0.125);
    V angles = symVec("reference", 15, -1, 1);
    std::string file = cfgFile();
    {
        CfgWriter w(file);
        w.initRoot();
        w.descend("Hierarchy", 3);
        w.writeCompound(cls, "task_class_names");
        w.writeCompound(id, "task_ids");
        bool tag = c >= 7, none = c >= 3 && c <= 5;
        w.descend("x", c == 5 ? 0 : none ? 0 : 2 + (c == 2) + (c == 6) + tag + (c == 7));
        if (!none)
        {
            w.writeScalar(gain, "gain");
            w.writeScalar(k, c == 0 || c == 2 || c == 6 ? "k_position_gain" : c == 1 || c == 7 ? "k_orientation_gain" : c == 8 ? "k_angular_velocity_gain" : c == 9 ? "k_complete_velocity_gain" : "k_pose_gain");
            if (c == 2) w.writeScalar((int)(humoto::AxisIndex::FLAG_X | humoto::AxisIndex::FLAG_Z), "axis_flag");
            if (c == 6) w.writeCompound(angles, "joint_angles_reference");
            if (tag) w.writeScalar(std::string("l_wrist"), "tag_string_id");
            if (c == 7) w.writeCompound(rpy, "reference_rpy");
        }
        w.ascend();
        w.ascend();
        w.flush();
    }
    Configured<F> h;
    h.template readConfig<CfgReader>(file, "Hierarchy");
    if (again)
    {
        // what has been read can be written
        std::string copy = cfgFile();
        h.template writeConfig<CfgWriter>(copy, "Hierarchy");
        Configured<F> other;
        other.template readConfig<CfgReader>(copy, "Hierarchy");
        h = other;
    }
    humoto::TaskSharedPointer t = h.only();
    vp_check(bool(t), "the only task of a hierarchy");
    if (!t) return;
    MotionParameters p;
    p.base_com_position_ = symVec("base", 3, -1, 1);
    p.body_com_position_ = symVec("body", 3, -1, 1);
    p.base_orientation_rpy_ << 0, 0, 0.5;
    WholeBodyController<F> w;
    w.update(b.m, p);
    etools::Vector6 local = symVec("local", 6, -1, 1), target;
    target << 0.5, 0.25, -0.125, symVec("target", 3, -1, 1);
    std::map<std::string, etools::Vector6> v;
    v["l_wrist"] = local;
    w.setTagsVelocity(v);
    w.tags_desired_pose_global_["l_wrist"] = target;
    humoto::Solution s;
    h.form(s, b.m, w);
    Ref::Mass base = b.r.mass(1), body = b.r.mass(2);
    Node &n = b.r["l_wrist"], &foot = b.r["base_footprint"];
    M vel, val;
    switch (c)
    {
        case 0: vel = base.v / base.m; val = p.base_com_position_ - base.p / base.m; if (F == PLANAR) { vel.conservativeResize(2, 1); val.conservativeResize(2, 1); } break;
        case 1: vel = foot.w; val = rotError(foot.o, rpyRef(p.base_orientation_rpy_)); if (F == PLANAR) { vel = M(vel.bottomRows(1)); val = M(val.bottomRows(1)); } break;
        case 2: vel.resize(2, 1); val.resize(2, 1); vel << body.v(0) / body.m, body.v(2) / body.m; val << p.body_com_position_(0) - body.p(0) / body.m, p.body_com_position_(2) - body.p(2) / body.m; break;
        case 3: case 4: case 5: vp_reach("tasks without parameters"); return;
        case 6:
        {
            TaskJointsReference<F> &u = dynamic_cast<TaskJointsReference<F> &>(*t);
            eqMat(u.getIGains(), V(V::Constant(15, gain)), "gain of references of joints");
            eqMat(u.getB(), V(gain * k * (angles - b.g.joint_angles_)), "references of joints");
            return;
        }
        case 7: vel = n.w; val = rotError(n.o, rpyRef(rpy)); break;
        case 8: vel = n.w; val = mul(n.o, local.tail(3)); break;
        case 9: vel = stack(n.w, n.v); val = stack(mul(n.o, local.tail(3)), mul(n.o, local.head(3))); break;
        default: vel = stack(n.w, n.v); val.resize(6, 1); val << rotError(n.o, rpyRef(target.head(3))), V3(target.tail(3)) - n.p; if (c == 11) { val(2) = 0; val(3) = 0; val(4) = 0; }
    }
    humoto::TaskAB &u = dynamic_cast<humoto::TaskAB &>(*t);
    vp_check(u.getA().rows() == vel.rows() && u.getB().rows() == val.rows(), "size of a configured task");
    if (u.getA().rows() != vel.rows() || u.getB().rows() != val.rows()) return;
    eqMat(mul(u.getA(), b.dq), gain * vel, "motion in a configured task");
    eqMat(u.getB(), gain * k * val, "value in a configured task");
}
VP_HARNESS(ik_configured_torso) { configured<TORSO>(); }
VP_HARNESS(ik_configured_planar) { configured<PLANAR>(); }
