// VP: unchecked=1
// VP: stubs=msgpack stubs=rbdl
#include "pepper_ik.h"
template <int F> static void description()
{
    typedef ModelDescription<F> D;
    Ref r(urdfFile(F));
    const int *id = jointIds<F>();
    vp_check(r.root == D::ROOT_DOF_NUMBER && (int)r.joints.size() == D::JOINTS_DOF_NUMBER && r.t.dof == D::DOF_NUMBER, "number of degrees of freedom");
    typename Model<F>::Constraints c;
    V def(15);
    typename D::JointAnglesVector angles;
    D::getDefaultJointAngles(angles);
    GeneralizedCoordinates<F> g;
    for (int i = 0; i < 15; ++i)
    {
        if (id[i] < 0 || id[i] >= (int)r.joints.size()) { vp_fail("index of a joint"); continue; }
        vp_check(r.joints[id[i]] == JOINTS[i], "order of joints");
        const Urdf::Jnt &j = r.u.joints[JOINTS[i]];
        vp_eq(c.joint_position_bounds_min_(id[i]), j.lower, "lower bound of a joint");
        vp_eq(c.joint_position_bounds_max_(id[i]), j.upper, "upper bound of a joint");
        vp_eq(c.joint_velocity_bounds_(id[i]), j.velocity, "velocity bound of a joint");
        vp_eq(angles(id[i]), g.joint_angles_(id[i]), "default joint angles");
        vp_check(angles(id[i]) >= j.lower && angles(id[i]) <= j.upper, "default joint angles are within their bounds");
    }
    eqMat(g.asVector().head(D::ROOT_DOF_NUMBER), g.root_pose_, "generalized coordinates start with the root");
    eqMat(g.asVector().tail(15), g.joint_angles_, "generalized coordinates end with the joint angles");
    Model<F> m, other;
    vp_check(!throws([&] { m.loadParameters(urdfFile(F)); }), "the model is loaded");
    vp_check(throws([&] { other.loadParameters(urdfFile(F == PLANAR ? TIBIA : PLANAR)); }), "models with another number of degrees of freedom are rejected");
    m.checkCurrentState();
    V q(g.asVector());
    r.t.move(q, V(V::Zero(q.rows())));
    eqMat(m.getBasePosition(), r["base_footprint"].p, "a loaded model is in the default state");
    vp_check(m.getState().asVector() == q, "a loaded model is in the default state");
}
VP_HARNESS(ik_description_torso) { description<TORSO>(); }
VP_HARNESS(ik_description_tibia) { description<TIBIA>(); }
VP_HARNESS(ik_description_planar) { description<PLANAR>(); }
template <int F> static void kinematics()
{
    int moving = chooseMoving<F>();
    Bot<F> b(moving);
    Ref::Mass all = b.r.mass(0), base = b.r.mass(1), body = b.r.mass(2);
    vp_eq(b.m.getMass(), all.m, "mass of the robot");
    vp_eq(b.m.getBaseMass(), base.m, "mass of the base");
    vp_eq(b.m.getBodyMass(), body.m, "mass of the body");
    eqMat(b.m.getCoM() * all.m, all.p, "center of mass of the robot");
    eqMat(b.m.getBaseCoM() * base.m, base.p, "center of mass of the base");
    eqMat(b.m.getBodyCoM() * body.m, body.p, "center of mass of the body");
    M j;
    b.m.getCoMJacobian(j); eqMat(mul(j, b.dq) * all.m, all.v, "velocity of the center of mass");
    b.m.getBaseCoMJacobian(j); eqMat(mul(j, b.dq) * base.m, base.v, "velocity of the center of mass of the base");
    b.m.getBodyCoMJacobian(j); eqMat(mul(j, b.dq) * body.m, body.v, "velocity of the center of mass of the body");
    Node &foot = b.r["base_footprint"];
    eqMat(b.m.getBasePosition(), foot.p, "position of the base");
    eqMat(b.m.getBaseOrientation(), foot.o, "orientation of the base");
    b.m.getBaseOrientationJacobian(j); eqMat(mul(j, b.dq), foot.w, "angular velocity of the base");
    const char *names[3] = {"CameraTop_optical_frame", "l_wrist", "base_footprint"};
    for (int i = 0; i < 3; ++i)
    {
        Node &n = b.r[names[i]];
        humoto::rbdl::TagLinkPtr tag = b.m.getLinkTag(names[i]);
        eqMat(b.m.getTagPosition(tag), n.p, "position of a link");
        eqMat(b.m.getTagOrientation(tag), n.o, "orientation of a link");
        b.m.getTagOrientationJacobian(j, tag); eqMat(mul(j, b.dq), n.w, "angular velocity of a link");
        b.m.getTagCompleteJacobian(j, tag);
        M v = mul(j, b.dq);
        eqMat(v.topRows(3), n.w, "angular velocity of a link in the complete velocity");
        eqMat(v.bottomRows(3), n.v, "velocity of a link in the complete velocity");
    }
}
VP_HARNESS(ik_kinematics_torso) { kinematics<TORSO>(); }
VP_HARNESS(ik_kinematics_tibia) { kinematics<TIBIA>(); }
VP_HARNESS(ik_kinematics_planar) { kinematics<PLANAR>(); }
VP_HARNESS(ik_same_robot)
{
    // all description files describe the same robot
    int moving = vp_choose("moving", 1, 3);
    Ref a(urdfFile(TORSO)), b(urdfFile(TIBIA)), c(urdfFile(PLANAR));
    double v[2];
    for (int k = 0; k < 2; ++k) v[k] = vp_real(MOVING[moving][k], -0.5, 0.5);
    Ref *all[3] = {&a, &b, &c};
    for (int i = 0; i < 3; ++i)
    {
        V q = V::Zero(all[i]->t.dof);
        for (std::size_t j = 0; j < all[i]->joints.size(); ++j)
            for (int k = 0; k < 2; ++k)
                if (all[i]->joints[j] == MOVING[moving][k]) q(all[i]->root + j) = v[k];
        all[i]->t.move(q, V(V::Zero(q.rows())));
    }
    for (int i = 1; i < 3; ++i)
    {
        Ref &o = *all[i];
        vp_check(o.link.size() == a.link.size(), "number of links");
        Node &fa = a["base_footprint"], &fo = o["base_footprint"];
        for (std::map<std::string, int>::const_iterator l = a.link.begin(); l != a.link.end(); ++l)
        {
            if (!o.link.count(l->first)) { vp_fail("a link is missing in one of the models"); continue; }
            Node &na = a.t.n[l->second], &no = o[l->first];
            eqMat(mul(fo.o.transpose(), no.o), mul(fa.o.transpose(), na.o), ("orientation of " + l->first + " with respect to the base").c_str());
            vp_eq(na.mass, no.mass, ("mass of " + l->first).c_str());
            M pa = mul(fa.o.transpose(), na.p - fa.p), po = mul(fo.o.transpose(), no.p - fo.p);
            if (na.mass != 0)
            {
                pa = pa + mul(mul(fa.o.transpose(), na.o), na.com); po = po + mul(mul(fo.o.transpose(), no.o), no.com);
            }
            for (int k = 0; k < 3; ++k) vp_eq_tol(po(k, 0), pa(k, 0), 1e-4, ("position of " + l->first + " with respect to the base").c_str());
        }
        // the root of the torso is the same point of the robot
        Node &ta = a["torso"], &to = o["torso"];
        V3 off(-2e-05, 0, 0.139);
        M pa = ta.p, po = to.p + V3(mul(to.o, off));
        M da = mul(fa.o.transpose(), pa - fa.p), d = mul(fo.o.transpose(), po - fo.p);
        for (int k = 0; k < 3; ++k) vp_eq_tol(d(k, 0), da(k, 0), 1e-4, "position of the root of the torso with respect to the base");
    }
}
