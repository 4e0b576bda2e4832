// VP: stubs=rbdl
#include "rbdl_model.h"
using namespace humoto::rbdl;
static V3 sym3(const char *n, double r = 2) { return V3(symVec(n, 3, -r, r)); }
static M fixedRot(int k)
{
    M r = M::Identity(3, 3);
    if (k == 1) r << 0.6, -0.8, 0, 0.8, 0.6, 0, 0, 0, 1;
    if (k == 2) r << 1, 0, 0, 0, 0, -1, 0, 1, 0;
    return r;
}
static const V3 EX(1, 0, 0), EY(0, 1, 0), EZ(0, 0, 1), O(0, 0, 0), SK(0.6, 0, 0.8);
// trees with different joints; mass 0 for bodies which are only passed through
static Tree tree(int k)
{
    Tree t;
    V3 a = sym3("a"), c = sym3("c");
    switch (k)
    {
        case 0: // arm with a fixed tip
            t.add(-1, REVOLUTE, EZ, O, fixedRot(2), 1.5, V3(0.25, 0, 0.5));
            t.add(0, REVOLUTE, EY, a, fixedRot(1), 2, c);
            t.add(1, FIXED, O, V3(0.5, -0.25, 0), fixedRot(2), 0, O);
            break;
        case 1: // sliding base, inclined axis
            t.add(-1, PRISMATIC, EX, V3(1, 2, 3), fixedRot(1), 0.5, O);
            t.add(0, REVOLUTE, SK, a, fixedRot(0), 3, c);
            t.add(1, PRISMATIC, SK, V3(0, 0.5, 0), fixedRot(2), 0.5, V3(0.25, 0.5, -0.25));
            break;
        case 2: // branches
            t.add(-1, REVOLUTE, EX, V3(0, 0, 1), fixedRot(0), 1, c);
            t.add(0, REVOLUTE, EZ, a, fixedRot(1), 2, V3(0, 0.25, 0.25));
            t.add(0, REVOLUTE, EY, V3(0.5, 0, -0.5), fixedRot(2), 1, V3(0.5, 0, 0));
            t.add(1, PRISMATIC, EY, O, fixedRot(0), 4, V3(0, 1, 0));
            break;
        case 3: // free base
            t.add(-1, TRANSLATION, O, O, fixedRot(0), 0, O);
            t.add(0, EULER, O, O, fixedRot(0), 2.5, c);
            t.add(1, PRISMATIC, EX, V3(0.25, 0.5, 1), fixedRot(0), 1.5, V3(0, 0, 0.5));
            break;
        case 4: // custom joint
            t.add(-1, REVOLUTE, EX, V3(0, 1, 0), fixedRot(1), 1, V3(1, 0, 0));
            t.add(0, HELICAL, O, a, fixedRot(2), 3, c);
            break;
        case 5: // bodies attached to the root and to each other
            t.add(-1, FIXED, O, V3(1, 0, 2), fixedRot(1), 0, O);
            t.add(0, FIXED, O, V3(0, 0.5, 0), fixedRot(2), 0, O);
            t.add(1, REVOLUTE, EY, a, fixedRot(1), 2, c);
            t.add(2, FIXED, O, V3(0.5, 0, 0), fixedRot(2), 0, O);
            t.add(3, FIXED, O, V3(0, 0, 0.25), fixedRot(1), 0, O);
            t.add(3, PRISMATIC, EZ, V3(0.5, 0.5, 0), fixedRot(0), 1, V3(0, 0.5, 0));
            break;
    }
    return t;
}
struct Robot
{
    Tree t;
    Model m;
    Eigen::VectorXd dq;
    Robot(int k, bool moving = true)
    {
        vp_half_angles();
        t = tree(k);
        rb::Model r;
        t.build(r);
        rb::Addons::vpModels()["tree"] = r;
        m.load("tree");
        Eigen::VectorXd q = symVec("q", t.dof, -3, 3);
        dq = moving ? symVec("dq", t.dof, -1, 1) : Eigen::VectorXd(Eigen::VectorXd::Zero(t.dof));
        m.update(q);
        t.move(q, dq);
    }
};
VP_HARNESS(transform)
{
    // motion of a point of a body from the motion expressed at the origin of the root frame
    V3 p = sym3("p");
    int cols = vp_choose("cols", 1, 3);
    M a = symMat("m", 6, cols), full = M::Constant(8, 5, 7.0);
    SpatialTransformWithoutRotation x(p);
    M top = a.topRows(3), bottom(3, cols);
    for (int i = 0; i < cols; ++i) bottom.col(i) = V3(a.col(i).tail(3)) + cross(V3(a.col(i).head(3)), p);
    x.applySelective<SpatialType::COMPLETE>(full.block(1, 1, 6, cols), a);
    eqMat(full.block(1, 1, 3, cols), top, "angular part of the complete motion");
    eqMat(full.block(4, 1, 3, cols), bottom, "linear part of the complete motion");
    full.block(1, 1, 6, cols).setConstant(7);
    eqMat(full, M::Constant(8, 5, 7.0), "nothing outside of the block is changed");
    x.applySelective<SpatialType::ROTATION>(full.block(2, 1, 3, cols), a);
    eqMat(full.block(2, 1, 3, cols), top, "angular part of the motion");
    full.block(2, 1, 3, cols).setConstant(7);
    x.applySelective<SpatialType::TRANSLATION>(full.block(2, 2, 3, cols), a);
    eqMat(full.block(2, 2, 3, cols), bottom, "linear part of the motion");
    full.block(2, 2, 3, cols).setConstant(7);
    eqMat(full, M::Constant(8, 5, 7.0), "nothing outside of the block is changed");
    vp_check(SpatialType::getNumberOfElements(SpatialType::COMPLETE) == 6 && SpatialType::getNumberOfElements(SpatialType::ROTATION) == 3 && SpatialType::getNumberOfElements(SpatialType::TRANSLATION) == 3, "sizes of motions");
    vp_check(throws([&] { SpatialType::getNumberOfElements(SpatialType::UNDEFINED); }), "undefined type of motion is rejected");
    vp_check(throws([&] { x.applySelective<SpatialType::UNDEFINED>(full.block(0, 0, 3, cols), a); }), "undefined type of motion is rejected");
}
VP_HARNESS(links)
{
    Robot r(vp_choose("tree", 0, 5), false);
    V3 l = sym3("l");
    for (std::size_t i = 0; i < r.t.n.size(); ++i)
    {
        std::string n = Tree::name(i);
        TagLinkPtr link = r.m.getLinkTag(n);
        TagPointPtr pt = r.m.getPointTag(n, l);
        eqMat(r.m.getTagPosition(link), r.t.n[i].p, "position of a link");
        eqMat(r.m.getTagOrientation(link), r.t.n[i].o, "orientation of a link");
        eqMat(r.m.getTagPosition(pt), r.t.point(i, l), "position of a point of a link");
        eqMat(r.m.getTagOrientation(pt), r.t.n[i].o, "orientation at a point of a link");
        if (r.t.n[i].kind != FIXED)
        {
            vp_eq(r.m.getTagMass(link), r.t.n[i].mass, "mass of a link");
            eqMat(r.m.getTagPosition(r.m.getLinkCoMTag(n)), r.t.point(i, r.t.n[i].com), "center of mass of a link");
        }
    }
    vp_check((int)r.m.getDOFNumber() == r.t.dof, "number of degrees of freedom");
}
VP_HARNESS(masses_of_fixed_links)
{
    // links which do not move with respect to the previous ones have masses as well
    int k = vp_choose("order", 0, 2);
    Tree t;
    V3 c = sym3("c");
    t.add(-1, FIXED, O, V3(1, 0, 2), fixedRot(2), 0.5, V3(0, 0.25, 0));
    t.add(0, REVOLUTE, EY, V3(0.5, 0, 0), fixedRot(1), 2, c);
    t.add(1, FIXED, O, sym3("a"), fixedRot(2), 1.5, V3(0.25, 0, 0.5));
    t.add(1, PRISMATIC, EZ, V3(0, 0.5, 0), fixedRot(1), 1, V3(0, 0, 0.25));
    rb::Model b; t.build(b);
    rb::Addons::vpModels()["tree"] = b;
    Model m; m.load("tree");
    Eigen::VectorXd q = symVec("q", t.dof, -3, 3), dq = symVec("dq", t.dof, -1, 1);
    m.update(q); t.move(q, dq);
    static const int L[3][3] = {{0, 2, 3}, {3, 2, 0}, {2, 3, 0}};
    std::vector<std::string> some;
    double mass = 0; V3 p(0, 0, 0), v(0, 0, 0);
    for (int j = 0; j < 3; ++j)
    {
        int i = L[k][j];
        const Node &x = t.n[i];
        vp_eq(m.getTagMass(m.getLinkTag(Tree::name(i))), x.mass, "mass of a link");
        eqMat(m.getTagPosition(m.getLinkCoMTag(Tree::name(i))), t.point(i, x.com), "center of mass of a link");
        some.push_back(Tree::name(i));
        mass += x.mass; p += x.mass * t.point(i, x.com); v += x.mass * t.velocity(i, x.com);
    }
    TagPartialCoMPtr part = m.getCoMTag(some);
    M j;
    m.getTagJacobian(j, part);
    vp_eq(m.getTagMass(part), mass, "mass of some of the links");
    eqMat(m.getTagPosition(part) * mass, p, "center of mass of some of the links");
    eqMat(mul(j, dq) * mass, v, "velocity of the center of mass of some of the links");
}
VP_HARNESS(unknown_links)
{
    Robot r(vp_choose("tree", 0, 5), false);
    const char *name = vp_choose("name", 0, 1) ? "body" : "";
    std::vector<std::string> some(2, Tree::name(1));
    some[1] = name;
    vp_check(throws([&] { r.m.getLinkTag(name); }), "unknown links are rejected");
    vp_check(throws([&] { r.m.getPointTag(name, EX); }), "points of unknown links are rejected");
    vp_check(throws([&] { r.m.getLinkCoMTag(name); }), "centers of mass of unknown links are rejected");
    vp_check(throws([&] { r.m.getCoMTag(some); }), "centers of mass of unknown links are rejected");
}
static M rpy(const V3 &e) { return mul(mul(rotAxis(EZ, e(2)), rotAxis(EY, e(1))), rotAxis(EX, e(0))); }
VP_HARNESS(poses)
{
    // one rotation at a time: the angles of poses are compared as rotations
    int k = vp_choose("axis", 0, 2);
    Tree t;
    V3 ax = k == 0 ? EX : k == 1 ? EY : EZ;
    t.add(-1, REVOLUTE, ax, V3(1, 2, 3), fixedRot(0), 1, O);
    t.add(0, FIXED, O, sym3("a"), fixedRot(0), 0, O);
    rb::Model b; t.build(b);
    rb::Addons::vpModels()["tree"] = b;
    Model m; m.load("tree");
    Eigen::VectorXd q = symVec("q", 1, -1.5, 1.5);
    m.update(q); t.move(q, q);
    V3 l = sym3("l");
    for (int i = 0; i < 2; ++i)
    {
        humoto::rigidbody::RigidBodyPose a = m.getTagPose(m.getLinkTag(Tree::name(i))), p = m.getTagPose(m.getPointTag(Tree::name(i), l));
        eqMat(a.position_, t.n[i].p, "position in a pose of a link");
        eqMat(p.position_, t.point(i, l), "position in a pose of a point");
        eqMat(rpy(a.rpy_), t.n[i].o, "orientation in a pose of a link");
        eqMat(rpy(p.rpy_), t.n[i].o, "orientation in a pose of a point");
    }
}
template <SpatialType::Type T> static M jac(const Model &m, TagLinkPtr t) { M j; m.getTagJacobian<T>(j, t); return j; }
template <SpatialType::Type T> static M jac(const Model &m, TagPointPtr t) { M j; m.getTagJacobian<T>(j, t); return j; }
VP_HARNESS(jacobians)
{
    // Jacobian times velocities of joints = velocity of the body
    int k = vp_choose("tree", 0, 5);
    Robot r(k);
    V3 l(0.5, -1, 0.25);
    for (std::size_t i = 0; i < r.t.n.size(); ++i)
    {
        const Node &x = r.t.n[i];
        TagLinkPtr link = r.m.getLinkTag(Tree::name(i));
        TagPointPtr pt = r.m.getPointTag(Tree::name(i), l);
        M lr = mul(jac<SpatialType::ROTATION>(r.m, link), r.dq), lt = mul(jac<SpatialType::TRANSLATION>(r.m, link), r.dq), lc = mul(jac<SpatialType::COMPLETE>(r.m, link), r.dq);
        eqMat(lr, x.w, "angular velocity of a link");
        eqMat(lt, x.v, "velocity of a link");
        eqMat(lc.topRows(3), x.w, "angular velocity of a link in the complete velocity");
        eqMat(lc.bottomRows(3), x.v, "velocity of a link in the complete velocity");
        V3 v = r.t.velocity(i, l);
        M pr = mul(jac<SpatialType::ROTATION>(r.m, pt), r.dq), pp = mul(jac<SpatialType::TRANSLATION>(r.m, pt), r.dq), pc = mul(jac<SpatialType::COMPLETE>(r.m, pt), r.dq);
        eqMat(pr, x.w, "angular velocity at a point");
        eqMat(pp, v, "velocity of a point");
        eqMat(pc.topRows(3), x.w, "angular velocity at a point in the complete velocity");
        eqMat(pc.bottomRows(3), v, "velocity of a point in the complete velocity");
    }
}
VP_HARNESS(center_of_mass)
{
    int k = vp_choose("tree", 0, 5);
    Robot r(k);
    double total = 0; V3 c(0, 0, 0), v(0, 0, 0);
    std::vector<std::string> some;
    double pm = 0; V3 pc(0, 0, 0), pv(0, 0, 0);
    int last = -1;
    for (std::size_t i = 0; i < r.t.n.size(); ++i) if (r.t.n[i].mass > 0) last = i;
    for (std::size_t i = 0; i < r.t.n.size(); ++i)
    {
        const Node &x = r.t.n[i];
        if (x.kind == FIXED || x.mass == 0) continue;
        V3 a = r.t.point(i, x.com), b = r.t.velocity(i, x.com);
        total += x.mass; c += x.mass * a; v += x.mass * b;
        if ((int)i == last || i % 2 == 1)
        {
            some.insert(some.begin(), Tree::name(i));
            pm += x.mass; pc += x.mass * a; pv += x.mass * b;
        }
    }
    TagCoMPtr all = r.m.getCoMTag();
    TagPartialCoMPtr part = r.m.getCoMTag(some);
    M j, p = M::Constant(2, 2, 5);
    r.m.getTagJacobian(j, all);
    r.m.getTagJacobian(p, part);
    vp_eq(r.m.getTagMass(all), total, "total mass");
    vp_eq(r.m.getTagMass(part), pm, "mass of some of the links");
    eqMat(r.m.getTagPosition(all) * total, c, "center of mass");
    eqMat(r.m.getTagPosition(part) * pm, pc, "center of mass of some of the links");
    eqMat(mul(j, r.dq) * total, v, "velocity of the center of mass");
    eqMat(mul(p, r.dq) * pm, pv, "velocity of the center of mass of some of the links");
}
VP_HARNESS(update_twice)
{
    // nothing remains from the previous state
    Robot r(vp_choose("tree", 0, 4));
    Eigen::VectorXd q = symVec("p", r.t.dof, -3, 3);
    r.m.update(q);
    r.t.move(q, r.dq);
    int i = r.t.n.size() - 1;
    TagLinkPtr link = r.m.getLinkTag(Tree::name(i));
    eqMat(r.m.getTagPosition(link), r.t.n[i].p, "position of a link after the second update");
    M j = jac<SpatialType::COMPLETE>(r.m, link);
    M lc = mul(j, r.dq);
    eqMat(lc.topRows(3), r.t.n[i].w, "angular velocity of a link after the second update");
    eqMat(lc.bottomRows(3), r.t.n[i].v, "velocity of a link after the second update");
}
VP_HARNESS(loading)
{
    Tree t = tree(2);
    rb::Model b; t.build(b);
    rb::Addons::vpModels()["tree"] = b;
    ModelParameters p;
    vp_check(p.floating_base_, "the base is not fixed by default");
    p.floating_base_ = vp_choose("floating", 0, 1);
    Model m(p, "tree"), n("tree"), o;
    o.load(p, "tree");
    vp_check(m.model_parameters_.floating_base_ == p.floating_base_ && o.model_parameters_.floating_base_ == p.floating_base_, "parameters of the model are stored");
    vp_eq(m.getTagMass(m.getCoMTag()), 8, "total mass"); vp_eq(n.getTagMass(n.getCoMTag()), 8, "total mass"); vp_eq(o.getTagMass(o.getCoMTag()), 8, "total mass");
    vp_check(throws([&] { Model x("/nonexistent.urdf"); }), "a missing file is rejected");
    o.load("tree");
    vp_eq(o.getTagMass(o.getCoMTag()), 8, "total mass after loading again");
}
