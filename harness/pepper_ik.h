// The robot Pepper: models read from their description files, a reference tree
// which is made from the same files, symbolic motions of some of the joints.
#pragma once
#include "config_mem.h"
#include "rbdl_model.h"
#include "humoto/pepper_ik.h"
using namespace humoto::pepper_ik;
typedef humoto::rbdl::SpatialType SpT;
typedef rb::Addons::VpUrdf Urdf;
typedef Eigen::VectorXd V;
static const int TORSO = ModelFeatures::FIXED_WHEELS | ModelFeatures::ROOT_TORSO;
static const int TIBIA = ModelFeatures::FIXED_WHEELS | ModelFeatures::ROOT_TIBIA;
static const int PLANAR = ModelFeatures::FIXED_WHEELS | ModelFeatures::ROOT_PLANAR;
static const V3 EX(1, 0, 0), EY(0, 1, 0), EZ(0, 0, 1), O(0, 0, 0);
static std::string urdfFile(int f)
{
    return std::string(VP_REPO_DIR) + "/modules/pepper_ik/config/pepper_fixedwheels" + (f == TORSO ? "" : f == TIBIA ? "_roottibia" : "_roottibia_planar") + ".urdf";
}
static const char *JOINTS[15] = {"HeadPitch", "HeadYaw", "HipPitch", "HipRoll", "KneePitch", "LElbowRoll", "LElbowYaw", "LShoulderPitch", "LShoulderRoll", "LWristYaw", "RElbowRoll", "RElbowYaw", "RShoulderPitch", "RShoulderRoll", "RWristYaw"};
template <int F> static const int *jointIds()
{
    typedef ModelDescription<F> D;
    static const int id[15] = {D::HeadPitch, D::HeadYaw, D::HipPitch, D::HipRoll, D::KneePitch, D::LElbowRoll, D::LElbowYaw, D::LShoulderPitch, D::LShoulderRoll, D::LWristYaw, D::RElbowRoll, D::RElbowYaw, D::RShoulderPitch, D::RShoulderRoll, D::RWristYaw};
    return id;
}
static M rpyRef(const V3 &e) { return mul(mul(rotAxis(EZ, e(2)), rotAxis(EY, e(1))), rotAxis(EX, e(0))); }
static V3 rotError(const M &from, const M &to)
{
    V3 r(0, 0, 0);
    for (int i = 0; i < 3; ++i) r += cross(V3(from.col(i)), V3(to.col(i)));
    return V3(0.5 * r);
}
// reference robot
struct Ref
{
    Urdf u;
    Tree t;
    std::map<std::string, int> link;
    std::vector<std::string> joints; // in the order of generalized coordinates, without the root
    int root;
    explicit Ref(const std::string &file) : root(0)
    {
        if (!u.load(file.c_str())) vp_fail("the description of the robot cannot be read");
        grow(u.root(), -1);
    }
    void grow(const std::string &l, int at)
    {
        for (std::map<std::string, Urdf::Jnt>::const_iterator i = u.joints.begin(); i != u.joints.end(); ++i)
        {
            const Urdf::Jnt &j = i->second;
            if (j.parent != l) continue;
            M r = rpyRef(j.rpy), e = M::Identity(3, 3);
            double m = u.links[j.child].mass; V3 c = u.links[j.child].com;
            int n;
            if (j.type == "fixed") n = t.add(at, FIXED, O, j.xyz, r, m, c);
            else if (j.type == "revolute") { n = t.add(at, REVOLUTE, j.axis, j.xyz, r, m, c); joints.push_back(i->first); }
            else
            {
                n = t.add(at, PRISMATIC, EX, j.xyz, r, 0, O);
                n = t.add(n, PRISMATIC, EY, O, e, 0, O);
                if (j.type == "floating")
                {
                    n = t.add(n, PRISMATIC, EZ, O, e, 0, O);
                    n = t.add(n, REVOLUTE, EX, O, e, 0, O);
                    n = t.add(n, REVOLUTE, EY, O, e, 0, O);
                }
                n = t.add(n, REVOLUTE, EZ, O, e, m, c);
                root = t.dof;
            }
            link[j.child] = n;
            grow(j.child, n);
        }
    }
    Node &operator[](const std::string &l) { return t.n[link[l]]; }
    // bodies which move together with the base
    bool inBase(int i) const
    {
        int b = link.find("Tibia")->second;
        for (; i >= 0; i = t.n[i].parent)
        {
            if (i == b) return true;
            if (t.n[i].kind != FIXED) return false;
        }
        return false;
    }
    struct Mass { double m; V3 p, v; };
    // mass, and position and velocity of the center of mass multiplied by the mass; 0: all, 1: base, 2: body
    Mass mass(int part) const
    {
        Mass r; r.m = 0; r.p = O; r.v = O;
        for (std::size_t i = 0; i < t.n.size(); ++i)
        {
            const Node &n = t.n[i];
            if (n.mass == 0 || (part && inBase(i) != (part == 1))) continue;
            r.m += n.mass; r.p += n.mass * t.point(i, n.com); r.v += n.mass * t.velocity(i, n.com);
        }
        return r;
    }
};
// which joints move: 1, 2, 3 - some of the joints; 0, 4, 5 - position of the root and one of its angles (yaw, pitch, roll)
static const char *MOVING[6][2] = {{"", ""}, {"KneePitch", "HipPitch"}, {"HipRoll", "LShoulderRoll"}, {"HeadYaw", "RElbowRoll"}, {"", ""}, {"", ""}};
template <int F> static int chooseMoving() { return vp_choose("moving", 0, F == PLANAR ? 3 : 5); }
template <int F> struct Bot
{
    typedef ModelDescription<F> D;
    Ref r;
    Model<F> m;
    GeneralizedCoordinates<F> g;
    V q, dq;
    explicit Bot(int moving, bool velocities = true, double range = 0.5) : r(urdfFile(F))
    {
        m.loadParameters(urdfFile(F));
        GeneralizedCoordinates<F> before;
        const int *id = jointIds<F>();
        for (int i = 0; i < 15; ++i)
            for (int k = 0; k < 2; ++k)
                if (std::string(JOINTS[i]) == MOVING[moving][k])
                {
                    before.joint_angles_(id[i]) = 0.25;
                    g.joint_angles_(id[i]) = vp_real(JOINTS[i], -range, range);
                }
        int n = D::ROOT_DOF_NUMBER;
        int angle = moving == 0 ? n - 1 : moving > 3 ? 8 - moving : -1;
        for (int i = 0; i < n; ++i)
        {
            bool any = i == angle || (angle >= 0 && i < (n == 3 ? 2 : 3));
            before.root_pose_(i) = any ? 0.5 : 0.25 * (i % 3) - 0.125;
            g.root_pose_(i) = any ? vp_real("root", -1, 1) : before.root_pose_(i);
        }
        // the model has been in another state, which may be close to this one
        m.updateState(before);
        set(g);
        dq = V::Zero(q.rows());
        if (velocities)
            for (int i = 0; i < q.rows(); ++i)
                dq(i) = i < n || i % 3 == moving % 3 ? vp_real("dq", -1, 1) : 0.125 * (i % 5) - 0.25;
        r.t.move(q, dq);
    }
    void set(const GeneralizedCoordinates<F> &x)
    {
        g = x;
        q.resize(D::DOF_NUMBER);
        q << g.root_pose_, g.joint_angles_;
        if (dq.rows() != q.rows()) dq = V::Zero(q.rows());
        m.updateState(g);
        r.t.move(q, dq);
    }
};
