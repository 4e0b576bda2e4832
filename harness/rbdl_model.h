// Trees of bodies: built in the RBDL stand-in and, independently, as a reference
// computed by composing the motions of the bodies from the root to the tips.
#pragma once
#include "common.h"
#include "humoto/rigid_body.h"
#include "humoto/rbdl.h"
typedef Eigen::MatrixXd M;
typedef Eigen::Vector3d V3;
namespace rb = RigidBodyDynamics;
using humoto::rbdl::SpatialType;
static M rotAxis(const V3 &a, double q)
{
    M k(3, 3);
    k << 0, -a(2), a(1), a(2), 0, -a(0), -a(1), a(0), 0;
    return M(M::Identity(3, 3) + sin(q) * k + (1 - cos(q)) * mul(k, k));
}
static V3 cross(const V3 &a, const V3 &b) { return V3(a(1) * b(2) - a(2) * b(1), a(2) * b(0) - a(0) * b(2), a(0) * b(1) - a(1) * b(0)); }
enum Kind { FIXED, REVOLUTE, PRISMATIC, EULER, TRANSLATION, HELICAL };
struct Helix : rb::CustomJoint
{
    double pitch;
    Helix(double p) : pitch(p) { mDoFCount = 1; S = M::Zero(6, 1); }
    void jcalc(const double *q)
    {
        XJ.E = rotAxis(V3(0, 0, 1), q[0]).transpose();
        XJ.r = V3(0, 0, pitch * q[0]);
        S << 0, 0, 1, 0, 0, pitch;
    }
};
struct Node
{
    int parent; Kind kind; V3 axis, t; M R; double mass; V3 com;
    // results
    int q; unsigned id; M o; V3 p, w, v;
};
struct Tree
{
    std::vector<Node> n;
    int dof;
    Tree() : dof(0) {}
    int add(int parent, Kind k, const V3 &axis, const V3 &t, const M &R, double mass, const V3 &com)
    {
        Node x; x.parent = parent; x.kind = k; x.axis = axis; x.t = t; x.R = R; x.mass = mass; x.com = com; x.q = dof; x.id = 0;
        dof += k == FIXED ? 0 : k == EULER || k == TRANSLATION ? 3 : 1;
        n.push_back(x);
        return n.size() - 1;
    }
    static std::string name(int i) { std::string s("body"); s += char('a' + i); return s; }
    void build(rb::Model &m)
    {
        for (std::size_t i = 0; i < n.size(); ++i)
        {
            Node &x = n[i];
            unsigned par = x.parent < 0 ? 0 : n[x.parent].id;
            rb::Math::SpatialTransform f(x.R.transpose(), x.t);
            rb::Body b(x.mass, x.com);
            if (x.kind == HELICAL) x.id = m.AddBodyCustomJoint(par, f, new Helix(0.25), b, name(i));
            else
            {
                rb::JointType t = x.kind == FIXED ? rb::JointTypeFixed : x.kind == REVOLUTE ? rb::JointTypeRevolute : x.kind == PRISMATIC ? rb::JointTypePrismatic : x.kind == EULER ? rb::JointTypeEulerXYZ : rb::JointTypeTranslationXYZ;
                x.id = m.AddBody(par, f, rb::Joint(t, x.axis), b, name(i));
            }
        }
    }
    // positions and velocities of all bodies
    void move(const Eigen::VectorXd &q, const Eigen::VectorXd &dq)
    {
        for (std::size_t i = 0; i < n.size(); ++i)
        {
            Node &x = n[i];
            M ro = M::Identity(3, 3); V3 rp(0, 0, 0), rw(0, 0, 0), rv(0, 0, 0);
            if (x.parent >= 0) { ro = n[x.parent].o; rp = n[x.parent].p; rw = n[x.parent].w; rv = n[x.parent].v; }
            M j = mul(ro, x.R);
            V3 step = mul(ro, x.t), dw(0, 0, 0), dv(0, 0, 0);
            M o = j;
            V3 ex(1, 0, 0), ey(0, 1, 0), ez(0, 0, 1);
            switch (x.kind)
            {
                case REVOLUTE: o = mul(j, rotAxis(x.axis, q(x.q))); dw = mul(j, x.axis) * dq(x.q); break;
                case PRISMATIC: step += V3(mul(j, x.axis)) * q(x.q); dv = mul(j, x.axis) * dq(x.q); break;
                case TRANSLATION: step += V3(mul(j, q.segment(x.q, 3))); dv = mul(j, dq.segment(x.q, 3)); break;
                case EULER:
                {
                    M a = rotAxis(ex, q(x.q)), b = rotAxis(ey, q(x.q + 1)), c = rotAxis(ez, q(x.q + 2));
                    o = mul(j, mul(a, mul(b, c)));
                    dw = mul(j, ex * dq(x.q) + V3(mul(a, ey)) * dq(x.q + 1) + V3(mul(a, mul(b, ez))) * dq(x.q + 2));
                    break;
                }
                case HELICAL:
                    o = mul(j, rotAxis(ez, q(x.q))); step += V3(mul(j, ez)) * (0.25 * q(x.q));
                    dw = mul(j, ez) * dq(x.q); dv = mul(j, ez) * (0.25 * dq(x.q));
                    break;
                default: break;
            }
            x.o = o; x.p = rp + step; x.w = rw + dw; x.v = rv + cross(rw, step) + dv;
        }
    }
    V3 point(int i, const V3 &l) const { return n[i].p + V3(mul(n[i].o, l)); }
    V3 velocity(int i, const V3 &l) const { return n[i].v + cross(n[i].w, V3(mul(n[i].o, l))); }
};
