// Two point masses on a moving base: symbolic state and parameters, reference motion
#pragma once
#include "config_mem.h"
#include "common.h"
#include <deque>
#include "humoto/pepper_mpc.h"
using namespace humoto::pepper_mpc;
typedef Eigen::MatrixXd M;
typedef Eigen::VectorXd V;
typedef etools::Vector2 V2;
typedef humoto::ControlProblemStatus Status;
static M rot(double a) { M r(2, 2); r << cos(a), -sin(a), sin(a), cos(a); return r; }
static V seg(const char *n, int k) { return symVec(n, k); }
struct Robot
{
    double radius, nv, na, mv, ma;        // parameters
    M body;
    double mb, md, hb, hd, theta;         // masses and heights of the base and of the body
    V base, top;                          // (position, velocity, acceleration) for x and y
    Model model;
    ModelState s;
    static double half(double r) { return r / std::sqrt(2.); }
    static M box(double a) { M m(2, 2); m << -a, a, -a, a; return m; }
    explicit Robot(bool symbolic_mass = true, bool parameters = true)
    {
        if (parameters)
        {
            radius = vp_real("base_radius", 0, 2); nv = vp_real("nominal_velocity", 0, 2); na = vp_real("nominal_acceleration", 0, 2);
            mv = vp_real("velocity", 0, 2); ma = vp_real("acceleration", 0, 2);
            body = symMat("body_bounds", 2, 2);
            RobotParameters p;
            p.base_radius_ = radius; p.max_nominal_base_velocity_ = nv; p.max_nominal_base_acceleration_ = na; p.max_base_velocity_ = mv; p.max_base_acceleration_ = ma; p.body_bounds_ = body;
            // derived numbers are computed when the parameters are read
            CfgSection c("RobotParameters");
            c.num("base_radius", radius).num("max_nominal_base_velocity", nv).num("max_nominal_base_acceleration", na).num("max_base_velocity", mv).num("max_base_acceleration", ma);
            std::string f = c.write();
            CfgReader r(f);
            unlink(f.c_str());
            p.readConfig(r, false);
            p.body_bounds_ = body;
            model.setParameters(p);
        }
        else { radius = 0.7; nv = 0.5; na = 1; mv = 1.4; ma = 1.7; body.resize(2, 2); body << -0.06, 0.06, -0.03, 0.03; }
        mb = symbolic_mass ? vp_real("base_mass", 1, 20) : 16.5; md = symbolic_mass ? vp_real("body_mass", 1, 20) : 12.25;
        hb = vp_real("base_height", 0.0625, 2); hd = vp_real("body_height", 0.0625, 2);
        theta = vp_real("theta", -3, 3);
        base = symVec("base", 6); top = symVec("body", 6);
        set();
        model.updateState(s);
    }
    void set()
    {
        s.base_mass_ = mb; s.body_mass_ = md;
        humoto::rigidbody::RigidBodyState b;
        humoto::rigidbody::PointMassState d;
        b.position_ << base(0), base(3), hb; b.velocity_ << base(1), base(4), 0; b.acceleration_ << base(2), base(5), 0;
        d.position_ << top(0), top(3), hd; d.velocity_ << top(1), top(4), 0; d.acceleration_ << top(2), top(5), 0;
        b.rpy_ << 0, 0, theta;
        s.set(b, d);
    }
    // position of the center of pressure with respect to the base: moments of both masses over it vanish
    V cop(const V &b, const V &d) const
    {
        double g = humoto::g_gravitational_acceleration;
        V r(2);
        for (int k = 0; k < 2; ++k)
        {
            double zb = b(3 * k) - hb * b(3 * k + 2) / g, zd = d(3 * k) - hd * d(3 * k + 2) / g;
            r(k) = (mb * zb + md * zd) / (mb + md) - b(3 * k);
        }
        return r;
    }
};
// constant jerk j for time t
static V jerkMotion(const V &x, const V &j, double t)
{
    V r(6);
    for (int k = 0; k < 2; ++k)
    {
        double p = x(3 * k), v = x(3 * k + 1), a = x(3 * k + 2);
        r(3 * k) = p + v * t + a * t * t / 2 + j(k) * t * t * t / 6;
        r(3 * k + 1) = v + a * t + j(k) * t * t / 2;
        r(3 * k + 2) = a + j(k) * t;
    }
    return r;
}
// the jerk which leads to the velocity u in time T
static V jerkFor(const V &x, const V &u, double T)
{
    V j(2);
    for (int k = 0; k < 2; ++k) j(k) = (u(k) - x(3 * k + 1) - x(3 * k + 2) * T) * 2 / (T * T);
    return j;
}
struct PepperMotion
{
    V base, top, cop, jerk;
    std::vector<V> b, d;
    PepperMotion(const Robot &r, const V &u, const V &j, double T)
    {
        int n = u.size() / 2;
        base.resize(6 * n); top.resize(6 * n); cop.resize(2 * n); jerk.resize(2 * n);
        V x = r.base, y = r.top;
        for (int i = 0; i < n; ++i)
        {
            b.push_back(x); d.push_back(y);
            V q = jerkFor(x, u.segment(2 * i, 2), T);
            jerk.segment(2 * i, 2) = q;
            x = jerkMotion(x, q, T);
            y = jerkMotion(y, j.segment(2 * i, 2), T);
            base.segment(6 * i, 6) = x; top.segment(6 * i, 6) = y;
            cop.segment(2 * i, 2) = r.cop(x, y);
        }
        b.push_back(x); d.push_back(y);
    }
    V position(const V &x, int i) const { return V2(x(6 * i), x(6 * i + 3)); }
};
static MotionParameters motion(const char *name, std::ptrdiff_t duration = -1)
{
    char b[40];
    MotionParameters m;
    snprintf(b, 40, "%s_velocity", name); m.base_velocity_ = symVec(b, 2);
    snprintf(b, 40, "%s_position", name); m.base_position_ = symVec(b, 2);
    snprintf(b, 40, "%s_rate", name); m.base_angular_velocity_ = vp_real(b, -2, 2);
    m.duration_ms_ = duration;
    return m;
}
static void eqState(const ModelState &s, const Robot &r, const V &b, const V &d, double theta, const char *what)
{
    eqMat(s.base_state_.position_, etools::Vector3(b(0), b(3), r.hb), what);
    eqMat(s.base_state_.velocity_, etools::Vector3(b(1), b(4), 0), what);
    eqMat(s.base_state_.acceleration_, etools::Vector3(b(2), b(5), 0), what);
    eqMat(s.body_state_.position_, etools::Vector3(d(0), d(3), r.hd), what);
    eqMat(s.body_state_.velocity_, etools::Vector3(d(1), d(4), 0), what);
    eqMat(s.body_state_.acceleration_, etools::Vector3(d(2), d(5), 0), what);
    eqMat(s.base_state_.rpy_, etools::Vector3(0, 0, theta), what);
    vp_eq(s.base_mass_, r.mb, what); vp_eq(s.body_mass_, r.md, what);
}
