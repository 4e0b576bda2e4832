// VP: stubs=msgpack
#include "config_mem.h"
#include "common.h"
#include "humoto/walking.h"
using namespace humoto::walking;
typedef Eigen::MatrixXd M;
typedef humoto::LeftOrRight LR;
typedef PointMassModel6z PM;
// ------------------------------------------------------------------ the point mass
// Motion for a linearly moving center of pressure z(t) = z0 + v t:  c'' = w^2 (c - z)
struct Motion { double c, d, a; };
static Motion move(double c, double d, double a, double u, double w, double T, double t)
{
    double z = c - a / (w * w), v = (u - z) / T;
    double C = std::cosh(t * w), S = std::sinh(t * w);
    Motion m;
    double p = a / (w * w), q = d - v;          // p = c - z at the beginning
    m.c = z + v * t + p * C + q / w * S;
    m.d = v + p * w * S + q * C;
    m.a = w * w * (p * C + q / w * S);
    return m;
}
VP_HARNESS(motion)
{
    double w = vp_real("w", 0.5, 10), T = vp_real("T", 0.015625, 2), t = vp_choose("end", 0, 1) ? T : vp_real("t", 0, 2);
    etools::Vector3 x = symVec("x", 3), y = symVec("y", 3);
    etools::Vector2 u = symVec("u", 2);
    Motion mx = move(x(0), x(1), x(2), u(0), w, T, t), my = move(y(0), y(1), y(2), u(1), w, T, t);
    double s = w * w * T;
    etools::Vector3 r = (PM::getA3(t, w, T) * x + PM::getB3(t, w, T) * u(0)) * s;
    etools::Vector3 e(mx.c * s, mx.d * s, mx.a * s);
    eqMat(r, e, "one axis");
    etools::Vector6 f, g;
    f << x, y;
    g << mx.c, mx.d, mx.a, my.c, my.d, my.a;
    eqMat(M((PM::getA6(t, w, T) * f + PM::getB6(t, w, T) * u) * s), M(g * s), "two axes");
}
VP_HARNESS(whole_interval)
{
    double w = vp_real("w", 0.5, 10), T = vp_real("T", 0.015625, 2);
    eqMat(PM::getA3(T, w), PM::getA3(T, w, T), "whole sampling interval");
    eqMat(PM::getB3(T, w), PM::getB3(T, w, T), "whole sampling interval");
    eqMat(PM::getA6(T, w), PM::getA6(T, w, T), "whole sampling interval");
    eqMat(PM::getB6(T, w), PM::getB6(T, w, T), "whole sampling interval");
}
VP_HARNESS(cop)
{
    double h = vp_real("h", 0.125, 4), T = vp_real("T", 0.015625, 2);
    double w = PM::getOmega(h);
    vp_eq(w * w * h, humoto::g_gravitational_acceleration, "natural frequency");
    vp_check(w > 0, "natural frequency is positive");
    double ww = vp_real("w", 0.5, 10);
    etools::Vector6 x = symVec("x", 6);
    etools::Vector2 u = symVec("u", 2);
    etools::Vector2 z = PM::getDdz6(h) * x;
    double g = humoto::g_gravitational_acceleration;
    vp_eq(z(0) * g, x(0) * g - h * x(2), "center of pressure");
    vp_eq(z(1) * g, x(3) * g - h * x(5), "center of pressure");
    // velocity of the center of pressure
    etools::Vector2 v = PM::getD6(T, ww) * x + PM::getE6(T, ww) * u;
    for (int i = 0; i < 2; ++i)
    {
        vp_eq(v(i) * T * ww * ww, (u(i) - x(3 * i)) * ww * ww + x(3 * i + 2), "velocity of the center of pressure");
        vp_eq((PM::getD3(T, ww) * x.segment(3 * i, 3))(0) + PM::getE3(T) * u(i), v(i), "velocity of the center of pressure on one axis");
    }
    etools::Vector2 p = PM::getDcpv6(ww) * x;
    for (int i = 0; i < 2; ++i) vp_eq(p(i) * ww, x(3 * i + 1) * ww + x(3 * i + 2), "velocity of the capture point");
}
VP_HARNESS(conversion)
{
    double h = vp_real("h", 0.125, 4);
    etools::Vector6 x = symVec("x", 6);
    humoto::rigidbody::PointMassState s = PM::convertCoMState(x, h);
    eqMat(s.position_, etools::Vector3(x(0), x(3), h), "position");
    eqMat(s.velocity_, etools::Vector3(x(1), x(4), 0), "velocity");
    eqMat(s.acceleration_, etools::Vector3(x(2), x(5), 0), "acceleration");
    eqMat(PM::convertCoMState(s), x, "conversion to a state and back");
}
// evaluation with particular sampling intervals: the motion does not depend on how the interval is divided
VP_HARNESS(evaluation)
{
    double T = vp_choose("T", 0, 1) ? 0.1 : 0.8, h = vp_choose("h", 0, 1) ? 0.8 : 1.3;
    double a = T * vp_choose("a", 0, 4) / 4., b = (T - a) * vp_choose("b", 0, 2) / 2.;
    double w = std::sqrt(humoto::g_gravitational_acceleration / h);
    etools::Vector6 x = symVec("x", 6);
    etools::Vector2 u = symVec("u", 2);
    for (int k = 0; k < 2; ++k)
    {
        double t = k ? a + b : a;
        humoto::rigidbody::PointMassState s = PM::evaluate(t, T, h, x, u);
        Motion mx = move(x(0), x(1), x(2), u(0), w, T, t), my = move(x(3), x(4), x(5), u(1), w, T, t);
        eqMat(s.position_, etools::Vector3(mx.c, my.c, h), "position of the center of mass");
        eqMat(s.velocity_, etools::Vector3(mx.d, my.d, 0), "velocity of the center of mass");
        eqMat(s.acceleration_, etools::Vector3(mx.a, my.a, 0), "acceleration of the center of mass");
        vp_eq(mx.c - mx.a / (w * w), (x(0) - x(2) / (w * w)) * (1 - t / T) + u(0) * t / T, "center of pressure moves linearly");
    }
    if (a < T)
    {
        humoto::rigidbody::PointMassState s = PM::evaluate(a, T, h, x, u);
        humoto::rigidbody::PointMassState s1 = PM::evaluate(b, T - a, h, PM::convertCoMState(s), u), s2 = PM::evaluate(a + b, T, h, x, u);
        eqMat(s1.position_, s2.position_, "two parts of a sampling interval");
        eqMat(s1.velocity_, s2.velocity_, "two parts of a sampling interval");
        eqMat(s1.acceleration_, s2.acceleration_, "two parts of a sampling interval");
    }
}
// ------------------------------------------------------------------ feet
struct Feet
{
    double step, min, max, dist, length, width;
    RobotFootParameters p;
    Feet(bool config)
    {
        if (!config) { step = 0.2; min = 0.19; max = 0.3; dist = 0.19; length = 0.1372; width = 0.058; return; }
        step = vp_real("max_step_len", 0, 1); min = vp_real("min_feet_dist", 0, 1); max = vp_real("max_feet_dist", 0, 1);
        dist = vp_real("feet_dist_default", 0, 1); length = vp_real("foot_length", 0, 1); width = vp_real("foot_width", 0, 1);
        CfgSection c("RobotFootParameters");
        c.num("foot_width", width).num("max_step_len", step).num("min_feet_dist", min).num("max_feet_dist", max).num("feet_dist_default", dist).num("foot_length", length);
        std::string f = c.write();
        CfgReader r(f);
        unlink(f.c_str());
        p.readConfig(r);
    }
};
static M bounds(double a, double b, double c, double d) { M m(2, 2); m << a, b, c, d; return m; }
VP_HARNESS(feet)
{
    Feet f(vp_choose("config", 0, 1));
    vp_half_angles();
    double a = vp_real("theta", -3, 3);
    etools::Matrix2 R;
    R << cos(a), -sin(a), sin(a), cos(a);
    etools::Vector2 p = symVec("p", 2);
    for (int k = 0; k < 2; ++k)
    {
        LR::Type s = k ? LR::LEFT : LR::RIGHT;
        double g = k ? 1 : -1;
        // the foot is on its side of the center of both feet
        etools::Vector2 q = f.p.getFootPositionFromADS(s, R, p);
        eqMat(q, etools::Vector2(p(0) - sin(a) * g * f.dist / 2, p(1) + cos(a) * g * f.dist / 2), "position of a foot in double support");
        eqMat(f.p.getADSPositionFromFoot(s, R, p), etools::Vector2(p(0) + sin(a) * g * f.dist / 2, p(1) - cos(a) * g * f.dist / 2), "center of feet");
        eqMat(f.p.getADSPositionFromFoot(s, R, q), p, "the foot in double support and back");
        // bounds of the next step
        if (k) eqMat(f.p.getFootBounds(s, FootBoundsType::WITH_RESPECT_TO_SS), bounds(-f.step, f.step, f.min, f.max), "bounds of the next left step");
        else eqMat(f.p.getFootBounds(s, FootBoundsType::WITH_RESPECT_TO_SS), bounds(-f.step, f.step, -f.max, -f.min), "bounds of the next right step");
        M fixed = bounds(0, 0, g * f.dist / 2, g * f.dist / 2);
        eqMat(f.p.getFootBounds(s, FootBoundsType::ALIGNED_TO_SS), fixed, "aligned step");
        eqMat(f.p.getFootBounds(s, FootBoundsType::WITH_RESPECT_TO_ADS), fixed, "step from double support");
        vp_check(throws([&] { f.p.getFootBounds(s, FootBoundsType::UNDEFINED); }), "undefined type of bounds is rejected");
        // a step aligned to single support leads to the center of feet, a step from there leads to the foot
        etools::Vector2 local(0, -g * f.dist / 2);
        eqMat(M(R * f.p.getFootBounds(LR::invert(s), FootBoundsType::ALIGNED_TO_SS).col(0) + p), f.p.getADSPositionFromFoot(s, R, p), "aligned step leads to the center of feet");
        eqMat(M(R * f.p.getFootBounds(s, FootBoundsType::WITH_RESPECT_TO_ADS).col(1) + p), q, "step from double support leads to the foot");
    }
    eqMat(f.p.getSSCoPBounds(), bounds(-f.length / 2, f.length / 2, -f.width / 2, f.width / 2), "bounds in single support");
    eqMat(f.p.getADSCoPBounds(), bounds(-f.length / 2, f.length / 2, -(f.width + f.dist) / 2, (f.width + f.dist) / 2), "bounds in double support");
}
