#include "common.h"
#include "humoto/rigid_body.h"
#include "humoto/walking.h"
using namespace humoto::rigidbody;
typedef TrajectoryEvaluationType TT;
// value of a function on [0,1] which is a cubic polynomial: check that d is the derivative of p at t.
// For a cubic, the derivative is determined by p(0), p(1), p'(0), p'(1).
static double hermite(double a, double ad, double b, double bd, double t)
{
    return a + ad * t + (3 * (b - a) - 2 * ad - bd) * t * t + (2 * (a - b) + ad + bd) * t * t * t;
}
static double hermiteV(double a, double ad, double b, double bd, double t)
{
    return ad + 2 * (3 * (b - a) - 2 * ad - bd) * t + 3 * (2 * (a - b) + ad + bd) * t * t;
}
static double hermiteA(double a, double ad, double b, double bd, double t)
{
    return 2 * (3 * (b - a) - 2 * ad - bd) + 6 * (2 * (a - b) + ad + bd) * t;
}
VP_HARNESS(cubic_boundary)
{
    double a = vp_real("a", -4, 4), b = vp_real("b", -4, 4), ad = vp_real("ad", -4, 4), bd = vp_real("bd", -4, 4);
    CubicPolynomial1D c;
    c.initialize(a, ad, b, bd);
    vp_eq(c.getPosition(0), a, "initial position");
    vp_eq(c.getPosition(1), b, "final position");
    vp_eq(c.getVelocity(0), ad, "initial velocity");
    vp_eq(c.getVelocity(1), bd, "final velocity");
    c.initialize(a, b);
    vp_eq(c.getPosition(0), a, "initial position (rest to rest)");
    vp_eq(c.getPosition(1), b, "final position (rest to rest)");
    vp_eq(c.getVelocity(0), 0, "initial velocity (rest to rest)");
    vp_eq(c.getVelocity(1), 0, "final velocity (rest to rest)");
}
VP_HARNESS(cubic_interior)
{
    double a = vp_real("a", -4, 4), b = vp_real("b", -4, 4), ad = vp_real("ad", -4, 4), bd = vp_real("bd", -4, 4);
    double t = vp_real("t", 0, 1);
    CubicPolynomial1D c;
    c.initialize(a, ad, b, bd);
    vp_eq(c.getPosition(t), hermite(a, ad, b, bd, t), "position");
    vp_eq(c.getVelocity(t), hermiteV(a, ad, b, bd, t), "velocity is the derivative of position");
    vp_eq(c.getAcceleration(t), hermiteA(a, ad, b, bd, t), "acceleration is the derivative of velocity");
    vp_eq(c.getJerk(), 6 * (2 * (a - b) + ad + bd), "jerk is the derivative of acceleration");
    vp_eq(c.eval(t, TT::POSITION), c.getPosition(t), "eval position");
    vp_eq(c.eval(t, TT::VELOCITY), c.getVelocity(t), "eval velocity");
    vp_eq(c.eval(t, TT::ACCELERATION), c.getAcceleration(t), "eval acceleration");
    Eigen::VectorXd ts(3);
    ts << t, 1 - t, t * t;
    for (int k = 0; k < 3; ++k)
    {
        vp_eq(c.eval(ts, TT::POSITION)[k], c.getPosition(ts(k)), "eval of several positions");
        vp_eq(c.eval(ts, TT::VELOCITY)[k], c.getVelocity(ts(k)), "eval of several velocities");
        vp_eq(c.eval(ts, TT::ACCELERATION)[k], c.getAcceleration(ts(k)), "eval of several accelerations");
    }
    vp_check(throws([&] { c.eval(t, TT::UNDEFINED); }), "undefined evaluation type is rejected");
    c.initialize(a, b);
    vp_eq(c.getPosition(t), hermite(a, 0, b, 0, t), "position (rest to rest)");
    vp_eq(c.getVelocity(t), hermiteV(a, 0, b, 0, t), "velocity (rest to rest)");
    vp_eq(c.getAcceleration(t), hermiteA(a, 0, b, 0, t), "acceleration (rest to rest)");
}
VP_HARNESS(cubic_monotone)
{
    // a rest to rest motion never leaves the segment between its ends
    double a = vp_real("a", -4, 4), b = vp_real("b", -4, 4), t = vp_real("t", 0, 1);
    CubicPolynomial1D c;
    c.initialize(a, b);
    double p = c.getPosition(t);
    vp_assume(a <= b);
    vp_check(p >= a - 1e-9 && p <= b + 1e-9, "rest to rest motion stays between its ends");
}
VP_HARNESS(cubic_outside)
{
    double t = vp_real("t", -3, 3), b = vp_real("b", -1, 1);
    CubicPolynomial1D c;
    c.initialize(0, b);
    bool out = t < 0 || t > 1;
    vp_check(throws([&] { c.getPosition(t); }) == out, "position outside of the time interval is rejected");
    vp_check(throws([&] { c.getVelocity(t); }) == out, "velocity outside of the time interval is rejected");
    vp_check(throws([&] { c.getAcceleration(t); }) == out, "acceleration outside of the time interval is rejected");
}
VP_HARNESS(cubic_scale)
{
    Eigen::VectorXd t = symVec("t", 3, -4, 4);
    // ordered time points with a nonempty range
    vp_assume(t(0) <= t(1));
    vp_assume(t(1) <= t(2));
    vp_assume(t(2) - t(0) >= 0.125);
    Eigen::VectorXd s = CubicPolynomial1D::scale(t);
    vp_check(s.size() == 3, "number of time points");
    vp_eq(s(0), 0, "the first time point is mapped to zero");
    vp_eq(s(2), 1, "the last time point is mapped to one");
    vp_eq(s(1) * (t(2) - t(0)), t(1) - t(0), "scaling is linear");
}
static humoto::rigidbody::RigidBodyState sym_state(const char *n)
{
    std::string s(n);
    humoto::rigidbody::RigidBodyState x;
    x.position_ = symVec((s + "p").c_str(), 3);
    x.velocity_ = symVec((s + "v").c_str(), 3);
    x.rpy_ = symVec((s + "r").c_str(), 3);
    x.angular_velocity_ = symVec((s + "w").c_str(), 3);
    return x;
}
// reference of one coordinate of the foot; the vertical motion consists of two cubics
static double ref(int k, double t, int d, const etools::Vector3 &a, const etools::Vector3 &ad, const etools::Vector3 &b, const etools::Vector3 &bd, double h)
{
    double (*f[3])(double, double, double, double, double) = {hermite, hermiteV, hermiteA};
    if (k < 2) return f[d](a(k), ad(k), b(k), bd(k), t);
    double sc = d == 0 ? 1 : (d == 1 ? 2 : 4);
    // derivatives with respect to the local time of each half
    if (t <= 0.5) return sc * f[d](a(2), ad(2) / 2, a(2) + h, 0, 2 * t);
    return sc * f[d](a(2) + h, 0, b(2), bd(2) / 2, 2 * t - 1);
}
VP_HARNESS(foot_trajectory)
{
    etools::Vector3 a = symVec("a", 3), ad = symVec("ad", 3), b = symVec("b", 3), bd = symVec("bd", 3);
    double h = vp_real("h", 0, 1), t = vp_real("t", 0, 1);
    vp_assume(b(2) <= a(2) + h);
    humoto::walking::Simple3DFootTrajectory f;
    int kind = vp_choose("kind", 0, 2);
    etools::Vector3 zero(0, 0, 0);
    humoto::rigidbody::RigidBodyState sa = sym_state("sa"), sb = sym_state("sb");
    if (kind == 0) { f.initialize(a, b, h); ad = zero; bd = zero; }
    else if (kind == 1) f.initialize(a, ad, b, bd, h);
    else
    {
        sa.position_ = a; sa.velocity_ = ad; sb.position_ = b; sb.velocity_ = bd;
        f.initialize(sa, sb, h);
    }
    TT::Type types[3] = {TT::POSITION, TT::VELOCITY, TT::ACCELERATION};
    for (int d = 0; d < 3; ++d)
    {
        etools::Vector3 v = f.eval(t, types[d]);
        for (int k = 0; k < 3; ++k) vp_eq(v(k), ref(k, t, d, a, ad, b, bd, h), d == 0 ? "foot position" : d == 1 ? "foot velocity is the derivative of position" : "foot acceleration is the derivative of velocity");
        vp_eq(f.evalx(t, types[d]), v(0), "x component");
        vp_eq(f.evaly(t, types[d]), v(1), "y component");
        vp_eq(f.evalz(t, types[d]), v(2), "z component");
    }
    etools::Vector3 p0 = f.eval(0, TT::POSITION), p1 = f.eval(1, TT::POSITION), v0 = f.eval(0, TT::VELOCITY), v1 = f.eval(1, TT::VELOCITY);
    for (int k = 0; k < 3; ++k)
    {
        vp_eq(p0(k), a(k), "the foot starts at the initial position");
        vp_eq(p1(k), b(k), "the foot ends at the final position");
        vp_eq(v0(k), ad(k), "the foot starts with the initial velocity");
        vp_eq(v1(k), bd(k), "the foot ends with the final velocity");
    }
    vp_eq(f.evalz(0.5, TT::POSITION), a(2) + h, "the foot reaches the step height in the middle");
    vp_eq(f.evalz(0.5, TT::VELOCITY), 0, "the foot is at the apex in the middle");
    humoto::rigidbody::RigidBodyState s;
    f.eval(s, t);
    eqMat(s.position_, f.eval(t, TT::POSITION), "state: position");
    eqMat(s.velocity_, f.eval(t, TT::VELOCITY), "state: velocity");
    eqMat(s.acceleration_, f.eval(t, TT::ACCELERATION), "state: acceleration");
    if (kind == 2)
    {
        double y0 = sa.rpy_(2), y1 = sb.rpy_(2), w0 = sa.angular_velocity_(2), w1 = sb.angular_velocity_(2);
        vp_eq(s.rpy_(2), hermite(y0, w0, y1, w1, t), "state: yaw");
        vp_eq(s.angular_velocity_(2), hermiteV(y0, w0, y1, w1, t), "state: yaw rate");
        vp_eq(s.angular_acceleration_(2), hermiteA(y0, w0, y1, w1, t), "state: yaw acceleration");
        vp_eq(f.evalTheta(0, TT::POSITION), y0, "initial yaw");
        vp_eq(f.evalTheta(1, TT::POSITION), y1, "final yaw");
        vp_eq(f.evalTheta(0, TT::VELOCITY), w0, "initial yaw rate");
        vp_eq(f.evalTheta(1, TT::VELOCITY), w1, "final yaw rate");
    }
}
VP_HARNESS(foot_clearance)
{
    // a rest to rest step never goes below the lower of its end points, nor above the apex
    double az = vp_real("az", -1, 1), bz = vp_real("bz", -1, 1), h = vp_real("h", 0, 1), t = vp_real("t", 0, 1);
    vp_assume(bz <= az + h);
    humoto::walking::Simple3DFootTrajectory f;
    f.initialize(etools::Vector3(0, 0, az), etools::Vector3(1, 1, bz), h);
    double z = f.evalz(t, TT::POSITION);
    vp_check(z <= az + h + 1e-9, "the foot does not rise above the apex");
    vp_check(z >= az - 1e-9 || z >= bz - 1e-9, "the foot does not go below its end points");
}
VP_HARNESS(foot_rejects)
{
    double az = vp_real("az", -1, 1), bz = vp_real("bz", -1, 1), h = vp_real("h", 0, 1);
    humoto::walking::Simple3DFootTrajectory f;
    bool bad = bz > az + h;
    etools::Vector3 a(0, 0, az), b(0, 0, bz), z(0, 0, 0);
    vp_check(throws([&] { f.initialize(a, b, h); }) == bad, "final position above the apex is rejected");
    vp_check(throws([&] { f.initialize(a, z, b, z, h); }) == bad, "final position above the apex is rejected");
    humoto::rigidbody::RigidBodyState sa, sb;
    sa.position_ = a; sb.position_ = b;
    vp_check(throws([&] { f.initialize(sa, sb, h); }) == bad, "final position above the apex is rejected");
}
