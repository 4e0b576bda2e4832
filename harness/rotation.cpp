#include "common.h"
#include "humoto/rigid_body.h"
using namespace humoto::rigidbody;
typedef Eigen::MatrixXd M;
static M rot(int axis, double a)
{
    M r = M::Identity(3, 3);
    int i = (axis + 1) % 3, j = (axis + 2) % 3;
    r(i, i) = cos(a); r(j, j) = cos(a); r(i, j) = -sin(a); r(j, i) = sin(a);
    return r;
}
static M rpy(const etools::Vector3 &e) { return mul(mul(rot(2, e(2)), rot(1, e(1))), rot(0, e(0))); }
static M ypr(const etools::Vector3 &e) { return mul(mul(rot(0, e(0)), rot(1, e(1))), rot(2, e(2))); }
VP_HARNESS(euler_to_matrix)
{
    vp_half_angles();
    etools::Vector3 e = symVec("e", 3, -3, 3);
    etools::Matrix3 r = convertEulerAnglesToMatrix(e, EulerAngles::RPY);
    eqMat(r, rpy(e), "roll-pitch-yaw rotation matrix");
    etools::Matrix3 y = convertEulerAnglesToMatrix(e, EulerAngles::YPR);
    eqMat(y, ypr(e), "yaw-pitch-roll rotation matrix");
    eqMat(mul(r.transpose(), r), M(M::Identity(3, 3)), "rotation matrices are orthogonal");
    eqMat(mul(y.transpose(), y), M(M::Identity(3, 3)), "rotation matrices are orthogonal");
    vp_eq(r(0, 0) * (r(1, 1) * r(2, 2) - r(1, 2) * r(2, 1)) - r(0, 1) * (r(1, 0) * r(2, 2) - r(1, 2) * r(2, 0)) + r(0, 2) * (r(1, 0) * r(2, 1) - r(1, 1) * r(2, 0)), 1, "rotation matrices are proper");
    RotaryState s;
    s.set(e);
    eqMat(s.getOrientationMatrix(), rpy(e), "orientation of a rotary state");
    vp_check(throws([&] { convertEulerAnglesToMatrix(e, EulerAngles::UNDEFINED); }), "undefined type of angles is rejected");
    vp_check(throws([&] { convertMatrixToEulerAngles(r, EulerAngles::UNDEFINED); }), "undefined type of angles is rejected");
}
VP_HARNESS(euler_rates)
{
    // angular velocity for given rates: R' R^T = [w]x; checked column by column from the partial derivatives
    vp_half_angles();
    etools::Vector3 e = symVec("e", 3, -3, 3), w = symVec("w", 3, -2, 2);
    etools::Matrix3 T = getEulerRatesToAngularVelocityTransform(e, EulerAngles::RPY);
    M rz = rot(2, e(2)), ry = rot(1, e(1));
    M x(3, 1), y(3, 1), z(3, 1);
    x << 1, 0, 0; y << 0, 1, 0; z << 0, 0, 1;
    M ref(3, 3);
    ref.col(0) = mul(rz, mul(ry, x)); ref.col(1) = mul(rz, y); ref.col(2) = z;
    eqMat(T * w, mul(ref, w), "angular velocity from Euler rates");
    vp_check(throws([&] { getEulerRatesToAngularVelocityTransform(e, EulerAngles::YPR); }), "unsupported type is rejected");
}
VP_HARNESS(rotation_error)
{
    vp_half_angles();
    etools::Vector3 e = symVec("e", 3, -3, 3), f = symVec("f", 3, -3, 3);
    etools::Matrix3 c = symMat("c", 3, 3, -1, 1), r = symMat("r", 3, 3, -1, 1);
    eqMat(getRotationError(c, r), mul(r, c.transpose()), "rotation error matrix");
    M err = mul(r, c.transpose());
    // axis-angle error: half of the axial vector of the skew-symmetric part times two
    etools::Vector3 ax((err(2, 1) - err(1, 2)) / 2, (err(0, 2) - err(2, 0)) / 2, (err(1, 0) - err(0, 1)) / 2);
    eqMat(getRotationErrorAngleAxis(c, r), ax, "angle-axis rotation error");
    etools::Matrix3 C = convertEulerAnglesToMatrix(e, EulerAngles::RPY);
    eqMat(getRotationErrorAngleAxis(C, C), M(M::Zero(3, 1)), "no error between equal orientations");
    eqMat(getRotationError(C, C), M(M::Identity(3, 3)), "no error between equal orientations");
    // the error rotation leads from the current orientation to the reference
    etools::Matrix3 F = convertEulerAnglesToMatrix(f, EulerAngles::RPY);
    eqMat(mul(getRotationError(C, F), C), F, "the error rotation leads to the reference");
}
VP_HARNESS(integrate_velocity)
{
    etools::Matrix3 c = symMat("c", 3, 3, -1, 1);
    etools::Vector3 w = symVec("w", 3, -2, 2);
    double dt = vp_real("dt", 0, 1);
    M k(3, 3);
    k << 0, -w(2), w(1), w(2), 0, -w(0), -w(1), w(0), 0;
    eqMat(integrateAngularVelocity(c, w, dt), M(c + dt * mul(c, k)), "first order integration of angular velocity");
}
VP_HARNESS(integrate_velocity_rodrigues)
{
    etools::Matrix3 c = symMat("c", 3, 3, -1, 1);
    etools::Vector3 w = symVec("w", 3, -2, 2);
    double dt = vp_real("dt", 0, 1);
    M k(3, 3);
    k << 0, -w(2), w(1), w(2), 0, -w(0), -w(1), w(0), 0;
    double n = sqrt(w(0) * w(0) + w(1) * w(1) + w(2) * w(2));
    etools::Matrix3 r = integrateAngularVelocityRodrigues(c, w, dt);
    vp_assume(w(0) >= 0.125 || w(0) <= -0.125);
    M n2r = M(c * n * n + n * sin(n * dt) * mul(c, k) + (1 - cos(n * dt)) * mul(c, mul(k, k)));
    eqMat(M(r * n * n), n2r, "exact integration of constant angular velocity");
}
VP_HARNESS(rodrigues_zero)
{
    etools::Matrix3 c = symMat("c", 3, 3, -1, 1);
    double dt = vp_real("dt", 0, 1);
    eqMat(integrateAngularVelocityRodrigues(c, etools::Vector3(0, 0, 0), dt), c, "no rotation without velocity");
}
VP_HARNESS(rodrigues_axis)
{
    // rotation about one axis at a constant rate equals the elementary rotation; rotations compose
    int axis = vp_choose("axis", 0, 2);
    double v = vp_real("v", 0.125, 2), dt = vp_real("dt", 0, 1);
    bool neg = vp_bool("neg");
    etools::Vector3 w(0, 0, 0);
    w(axis) = neg ? -v : v;
    etools::Matrix3 r = integrateAngularVelocityRodrigues(etools::Matrix3::Identity(), w, dt);
    eqMat(r, rot(axis, neg ? -(v * dt) : v * dt), "rotation about an axis");
    eqMat(mul(r.transpose(), r), M(M::Identity(3, 3)), "the result is a rotation");
}
VP_HARNESS(euler_round_trip)
{
    // about one axis at a time: matrix -> angles -> matrix
    int axis = vp_choose("axis", 0, 2), type = vp_choose("type", 0, 1);
    double a = vp_real("a", -1.5, 1.5);
    EulerAngles::Type t = type ? EulerAngles::RPY : EulerAngles::YPR;
    etools::Matrix3 r = rot(axis, a);
    etools::Vector3 e = convertMatrixToEulerAngles(r, t);
    eqMat(type ? rpy(e) : ypr(e), r, "matrix -> Euler angles -> matrix");
}
VP_HARNESS(states)
{
    etools::Vector3 p = symVec("p", 3), v = symVec("v", 3), a = symVec("a", 3), r = symVec("r", 3), w = symVec("w", 3), q = symVec("q", 3), t = symVec("t", 3);
    RigidBodyState s;
    s.set(p, r, v, w, a, q);
    eqMat(s.position_, p, "position"); eqMat(s.velocity_, v, "velocity"); eqMat(s.acceleration_, a, "acceleration");
    eqMat(s.rpy_, r, "rpy"); eqMat(s.angular_velocity_, w, "angular velocity"); eqMat(s.angular_acceleration_, q, "angular acceleration");
    s.translate(t);
    eqMat(s.position_, M(p + t), "translation moves the position");
    eqMat(s.velocity_, v, "translation keeps the velocity");
    eqMat(s.rpy_, r, "translation keeps the orientation");
    s.set(p, r);
    eqMat(s.velocity_, M(M::Zero(3, 1)), "default velocity"); eqMat(s.angular_velocity_, M(M::Zero(3, 1)), "default angular velocity");
    eqMat(s.acceleration_, M(M::Zero(3, 1)), "default acceleration"); eqMat(s.angular_acceleration_, M(M::Zero(3, 1)), "default angular acceleration");
    // everything is forgotten
    s.set(p, r, v, w, a, q);
    M zero = M::Zero(3, 1);
    vp_choose("defaults", 0, 1) ? s.setDefaults() : (void)(s = RigidBodyState());
    eqMat(s.position_, zero, "default position"); eqMat(s.velocity_, zero, "default velocity"); eqMat(s.acceleration_, zero, "default acceleration");
    eqMat(s.rpy_, zero, "default rpy"); eqMat(s.angular_velocity_, zero, "default angular velocity"); eqMat(s.angular_acceleration_, zero, "default angular acceleration");
    // the parts on their own
    PointMassState c; RotaryState o;
    c.set(p, v, a); o.set(r, w, q);
    c.translate(t);
    eqMat(c.position_, M(p + t), "position of a point"); eqMat(c.velocity_, v, "velocity of a point"); eqMat(c.acceleration_, a, "acceleration of a point");
    eqMat(o.rpy_, r, "rpy alone"); eqMat(o.angular_velocity_, w, "angular velocity alone"); eqMat(o.angular_acceleration_, q, "angular acceleration alone");
    c.set(p); o.set(r);
    eqMat(c.velocity_, zero, "default velocity of a point"); eqMat(c.acceleration_, zero, "default acceleration of a point");
    eqMat(o.angular_velocity_, zero, "default angular velocity alone"); eqMat(o.angular_acceleration_, zero, "default angular acceleration alone");
    c.set(p, v, a); o.set(r, w, q);
    c.setDefaults(); o.setDefaults();
    eqMat(c.position_, zero, "default position of a point"); eqMat(c.velocity_, zero, "default velocity of a point"); eqMat(c.acceleration_, zero, "default acceleration of a point");
    eqMat(o.rpy_, zero, "default rpy alone"); eqMat(o.angular_velocity_, zero, "default angular velocity alone"); eqMat(o.angular_acceleration_, zero, "default angular acceleration alone");
}
VP_HARNESS(unset_states)
{
    RigidBodyState s; PointMassState c; RotaryState o; RigidBodyPose p;
    etools::Vector3 x = symVec("x", 3);
    s.set(x, x, x, x, x, x); c.set(x, x, x); o.set(x, x, x); p.position_ = x; p.rpy_ = x;
    s.unset(); c.unset(); o.unset();
    p = RigidBodyPose();
    for (int i = 0; i < 3; ++i)
        for (double d : {s.position_(i), s.velocity_(i), s.acceleration_(i), s.rpy_(i), s.angular_velocity_(i), s.angular_acceleration_(i), c.position_(i), c.velocity_(i), c.acceleration_(i), o.rpy_(i), o.angular_velocity_(i), o.angular_acceleration_(i), p.position_(i), p.rpy_(i)})
            vp_check(d != d, "unset entries are not numbers");
}
VP_HARNESS(euler_round_trip_two)
{
    // two angles at a time
    int skip = vp_choose("skip", 0, 2), type = vp_choose("type", 0, 1);
    etools::Vector3 a = symVec("a", 3, -1.25, 1.25);
    a(skip) = 0;
    EulerAngles::Type t = type ? EulerAngles::RPY : EulerAngles::YPR;
    etools::Matrix3 r = type ? rpy(a) : ypr(a);
    etools::Vector3 e = convertMatrixToEulerAngles(r, t);
    eqMat(type ? rpy(e) : ypr(e), r, "matrix -> Euler angles -> matrix");
}
VP_HARNESS(euler_conversion)
{
    vp_half_angles();
    int axis = vp_choose("axis", 0, 2), from = vp_choose("from", 0, 1), to = vp_choose("to", 0, 1);
    double a = vp_real("a", -1.5, 1.5);
    etools::Vector3 e(0, 0, 0); e(axis) = a;
    etools::Vector3 r = convertEulerAngles(e, from ? EulerAngles::RPY : EulerAngles::YPR, to ? EulerAngles::RPY : EulerAngles::YPR);
    eqMat(to ? rpy(r) : ypr(r), from ? rpy(e) : ypr(e), "conversion keeps the orientation");
}
VP_HARNESS(euler_conversion_two)
{
    vp_half_angles();
    int skip = vp_choose("skip", 0, 2), from = vp_choose("from", 0, 1);
    etools::Vector3 e = symVec("a", 3, -1.25, 1.25);
    e(skip) = 0;
    etools::Vector3 r = convertEulerAngles(e, from ? EulerAngles::RPY : EulerAngles::YPR, !from ? EulerAngles::RPY : EulerAngles::YPR);
    eqMat(!from ? rpy(r) : ypr(r), from ? rpy(e) : ypr(e), "conversion keeps the orientation");
}
