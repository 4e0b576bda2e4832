// Elementary helpers: conversions of time and angles, the timer, parts of vectors, sides, parameters of obstacles.
#include <sys/time.h>
#include <ctime>
static long g_clock_s, g_clock_us, g_clock_calls;
// the clock
static inline int vp_gettimeofday(struct timeval *t, void *)
{
    t->tv_sec = g_clock_s; t->tv_usec = g_clock_us; ++g_clock_calls;
    return 0;
}
#define gettimeofday vp_gettimeofday
#include "common.h"
#include "humoto/rigid_body.h"
#include "humoto/obstacle_avoidance.h"
using namespace humoto;

// seconds and milliseconds
VP_HARNESS(milliseconds_to_seconds)
{
    std::size_t ms = vp_int("ms", 0, 1000000000);
    double s = convertMillisecondToSecond(ms);
    vp_eq(s * 1000, (double) ms, "1000 times the number of seconds is the number of milliseconds");
    vp_check(convertSecondToMillisecond(s) == ms, "conversion of milliseconds to seconds and back");
}
VP_HARNESS(seconds_to_milliseconds)
{
    double s = vp_real("s", 0, 100000);
    std::size_t ms = convertSecondToMillisecond(s);
    vp_check(s * 1000 - (double) ms <= 0.5 && (double) ms - s * 1000 <= 0.5, "the nearest number of milliseconds");
    std::size_t t = truncateSecondToMillisecond(s);
    vp_check((double) t <= s * 1000 && s * 1000 < (double) t + 1, "the number of complete milliseconds");
    vp_check(t <= ms && ms <= t + 1, "rounded and truncated numbers of milliseconds");
}
static void tick(const char *name)
{
    std::string n(name);
    g_clock_s = vp_int((n + "_s").c_str(), 0, 2000000000); g_clock_us = vp_int((n + "_us").c_str(), 0, 999999);
}
static double elapsed(long s, long us) { return (double) (g_clock_s - s) + (double) (g_clock_us - us) / 1000000.; }
VP_HARNESS(timer)
{
    g_clock_calls = 0;
    tick("created"); long s = g_clock_s, us = g_clock_us;
    Timer t;
    vp_check(t.get() == 0, "nothing has been measured by a new timer");
    if (vp_choose("restart", 0, 1)) { tick("started"); t.start(); s = g_clock_s; us = g_clock_us; vp_check(t.get() == 0, "nothing has been measured by a started timer"); }
    tick("stopped");
    double d = t.stop(), e = elapsed(s, us);
    if (g_clock_calls == 0) return; // the clock is read in another way
    vp_eq(d, e, "time between start and stop");
    vp_eq(t.get(), e, "the last measured time");
    tick("again");
    if (vp_choose("restart_again", 0, 1)) { t.start(); s = g_clock_s; us = g_clock_us; vp_eq(t.get(), e, "the last measured time is kept until the next one"); tick("again_stopped"); }
    double f = elapsed(s, us);
    vp_eq(t.stop(), f, "time between the last start and the second stop");
    vp_eq(t.get(), f, "the last measured time");
}
// angles, sides, comparison
VP_HARNESS(angles_and_sides)
{
    double a = vp_real("a", -1000, 1000), r = vp_real("r", 0, 100);
    vp_eq(convertDegreesToRadians(a) * 180, a * 3.14159265358979323846, "degrees to radians");
    vp_eq(convertRadiansToDegrees(a) * 3.14159265358979323846, a * 180, "radians to degrees");
    vp_eq(convertRadiansToDegrees(convertDegreesToRadians(a)), a, "degrees to radians and back");
    double s = getEncircledSquareSide(r);
    vp_check(s >= 0, "side of a square is not negative");
    vp_eq(2 * s * s, 4 * r * r, "the diagonal of the square in a circle is its diameter");
}
VP_HARNESS(approximate_equality)
{
    double a = vp_real("a", -1000, 1000), b = vp_real("b", -1000, 1000), tol = vp_real("tol", 0.0000001, 1);
    double d = a > b ? a - b : b - a;
    vp_check(isApproximatelyEqual(a, b, tol) == (d < tol), "numbers which differ by less than the tolerance");
    vp_check(isApproximatelyEqual(a, b, tol) == isApproximatelyEqual(b, a, tol), "equality is symmetric");
    vp_check(isApproximatelyEqual(a, a), "a number is equal to itself");
    if (d > 0.000001) vp_check(!isApproximatelyEqual(a, b), "the default tolerance distinguishes numbers");
}
// parts of vectors
VP_HARNESS(location)
{
    std::size_t o = vp_int("offset", 0, 1000000), l = vp_int("length", 0, 1000000), o1 = vp_int("offset1", 0, 1000000), l1 = vp_int("length1", 0, 1000000), m = vp_int("max", 0, 3000000);
    Location e;
    vp_check(e.offset_ == 0 && e.length_ == 0, "a new part is empty");
    Location a(o, l), b(o1, l1);
    vp_check(a.front() == o && a.end() == o + l && a.offset_ == o && a.length_ == l, "first element and the one after the last");
    bool same = o == o1 && l == l1;
    vp_check((a == b) == same, "equal parts");
    vp_check((a != b) == !same, "different parts");
    vp_check(a.checkLength(m) == (o + l <= m), "a part which fits");
    b.set(o, l);
    vp_check(a == b, "a part which is set again");
    e = Location(1, ~(std::size_t) 0);
    vp_check(!e.checkLength(~(std::size_t) 0), "the end of a part overflows");
}
// left and right
VP_HARNESS(left_right)
{
    LeftOrRight::Type t = (LeftOrRight::Type) vp_choose("type", 0, 3);
    LeftRightContainer<double> c, d;
    const LeftRightContainer<double> &k = c;
    double l = vp_real("l", -4, 4), r = vp_real("r", -4, 4), l1 = vp_real("l1", -4, 4), r1 = vp_real("r1", -4, 4);
    c.setLeft(l); c.setRight(r); d[LeftOrRight::LEFT] = l1; d[LeftOrRight::RIGHT] = r1;
    vp_eq(c.getLeft(), l, "left"); vp_eq(c.getRight(), r, "right"); vp_eq(k.getLeft(), l, "left"); vp_eq(k.getRight(), r, "right");
    if (t == LeftOrRight::LEFT || t == LeftOrRight::RIGHT)
    {
        LeftOrRight::Type i = LeftOrRight::invert(t);
        vp_check(i != t && (i == LeftOrRight::LEFT || i == LeftOrRight::RIGHT) && LeftOrRight::invert(i) == t, "the opposite side");
        vp_eq(k[t], t == LeftOrRight::LEFT ? l : r, "element of a side");
        vp_eq(d[t], t == LeftOrRight::LEFT ? l1 : r1, "element of a side");
    }
    else
    {
        vp_check(throws([&] { LeftOrRight::invert(t); }), "there is no opposite to an undefined side");
        vp_check(throws([&] { c[t]; }) && throws([&] { k[t]; }), "there is no element of an undefined side");
    }
    if (vp_choose("copy", 0, 1)) { c.copyLeft(d); vp_eq(c.getLeft(), l1, "copied left"); vp_eq(c.getRight(), r, "right is kept"); }
    else { c.copyRight(d); vp_eq(c.getLeft(), l, "left is kept"); vp_eq(c.getRight(), r1, "copied right"); }
    vp_eq(d.getLeft(), l1, "the source is kept"); vp_eq(d.getRight(), r1, "the source is kept");
}
// obstacles
class Obstacle : public obstacle_avoidance::ObstacleBase
{
    public:
        Obstacle() { }
        Obstacle(const etools::Vector3 &p, const etools::Vector3 &r) : obstacle_avoidance::ObstacleBase(p, r) { }
        void updateConstraints(const ControlProblem &, const Solution &, const double m) { A_.setConstant(1, 2, m); ub_.setConstant(1, -m); }
        void resetConstraints(const ControlProblem &) { A_.resize(0, 0); ub_.resize(0); }
};
class NoProblem : public ControlProblem { public: void log(Logger &, const LogEntryName &, const std::string &) const { } };
VP_HARNESS(obstacles)
{
    etools::Vector3 p = symVec("p", 3), r = symVec("r", 3), z = etools::Vector3::Zero();
    rigidbody::RigidBodyState s;
    s.position_ = symVec("sp", 3); s.velocity_ = symVec("sv", 3); s.acceleration_ = symVec("sa", 3);
    s.rpy_ = symVec("sr", 3); s.angular_velocity_ = symVec("sw", 3); s.angular_acceleration_ = symVec("se", 3);
    int how = vp_choose("how", 0, 2);
    Obstacle o(p, r), q;
    Obstacle &b = how == 1 ? q : o;
    if (how == 1) b.updateState(p, r);
    if (how == 2) { b.updateState(s); eqMat(b.position_, s.position_, "position"); eqMat(b.rpy_, s.rpy_, "orientation"); 
        eqMat(b.velocity_, s.velocity_, "velocity"); eqMat(b.acceleration_, s.acceleration_, "acceleration");
        eqMat(b.angular_velocity_, s.angular_velocity_, "angular velocity"); eqMat(b.angular_acceleration_, s.angular_acceleration_, "angular acceleration"); }
    if (how == 2) b.updateState(p, r);
    eqMat(b.position_, p, "given position"); eqMat(b.rpy_, r, "given orientation");
    NoProblem c; Solution x;
    b.updateConstraints(c, x, p(0));
    eqMat(b.getA(), Eigen::MatrixXd::Constant(1, 2, p(0)), "matrix of constraints");
    eqMat(b.getBounds(), Eigen::VectorXd::Constant(1, -p(0)), "bounds of constraints");
}
