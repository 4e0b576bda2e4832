#include "common.h"
#include "humoto/rigid_body.h"
#include "humoto/walking.h"
using humoto::rigidbody::TripleIntegrator;
typedef Eigen::MatrixXd M;
// motion with a constant jerk
static etools::Vector3 move(const etools::Vector3 &x, double j, double t)
{
    return etools::Vector3(x(0) + t * x(1) + t * t / 2 * x(2) + t * t * t / 6 * j, x(1) + t * x(2) + t * t / 2 * j, x(2) + t * j);
}
template <int N> static Eigen::VectorXd refState(const Eigen::VectorXd &x, const Eigen::VectorXd &j, double t)
{
    Eigen::VectorXd r(3 * N);
    for (int k = 0; k < N; ++k) r.segment(3 * k, 3) = move(x.segment(3 * k, 3), j(k), t);
    return r;
}
// constant jerk which leads to the given position (0), velocity (1) or acceleration (2) after time T
static double jerkFor(const etools::Vector3 &x, double u, double T, int what)
{
    switch (what)
    {
        case 0: return 6 * (u - x(0) - T * x(1) - T * T / 2 * x(2)) / (T * T * T);
        case 1: return 2 * (u - x(1) - T * x(2)) / (T * T);
        default: return (u - x(2)) / T;
    }
}
template <int N> static void test(int what)
{
    double T = vp_real("T", 0.015625, 2), Ts = vp_real("Ts", 0, 2);
    Eigen::VectorXd x = symVec("x", 3 * N), u = symVec("u", N), j(N);
    if (what == 3) j = u;
    else for (int k = 0; k < N; ++k) j(k) = jerkFor(x.segment(3 * k, 3), u(k), T, what);
    M A, B, As, Bs, D, E;
    switch (what)
    {
        case 0:
            A = TripleIntegrator::getAPos<N>(T); B = TripleIntegrator::getBPos<N>(T);
            As = TripleIntegrator::getAsPos<N>(T, Ts); Bs = TripleIntegrator::getBsPos<N>(T, Ts);
            D = TripleIntegrator::getDPos<N>(T); E = TripleIntegrator::getEPos<N>(T);
            break;
        case 1:
            A = TripleIntegrator::getAVel<N>(T); B = TripleIntegrator::getBVel<N>(T);
            As = TripleIntegrator::getAsVel<N>(T, Ts); Bs = TripleIntegrator::getBsVel<N>(T, Ts);
            D = TripleIntegrator::getDVel<N>(T); E = TripleIntegrator::getEVel<N>(T);
            break;
        case 2:
            A = TripleIntegrator::getAAcc<N>(T); B = TripleIntegrator::getBAcc<N>(T);
            As = TripleIntegrator::getAsAcc<N>(T, Ts); Bs = TripleIntegrator::getBsAcc<N>(T, Ts);
            D = TripleIntegrator::getDAcc<N>(T); E = TripleIntegrator::getEAcc<N>(T);
            break;
        default:
            A = TripleIntegrator::getAJerk<N>(T); B = TripleIntegrator::getBJerk<N>(T);
    }
    Eigen::VectorXd full = refState<N>(x, j, T);
    // multiplied by powers of T to stay polynomial
    double s = T * T * T;
    eqMat(M((A * x + B * u) * s), M(full * s), "state at the end of the sampling interval");
    if (what == 3) return;
    Eigen::VectorXd sub = refState<N>(x, j, Ts);
    eqMat(M((As * x + Bs * u) * s), M(sub * s), "state inside of the sampling interval");
    eqMat(M((D * x + E * u) * s), M(j * s), "jerk reconstructed from the control");
}
VP_HARNESS(jerk_1) { test<1>(3); }
VP_HARNESS(jerk_2) { test<2>(3); }
VP_HARNESS(jerk_3) { test<3>(3); }
VP_HARNESS(acc_1) { test<1>(2); }
VP_HARNESS(acc_2) { test<2>(2); }
VP_HARNESS(vel_1) { test<1>(1); }
VP_HARNESS(vel_2) { test<2>(1); }
VP_HARNESS(vel_3) { test<3>(1); }
VP_HARNESS(pos_1) { test<1>(0); }
VP_HARNESS(pos_2) { test<2>(0); }
