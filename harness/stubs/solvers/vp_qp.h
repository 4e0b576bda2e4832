// What a stand-in of a QP solver has been asked, and what it answers.
#pragma once
#include <Eigen/Core>
#include <vector>
struct VpQp
{
    // minimize 1/2 x' H x + g' x,  lbA <= A x <= ubA, lb <= x <= ub
    Eigen::MatrixXd H, A;
    Eigen::VectorXd g, lbA, ubA, lb, ub;
    bool bounds, lower_only;
    int calls;
    // guesses
    bool has_x, has_wb, has_wc;
    Eigen::VectorXd x0;
    std::vector<int> wb, wc;
    // limits and options
    int iterations; bool has_time; double time, tolerance; int option;
    // the answer
    int status, iterations_done; double value;
    Eigen::VectorXd x;
    std::vector<int> ws_bounds, ws_constraints;
    VpQp() : bounds(false), lower_only(false), calls(0), has_x(false), has_wb(false), has_wc(false), iterations(0), has_time(false), time(0), tolerance(0), option(0), status(0), iterations_done(0), value(0) {}
};
static inline VpQp &vpQp() { static VpQp q; return q; }
