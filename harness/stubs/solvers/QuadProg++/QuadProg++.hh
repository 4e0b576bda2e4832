// Stand-in of QuadProg++ (Eigen interface) with the interface which is used by the library.
#pragma once
#include "../vp_qp.h"
namespace QuadProgpp
{
    struct Status { enum Value { OK = 0, FAILURE = 1 }; };
    struct Solver
    {
        // min 1/2 x' G x + g0' x,  CE' x + ce0 = 0,  CI' x + ci0 >= 0
        double solve(Eigen::MatrixXd &G, const Eigen::VectorXd &g0, const Eigen::MatrixXd &CE, const Eigen::VectorXd &ce0, const Eigen::MatrixXd &CI, const Eigen::VectorXd &ci0, Eigen::VectorXd &x)
        {
            VpQp &q = vpQp();
            ++q.calls;
            int n = g0.rows(), e = ce0.rows(), i = ci0.rows();
            q.H = G; q.g = g0;
            q.A.resize(e + i, n); q.lbA.resize(e + i); q.ubA.resize(e + i);
            for (int k = 0; k < e; ++k) { for (int j = 0; j < n; ++j) q.A(k, j) = CE(j, k); q.lbA(k) = q.ubA(k) = -ce0(k); }
            for (int k = 0; k < i; ++k) { for (int j = 0; j < n; ++j) q.A(e + k, j) = CI(j, k); q.lbA(e + k) = -ci0(k); q.ubA(e + k) = 1e20; }
            q.bounds = false;
            q.lb.setConstant(n, -1e20); q.ub.setConstant(n, 1e20);
            G.setConstant(-7);
            x = q.x;
            return q.value;
        }
    };
}
