// Stand-in of qpmad with the interface which is used by the library.
#pragma once
#include "../vp_qp.h"
namespace qpmad
{
    struct SolverParameters
    {
        enum HessianType { UNDEFINED = 0, HESSIAN_LOWER_TRIANGULAR = 1, HESSIAN_CHOLESKY_FACTOR = 2 };
        HessianType hessian_type_;
        double tolerance_;
        int max_iter_;
        SolverParameters() : hessian_type_(HESSIAN_LOWER_TRIANGULAR), tolerance_(1e-12), max_iter_(-1) {}
    };
    struct Solver
    {
        enum ReturnStatus { OK = 0, INFEASIBLE_EQUALITY = 1, INFEASIBLE_INEQUALITY = 2, MAXIMAL_NUMBER_OF_ITERATIONS = 3 };
        ReturnStatus solve(Eigen::VectorXd &x, Eigen::MatrixXd &H, const Eigen::VectorXd &h, const Eigen::VectorXd &lb, const Eigen::VectorXd &ub, const Eigen::MatrixXd &A, const Eigen::VectorXd &Alb,
                           const Eigen::VectorXd &Aub, const SolverParameters &p = SolverParameters())
        {
            VpQp &q = vpQp();
            ++q.calls;
            int n = h.rows();
            q.H = H; q.g = h; q.lower_only = true;
            q.bounds = lb.rows() > 0;
            q.lb.setConstant(n, -1e20); q.ub.setConstant(n, 1e20);
            if (lb.rows()) q.lb = lb;
            if (ub.rows()) q.ub = ub;
            q.A = A; q.lbA = Alb; q.ubA = Aub;
            q.tolerance = p.tolerance_; q.iterations = p.max_iter_; q.option = p.hessian_type_;
            // the Hessian is overwritten with its factor
            H.setConstant(-7);
            x = q.x;
            return (ReturnStatus)q.status;
        }
    };
}
