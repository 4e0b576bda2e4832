// Stand-in of qpOASES with the interface which is used by the library.
#pragma once
#include "vp_qp.h"
namespace qpOASES
{
    typedef double real_t;
    typedef int int_t;
    enum returnValue { SUCCESSFUL_RETURN = 0, RET_MAX_NWSR_REACHED = 64, RET_INIT_FAILED = 33, RET_INIT_FAILED_INFEASIBILITY = 37 };
    enum BooleanType { BT_FALSE, BT_TRUE };
    enum SubjectToStatus { ST_LOWER = -1, ST_INACTIVE, ST_UPPER, ST_INFEASIBLE_LOWER, ST_INFEASIBLE_UPPER, ST_UNDEFINED };
    enum HessianType { HST_ZERO, HST_IDENTITY, HST_POSDEF, HST_POSDEF_NULLSPACE, HST_SEMIDEF, HST_INDEF, HST_UNKNOWN };
    struct Options
    {
        BooleanType enableRamping, enableFarBounds, enableFlippingBounds, enableRegularisation, enableFullLITests, enableNZCTests;
        int_t enableDriftCorrection, enableCholeskyRefactorisation;
        BooleanType enableEqualities;
        real_t terminationTolerance, boundTolerance, boundRelaxation, epsNum, epsDen, maxPrimalJump, maxDualJump, initialRamping, finalRamping, initialFarBounds, growFarBounds;
        SubjectToStatus initialStatusBounds;
        real_t epsFlipping;
        int_t numRegularisationSteps;
        real_t epsRegularisation;
        int_t numRefinementSteps;
        real_t epsIterRef, epsLITests, epsNZCTests, rcondSMin;
        BooleanType enableInertiaCorrection, enableDropInfeasibles;
        int_t dropBoundPriority, dropEqConPriority, dropIneqConPriority;
        Options() { setToDefault(); }
        returnValue setToDefault()
        {
            enableRamping = enableFarBounds = enableFlippingBounds = BT_TRUE;
            enableRegularisation = enableFullLITests = BT_FALSE; enableNZCTests = BT_TRUE;
            enableDriftCorrection = 1; enableCholeskyRefactorisation = 0; enableEqualities = BT_FALSE;
            terminationTolerance = 1e-7; boundTolerance = 1e-9; boundRelaxation = 1e4; epsNum = -1e-9; epsDen = 1e-9; maxPrimalJump = maxDualJump = 1e8;
            initialRamping = 0.5; finalRamping = 1; initialFarBounds = 1e6; growFarBounds = 1e3; initialStatusBounds = ST_LOWER; epsFlipping = 1e-9;
            numRegularisationSteps = 0; epsRegularisation = 1e-9; numRefinementSteps = 1; epsIterRef = 1e-9; epsLITests = 1e-9; epsNZCTests = 1e-9; rcondSMin = 1e-9;
            enableInertiaCorrection = BT_TRUE; enableDropInfeasibles = BT_FALSE; dropBoundPriority = dropEqConPriority = dropIneqConPriority = 1;
            return SUCCESSFUL_RETURN;
        }
        returnValue setToMPC() { setToDefault(); enableRamping = BT_FALSE; enableFarBounds = BT_TRUE; enableFlippingBounds = BT_FALSE; enableRegularisation = BT_TRUE; enableNZCTests = BT_FALSE; enableDriftCorrection = 0; enableEqualities = BT_TRUE; terminationTolerance = 1e-9; initialStatusBounds = ST_INACTIVE; numRegularisationSteps = 1; numRefinementSteps = 0; return SUCCESSFUL_RETURN; }
    };
    struct SubjectTo
    {
        std::vector<int> status;
        returnValue init(int_t n) { status.assign(n, ST_UNDEFINED); return SUCCESSFUL_RETURN; }
        returnValue set(int_t i, SubjectToStatus s) { if (i >= 0 && i < (int)status.size()) status[i] = s; return SUCCESSFUL_RETURN; }
    };
    struct Bounds : SubjectTo
    {
        returnValue setupBound(int_t i, SubjectToStatus s) { return set(i, s); }
        returnValue setupAllFree() { for (size_t i = 0; i < status.size(); ++i) status[i] = ST_INACTIVE; return SUCCESSFUL_RETURN; }
    };
    struct Constraints : SubjectTo
    {
        returnValue setupConstraint(int_t i, SubjectToStatus s) { return set(i, s); }
    };
    struct MessageHandling { static const char *getErrorCodeMessage(const returnValue v) { return v == SUCCESSFUL_RETURN ? "ok" : "error"; } };
    struct QProblem
    {
        int nv, nc;
        QProblem(int_t v, int_t c, HessianType = HST_UNKNOWN) : nv(v), nc(c) {}
        returnValue setOptions(const Options &o) { vpQp().tolerance = o.terminationTolerance; vpQp().option = o.numRefinementSteps; return SUCCESSFUL_RETURN; }
        returnValue init(const real_t *H, const real_t *g, const real_t *A, const real_t *lb, const real_t *ub, const real_t *lbA, const real_t *ubA, int_t &nWSR, real_t *cputime = 0,
                         const real_t *xOpt = 0, const real_t * = 0, const Bounds *gb = 0, const Constraints *gc = 0, const real_t * = 0)
        {
            VpQp &q = vpQp();
            ++q.calls;
            q.H.resize(nv, nv); q.g.resize(nv); q.A.resize(nc, nv); q.lbA.resize(nc); q.ubA.resize(nc);
            for (int i = 0; i < nv; ++i) { q.g(i) = g[i]; for (int j = 0; j < nv; ++j) q.H(i, j) = H[i * nv + j]; }
            for (int i = 0; i < nc; ++i) { q.lbA(i) = lbA ? lbA[i] : -1e20; q.ubA(i) = ubA ? ubA[i] : 1e20; for (int j = 0; j < nv; ++j) q.A(i, j) = A[i * nv + j]; }
            q.lb.setConstant(nv, -1e20); q.ub.setConstant(nv, 1e20);
            q.bounds = lb || ub;
            for (int i = 0; i < nv; ++i) { if (lb) q.lb(i) = lb[i]; if (ub) q.ub(i) = ub[i]; }
            q.has_x = xOpt; q.has_wb = gb; q.has_wc = gc;
            q.x0.resize(nv);
            if (xOpt) for (int i = 0; i < nv; ++i) q.x0(i) = xOpt[i];
            if (gb) q.wb = gb->status;
            if (gc) q.wc = gc->status;
            q.iterations = nWSR; q.has_time = cputime; q.time = cputime ? *cputime : 0;
            nWSR = q.iterations_done;
            return (returnValue)q.status;
        }
        returnValue getPrimalSolution(real_t *x) const { for (int i = 0; i < nv; ++i) x[i] = vpQp().x(i); return SUCCESSFUL_RETURN; }
        returnValue getWorkingSetBounds(real_t *w) { for (int i = 0; i < nv; ++i) w[i] = vpQp().ws_bounds[i]; return SUCCESSFUL_RETURN; }
        returnValue getWorkingSetConstraints(real_t *w) { for (int i = 0; i < nc; ++i) w[i] = vpQp().ws_constraints[i]; return SUCCESSFUL_RETURN; }
        int_t getNV() const { return nv; }
        int_t getNC() const { return nc; }
        bool isSolved() const { return vpQp().status == 0; }
    };
    typedef QProblem SQProblem;
}
