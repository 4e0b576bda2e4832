// VP: unchecked=1
// VP: stubs=msgpack stubs=yaml stubs=solvers
// C23: parameters of external solvers in configuration files
#include "config_classes.h"
#include "common.h"
#include "humoto/humoto.h"
#include "humoto/qpoases.h"
#include "humoto/qpmad.h"
#include "humoto/quadprogpp.h"
template <class F> static void base(humoto::SolverParametersBase &a, humoto::SolverParametersBase &b, F &f) { f(a.crash_on_any_failure_, b.crash_on_any_failure_); f(a.solve_two_levels_as_qp_, b.solve_two_levels_as_qp_); }
typedef humoto::qpoases::SolverParameters Oases;
typedef humoto::qpmad::SolverParameters Mad;
typedef humoto::quadprogpp::SolverParameters Quad;
template <class F> static void entries(Oases &a, Oases &b, F &f)
{
    base(a, b, f);
    f(a.max_number_of_iterations_, b.max_number_of_iterations_);
    f(a.max_cpu_time_, b.max_cpu_time_);
    qpOASES::Options &o = a.options_, &p = b.options_;
    f.range(0, 1);
    f(o.enableRamping, p.enableRamping); f(o.enableFarBounds, p.enableFarBounds); f(o.enableFlippingBounds, p.enableFlippingBounds); f(o.enableRegularisation, p.enableRegularisation); f(o.enableFullLITests, p.enableFullLITests); f(o.enableNZCTests, p.enableNZCTests); f(o.enableEqualities, p.enableEqualities); f(o.enableInertiaCorrection, p.enableInertiaCorrection); f(o.enableDropInfeasibles, p.enableDropInfeasibles);
    f.range(0, 9);
    f(o.enableDriftCorrection, p.enableDriftCorrection); f(o.enableCholeskyRefactorisation, p.enableCholeskyRefactorisation); f(o.numRegularisationSteps, p.numRegularisationSteps); f(o.numRefinementSteps, p.numRefinementSteps); f(o.dropBoundPriority, p.dropBoundPriority); f(o.dropEqConPriority, p.dropEqConPriority); f(o.dropIneqConPriority, p.dropIneqConPriority);
    f(o.terminationTolerance, p.terminationTolerance); f(o.boundTolerance, p.boundTolerance); f(o.boundRelaxation, p.boundRelaxation); f(o.epsNum, p.epsNum); f(o.epsDen, p.epsDen); f(o.maxPrimalJump, p.maxPrimalJump); f(o.maxDualJump, p.maxDualJump); f(o.initialRamping, p.initialRamping); f(o.finalRamping, p.finalRamping); f(o.initialFarBounds, p.initialFarBounds); f(o.growFarBounds, p.growFarBounds); f(o.epsFlipping, p.epsFlipping); f(o.epsRegularisation, p.epsRegularisation); f(o.epsIterRef, p.epsIterRef); f(o.epsLITests, p.epsLITests); f(o.epsNZCTests, p.epsNZCTests); f(o.rcondSMin, p.rcondSMin);
    f.range(-1, 1);
    f(o.initialStatusBounds, p.initialStatusBounds);
}
template <class F> static void entries(Mad &a, Mad &b, F &f)
{
    base(a, b, f);
    f(a.regularization_factor_, b.regularization_factor_);
    f(a.options_.tolerance_, b.options_.tolerance_);
    f.range(-1, 9);
    f(a.options_.max_iter_, b.options_.max_iter_);
    f.range(0, 2);
    f(a.options_.hessian_type_, b.options_.hessian_type_);
}
template <class F> static void entries(Quad &a, Quad &b, F &f) { base(a, b, f); f(a.regularization_factor_, b.regularization_factor_); }
struct Fill
{
    std::string p;
    int n, l, u;
    std::string next() { return p + std::to_string(n++); }
    void range(int a, int b) { l = a; u = b; }
    void operator()(double &a, double &) { a = vp_real(next().c_str(), -4, 4); }
    void operator()(bool &a, bool &) { a = vp_bool(next().c_str()); }
    template <class T> void operator()(T &a, T &) { a = (T)vp_int(next().c_str(), l, u); }
};
struct Compare
{
    void range(int, int) {}
    void operator()(double &a, double &b) { vp_eq(a, b, "number"); }
    template <class T> void operator()(T &a, T &b) { vp_check(a == b, "integer, flag or enumeration"); }
};
template <class F, class T> static void copyOf()
{
    T a, x, y, d;
    Fill f = {"a", 0, 0, 9};
    entries(a, a, f);
    std::string file = cfgFile(), other = cfgFile();
    {
        typename F::W w(file);
        a.writeConfig(w);
    }
    Compare c;
    typename F::R r(file);
    x.readConfig(r, "SolverParameters");
    entries(x, a, c);
    typename F::R q(file);
    T z(q);
    entries(z, a, c);
    // entries which are missing get default values, independent of what was there before
    Fill g0 = {"y", 0, 0, 9};
    if (vp_choose("used", 0, 1)) entries(y, y, g0);
    {
        typename F::W w(other);
        w.initRoot();
        w.descend("SolverParameters", 0);
        w.ascend();
        w.flush();
    }
    typename F::R e(other);
    y.readConfig(e, "SolverParameters", false);
    entries(y, d, c);
    T v;
    typename F::R g(other);
    vp_check(throws([&] { v.readConfig(g, "SolverParameters", true); }), "missing entries are reported by request");
}
VP_HARNESS(qpoases_msgpack) { copyOf<Msg, Oases>(); }
VP_HARNESS(qpoases_yaml) { copyOf<Yml, Oases>(); }
VP_HARNESS(qpmad_msgpack) { copyOf<Msg, Mad>(); }
VP_HARNESS(qpmad_yaml) { copyOf<Yml, Mad>(); }
VP_HARNESS(quadprogpp_msgpack) { copyOf<Msg, Quad>(); }
VP_HARNESS(quadprogpp_yaml) { copyOf<Yml, Quad>(); }
