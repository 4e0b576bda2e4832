// VP: stubs=solvers
// C24: interfaces of QP solvers
#include "tasks.h"
#include "humoto/qpoases.h"
#include "humoto/qpmad.h"
#include "humoto/quadprogpp.h"
static const int N = 2;
typedef humoto::ConstraintActivationType CA;
struct Row { int task, row; bool simple, eq; int var; V a; double lb, ub; };
struct Prob
{
    TestModel model;
    TestProblem cp;
    humoto::Solution s;
    humoto::OptimizationProblem p;
    std::vector<TestTaskInfo> ctr, obj;
    Prob() : cp(N) {}
    std::vector<Row> rows() const
    {
        std::vector<Row> r;
        for (size_t k = 0; k < ctr.size(); ++k)
            for (int i = 0; i < ctr[k].m.rows(); ++i)
            {
                const Meaning &m = ctr[k].m;
                Row x = {(int)k, i, m.simple, m.eq, m.simple ? (int)ctr[k].d.I(i) : -1, V(m.A.row(i).transpose()), m.lb(i), m.ub(i)};
                r.push_back(x);
            }
        return r;
    }
};
static void make(Prob &t, const std::string &name, const std::vector<int> &ctr, const std::vector<int> &obj, int rows, int lay)
{
    for (size_t k = 0; k < ctr.size(); ++k) t.ctr.push_back(makeTask((name + "c" + std::to_string(k)).c_str(), ctr[k], rows, N, lay + (int)k, true));
    for (size_t k = 0; k < obj.size(); ++k) t.obj.push_back(makeTask((name + "o" + std::to_string(k)).c_str(), obj[k], 2, N, 2 + (int)k));
    bool one = ctr.empty();
    t.p.reset(one ? 1 : 2);
    for (size_t k = 0; k < t.ctr.size(); ++k) t.p.pushTask(t.ctr[k].ptr, 0);
    for (size_t k = 0; k < t.obj.size(); ++k) t.p.pushTask(t.obj[k].ptr, one ? 0 : 1);
    t.p.form(t.s, t.model, t.cp);
}
// identically zero if and only if two rows with symbolic numbers are the same
static double diff(const V &a, double al, double au, const V &b, double bl, double bu)
{
    double d = 0;
    for (int i = 0; i < N; ++i) d += (3 + 7 * i) * (a(i) - b(i));
    if (al > -1e19 || bl > -1e19) d += 1.5 * (al - bl);
    if (au < 1e19 || bu < 1e19) d += 2.25 * (au - bu);
    return d;
}
static double diff(const VpQp &q, int j, const Row &r) { return diff(V(q.A.row(j).transpose()), q.lbA(j), q.ubA(j), r.a, r.lb, r.ub); }
static void setIn(const std::vector<double> &d, const char *m)
{
    double p = 1;
    for (size_t i = 0; i < d.size(); ++i) p *= d[i];
    vp_eq(p, 0.0, m);
}
static const char *MISSING = "every constraint of the hierarchy is a constraint of the QP", *EXTRA = "every constraint of the QP is a constraint of the hierarchy";
static void sameRows(const VpQp &q, const std::vector<Row> &rs)
{
    for (size_t k = 0; k < rs.size(); ++k)
    {
        std::vector<double> d;
        for (int j = 0; j < q.A.rows(); ++j) d.push_back(diff(q, j, rs[k]));
        setIn(d, MISSING);
    }
    for (int j = 0; j < q.A.rows(); ++j)
    {
        std::vector<double> d;
        for (size_t k = 0; k < rs.size(); ++k) d.push_back(diff(q, j, rs[k]));
        setIn(d, EXTRA);
    }
}
static void objective(const VpQp &q, const Prob &t, double reg)
{
    M H = M::Zero(N, N);
    V g = V::Zero(N);
    for (size_t k = 0; k < t.obj.size(); ++k)
        for (int r = 0; r < t.obj[k].m.rows(); ++r)
        {
            const Meaning &m = t.obj[k].m;
            for (int i = 0; i < N; ++i)
            {
                for (int j = 0; j < N; ++j) H(i, j) += m.A(r, i) * m.A(r, j);
                g(i) -= m.A(r, i) * m.lb(r);
            }
        }
    vp_check(q.H.rows() == N && q.H.cols() == N && q.g.rows() == N, "size of the objective");
    for (int i = 0; i < N; ++i)
    {
        vp_eq(q.g(i), g(i), "gradient of the objective");
        for (int j = 0; j < N; ++j) if (!q.lower_only || j <= i) vp_eq(q.H(i, j), H(i, j) + (i == j ? reg : 0.0), "Hessian of the objective");
    }
}
// problems with constraints on variables apart from the general ones
static void problem(const VpQp &q, const Prob &t, double reg)
{
    objective(q, t, reg);
    std::vector<Row> rs = t.rows(), general;
    std::vector<std::vector<double> > l(N), u(N);
    for (size_t k = 0; k < rs.size(); ++k)
    {
        if (!rs[k].simple) { general.push_back(rs[k]); continue; }
        l[rs[k].var].push_back(rs[k].lb);
        u[rs[k].var].push_back(rs[k].ub);
    }
    sameRows(q, general);
    for (int v = 0; v < N; ++v)
    {
        std::vector<double> dl, du;
        for (size_t i = 0; i < l[v].size(); ++i)
        {
            vp_check(q.lb(v) >= l[v][i], "lower bound of a variable");
            vp_check(q.ub(v) <= u[v][i], "upper bound of a variable");
            if (l[v][i] > -1e19) dl.push_back(q.lb(v) - l[v][i]);
            if (u[v][i] < 1e19) du.push_back(q.ub(v) - u[v][i]);
        }
        if (dl.empty()) vp_check(q.lb(v) <= -1e20, "a variable without lower bounds"); else setIn(dl, "the lower bound of a variable is a bound of the hierarchy");
        if (du.empty()) vp_check(q.ub(v) >= 1e20, "a variable without upper bounds"); else setIn(du, "the upper bound of a variable is a bound of the hierarchy");
    }
}
static bool conflict(const Prob &t)
{
    std::vector<Row> rs = t.rows();
    for (size_t i = 0; i < rs.size(); ++i)
        for (size_t j = 0; j < rs.size(); ++j)
            if (rs[i].simple && rs[j].simple && rs[i].var == rs[j].var && rs[i].lb > rs[j].ub) return true;
    return false;
}
static bool bounded(const std::vector<int> &ctr) { for (size_t k = 0; k < ctr.size(); ++k) if (typeIsSimple(ctr[k]) && !typeIsBound(ctr[k])) return false; return true; }
static std::vector<int> types(int a, int b) { std::vector<int> r; if (a >= 0) r.push_back(a); if (b >= 0) r.push_back(b); return r; }
static V answer(const char *name) { return vpQp().x = symVec(name, N); }
static const int EQ[8] = {3, 4, 8, 9, 13, 14, 18, 19};

// the problem which is solved, for all types of tasks
struct Oases
{
    humoto::qpoases::Solver s;
    void regularization(double) {}
    void crash(bool c) { humoto::qpoases::SolverParameters p; p.crash_on_any_failure_ = c; s.setParameters(p); }
    static const bool SPLIT = false, REGULAR = false;
    static humoto::SolverStatus::Status status(int v) { return v == 0 ? humoto::SolverStatus::OK : v == 64 ? humoto::SolverStatus::MAX_ITER : humoto::SolverStatus::OTHER; }
    static int code(int i) { static const int c[4] = {0, 64, 33, 37}; return c[i]; }
};
struct Mad
{
    humoto::qpmad::Solver s;
    humoto::qpmad::SolverParameters p;
    void regularization(double r) { p.regularization_factor_ = r; s.setParameters(p); }
    void crash(bool c) { p.crash_on_any_failure_ = c; s.setParameters(p); }
    static const bool SPLIT = false, REGULAR = true;
    static humoto::SolverStatus::Status status(int v) { return v == 0 ? humoto::SolverStatus::OK : v == 3 ? humoto::SolverStatus::MAX_ITER : humoto::SolverStatus::OTHER; }
    static int code(int i) { return i; }
};
struct Quad
{
    humoto::quadprogpp::Solver s;
    humoto::quadprogpp::SolverParameters p;
    void regularization(double r) { p.regularization_factor_ = r; s.setParameters(p); }
    void crash(bool c) { p.crash_on_any_failure_ = c; s.setParameters(p); }
    static const bool SPLIT = true, REGULAR = true;
    static humoto::SolverStatus::Status status(int v) { return v == 0 ? humoto::SolverStatus::OK : humoto::SolverStatus::OTHER; }
    static int code(int i) { return i; }
};
// rows of QuadProg++: equalities and lower bounds
static std::vector<Row> split(const std::vector<Row> &rs)
{
    std::vector<Row> o;
    for (size_t k = 0; k < rs.size(); ++k)
    {
        Row r = rs[k];
        if (r.eq) { o.push_back(r); continue; }
        if (r.lb > -1e19) { Row a = r; a.ub = 1e20; o.push_back(a); }
        if (r.ub < 1e19) { Row a = r; a.a = -r.a; a.lb = -r.ub; a.ub = 1e20; o.push_back(a); }
    }
    return o;
}
static void setStatus(int v) { vpQp().status = v; vpQp().value = v; }
template <class S> static void expected(const VpQp &q, const Prob &t, double reg, const V &x, int calls)
{
    vp_check(q.calls == calls, "the solver is called once");
    if (S::SPLIT) { objective(q, t, reg); sameRows(q, split(t.rows())); }
    else problem(q, t, reg);
    vp_check(t.s.x_.rows() == N, "size of the solution");
    eqMat(t.s.x_, x, "the solution is that of the solver");
    vp_check(t.s.return_status_ == humoto::SolverStatus::OK, "status of the solver");
}
template <class S> static void formulation()
{
    int a = vp_choose("constraints1", -1, NUM_TYPES - 1), b = a < 0 ? -1 : vp_choose("constraints2", -1, 3) * 5, o = EQ[vp_choose("objective", 0, 3) * 2], rows = vp_choose("rows", 1, 2), r = vp_choose("regularized", 0, 1);
    if (b < 0) b = -1; else b += a % 5;
    if (rows == 2 && a >= 0 && b >= 0 && a % 5 > 1) vp_stop();
    double reg = r && S::REGULAR ? vp_real("factor", 0.1, 2) : 0.0;
    std::vector<int> c = types(a, b);
    Prob t;
    make(t, "p", c, types(o, 3), rows, 1);
    S s;
    if (r) s.regularization(reg);
    V x = answer("x");
    bool failed = throws([&] { s.s.solve(t.s, t.p); });
    // constraints on variables with gains are refused by solvers which support bounds
    if (!S::SPLIT && !bounded(c)) { vp_check(failed, "unsupported constraints are reported"); return; }
    if (failed) { vp_check(!S::SPLIT && conflict(t), "only conflicts of bounds are reported"); return; }
    expected<S>(vpQp(), t, reg, x, 1);
}
VP_HARNESS(formulation_qpoases) { formulation<Oases>(); }
VP_HARNESS(formulation_qpmad) { formulation<Mad>(); }
VP_HARNESS(formulation_quadprogpp) { formulation<Quad>(); }

// one solver for several problems, and the results of the solver
template <class S, class Sol> static void results(double (*value)(const Sol &))
{
    int k1 = vp_choose("first", 0, 2), k2 = vp_choose("second", 0, 2), code = vp_choose("status", 0, 3), crash = vp_choose("crash", 0, 1), own = vp_choose("own_type", 0, 1);
    static const int A[3] = {-1, 0, 15}, B[3] = {-1, -1, 3};
    Prob t, u;
    make(t, "t", types(A[k1], B[k1]), types(3, -1), 1, 1);
    make(u, "u", types(A[k2], B[k2]), types(18, -1), 1, 2);
    S s;
    s.crash(crash);
    V x = answer("x");
    setStatus(0);
    s.s.solve(t.s, t.p);
    expected<S>(vpQp(), t, 0, x, 1);
    V y = answer("y");
    setStatus(S::code(code));
    vpQp().iterations_done = 17;
    Sol sol;
    humoto::Solution &z = own ? sol : u.s;
    if (own) sol.initialize(u.s);
    bool failed = throws([&] { s.s.solve(z, u.p); });
    vp_check(z.return_status_ == S::status(S::code(code)), "status of the solver");
    vp_check(failed == (crash && S::status(S::code(code)) != humoto::SolverStatus::OK), "failures are reported when it is requested");
    if (own) vp_eq(value(sol), (double)S::code(code), "value returned by the solver");
    eqMat(z.x_, y, "the solution is that of the solver");
    if (S::SPLIT) { objective(vpQp(), u, 0); sameRows(vpQp(), split(u.rows())); }
    else problem(vpQp(), u, 0);
    // and the first problem again
    V w = answer("w");
    setStatus(0);
    s.s.solve(t.s, t.p);
    expected<S>(vpQp(), t, 0, w, 3);
    eqMat(z.x_, y, "other solutions are not changed");
}
VP_HARNESS(results_qpoases) { results<Oases, humoto::qpoases::Solution>([](const humoto::qpoases::Solution &s) { vp_check(s.number_of_iterations_ == 17, "number of iterations"); return (double)s.qpoases_return_value_; }); }
VP_HARNESS(results_qpmad) { results<Mad, humoto::qpmad::Solution>([](const humoto::qpmad::Solution &s) { return (double)s.qpmad_return_value_; }); }
VP_HARNESS(results_quadprogpp) { results<Quad, humoto::quadprogpp::Solution>([](const humoto::quadprogpp::Solution &s) { return (double)s.quadprogpp_return_value_; }); }

static void overload(int which, humoto::qpoases::Solver &s, Prob &t, humoto::ActiveSet &as, const humoto::ActiveSet &g, const humoto::Solution &x0, const humoto::qpoases::SolverParameters &p)
{
    switch (which)
    {
        case 0: s.solve(t.s, t.p); break;
        case 1: s.solve(t.s, t.p, x0); break;
        case 2: s.solve(t.s, t.p, g); break;
        case 3: s.solve(t.s, as, t.p, g); break;
        case 4: s.solve(t.s, as, t.p, x0, g); break;
        case 5: s.solve(t.s, t.p, x0, g); break;
        case 6: s.solve(t.s, as, t.p, x0); break;
        case 7: s.solve(t.s, as, t.p); break;
        default: s.solve(t.s, t.p, p);
    }
}
// problems which are not QPs are refused
template <class S> static void refused()
{
    int levels = vp_choose("levels", 0, 3), obj = vp_choose("objective", 0, NUM_TYPES - 1), off = vp_choose("disabled", 0, 1);
    Prob t;
    for (int i = 0; i < levels; ++i) t.obj.push_back(makeTask(("o" + std::to_string(i)).c_str(), i == levels - 1 ? obj : 3, 2, N, 2, true));
    t.p.reset(levels);
    for (int i = 0; i < levels; ++i) t.p.pushTask(t.obj[i].ptr, i);
    if (levels) t.p.form(t.s, t.model, t.cp); else t.cp.initSolutionStructure(t.s);
    S s;
    auto p = typename std::decay<decltype(par(s))>::type();
    p.solve_two_levels_as_qp_ = !off;
    answer("x");
    bool failed = throws([&] { s.s.solve(t.s, t.p, p); });
    vp_check(failed == (levels < 1 || levels > 2 || off || !typeIsEquality(obj)), "hierarchies which are not QPs are refused, and only them");
    vp_check(vpQp().calls == (failed ? 0 : 1), "the solver is called only for supported problems");
}
static humoto::qpoases::SolverParameters par(Oases &) { return humoto::qpoases::SolverParameters(); }
static humoto::qpmad::SolverParameters par(Mad &) { return humoto::qpmad::SolverParameters(); }
static humoto::quadprogpp::SolverParameters par(Quad &) { return humoto::quadprogpp::SolverParameters(); }
// every way to call a solver refuses hierarchies which are not QPs, and reports failures when it is requested
VP_HARNESS(refused_overloads)
{
    int levels = vp_choose("levels", 1, 3), obj = vp_choose("objective", 3, 4) - (vp_choose("inequalities", 0, 1) ? 2 : 0), code = vp_choose("status", 0, 1), crash = vp_choose("crash", 0, 1), which = vp_choose("overload", 0, 8);
    bool bad = levels > 2 || obj < 3;
    Prob t;
    for (int i = 0; i < levels; ++i) t.obj.push_back(makeTask(("o" + std::to_string(i)).c_str(), i == levels - 1 ? obj : 3, 2, N, 2, true));
    t.p.reset(levels);
    for (int i = 0; i < levels; ++i) t.p.pushTask(t.obj[i].ptr, i);
    t.p.form(t.s, t.model, t.cp);
    humoto::ActiveSet g, as;
    t.p.initializeActiveSet(g);
    for (int i = 0; i < levels; ++i) g.set(i, CA::EQUALITY);
    humoto::Solution x0;
    t.cp.initSolutionStructure(x0);
    x0.x_ = symVec("x0", N);
    humoto::qpoases::SolverParameters p;
    p.crash_on_any_failure_ = crash;
    humoto::qpoases::Solver s(p);
    answer("x");
    setStatus(code ? 33 : 0);
    vpQp().ws_bounds.assign(N, 0); vpQp().ws_constraints.assign(8, 0);
    bool failed = throws([&] { overload(which, s, t, as, g, x0, p); });
    vp_check(failed == (bad || (crash && code)), "hierarchies which are not QPs are refused, failures are reported");
    vp_check(vpQp().calls == (bad ? 0 : 1), "the solver is called only for supported problems");
    if (!bad) vp_check(t.s.return_status_ == (code ? humoto::SolverStatus::OTHER : humoto::SolverStatus::OK), "status of the solver");
}
VP_HARNESS(refused_qpoases) { refused<Oases>(); }
VP_HARNESS(refused_qpmad) { refused<Mad>(); }
VP_HARNESS(refused_quadprogpp) { refused<Quad>(); }

// qpOASES: guesses and active sets
static int ternary(int p, int i) { for (; i > 0; --i) p /= 3; return p % 3 - 1; }
static int three(int n) { int r = 1; for (; n > 0; --n) r *= 3; return r; }
static void activeSet(const humoto::ActiveSet &as, const Prob &t)
{
    const VpQp &q = vpQp();
    vp_check((int)as.size() == (int)t.p.getNumberOfLevels(), "levels of the active set");
    int obj = (int)t.p.getNumberOfLevels() - 1;
    vp_check(as[obj].size() == t.p[obj].getNumberOfConstraints() && as[0].size() == t.p[0].getNumberOfConstraints(), "size of the active set");
    for (size_t i = 0; i < as[obj].size(); ++i) vp_check(as[obj][i] == CA::EQUALITY, "the objective is active");
    std::vector<Row> rs = t.rows();
    for (size_t k = 0; k < rs.size(); ++k)
    {
        const Row &r = rs[k];
        CA::Type type = as[0][where(t.p[0], t.ctr[r.task].ptr).offset_ + r.row];
        vp_check(type == CA::INACTIVE || type == CA::LOWER_BOUND || type == CA::UPPER_BOUND || (r.eq && type == CA::EQUALITY), "type of activation");
        if (!r.simple)
        {
            std::vector<double> d;
            for (int j = 0; j < q.A.rows(); ++j)
            {
                int w = q.ws_constraints[j];
                if (type == CA::EQUALITY ? w != 0 : w == (type == CA::LOWER_BOUND ? -1 : type == CA::UPPER_BOUND ? 1 : 0)) d.push_back(diff(q, j, r));
            }
            setIn(d, "general constraints are active as in the working set");
            continue;
        }
        int w = q.ws_bounds[r.var];
        if (type == CA::LOWER_BOUND) { vp_check(w == -1 || (r.eq && w != 0), "active lower bound"); if (w == -1) vp_eq(r.lb, q.lb(r.var), "the tightest lower bound is active"); }
        if (type == CA::UPPER_BOUND) { vp_check(w == 1 || (r.eq && w != 0), "active upper bound"); if (w == 1) vp_eq(r.ub, q.ub(r.var), "the tightest upper bound is active"); }
        if (type == CA::INACTIVE)
        {
            if (w == -1) vp_check(r.lb < q.lb(r.var), "only bounds which are not the tightest are inactive");
            if (w == 1) vp_check(r.ub > q.ub(r.var), "only bounds which are not the tightest are inactive");
        }
    }
}
static void guess(const humoto::ActiveSet &as, const Prob &t)
{
    const VpQp &q = vpQp();
    std::vector<Row> rs = t.rows();
    std::vector<int> lower(N, 0), upper(N, 0), any(N, 0);
    vp_check((int)q.wc.size() == q.A.rows() && (int)q.wb.size() == N, "size of the guess");
    for (size_t k = 0; k < rs.size(); ++k)
    {
        const Row &r = rs[k];
        CA::Type type = as[0][where(t.p[0], t.ctr[r.task].ptr).offset_ + r.row];
        if (!r.simple)
        {
            std::vector<double> d;
            for (int j = 0; j < q.A.rows(); ++j)
                if (type == CA::EQUALITY ? (q.wc[j] == -1 || q.wc[j] == 1) : q.wc[j] == (type == CA::LOWER_BOUND ? -1 : type == CA::UPPER_BOUND ? 1 : 0)) d.push_back(diff(q, j, r));
            setIn(d, "general constraints are guessed as requested");
        }
        else
        {
            if (type == CA::LOWER_BOUND) lower[r.var] = 1;
            if (type == CA::UPPER_BOUND) upper[r.var] = 1;
            if (type == CA::EQUALITY) any[r.var] = 1;
        }
    }
    for (int v = 0; v < N; ++v)
    {
        int w = q.wb[v];
        vp_check((w == -1 && (lower[v] || any[v])) || (w == 1 && (upper[v] || any[v])) || (w == 0 && !lower[v] && !upper[v] && !any[v]), "bounds are guessed as requested");
    }
}
static void guesses(int kind, int pattern)
{
    // kinds of hierarchies: general, simple, both, equalities, bounds of the same variable, no constraints, both with two rows, general and bounds of the same variable
    static const int A[8] = {0, 15, 16, 3, 15, -1, 16, 15}, B[8] = {-1, -1, 2, 18, 16, -1, 2, 2}, ROWS[8] = {2, 2, 1, 1, 1, 0, 2, 2};
    int which = vp_choose("overload", 0, 8);
    bool gx = which == 1 || which == 4 || which == 5 || which == 6, ga = which == 2 || which == 3 || which == 4 || which == 5, out = which == 3 || which == 4 || which == 6 || which == 7;
    Prob t;
    make(t, "t", types(A[kind], B[kind]), types(3, -1), ROWS[kind], kind == 4 || kind == 7 ? 0 : 2);
    std::vector<Row> rs = t.rows();
    humoto::ActiveSet g, as;
    t.p.initializeActiveSet(g);
    g.set(t.p.getNumberOfLevels() - 1, CA::EQUALITY);
    for (size_t k = 0; k < rs.size(); ++k)
    {
        int w = ternary(pattern, 3 - (int)k % 4);
        g[0][where(t.p[0], t.ctr[rs[k].task].ptr).offset_ + rs[k].row] = rs[k].eq ? CA::EQUALITY : w == -1 ? CA::LOWER_BOUND : w == 1 ? CA::UPPER_BOUND : CA::INACTIVE;
    }
    humoto::Solution x0;
    t.cp.initSolutionStructure(x0);
    x0.x_ = symVec("x0", N);
    V before = x0.x_;
    VpQp &q = vpQp();
    q.ws_bounds.assign(N, 0); q.ws_constraints.assign(8, 0);
    int at = 0;
    // the solver activates only constraints which exist
    for (int v = 0; v < N; ++v)
    {
        bool l = false, u = false;
        for (size_t k = 0; k < rs.size(); ++k) if (rs[k].simple && rs[k].var == v) { l = l || rs[k].lb > -1e19; u = u || rs[k].ub < 1e19; }
        int w = ternary(pattern, at++);
        q.ws_bounds[v] = (w == -1 && l) || (w == 1 && u) ? w : 0;
    }
    for (size_t k = 0; k < 2; ++k) q.ws_constraints[k] = ternary(pattern, at++);
    humoto::qpoases::SolverParameters p;
    p.max_number_of_iterations_ = 33;
    double limit = vp_choose("time_limit", 0, 1) ? vp_real("time", 0.000001, 1000) : 0.0;
    p.max_cpu_time_ = limit;
    p.options_.terminationTolerance = vp_real("tolerance", 0.1, 1);
    p.options_.numRefinementSteps = 5;
    humoto::qpoases::Solver s;
    if (which != 8) s.setParameters(p);
    V x = answer("x");
    bool failed = throws([&] { overload(which, s, t, as, g, x0, p); });
    if (failed) { vp_check(conflict(t), "only conflicts of bounds are reported"); return; }
    expected<Oases>(q, t, 0, x, 1);
    vp_check(q.iterations == 33, "limit of iterations");
    vp_check(q.has_time == (limit != 0.0), "time limit");
    if (q.has_time) vp_eq(q.time, limit, "time limit");
    vp_eq(q.tolerance, p.options_.terminationTolerance, "options of the solver");
    vp_check(q.option == 5, "options of the solver");
    vp_check(q.has_x == gx, "guess of the solution");
    if (gx) eqMat(q.x0, before, "guess of the solution");
    vp_check(q.has_wb == ga && q.has_wc == ga, "guess of the active set");
    if (ga) guess(g, t);
    if (out) activeSet(as, t);
    // the next problem is solved without guesses
    Prob u;
    make(u, "u", types(0, -1), types(3, -1), 1, 0);
    V y = answer("y");
    s.solve(u.s, u.p);
    expected<Oases>(q, u, 0, y, 2);
    vp_check(!q.has_x && !q.has_wb && !q.has_wc, "guesses are used once");
    // an active set obtained from the solver can be used as a guess
    if (out)
    {
        s.solve(t.s, t.p, as);
        vp_check(q.has_wb && q.has_wc, "guess of the active set");
        guess(as, t);
    }
}
VP_HARNESS(guesses_general) { int p = vp_choose("pattern", 0, 80); if (p % 9 != 4) vp_stop(); guesses(0, p); }
VP_HARNESS(guesses_simple) { guesses(1, vp_choose("pattern", 0, 80)); }
VP_HARNESS(guesses_both) { guesses(2, vp_choose("pattern", 0, 80)); }
VP_HARNESS(guesses_equalities) { guesses(3, vp_choose("pattern", 0, 80)); }
VP_HARNESS(guesses_same) { guesses(4, vp_choose("pattern", 0, 80)); }
VP_HARNESS(guesses_both_two) { guesses(6, vp_choose("pattern", 0, 80)); }
VP_HARNESS(guesses_general_same) { guesses(7, vp_choose("bound", 0, 2) + 3 + 18 * vp_choose("first", 0, 1) + 54 * vp_choose("second", 0, 1)); }
VP_HARNESS(guesses_none) { guesses(5, 40); }
VP_HARNESS(options_qpmad)
{
    // options of the external solver
    Prob t;
    make(t, "t", types(0, -1), types(3, -1), 1, 0);
    Mad s;
    s.p.options_.tolerance_ = vp_real("tolerance", 0.1, 1);
    s.p.options_.max_iter_ = 12;
    s.crash(true);
    V x = answer("x");
    s.s.solve(t.s, t.p);
    expected<Mad>(vpQp(), t, 0, x, 1);
    vp_eq(vpQp().tolerance, s.p.options_.tolerance_, "tolerance of qpmad is the requested one");
    vp_check(vpQp().iterations == 12, "limit of iterations of qpmad is the requested one");
}
