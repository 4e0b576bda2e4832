// VP: stubs=msgpack stubs=yaml
// C23: classes of the library and optimization problems in configuration files
#include "config_classes.h"
#include "tasks.h"
#include "humoto/humoto.h"
#include "humoto/kktsolver.h"
#include "humoto/wpg04.h"
#include "humoto/pepper_mpc.h"
#include "humoto/obstacle_avoidance.h"
using humoto::rigidbody::PointMassState;
using humoto::rigidbody::RotaryState;
using humoto::rigidbody::RigidBodyState;
using humoto::rigidbody::RigidBodyPose;
typedef humoto::walking::StanceType ST;
static double real(const std::string &n) { return vp_real(n.c_str(), -4, 4); }
static V seg(const std::string &n, int k) { return symVec(n.c_str(), k); }
static int in(const std::string &n, int a, int b) { return vp_int(n.c_str(), a, b); }
static void eqv(const M &a, const M &b, const std::string &m) { eqMat(a, b, m.c_str()); }

// the contents of every class: "f" is applied to entries of the same name in two objects
struct Fill
{
    std::string p;
    int n;
    std::string next() { return p + std::to_string(n++); }
    void operator()(double &a, double &) { a = real(next()); }
    template <int k> void operator()(Eigen::Matrix<double, k, 1> &a, Eigen::Matrix<double, k, 1> &) { a = seg(next(), k); }
    void operator()(etools::Matrix2 &a, etools::Matrix2 &) { a = symMat(next().c_str(), 2, 2); }
    void operator()(V &a, V &) { a = seg(next(), vp_choose(next().c_str(), 0, 3)); }
    void operator()(std::size_t &a, std::size_t &) { a = in(next(), 1, 900); }
    void operator()(std::ptrdiff_t &a, std::ptrdiff_t &) { a = in(next(), -1, 3); }
    void operator()(bool &a, bool &) { a = vp_bool(next().c_str()); }
    void operator()(ST::Type &a, ST::Type &) { a = (ST::Type)in(next(), 0, 4); }
    void operator()(humoto::pepper_mpc::MotionMode::Mode &a, humoto::pepper_mpc::MotionMode::Mode &) { a = (humoto::pepper_mpc::MotionMode::Mode)in(next(), 0, 2); }
};
struct Compare
{
    void operator()(double &a, double &b) { vp_eq(a, b, "number"); }
    template <int k> void operator()(Eigen::Matrix<double, k, 1> &a, Eigen::Matrix<double, k, 1> &b) { eqv(M(a), M(b), "vector"); }
    void operator()(etools::Matrix2 &a, etools::Matrix2 &b) { eqv(M(a), M(b), "matrix"); }
    void operator()(V &a, V &b) { eqv(M(a), M(b), "vector"); }
    template <class T> void operator()(T &a, T &b) { vp_check(a == b, "integer"); }
};
template <class F> static void entries(PointMassState &a, PointMassState &b, F &f) { f(a.position_, b.position_); f(a.velocity_, b.velocity_); f(a.acceleration_, b.acceleration_); }
template <class F> static void entries(RotaryState &a, RotaryState &b, F &f) { f(a.rpy_, b.rpy_); f(a.angular_velocity_, b.angular_velocity_); f(a.angular_acceleration_, b.angular_acceleration_); }
template <class F> static void entries(RigidBodyState &a, RigidBodyState &b, F &f) { entries((PointMassState &)a, (PointMassState &)b, f); entries((RotaryState &)a, (RotaryState &)b, f); }
template <class F> static void entries(RigidBodyPose &a, RigidBodyPose &b, F &f) { f(a.position_, b.position_); f(a.rpy_, b.rpy_); }
typedef humoto::walking::RobotFootParameters Feet;
// its entries cannot be accessed
static const char *FEET[6] = {"max_step_len", "min_feet_dist", "max_feet_dist", "feet_dist_default", "foot_length", "foot_width"};
template <class F> static void writeFeet(const double *v, const std::string &file, const char *section = "RobotFootParameters")
{
    typename F::W w(file);
    w.initRoot();
    w.descend(section, 6);
    for (int i = 5; i >= 0; --i) w.writeScalar(v[i], FEET[i]);
    w.ascend();
    w.flush();
}
template <class F> static void feetCopy()
{
    double v[6], u;
    for (int i = 0; i < 6; ++i) v[i] = real(FEET[i]);
    std::string section = vp_choose("default_name", 0, 1) ? "RobotFootParameters" : "Another", file = cfgFile(), again = cfgFile();
    writeFeet<F>(v, file, section.c_str());
    typename F::R r(file);
    Feet x;
    x.readConfig(r, section);
    x.template writeConfig<typename F::W>(again, section);
    typename F::R q(again);
    if (!q.descend(section)) { vp_fail("section of the parameters"); return; }
    for (int i = 0; i < 6; ++i) { q.readScalar(u, FEET[i], true); vp_eq(u, v[i], "parameters of the feet"); }
}
typedef humoto::walking::StanceFSMParameters Fsm;
template <class F> static void entries(Fsm &a, Fsm &b, F &f)
{
    f(a.ss_duration_ms_, b.ss_duration_ms_); f(a.tds_duration_ms_, b.tds_duration_ms_); f(a.first_stance_duration_ms_, b.first_stance_duration_ms_); f(a.last_stance_duration_ms_, b.last_stance_duration_ms_);
    f(a.num_steps_, b.num_steps_); f(a.first_stance_, b.first_stance_); f(a.first_ss_type_, b.first_ss_type_); f(a.last_stance_, b.last_stance_);
}
typedef humoto::wpg04::WalkParameters Walk;
template <class F> static void entries(Walk &a, Walk &b, F &f)
{
    entries((Fsm &)a, (Fsm &)b, f);
    f(a.com_velocity_, b.com_velocity_); f(a.first_stance_com_velocity_, b.first_stance_com_velocity_); f(a.last_stance_com_velocity_, b.last_stance_com_velocity_);
    f(a.step_height_, b.step_height_); f(a.theta_increment_, b.theta_increment_);
}
template <class F> static void entries(humoto::wpg04::ModelState &a, humoto::wpg04::ModelState &b, F &f)
{
    f(a.stance_type_, b.stance_type_); f(a.next_stance_type_, b.next_stance_type_);
    entries(a.com_state_, b.com_state_, f); entries(a.feet_.getLeft(), b.feet_.getLeft(), f); entries(a.feet_.getRight(), b.feet_.getRight(), f);
}
typedef humoto::pepper_mpc::RobotParameters Robot;
template <class F> static void entries(Robot &a, Robot &b, F &f)
{
    f(a.base_radius_, b.base_radius_); f(a.max_nominal_base_velocity_, b.max_nominal_base_velocity_); f(a.max_nominal_base_acceleration_, b.max_nominal_base_acceleration_);
    f(a.max_base_velocity_, b.max_base_velocity_); f(a.max_base_acceleration_, b.max_base_acceleration_); f(a.body_bounds_, b.body_bounds_);
}
typedef humoto::pepper_mpc::MotionParameters Motion;
template <class F> static void entries(Motion &a, Motion &b, F &f)
{
    f(a.base_velocity_, b.base_velocity_); f(a.base_position_, b.base_position_); f(a.base_angular_velocity_, b.base_angular_velocity_); f(a.motion_mode_, b.motion_mode_); f(a.duration_ms_, b.duration_ms_);
}
typedef humoto::pepper_mpc::MPCParameters Mpc;
template <class F> static void entries(Mpc &a, Mpc &b, F &f) { f(a.preview_horizon_length_, b.preview_horizon_length_); f(a.sampling_time_ms_, b.sampling_time_ms_); f(a.subsampling_time_ms_, b.subsampling_time_ms_); }
template <class F> static void entries(humoto::pepper_mpc::ModelState &a, humoto::pepper_mpc::ModelState &b, F &f)
{
    entries(a.base_state_, b.base_state_, f); entries(a.body_state_, b.body_state_, f); f(a.base_mass_, b.base_mass_); f(a.body_mass_, b.body_mass_);
}
template <class F> static void entries(humoto::Solution &a, humoto::Solution &b, F &f) { f(a.x_, b.x_); }
template <class F> static void entries(humoto::SolverParametersBase &a, humoto::SolverParametersBase &b, F &f) { f(a.crash_on_any_failure_, b.crash_on_any_failure_); f(a.solve_two_levels_as_qp_, b.solve_two_levels_as_qp_); }
struct Obstacle : humoto::obstacle_avoidance::ObstacleBase
{
    void updateConstraints(const humoto::ControlProblem &, const humoto::Solution &, const double) {}
    void resetConstraints(const humoto::ControlProblem &) {}
};

template <class F, class T> static void copyOf(const char *id)
{
    T a, b, x, y;
    Fill fa = {"a", 0}, fb = {"b", 0};
    entries(a, a, fa);
    entries(b, b, fb);
    std::string file = cfgFile();
    {
        typename F::W w(file);
        b.writeConfig(w, "Another");
        a.writeConfig(w);
    }
    Compare c;
    typename F::R r(file);
    x.readConfig(r);
    entries(x, a, c);
    x.readConfig(r, "Another");
    entries(x, b, c);
    // the name of the section
    typename F::R q(file);
    y.readConfig(q, id);
    entries(y, a, c);
}
template <class F> static void classes()
{
    switch (vp_choose("class", 0, 12))
    {
        case 0: copyOf<F, PointMassState>("PointMassState"); break;
        case 1: copyOf<F, RotaryState>("RotaryState"); break;
        case 2: copyOf<F, RigidBodyState>("RigidBodyState"); break;
        case 3: copyOf<F, RigidBodyPose>("RigidBodyPose"); break;
        case 4: feetCopy<F>(); break;
        case 5: copyOf<F, Fsm>("StanceFSMParameters"); break;
        case 6: copyOf<F, Walk>("WalkParameters"); break;
        case 7: copyOf<F, humoto::wpg04::ModelState>("ModelState"); break;
        case 8: copyOf<F, Robot>("RobotParameters"); break;
        case 9: copyOf<F, Motion>("MotionParameters"); break;
        case 10: copyOf<F, humoto::pepper_mpc::ModelState>("ModelState"); break;
        case 11: copyOf<F, humoto::kktsolver::SolverParameters>("SolverParameters"); break;
        default: copyOf<F, Obstacle>("ObstacleBase");
    }
}
// Entries which are missing get default values, which do not depend on what the object contained before and which are the
// values of a new object.
// entries apart from members, which get the defaults of their own classes
template <class T, class F> static void own(T &a, T &b, F &f) { entries(a, b, f); }
template <class F> static void own(humoto::wpg04::ModelState &a, humoto::wpg04::ModelState &b, F &f) { f(a.stance_type_, b.stance_type_); f(a.next_stance_type_, b.next_stance_type_); }
template <class F> static void own(humoto::pepper_mpc::ModelState &a, humoto::pepper_mpc::ModelState &b, F &f) { f(a.base_mass_, b.base_mass_); f(a.body_mass_, b.body_mass_); }
struct NoNumbers { template <class T> void operator()(T &a, T &b) { for (int i = 0; i < a.size(); ++i) vp_check(a(i) != a(i) && b(i) != b(i), "undefined by default"); } };
template <class T> struct CompareOf { typedef T type; };
template <class F, class T, class C = CompareOf<Compare> > static void defaultsOf(const char *id)
{
    T x, y, fresh;
    Fill fx = {"x", 0}, fy = {"y", 0};
    entries(x, x, fx);
    entries(y, y, fy);
    std::string file = cfgFile();
    {
        typename F::W w(file);
        w.initRoot();
        w.descend(id, 1);
        w.writeScalar(1.0, "unknown");
        w.ascend();
        w.flush();
    }
    typename C::type c;
    typename F::R r(file);
    x.readConfig(r, id, false);
    y.readConfig(r, id, false);
    entries(x, y, c);
    own(x, fresh, c);
}
template <class F> static void defaultValues()
{
    switch (vp_choose("class", 0, 11))
    {
        case 0: defaultsOf<F, PointMassState>("PointMassState"); break;
        case 1: defaultsOf<F, RotaryState>("RotaryState"); break;
        case 2: defaultsOf<F, RigidBodyState>("RigidBodyState"); break;
        case 3: defaultsOf<F, RigidBodyPose, CompareOf<NoNumbers> >("RigidBodyPose"); break;
        case 4: defaultsOf<F, Fsm>("StanceFSMParameters"); break;
        case 5: defaultsOf<F, Walk>("WalkParameters"); break;
        case 6: defaultsOf<F, humoto::wpg04::ModelState>("ModelState"); break;
        case 7: defaultsOf<F, Robot>("RobotParameters"); break;
        case 8: defaultsOf<F, Motion>("MotionParameters"); break;
        case 9: defaultsOf<F, humoto::pepper_mpc::ModelState>("ModelState"); break;
        case 10: defaultsOf<F, Mpc>("MPCParameters"); break;
        default: defaultsOf<F, humoto::kktsolver::SolverParameters>("SolverParameters"); break;
    }
}
VP_HARNESS(defaults_msgpack) { defaultValues<Msg>(); }
VP_HARNESS(defaults_yaml) { defaultValues<Yml>(); }
VP_HARNESS(classes_msgpack) { classes<Msg>(); }
VP_HARNESS(classes_yaml) { classes<Yml>(); }
template <class F> static void solution()
{
    humoto::Solution a, x;
    a.x_ = seg("x", vp_choose("n", 0, 4));
    std::string file = cfgFile();
    a.writeConfig<typename F::W>(file);
    x.readConfig<typename F::R>(file);
    eqv(M(x.x_), M(a.x_), "solution");
}
VP_HARNESS(solution_msgpack) { solution<Msg>(); }
VP_HARNESS(solution_yaml) { solution<Yml>(); }

// Numbers derived from the entries correspond to the entries which have been read.
template <class F> static void derived()
{
    int k = vp_choose("class", 0, 3);
    int sub = vp_choose("subsampling", 1, 3) * 20, ratio = vp_choose("ratio", 1, 3), tds = vp_choose("tds_ratio", 1, 3), bad = vp_choose("indivisible", 0, 2);
    Robot robot;
    double v[6] = {0};
    if (k == 0) for (int i = 0; i < 6; ++i) v[i] = real(FEET[i]);
    if (k == 1) { Fill f = {"f", 0}; entries(robot, robot, f); }
    std::string file = cfgFile();
    if (k == 0) writeFeet<F>(v, file);
    else
    {
        typename F::W w(file);
        if (k == 1) robot.writeConfig(w);
        if (k >= 2)
        {
            w.initRoot();
            w.descend("MPCParameters", 4);
            w.writeScalar(std::size_t(sub * tds + (bad == 2)), "tds_sampling_time_ms");
            w.writeScalar(std::size_t(sub), "subsampling_time_ms");
            w.writeScalar(std::size_t(sub * ratio + (bad == 1)), "sampling_time_ms");
            w.writeScalar(std::size_t(7), "preview_horizon_length");
            w.ascend();
            w.flush();
        }
    }
    typename F::R r(file);
    if (k == 0)
    {
        Feet x(r);
        double L = v[4] / 2, W = v[5] / 2, D = v[3] / 2;
        M ss(2, 2), ads(2, 2);
        ss << -L, L, -W, W;
        ads << -L, L, -W - D, W + D;
        eqv(M(x.getSSCoPBounds()), ss, "bounds of the center of pressure in a single support");
        eqv(M(x.getADSCoPBounds()), ads, "bounds of the center of pressure in an aligned double support");
    }
    if (k == 1)
    {
        Robot x(r);
        double c = robot.base_radius_ / std::sqrt(2.), v = robot.max_nominal_base_velocity_ / std::sqrt(2.), a = robot.max_nominal_base_acceleration_ / std::sqrt(2.);
        M mc(2, 2), mv(2, 2), ma(2, 2);
        mc << -c, c, -c, c; mv << -v, v, -v, v; ma << -a, a, -a, a;
        eqv(M(x.getCoPBounds()), mc, "bounds of the center of pressure");
        eqv(M(x.getNominalBaseVelocityBounds()), mv, "bounds of the velocity");
        eqv(M(x.getNominalBaseAccelerationBounds()), ma, "bounds of the acceleration");
        eqv(M(x.getBodyBounds()), M(robot.body_bounds_), "bounds of the body");
    }
    if (k == 2)
    {
        // times which are not multiples are refused
        humoto::wpg04::MPCParameters x;
        bool failed = throws([&] { x.readConfig(r); });
        vp_check(failed == (bad != 0), "sampling times are multiples of the subsampling time");
        if (!failed)
        {
            vp_eq(x.getSubsamplingTime(), sub / 1000., "subsampling time in seconds");
            vp_check((int)x.preview_horizon_length_ == 7 && (int)x.sampling_time_ms_ == sub * ratio && (int)x.subsampling_time_ms_ == sub && (int)x.tds_sampling_time_ms_ == sub * tds, "parameters");
        }
    }
    if (k == 3)
    {
        Mpc x(r);
        vp_eq(x.getSubsamplingTime(), sub / 1000., "subsampling time in seconds");
        vp_eq(x.getSamplingTime(), (sub * ratio + (bad == 1)) / 1000., "sampling time in seconds");
        vp_check((int)x.preview_horizon_length_ == 7, "parameters");
    }
}
VP_HARNESS(derived_msgpack) { derived<Msg>(); }
VP_HARNESS(derived_yaml) { derived<Yml>(); }

// Optimization problems: tasks, their levels, names and parameters
struct TaskInfo { std::string cls, id; double gain; bool has_gain, flag; std::string vars; };
// new task of a class by its number
static humoto::TaskSharedPointer newOf(int set, int k, TaskInfo &i, const std::string &p)
{
    using namespace humoto;
    TaskSharedPointer t;
    double g = i.gain = real(p);
    i.has_gain = true; i.flag = false; i.vars = "";
#define MAKE(c, name, ...) { t.reset(new c(__VA_ARGS__)); i.cls = name; break; }
    if (k < 3)
    {
        switch (k)
        {
            case 0: i.vars = "part"; MAKE(TaskZeroVariables, "TaskZeroVariables", g, p, "part")
            case 1: { IndexVector v(2); v << 1, 3; MAKE(TaskZeroSelectedVariables, "TaskZeroSelectedVariables", v, g, p) }
            default: MAKE(TaskInfeasibleInequality, "TaskInfeasibleInequality", g, p)
        }
    }
    else if (set == 0)
    {
        using namespace humoto::wpg04;
        switch (k)
        {
            case 3: MAKE(TaskCoMVelocity, "TaskCoMVelocity", g)
            case 4: i.vars = COP_VARIABLES_ID; MAKE(TaskCoPPosition, "TaskCoPPosition", g)
            case 5: MAKE(TaskCoPVelocity, "TaskCoPVelocity", g)
            case 6: i.has_gain = false; i.flag = vp_choose((p + "fixed").c_str(), 0, 1); MAKE(TaskFootstepBounds, "TaskFootstepBounds", i.flag)
            case 7: i.has_gain = false; { t.reset(new TaskCoPBounds); i.cls = "TaskCoPBounds"; break; }
            default: MAKE(TaskTerminalConstraint, "TaskTerminalConstraint", g)
        }
    }
    else
    {
        using namespace humoto::pepper_mpc;
        switch (k)
        {
            case 3: { t.reset(new TaskBaseAccelerationBounds); i.cls = "TaskBaseAccelerationBounds"; i.gain = 0; break; }
            case 4: MAKE(TaskBaseJerkMinimization, "TaskBaseJerkMinimization", g)
            case 5: MAKE(TaskBasePositionReference, "TaskBasePositionReference", g)
            case 6: { t.reset(new TaskBaseVelocityBounds); i.cls = "TaskBaseVelocityBounds"; i.has_gain = false; break; }
            case 7: MAKE(TaskBaseVelocityReference, "TaskBaseVelocityReference", g)
            case 8: i.vars = BODY_JERK_VARIABLES_ID; MAKE(TaskBodyJerkMinimization, "TaskBodyJerkMinimization", g)
            case 9: { t.reset(new TaskBodyPositionBounds); i.cls = "TaskBodyPositionBounds"; i.gain = 0; break; }
            case 10: MAKE(TaskBodyPositionReference, "TaskBodyPositionReference", g)
            case 11: MAKE(TaskCoPCentering, "TaskCoPCentering", g)
            default: { t.reset(new TaskCoPPositionBounds); i.cls = "TaskCoPPositionBounds"; i.gain = 0; break; }
        }
    }
#undef MAKE
    // names are given by the user or are those of the classes
    if (k < 3) t->setDescription(p);
    i.id = t->getDescription();
    return t;
}
template <class P> struct Open : P
{
    const std::list<humoto::HierarchyLevel::TaskInfo> &tasks(size_t level) { return this->hierarchy_[level].tasks_; }
    std::size_t levels() { return this->getNumberOfLevels(); }
};
// the parameters of a task, as they are written
template <class F> static void expectTask(humoto::TaskBase &t, const TaskInfo &i)
{
    vp_check(t.getDescription() == i.id, "name of a task");
    std::string file = cfgFile();
    {
        typename F::W w(file);
        t.writeConfig(w, "T");
    }
    typename F::R r(file);
    if (!r.descend("T")) { vp_fail("section of a task"); return; }
    double g = 0;
    std::string v;
    bool b = false;
    if (i.has_gain) { r.readScalar(g, "gain", true); vp_eq(g, i.gain, "gain of a task"); }
    if (!i.vars.empty()) { r.readScalar(v, "variables_id", true); vp_check(v == i.vars, "variables of a task"); }
    if (i.cls == "TaskFootstepBounds") { r.readScalar(b, "fix_footsteps", true); vp_check(b == i.flag, "flag of a task"); }
    if (i.cls == "TaskZeroSelectedVariables")
    {
        humoto::IndexVector x;
        r.readCompound(x, "variables_indices", true);
        vp_check(x.size() == 2 && x(0) == 1 && x(1) == 3, "indices of variables");
    }
}
static humoto::TaskSharedPointer find(const std::list<humoto::HierarchyLevel::TaskInfo> &l, const std::string &id)
{
    for (std::list<humoto::HierarchyLevel::TaskInfo>::const_iterator i = l.begin(); i != l.end(); ++i)
        if (i->ptr_->getDescription() == id) return i->ptr_;
    return humoto::TaskSharedPointer();
}
template <class F, class P> static void problems(int set)
{
    int classes = set == 0 ? 9 : 13, levels = vp_choose("levels", 1, 3), first = vp_choose("task", 0, classes - 1), n = levels == 1 ? vp_choose("tasks", 1, 2) : 3;
    Open<P> a, x;
    std::vector<std::vector<TaskInfo> > e(levels);
    a.reset(levels);
    for (int i = 0; i < n; ++i)
    {
        int l = i % levels;
        TaskInfo t;
        humoto::TaskSharedPointer p = newOf(set, (first + i) % classes, t, "task" + std::to_string(i));
        a.pushTask(p, l, t.cls);
        e[l].push_back(t);
    }
    std::string file = cfgFile();
    a.template writeConfig<typename F::W>(file, "Hierarchy");
    // a problem which contained something else
    if (vp_choose("used", 0, 1))
    {
        x.reset(2);
        TaskInfo t;
        x.pushTask(newOf(set, 0, t, "old"), 1, t.cls);
    }
    x.template readConfig<typename F::R>(file, "Hierarchy");
    vp_check((int)x.levels() == levels, "number of levels");
    if ((int)x.levels() != levels) return;
    for (int l = 0; l < levels; ++l)
    {
        vp_check(x.tasks(l).size() == e[l].size(), "number of tasks");
        if (x.tasks(l).size() != e[l].size()) return;
        // the order of tasks of a level is not important
        for (size_t k = 0; k < e[l].size(); ++k)
        {
            humoto::TaskSharedPointer p = find(x.tasks(l), e[l][k].id), q = find(a.tasks(l), e[l][k].id);
            vp_check(p && q, "name of a task");
            if (!p || !q) return;
            const humoto::TaskBase &u = *p, &v = *q;
            vp_check(p != q && typeid(u) == typeid(v), "class of a task");
            expectTask<F>(*p, e[l][k]);
        }
    }
    // what has been read can be written and read again
    std::string again = cfgFile();
    x.template writeConfig<typename F::W>(again);
    Open<P> y;
    y.template readConfig<typename F::R>(again);
    vp_check((int)y.levels() == levels, "number of levels");
    for (int l = 0; l < levels && (int)y.levels() == levels; ++l) vp_check(y.tasks(l).size() == e[l].size(), "number of tasks");
}
VP_HARNESS(problems_wpg_msgpack) { problems<Msg, humoto::wpg04::ConfigurableOptimizationProblem>(0); }
VP_HARNESS(problems_wpg_yaml) { problems<Yml, humoto::wpg04::ConfigurableOptimizationProblem>(0); }
VP_HARNESS(problems_pepper_msgpack) { problems<Msg, humoto::pepper_mpc::ConfigurableOptimizationProblem>(1); }
VP_HARNESS(problems_pepper_yaml) { problems<Yml, humoto::pepper_mpc::ConfigurableOptimizationProblem>(1); }

// Mistakes in the description of a problem are reported.
template <class F> static void mistakes()
{
    int k = vp_choose("mistake", 0, 5);
    double g = real("gain");
    std::vector<std::vector<std::string> > c(2), d(2);
    c[0].push_back("TaskZeroVariables"); d[0].push_back("a");
    c[1].push_back("TaskInfeasibleInequality"); d[1].push_back("b");
    if (k == 1) c[1][0] = "TaskWithoutName";
    if (k == 2) d[1].clear();
    if (k == 3) d.pop_back();
    if (k == 4) { c.clear(); d.clear(); }
    std::string file = cfgFile();
    {
        typename F::W w(file);
        w.initRoot();
        w.descend("P", 4);
        w.writeCompound(c, "task_class_names");
        w.writeCompound(d, "task_ids");
        w.descend("a", 2); w.writeScalar(g, "gain"); w.writeScalar(std::string(""), "variables_id"); w.ascend();
        w.descend(k == 5 ? "c" : "b", 1); w.writeScalar(g, "gain"); w.ascend();
        w.ascend();
        w.flush();
    }
    humoto::ConfigurableOptimizationProblem p;
    vp_check(throws([&] { p.readConfig<typename F::R>(file, "P"); }) == (k != 0), "mistakes are reported, and only mistakes");
    if (k == 0) vp_check(p.getNumberOfLevels() == 2, "number of levels");
}
VP_HARNESS(mistakes_msgpack) { mistakes<Msg>(); }
VP_HARNESS(mistakes_yaml) { mistakes<Yml>(); }

// Parameters of tasks which are not given get the values which tasks have when they are constructed without arguments.
template <class F> static double gainOf(humoto::TaskBase &t, bool flag = false)
{
    std::string file = cfgFile();
    {
        typename F::W w(file);
        t.writeConfig(w, "T");
    }
    typename F::R r(file);
    r.descend("T");
    double g = 0;
    bool b = false;
    if (flag) { r.readScalar(b, "fix_footsteps", true); return b; }
    r.readScalar(g, "gain", true);
    return g;
}
// a section without the parameters of a task
template <class F> static std::string emptySection()
{
    std::string file = cfgFile();
    typename F::W w(file);
    w.initRoot();
    w.descend("T", 1);
    w.writeScalar(1.0, "unknown");
    w.ascend();
    w.flush();
    return file;
}
template <class F, class T> static void taskDefaults(T &x, T &fresh, bool flag = false)
{
    typename F::R r(emptySection<F>());
    bool strict = vp_choose("strict", 0, 1), section = vp_choose("section", 0, 1);
    std::string name = section ? "T" : "U";
    vp_check(throws([&] { x.readConfig(r, name, strict); }) == strict, "missing parameters are reported by request");
    if (!strict) vp_eq(gainOf<F>(x, flag), gainOf<F>(fresh, flag), "default parameters of a task");
}
template <class F> static void defaultsOfTasks()
{
    using namespace humoto::wpg04;
    int k = vp_choose("class", 0, 4);
    double g = real("gain");
    switch (k)
    {
        case 0: { TaskCoMVelocity a(g), b; taskDefaults<F>(a, b); break; }
        case 1: { TaskCoPPosition a(g), b; taskDefaults<F>(a, b); break; }
        case 2: { TaskCoPVelocity a(g), b; taskDefaults<F>(a, b); break; }
        case 3: { TaskTerminalConstraint a(g), b; taskDefaults<F>(a, b); break; }
        default: { TaskFootstepBounds a(true), b; taskDefaults<F>(a, b, true); }
    }
}
// The default gain does not depend on the gain which the task had before.
template <class F> static void sameDefaults()
{
    int set = vp_choose("set", 0, 1), k = vp_choose("class", 0, set ? 12 : 2);
    TaskInfo i, j;
    humoto::TaskSharedPointer x = newOf(set, k, i, "x"), y = newOf(set, k, j, "y");
    if (!i.has_gain) return;
    typename F::R r(emptySection<F>());
    x->readConfig(r, "T", false);
    y->readConfig(r, "T", false);
    vp_eq(gainOf<F>(*x), gainOf<F>(*y), "default gain of a task");
}
VP_HARNESS(task_same_defaults_msgpack) { sameDefaults<Msg>(); }
VP_HARNESS(task_same_defaults_yaml) { sameDefaults<Yml>(); }
VP_HARNESS(task_defaults_msgpack) { defaultsOfTasks<Msg>(); }
VP_HARNESS(task_defaults_yaml) { defaultsOfTasks<Yml>(); }
