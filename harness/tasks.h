// Tasks of all types with symbolic data and their written-out meaning.
#pragma once
#include "common.h"
typedef Eigen::MatrixXd M;
typedef Eigen::VectorXd V;

// meaning of one task: lb <= A x <= ub (equality: lb == ub)
struct Meaning
{
    M A;
    V lb, ub;
    bool eq, l, u, simple, gained;
    int rows() const { return A.rows(); }
};
struct TestModel : public humoto::Model
{
    void updateState(const humoto::ModelState &) {}
    void log(humoto::Logger &, const humoto::LogEntryName &, const std::string &) const {}
};
struct TestProblem : public humoto::ControlProblem
{
    TestProblem(int n) { sol_structure_.addSolutionPart("x", n); }
    TestProblem() {}
    humoto::SolutionStructure &structure() { return sol_structure_; }
    void log(humoto::Logger &, const humoto::LogEntryName &, const std::string &) const {}
};
// data put into a task when it is formed
struct Data { M A; V lb, ub, b, gains; humoto::IndexVector I; int offset; bool unmodified; Data() : offset(0), unmodified(false) {} };

template <class B> struct Body_A { static void put(B &t, const Data &d) { t.getA() = d.A; } };
template <class B> struct Body_AS { static void put(B &t, const Data &d) { t.getA() = d.A; t.setOffset(d.offset); } };
template <class B> struct Body_I { static void put(B &t, const Data &d) { t.getIndices() = d.I; } };
template <class B> struct Body_GI { static void put(B &t, const Data &d) { t.getIndices() = d.I; t.getIGains() = d.gains; } };
template <class B> struct Bnd_LU { static void put(B &t, const Data &d) { t.getLowerBounds() = d.lb; t.getUpperBounds() = d.ub; } };
template <class B> struct Bnd_L { static void put(B &t, const Data &d) { t.getLowerBounds() = d.lb; } };
template <class B> struct Bnd_U { static void put(B &t, const Data &d) { t.getUpperBounds() = d.ub; } };
template <class B> struct Bnd_B { static void put(B &t, const Data &d) { t.getB() = d.b; } };
template <class B> struct Bnd_0 { static void put(B &, const Data &) {} };

struct WithData { Data d; virtual ~WithData() {} };
template <class Base, template <class> class Body, template <class> class Bnd> struct TestTask : public Base, public WithData
{
    TestTask(const Data &x) : Base("test") { d = x; }
    void form(const humoto::SolutionStructure &, const humoto::Model &, const humoto::ControlProblem &)
    {
        Body<Base>::put(*this, d);
        Bnd<Base>::put(*this, d);
        if (d.unmodified) this->markAsUnmodified();
    }
};
// bodies: 0 A, 1 AS, 2 GI, 3 I; bounds: 0 LU, 1 L, 2 U, 3 B, 4 B0
static const int NUM_TYPES = 20;
static humoto::TaskSharedPointer newTask(int type, const Data &d, WithData **w = 0)
{
#define T(k, base, body, bnd) case k: { TestTask<humoto::base, body, bnd> *t = new TestTask<humoto::base, body, bnd>(d); if (w) *w = t; return humoto::TaskSharedPointer(t); }
    switch (type)
    {
        T(0, TaskALU, Body_A, Bnd_LU) T(1, TaskAL, Body_A, Bnd_L) T(2, TaskAU, Body_A, Bnd_U) T(3, TaskAB, Body_A, Bnd_B) T(4, TaskAB0, Body_A, Bnd_0)
        T(5, TaskASLU, Body_AS, Bnd_LU) T(6, TaskASL, Body_AS, Bnd_L) T(7, TaskASU, Body_AS, Bnd_U) T(8, TaskASB, Body_AS, Bnd_B) T(9, TaskASB0, Body_AS, Bnd_0)
        T(10, TaskGILU, Body_GI, Bnd_LU) T(11, TaskGIL, Body_GI, Bnd_L) T(12, TaskGIU, Body_GI, Bnd_U) T(13, TaskGIB, Body_GI, Bnd_B) T(14, TaskGIB0, Body_GI, Bnd_0)
        T(15, TaskILU, Body_I, Bnd_LU) T(16, TaskIL, Body_I, Bnd_L) T(17, TaskIU, Body_I, Bnd_U) T(18, TaskIB, Body_I, Bnd_B) T(19, TaskIB0, Body_I, Bnd_0)
    }
#undef T
    return humoto::TaskSharedPointer();
}
static bool typeIsEquality(int type) { return type % 5 >= 3; }
static bool typeIsSimple(int type) { return type >= 10; }
static bool typeIsBound(int type) { return type >= 15; }   // x[I], without gains

// one task with symbolic numbers; "lay" selects the concrete layout (indices, offsets)
struct TestTaskInfo { humoto::TaskSharedPointer ptr; Data d; Meaning m; int type; WithData *w; };
static TestTaskInfo makeTask(const char *name, int type, int rows, int n, int lay, bool ordered = false)
{
    TestTaskInfo r;
    std::string s(name);
    Data d;
    Meaning &m = r.m;
    int body = type / 5, bnd = type % 5;
    m.A = M::Zero(rows, n);
    if (body == 0) { d.A = symMat((s + "A").c_str(), rows, n); m.A = d.A; }
    if (body == 1)
    {
        int cols = 1 + lay % n;
        d.offset = (lay / n) % (n - cols + 1);
        d.A = symMat((s + "A").c_str(), rows, cols);
        for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) m.A(i, d.offset + j) = d.A(i, j);
    }
    if (body >= 2)
    {
        d.I.resize(rows);
        if (body == 2) d.gains = symVec((s + "g").c_str(), rows);
        for (int i = 0; i < rows; ++i)
        {
            int x = lay;
            for (int k = 0; k < i; ++k) x /= n;
            d.I(i) = x % n;
            m.A(i, x % n) = body == 2 ? d.gains(i) : 1.0;
        }
    }
    m.lb = V::Constant(rows, -humoto::g_infinity);
    m.ub = V::Constant(rows, humoto::g_infinity);
    if (bnd == 0 || bnd == 1) m.lb = d.lb = symVec((s + "l").c_str(), rows);
    if (bnd == 0 || bnd == 2) m.ub = d.ub = symVec((s + "u").c_str(), rows);
    if (bnd == 3) m.lb = m.ub = d.b = symVec((s + "b").c_str(), rows);
    if (bnd == 4) m.lb = m.ub = V::Zero(rows);
    if (ordered && bnd == 0) for (int i = 0; i < rows; ++i) vp_assume(d.lb(i) <= d.ub(i));
    m.eq = bnd >= 3; m.l = bnd == 0 || bnd == 1; m.u = bnd == 0 || bnd == 2; m.simple = body >= 2; m.gained = body == 2;
    r.d = d; r.type = type;
    r.ptr = newTask(type, d, &r.w);
    return r;
}
static double rowTimes(const M &A, int i, const V &x) { double s = 0; for (int j = 0; j < A.cols(); ++j) s += A(i, j) * x(j); return s; }
// position of a task in its level, as the level reports it
static humoto::Location where(const humoto::HierarchyLevel &l, const humoto::TaskSharedPointer &t)
{
    for (std::list<humoto::HierarchyLevel::TaskInfo>::const_iterator it = l.tasks_.begin(); it != l.tasks_.end(); ++it)
        if (it->ptr_ == t) return it->location_;
    vp_fail("the task is not in its level");
    return humoto::Location(0, 0);
}
