// Harnesses for both kinds of loggers.
#pragma once
#include "common.h"
#include "logging.h"
typedef humoto::LogEntryName Name;
enum Kind { FIRST = 1, SECOND = 5 };
static Sym sym(const char *n) { return Sym(vp_real(n, -4, 4)); }
static bool one(const std::string &text, Entry &e)
{
    std::vector<Entry> es;
    bool good = parse(text, es) && es.size() == 1;
    vp_check(good, "an entry is one statement");
    if (good) e = es[0];
    return good;
}
static void expectNumber(const std::string &t, const std::string &name, double v)
{
    Entry e;
    if (!one(t, e)) return;
    vp_check(e.name == name, "name of an entry");
    vp_check(!e.string && !e.matrix && e.rows.size() == 1, "kind of an entry");
    if (e.rows.size() == 1) vp_eq(e.rows[0][0], v, "logged number");
}
template <class D> static void expectMatrix(const std::string &t, const std::string &name, const D &m)
{
    Entry e;
    if (!one(t, e)) return;
    vp_check(e.name == name, "name of an entry");
    vp_check(e.matrix, "kind of an entry");
    if (m.size() == 0) { vp_check(e.rows.empty(), "an empty matrix"); return; }
    vp_check((int)e.rows.size() == m.rows(), "number of rows");
    if ((int)e.rows.size() != m.rows()) return;
    for (int i = 0; i < m.rows(); ++i)
    {
        vp_check((int)e.rows[i].size() == m.cols(), "number of columns");
        if ((int)e.rows[i].size() != m.cols()) return;
        for (int j = 0; j < m.cols(); ++j) vp_eq(e.rows[i][j], m(i, j).v, "logged element");
    }
}
template <class F> static std::string logged(F f)
{
    std::stringstream s;
    {
        humoto::Logger l(s);
        f(l);
    }
    return s.str();
}
VP_HARNESS(names)
{
    // components of names are separated with points, indices are those of Octave
    int n = vp_choose("components", 0, 3);
    Name a;
    std::string e;
    for (int i = 0; i < n; ++i)
    {
        char b[32];
        snprintf(b, 32, "kind%d", i);
        int k = vp_choose(b, 0, 4);
        if (k == 0) { a.add("part"); e += e.empty() ? "part" : ".part"; }
        if (k == 1) { a.add(std::string("x_y")); e += e.empty() ? "x_y" : ".x_y"; }
        if (k == 2) a.add("");
        if (k == 3) a.add(std::string());
        if (k == 4) { if (e.empty()) vp_stop(); a.add(std::size_t(i * 9)); e += i == 0 ? "{1}" : i == 1 ? "{10}" : "{19}"; }
    }
    vp_check(a.getAsString() == e, "name");
    Name b(a), c = a;
    b.add("more");
    vp_check(a.getAsString() == e && c.getAsString() == e, "copies of names are independent");
    if (e.empty()) return;
    Sym x = sym("x");
    expectNumber(logged([&](humoto::Logger &l) { l.log(a, x); }), e, x.v);
}
VP_HARNESS(matrices)
{
    int r = vp_choose("rows", 0, 3), c = vp_choose("columns", 0, 3), kind = vp_choose("kind", 0, 4);
    typedef Eigen::Matrix<Sym, Eigen::Dynamic, Eigen::Dynamic> SM;
    SM m(r, c);
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { char b[32]; snprintf(b, 32, "m%d%d", i, j); m(i, j) = sym(b); }
    if (kind == 0) expectMatrix(logged([&](humoto::Logger &l) { l.log(Name("m"), m); }), "m", m);
    if (kind == 1) { SM t = m.transpose(); expectMatrix(logged([&](humoto::Logger &l) { l.log(Name("m").add("t"), m.transpose()); }), "m.t", t); }
    if (kind == 2 && r > 1) { SM t = m.bottomRows(r - 1); expectMatrix(logged([&](humoto::Logger &l) { l.log("part", m.bottomRows(r - 1)); }), "part", t); }
    if (kind == 3 && r == 3 && c == 2) { Eigen::Matrix<Sym, 3, 2> f = m; expectMatrix(logged([&](humoto::Logger &l) { l.log("fixed", f); }), "fixed", m); }
    if (kind == 4 && c == 1) { Eigen::Matrix<Sym, Eigen::Dynamic, 1> v = m; expectMatrix(logged([&](humoto::Logger &l) { l.log("v", v); }), "v", v); }
}
VP_HARNESS(others)
{
    int kind = vp_choose("kind", 0, 9), n = vp_choose("size", 0, 3);
    std::string name = "a.b", t;
    Entry e;
    if (kind == 0)
    {
        // vectors are columns
        std::vector<Sym> v;
        for (int i = 0; i < n; ++i) { char b[32]; snprintf(b, 32, "v%d", i); v.push_back(sym(b)); }
        if (!one(logged([&](humoto::Logger &l) { l.log(Name(name), v); }), e)) return;
        vp_check(e.name == name && e.matrix && (int)e.rows.size() == n, "logged vector");
        for (int i = 0; i < n && i < (int)e.rows.size(); ++i) { vp_check(e.rows[i].size() == 1, "logged vector"); vp_eq(e.rows[i][0], v[i].v, "element of a vector"); }
        return;
    }
    if (kind == 1 || kind == 2)
    {
        std::string s = n == 0 ? "" : n == 1 ? "text" : n == 2 ? "two words; [1, 2]" : "x = 5";
        t = logged([&](humoto::Logger &l) { if (kind == 1) l.log(Name(name), s); else if (n == 0) l.log(Name(name), ""); else if (n == 1) l.log(Name(name), "text"); else if (n == 2) l.log(Name(name), "two words; [1, 2]"); else l.log(Name(name), s.c_str()); });
        if (!one(t, e)) return;
        vp_check(e.name == name && e.string && e.text == s, "logged text");
        return;
    }
    static const double X[4] = {0, -3, 1, 12};
    if (kind == 3) expectNumber(logged([&](humoto::Logger &l) { l.log(Name(name), (int)X[n]); }), name, X[n]);
    if (kind == 4) expectNumber(logged([&](humoto::Logger &l) { l.log(Name(name), (std::size_t)(n * 7)); }), name, n * 7);
    if (kind == 5) expectNumber(logged([&](humoto::Logger &l) { l.log(Name(name), n % 2 ? FIRST : SECOND); }), name, n % 2 ? 1 : 5);
    if (kind == 6) expectNumber(logged([&](humoto::Logger &l) { l.log(Name(name), n % 2 == 1); }), name, n % 2);
    // enough digits
    static const double D[4] = {1.0 / 3, -123456.789012345, 1.23456789012345e-9, 987654321012345.0};
    if (kind == 7) { if (one(logged([&](humoto::Logger &l) { l.log(Name(name), D[n]); }), e) && e.rows.size() == 1) vp_check(std::abs(e.rows[0][0] - D[n]) <= 1e-14 * std::abs(D[n]), "precision of numbers"); }
    if (kind == 8) { Eigen::Vector2d v(D[n], 1); if (one(logged([&](humoto::Logger &l) { l.log(Name(name), v); }), e) && e.rows.size() == 2) vp_check(std::abs(e.rows[0][0] - D[n]) <= 1e-14 * std::abs(D[n]), "precision of numbers"); }
    if (kind == 9)
    {
        // active sets and violations are logged with vectors
        std::vector<humoto::ConstraintActivationType::Type> v(n, humoto::ConstraintActivationType::UPPER_BOUND);
        if (!one(logged([&](humoto::Logger &l) { l.log(Name(name), v); }), e)) return;
        vp_check((int)e.rows.size() == n, "logged vector");
        for (int i = 0; i < n && i < (int)e.rows.size(); ++i) vp_check(e.rows[i].size() == 1 && e.rows[i][0] == 3, "element of a vector");
    }
}
static void expectSequence(const std::string &text, const std::vector<std::pair<std::string, double> > &x)
{
    std::vector<Entry> es;
    bool good = parse(text, es);
    vp_check(good, "a log is a sequence of statements");
    vp_check(es.size() == x.size(), "every message is written once");
    if (!good || es.size() != x.size()) return;
    for (size_t i = 0; i < x.size(); ++i)
    {
        vp_check(es[i].name == x[i].first, "order of messages");
        if (es[i].rows.size() == 1 && es[i].rows[0].size() == 1) vp_eq(es[i].rows[0][0], x[i].second, "logged number"); else vp_fail("logged number");
    }
}
// messages "from".."to" are logged; the values change after they have been logged
static void messages(humoto::Logger &l, int from, int to, const char *p, std::vector<std::pair<std::string, double> > &x)
{
    for (int i = from; i < to; ++i)
    {
        std::string n = std::string(p) + std::to_string(i);
        Sym v = sym(n.c_str());
        x.push_back(std::make_pair(n, v.v));
        l.log(Name(n), v);
        v.v = 55;
    }
}
