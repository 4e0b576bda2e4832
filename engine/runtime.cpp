// VPS runtime: symbolic values, shadow memory, path exploration, solver.
#include "expr.h"
#include <atomic>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <fcntl.h>
#include <malloc.h>
#include <poll.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <typeinfo>
#include <cxxabi.h>
#include <unistd.h>
#include <z3++.h>

extern "C" {
void *__vps_tag = 0;
void *__vps_rettag = 0;
int64_t __vps_args[128];
int64_t __vps_ret[128];
}

// ------------------------------------------------------------------ options, shared state, log
struct Shared
{
    std::atomic<int> tokens;
    std::atomic<long> paths, forks, queries, unsat, sat, unknown, solver_us, checks, eqs, identities, confirmed, bounded, solver_checked,
        undecided, infeasible_assume, truncated, sample_decided, crashed, viols, proc, normdecided, timeouts, lastpath, decs;
    std::atomic<uint64_t> tab[4096]; // hash of a line already logged
    std::atomic<int> cnt[4096];
};
static Shared *G;
static int logfd = 2;
static std::string harness_name;
static long max_paths = 20000, max_decisions = 4000, query_rlimit = 40000000;
static int query_seconds = 15;
static int cross = 1;
static double deadline = 0;
static uint64_t seed = 1;
static int path_seconds = 120;
static void armTimer()
{
    struct itimerval t; memset(&t, 0, sizeof t);
    t.it_value.tv_sec = path_seconds;
    setitimer(ITIMER_VIRTUAL, &t, 0);
}
static double now() { struct timeval t; gettimeofday(&t, 0); return t.tv_sec + 1e-6 * t.tv_usec; }

static std::string js(const std::string &s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
static void logline(const std::string &s) { std::string t = s + "\n"; ssize_t r = write(logfd, t.data(), t.size()); (void)r; }

// how often this line was logged before, over all processes
static int seenBefore(const std::string &s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    if (!h) h = 1;
    for (int i = 0; i < 4096; ++i)
    {
        int k = (h + i) & 4095;
        uint64_t cur = G->tab[k].load();
        if (cur == 0) { uint64_t z = 0; if (G->tab[k].compare_exchange_strong(z, h)) cur = h; else cur = z; }
        if (cur == h) return G->cnt[k]++;
    }
    return 0;
}
static void note(const char *kind, const std::string &what)
{
    if (seenBefore(std::string(kind) + "/" + what)) return;
    logline(std::string("{\"t\":") + js(kind) + ",\"what\":" + js(what) + "}");
}

// ------------------------------------------------------------------ DAG
static std::deque<Node> N(1);
static std::deque<mpq_class> Q;           // constants of R_CONST (index k)
static std::vector<Var> vars;
static std::deque<Poly> polys;            // interned polynomials of comparisons
static std::map<Poly, int> polyIdx;
struct Key { uint8_t op; Id a, b, c; int64_t k; bool operator==(const Key &o) const { return op == o.op && a == o.a && b == o.b && c == o.c && k == o.k; } };
struct KeyHash { size_t operator()(const Key &x) const { size_t h = x.op; h = h * 1000003 ^ x.a; h = h * 1000003 ^ x.b; h = h * 1000003 ^ x.c; h = h * 1000003 ^ (size_t)x.k; return h ^ (h >> 29); } };
static std::unordered_map<Key, Id, KeyHash> cons;
static std::map<mpq_class, Id> rconsts;

static Id mk(uint8_t op, uint8_t sort, Id a, Id b, Id c, int64_t k, i128 lo = 0, i128 hi = 0, double d = 0)
{
    Key key = {op, a, b, c, k};
    auto it = cons.find(key);
    if (it != cons.end()) return it->second;
    Node n; n.op = op; n.sort = sort; n.a = a; n.b = b; n.c = c; n.k = k; n.lo = lo; n.hi = hi; n.d = d;
    N.push_back(n);
    Id id = N.size() - 1;
    cons[key] = id;
    return id;
}
static Id mkR(const mpq_class &q)
{
    auto it = rconsts.find(q);
    if (it != rconsts.end()) return it->second;
    Q.push_back(q);
    Id id = mk(R_CONST, REAL, 0, 0, 0, Q.size() - 1);
    rconsts[q] = id;
    return id;
}
static Id mkD(double d)
{
    if (std::isfinite(d)) return mkR(mpq_class(d));
    int64_t k; if (d != d) k = 0; else k = d > 0 ? 1 : 2;
    return mk(R_SPEC, REAL, 0, 0, 0, k, 0, 0, d);
}
static Id mkI(i128 v) { return mk(N_CONST, INT, (Id)((v >> 64) & 0xffffffff), 0, 0, (int64_t)v, v, v); }
static Id mkB(bool b) { return mk(B_CONST, BOOL, 0, 0, 0, b); }
static bool isRC(Id x) { return N[x].op == R_CONST; }
static const mpq_class &rc(Id x) { return Q[N[x].k]; }
static bool isIC(Id x) { return N[x].op == N_CONST; }
static bool isBC(Id x) { return N[x].op == B_CONST; }
static i128 ic(Id x) { return N[x].lo; }

static Id realOf(double v, Id s) { return s ? s : mkD(v); }
static Id intOf(int64_t v, Id s) { return s ? s : mkI(v); }

// ---- bool
static Id mkNot(Id a)
{
    if (isBC(a)) return mkB(!N[a].k);
    if (N[a].op == B_NOT) return N[a].a;
    return mk(B_NOT, BOOL, a, 0, 0, 0);
}
static Id mkAnd(Id a, Id b)
{
    if (isBC(a)) return N[a].k ? b : a;
    if (isBC(b)) return N[b].k ? a : b;
    if (a == b) return a;
    if (mkNot(a) == b) return mkB(false);
    if (a > b) std::swap(a, b);
    return mk(B_AND, BOOL, a, b, 0, 0);
}
static Id mkOr(Id a, Id b)
{
    if (isBC(a)) return N[a].k ? a : b;
    if (isBC(b)) return N[b].k ? b : a;
    if (a == b) return a;
    if (mkNot(a) == b) return mkB(true);
    if (a > b) std::swap(a, b);
    return mk(B_OR, BOOL, a, b, 0, 0);
}
static Id mkXor(Id a, Id b) { return mkOr(mkAnd(a, mkNot(b)), mkAnd(mkNot(a), b)); }

static bool decide(Id cond);   // fork on a boolean
static void assume(Id cond);
[[noreturn]] static void finish(const char *how);
static void undecided(const std::string &what);
[[noreturn]] static void unsupported(const std::string &w)
{
    undecided("unsupported: " + w);
    finish("unsupported");
}

// ---- int
static Id mkITE(Id c, Id a, Id b)
{
    if (isBC(c)) return N[c].k ? a : b;
    if (a == b) return a;
    if (N[c].op == B_NOT) return mkITE(N[c].a, b, a);
    return mk(N_ITE, INT, c, a, b, 0, std::min(N[a].lo, N[b].lo), std::max(N[a].hi, N[b].hi));
}
static Id iadd(Id a, Id b)
{
    if (isIC(a) && isIC(b)) return mkI(ic(a) + ic(b));
    if (isIC(a)) std::swap(a, b);
    if (isIC(b) && ic(b) == 0) return a;
    if (isIC(b) && N[a].op == N_ADD && isIC(N[a].b)) return iadd(N[a].a, mkI(ic(N[a].b) + ic(b)));
    if (!isIC(b) && a > b) std::swap(a, b);
    return mk(N_ADD, INT, a, b, 0, 0, N[a].lo + N[b].lo, N[a].hi + N[b].hi);
}
static Id imulc(Id a, Id b);
static Id isub(Id a, Id b)
{
    if (a == b) return mkI(0);
    if (isIC(b)) return iadd(a, mkI(-ic(b)));
    if (N[a].op == N_ADD && N[a].a == b) return N[a].b;
    if (N[a].op == N_ADD && N[a].b == b) return N[a].a;
    return mk(N_SUB, INT, a, b, 0, 0, N[a].lo - N[b].hi, N[a].hi - N[b].lo);
}
static Id imulc(Id a, Id b)
{
    if (isIC(a) && isIC(b)) return mkI(ic(a) * ic(b));
    if (isIC(a)) std::swap(a, b);
    if (isIC(b) && ic(b) == 0) return b;
    if (isIC(b) && ic(b) == 1) return a;
    if (!isIC(b) && a > b) std::swap(a, b);
    i128 c[4] = {N[a].lo * N[b].lo, N[a].lo * N[b].hi, N[a].hi * N[b].lo, N[a].hi * N[b].hi};
    return mk(N_MUL, INT, a, b, 0, 0, *std::min_element(c, c + 4), *std::max_element(c, c + 4));
}
static i128 smin(int w) { return -((i128)1 << (w - 1)); }
static i128 smax(int w) { return ((i128)1 << (w - 1)) - 1; }
static Id mkICmp(int kind, Id a, Id b)
{
    if (kind == C_LT) { if (N[a].hi < N[b].lo) return mkB(true); if (N[a].lo >= N[b].hi) return mkB(false); }
    if (kind == C_LE) { if (N[a].hi <= N[b].lo) return mkB(true); if (N[a].lo > N[b].hi) return mkB(false); }
    if (kind == C_EQ)
    {
        if (a == b) return mkB(true);
        if (N[a].hi < N[b].lo || N[b].hi < N[a].lo) return mkB(false);
    }
    else if (a == b) return mkB(kind == C_LE);
    for (int sw = 0; sw < 2; ++sw)
    {
        Id x = sw ? b : a, y = sw ? a : b;
        if (N[x].op == N_ITE && isIC(y))
        {
            Id t = N[x].b, f = N[x].c;
            Id ct = sw ? mkICmp(kind, y, t) : mkICmp(kind, t, y), cf = sw ? mkICmp(kind, y, f) : mkICmp(kind, f, y);
            Id c = N[x].a;
            return mkOr(mkAnd(c, ct), mkAnd(mkNot(c), cf));
        }
    }
    // move constants: (x + c) ? y
    if (N[a].op == N_ADD && isIC(N[a].b) && isIC(b)) return mkICmp(kind, N[a].a, mkI(ic(b) - ic(N[a].b)));
    if (N[b].op == N_ADD && isIC(N[b].b) && isIC(a)) return mkICmp(kind, mkI(ic(a) - ic(N[b].b)), N[b].a);
    if (kind == C_EQ && a > b) std::swap(a, b);
    if (kind == C_LE) return mkNot(mkICmp(C_LT, b, a));
    return mk(B_ICMP, BOOL, a, b, 0, kind);
}
static Id uns(Id a, int w)
{
    if (N[a].lo >= 0) return a;
    Id up = iadd(a, mkI((i128)1 << w));
    if (N[a].hi < 0) return up;
    Id r = mkITE(mkICmp(C_LT, a, mkI(0)), up, a);
    return r;
}
static Id wrap(Id a, int w)
{
    if (N[a].lo >= smin(w) && N[a].hi <= smax(w)) return a;
    i128 M = (i128)1 << w;
    if (isIC(a)) { i128 v = ic(a) % M; if (v < 0) v += M; if (v > smax(w)) v -= M; return mkI(v); }
    // an unsigned view of a value, converted back
    if (N[a].op == N_ITE && N[a].lo >= 0 && N[a].hi < M)
    {
        Id t = wrap(N[a].b, w), f = wrap(N[a].c, w);
        return mkITE(N[a].a, t, f);
    }
    if (N[a].op == N_ADD && isIC(N[a].b) && ic(N[a].b) % M == 0) return wrap(N[a].a, w);
    if (N[a].lo >= 0 && N[a].hi < M) return mkITE(mkICmp(C_LE, a, mkI(smax(w))), a, iadd(a, mkI(-M)));
    return mk(N_WRAP, INT, a, 0, 0, w, smin(w), smax(w));
}
static i128 i128abs(i128 a) { return a < 0 ? -a : a; }
static Id tdiv(Id a, i128 c)
{
    if (isIC(a)) return mkI(ic(a) / c);
    if (c == 1) return a;
    i128 x = N[a].lo / c, y = N[a].hi / c;
    return mk(N_TDIV, INT, a, 0, 0, (int64_t)c, std::min(x, y), std::max(x, y));
}
static Id trem(Id a, i128 c)
{
    if (isIC(a)) return mkI(ic(a) % c);
    i128 m = i128abs(c) - 1;
    if (N[a].lo >= 0 && N[a].hi <= m) return a;
    return mk(N_TREM, INT, a, 0, 0, (int64_t)c, N[a].lo < 0 ? -m : (i128)0, N[a].hi > 0 ? m : (i128)0);
}

// ---- real
static Id radd(Id a, Id b);
static Id rspecial(int op, Id a, Id b);
static Id rneg(Id a)
{
    if (isRC(a)) return mkR(-rc(a));
    if (N[a].op == R_SPEC) return mkD(-N[a].d);
    if (N[a].op == R_NEG) return N[a].a;
    return mk(R_NEG, REAL, a, 0, 0, 0);
}
static bool spec(Id a) { return N[a].op == R_SPEC; }
static Id radd(Id a, Id b)
{
    if (spec(a) || spec(b)) return rspecial(F_ADD, a, b);
    if (isRC(a) && isRC(b)) return mkR(rc(a) + rc(b));
    if (isRC(a) && rc(a) == 0) return b;
    if (isRC(b) && rc(b) == 0) return a;
    if (a > b) std::swap(a, b);
    return mk(R_ADD, REAL, a, b, 0, 0);
}
static Id rsub(Id a, Id b)
{
    if (spec(a) || spec(b)) return rspecial(F_SUB, a, b);
    if (isRC(a) && isRC(b)) return mkR(rc(a) - rc(b));
    if (isRC(b) && rc(b) == 0) return a;
    if (a == b) return mkD(0);
    if (isRC(a) && rc(a) == 0) return rneg(b);
    return mk(R_SUB, REAL, a, b, 0, 0);
}
static Id rmul(Id a, Id b)
{
    if (spec(a) || spec(b)) return rspecial(F_MUL, a, b);
    if (isRC(a) && isRC(b)) return mkR(rc(a) * rc(b));
    if (isRC(b)) std::swap(a, b);
    if (isRC(a))
    {
        if (rc(a) == 0) return a;
        if (rc(a) == 1) return b;
        if (rc(a) == -1) return rneg(b);
    }
    if (a > b) std::swap(a, b);
    return mk(R_MUL, REAL, a, b, 0, 0);
}
static Id mkRCmp(int kind, Id a, Id b);
static Id rdiv(Id a, Id b)
{
    if (spec(a) || spec(b)) return rspecial(F_DIV, a, b);
    if (isRC(b))
    {
        if (rc(b) == 0)
        {
            if (isRC(a)) return mkD(rc(a).get_d() / 0.0);
            if (decide(mkRCmp(C_EQ, a, mkD(0)))) return mkD(NAN);
            return mkD(decide(mkRCmp(C_LT, mkD(0), a)) ? INFINITY : -INFINITY);
        }
        if (isRC(a)) return mkR(rc(a) / rc(b));
        if (rc(b) == 1) return a;
        // division by a constant: the reciprocal is exact in the model
        return rmul(mkR(1 / rc(b)), a);
    }
    return mk(R_DIV, REAL, a, b, 0, 0);
}
static double cd(Id a) { return spec(a) ? N[a].d : rc(a).get_d(); }
static Id rspecial(int op, Id a, Id b)
{
    bool ca = spec(a) || isRC(a), cb = spec(b) || isRC(b);
    if (ca && cb)
    {
        double x = cd(a), y = cd(b);
        switch (op) { case F_ADD: return mkD(x + y); case F_SUB: return mkD(x - y); case F_MUL: return mkD(x * y); default: return mkD(x / y); }
    }
    // one is inf/nan, the other symbolic (finite)
    Id s = spec(a) ? a : b;
    double d = N[s].d;
    if (d != d) return s;
    switch (op)
    {
        case F_ADD: return s;
        case F_SUB: return spec(a) ? a : mkD(-d);
        case F_DIV: if (spec(b)) return mkD(0); // finite / inf
        // fallthrough
        default:
        {
            Id x = spec(a) ? b : a;
            if (op == F_MUL && decide(mkRCmp(C_EQ, x, mkD(0)))) return mkD(NAN);
            bool pos = decide(mkRCmp(C_LE, mkD(0), x));
            return mkD(pos ? d : -d);
        }
    }
}

// ------------------------------------------------------------------ polynomials
static std::deque<Atom> atoms;
static std::map<Atom, int> atomIdx;
static int atomOf(const Atom &a)
{
    auto it = atomIdx.find(a);
    if (it != atomIdx.end()) return it->second;
    atoms.push_back(a);
    atomIdx[a] = atoms.size() - 1;
    return atoms.size() - 1;
}
static Atom mkAtom(int kind, const Poly &p) { Atom a; a.kind = kind; a.node = 0; a.fun = 0; a.p = p; return a; }
static Poly pconst(const mpq_class &c) { Poly p; if (c != 0) p.t[Mono()] = c; return p; }
static Poly patom(int a, int e = 1) { Poly p; Mono m; m.push_back(std::make_pair(a, e)); p.t[m] = 1; return p; }
static const size_t MAXTERMS = 60000;
static void addTerm(Poly &p, const Mono &m, const mpq_class &c)
{
    auto r = p.t.insert(std::make_pair(m, c));
    if (!r.second) { r.first->second += c; if (r.first->second == 0) p.t.erase(r.first); }
}
static Poly padd(const Poly &a, const Poly &b, int sgn = 1)
{
    Poly r = a;
    for (auto &x : b.t) addTerm(r, x.first, sgn > 0 ? x.second : mpq_class(-x.second));
    return r;
}
static Poly pscale(const Poly &a, const mpq_class &c)
{
    Poly r;
    if (c == 0) return r;
    r = a;
    for (auto &x : r.t) x.second *= c;
    return r;
}
static Poly pmul(const Poly &a, const Poly &b);
static Poly ppow(const Poly &a, int n) { Poly r = pconst(1); for (int i = 0; i < n; ++i) r = pmul(r, a); return r; }
static Poly pinv(const Poly &a);
// reduce a single monomial to normal form; returns true when it was already reduced
static bool reduced(const Mono &m)
{
    for (auto &x : m)
    {
        int k = atoms[x.first].kind;
        if (k == A_SQRT && (x.second < 0 || x.second > 1)) return false;
        if (k == A_COS && x.second >= 2) return false;
        if (k == A_INV && x.second < 0) return false;
    }
    return true;
}
static Poly reduceMono(const Mono &m, const mpq_class &c)
{
    Poly r = pconst(c);
    Mono keep;
    std::vector<Poly> fac;
    for (auto &x : m)
    {
        const int k = atoms[x.first].kind;
        if (k == A_SQRT && (x.second < 0 || x.second > 1))
        {
            int q = x.second >= 0 ? x.second / 2 : -((-x.second + 1) / 2);
            int rem = x.second - 2 * q;
            Poly arg = atoms[x.first].p;
            fac.push_back(q >= 0 ? ppow(arg, q) : ppow(pinv(arg), -q));
            if (rem) keep.push_back(std::make_pair(x.first, 1));
        }
        else if (k == A_COS && x.second >= 2)
        {
            int q = x.second / 2, rem = x.second % 2;
            int s = atomOf(mkAtom(A_SIN, Poly(atoms[x.first].p)));
            Poly s2 = patom(s, 2);
            fac.push_back(ppow(padd(pconst(1), s2, -1), q));
            if (rem) keep.push_back(std::make_pair(x.first, 1));
        }
        else if (k == A_INV && x.second < 0) fac.push_back(ppow(Poly(atoms[x.first].p), -x.second));
        else keep.push_back(x);
    }
    Poly kp; kp.t[keep] = c;
    r = kp;
    for (auto &f : fac) r = pmul(r, f);
    return r;
}
static Mono mmul(const Mono &a, const Mono &b)
{
    Mono r;
    size_t i = 0, j = 0;
    while (i < a.size() || j < b.size())
    {
        if (j >= b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
        else if (i >= a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
        else
        {
            int e = a[i].second + b[j].second;
            if (e) r.push_back(std::make_pair(a[i].first, e));
            ++i; ++j;
        }
    }
    return r;
}
static Poly pmul(const Poly &a, const Poly &b)
{
    Poly r;
    if (a.t.size() * b.t.size() > 4000000) throw Undecided("polynomial too large");
    for (auto &x : a.t)
        for (auto &y : b.t)
        {
            Mono m = mmul(x.first, y.first);
            mpq_class c = x.second * y.second;
            if (reduced(m)) addTerm(r, m, c);
            else r = padd(r, reduceMono(m, c));
            if (r.t.size() > MAXTERMS) throw Undecided("polynomial too large");
        }
    return r;
}
// clear denominators: returns n with n = p * (product of the recorded factors)
static Poly clearDen(const Poly &p0, std::vector<std::pair<Poly, int>> *fac = 0)
{
    Poly p = p0;
    for (;;)
    {
        int at = -1, k = 0;
        bool inv = false;
        for (auto &x : p.t)
            for (auto &y : x.first)
            {
                if (atoms[y.first].kind == A_INV) { if (!inv || y.first > at) { at = y.first; inv = true; } }
                else if (y.second < 0 && !inv) { if (y.first > at) at = y.first; }
            }
        if (at < 0) return p;
        Poly d = inv ? Poly(atoms[at].p) : patom(at, 1);
        for (auto &x : p.t)
            for (auto &y : x.first) if (y.first == at) k = std::max(k, inv ? y.second : -y.second);
        std::vector<Poly> pw(1, pconst(1));
        Poly r;
        for (auto &x : p.t)
        {
            Mono m; int e = 0;
            for (auto &y : x.first) if (y.first == at) e = inv ? y.second : -y.second; else m.push_back(y);
            while ((int)pw.size() <= k - e) pw.push_back(pmul(pw.back(), d));
            Poly t; t.t[m] = x.second;
            r = padd(r, pmul(t, pw[k - e]));
        }
        if (fac) fac->push_back(std::make_pair(d, k));
        p = r;
    }
}
static Poly pinv(const Poly &a)
{
    if (a.zero()) throw Undecided("division by an expression which is identically zero");
    if (a.t.size() == 1)
    {
        Mono m = a.t.begin()->first;
        for (auto &x : m) x.second = -x.second;
        mpq_class c = 1 / a.t.begin()->second;
        if (reduced(m)) { Poly r; r.t[m] = c; return r; }
        return reduceMono(m, c);
    }
    std::vector<std::pair<Poly, int>> fac;
    Poly n = clearDen(a, &fac);
    Poly num = pconst(1);
    for (auto &f : fac) num = pmul(num, ppow(f.first, f.second));
    if (n.zero()) throw Undecided("division by an expression which is identically zero");
    if (n.t.size() == 1) return pmul(num, pinv(n));
    // monomial content
    Mono g = n.t.begin()->first;
    for (auto &x : n.t)
    {
        Mono h;
        for (auto &y : g) for (auto &z : x.first) if (y.first == z.first) h.push_back(std::make_pair(y.first, std::min(y.second, z.second)));
        g = h;
    }
    Poly scale = pconst(1);
    if (!g.empty())
    {
        Mono gi = g;
        for (auto &x : gi) x.second = -x.second;
        Poly r;
        for (auto &x : n.t) r.t[mmul(x.first, gi)] = x.second;
        n = r;
        Poly gp; gp.t[g] = 1;
        scale = pinv(gp);
    }
    mpq_class lead = n.t.rbegin()->second;
    n = pscale(n, 1 / lead);
    Poly r = patom(atomOf(mkAtom(A_INV, n)));
    r = pscale(r, 1 / lead);
    r = pmul(r, scale);
    return pmul(r, num);
}
static std::vector<int> normIdx; // node -> index in norms + 1
static std::deque<Poly> norms;
static Poly psqrt(const Poly &a0);
static bool half_angles = false;
static mpq_class fromD(double d) { return mpq_class(d); }

static void sincosUnit(const Poly &unit, long n, Poly &s, Poly &c)
{
    // sin/cos of n*unit
    bool neg = n < 0;
    if (neg) n = -n;
    if (n > 24) throw Undecided("large angle multiple");
    Poly s1 = patom(atomOf(mkAtom(A_SIN, unit))), c1 = patom(atomOf(mkAtom(A_COS, unit)));
    s = pconst(0); c = pconst(1);
    for (long i = 0; i < n; ++i)
    {
        Poly s2 = padd(pmul(s, c1), pmul(c, s1)), c2 = padd(pmul(c, c1), pmul(s, s1), -1);
        s = s2; c = c2;
    }
    if (neg) s = pscale(s, -1);
}
// sine and cosine of an integer multiple of an inverse function
static bool sincosInverse(const Mono &m, const mpq_class &k, Poly &s, Poly &c)
{
    if (m.size() != 1 || m[0].second != 1) return false;
    int at = m[0].first;
    if (atoms[at].kind != A_FUN || k.get_den() != 1 || cmp(abs(k), 8) > 0) return false;
    Poly sa, ca;
    Poly x = atoms[at].p, y = atoms[at].p2;
    if (atoms[at].fun == 100) // atan2(x, y)
    {
        Poly r = pinv(psqrt(padd(pmul(x, x), pmul(y, y))));
        sa = pmul(x, r); ca = pmul(y, r);
    }
    else if (atoms[at].fun == U_ASIN) { sa = x; ca = psqrt(padd(pconst(1), pmul(x, x), -1)); }
    else if (atoms[at].fun == U_ACOS) { ca = x; sa = psqrt(padd(pconst(1), pmul(x, x), -1)); }
    else if (atoms[at].fun == U_ATAN) { Poly r = pinv(psqrt(padd(pconst(1), pmul(x, x)))); sa = pmul(x, r); ca = r; }
    else return false;
    s = pconst(0); c = pconst(1);
    long n = k.get_num().get_si();
    for (long i = 0; i < labs(n); ++i)
    {
        Poly s2 = padd(pmul(s, ca), pmul(c, sa)), c2 = padd(pmul(c, ca), pmul(s, sa), -1);
        s = s2; c = c2;
    }
    if (n < 0) s = pscale(s, -1);
    return true;
}
static void sincos(const Poly &a, Poly &s, Poly &c)
{
    s = pconst(0); c = pconst(1);
    for (auto &x : a.t)
    {
        Poly s1, c1;
        if (x.first.empty())
        {
            double d = x.second.get_d();
            // multiples of pi as the program writes them
            double q = d / (M_PI / 2);
            if (std::fabs(q) < 16 && std::fabs(q - std::rint(q)) < 1e-15)
            {
                int n = ((int)std::rint(q) % 4 + 4) % 4;
                s1 = pconst(n == 1 ? 1 : n == 3 ? -1 : 0); c1 = pconst(n == 0 ? 1 : n == 2 ? -1 : 0);
            }
            else { s1 = pconst(fromD(std::sin(d))); c1 = pconst(fromD(std::cos(d))); }
        }
        else if (sincosInverse(x.first, x.second, s1, c1)) {}
        else
        {
            Poly unit; unit.t[x.first] = half_angles ? mpq_class(1, 2) : mpq_class(1);
            mpq_class n = x.second / unit.t.begin()->second;
            if (n.get_den() == 1 && cmp(abs(n), 24) <= 0) sincosUnit(unit, n.get_num().get_si(), s1, c1);
            else { Poly u; mpq_class c = x.second; bool neg = c < 0; u.t[x.first] = abs(c); sincosUnit(u, neg ? -1 : 1, s1, c1); }
        }
        Poly s2 = padd(pmul(s, c1), pmul(c, s1)), c2 = padd(pmul(c, c1), pmul(s, s1), -1);
        s = s2; c = c2;
    }
}
static Poly pexp(const Poly &a)
{
    Poly r = pconst(1);
    for (auto &x : a.t)
    {
        if (x.first.empty()) { r = pscale(r, fromD(std::exp(x.second.get_d()))); continue; }
        Poly u;
        if (x.second.get_den() == 1 && cmp(abs(x.second), 64) <= 0)
        {
            u.t[x.first] = 1;
            r = pmul(r, patom(atomOf(mkAtom(A_EXP, u)), x.second.get_num().get_si()));
        }
        else
        {
            u.t[x.first] = abs(x.second);
            r = pmul(r, patom(atomOf(mkAtom(A_EXP, u)), x.second < 0 ? -1 : 1));
        }
    }
    return r;
}
static bool perfectSquare(const mpq_class &q, mpq_class &r)
{
    if (q < 0) return false;
    mpz_class n = sqrt(q.get_num()), d = sqrt(q.get_den());
    if (n * n == q.get_num() && d * d == q.get_den()) { r = mpq_class(n, d); return true; }
    return false;
}
static std::pair<double, double> polyRange(const Poly &p);
// sqrt of a polynomial; |.| is resolved with the value ranges where it can be
static Poly psqrt(const Poly &a0)
{
    if (a0.zero()) return a0;
    if (a0.isConst())
    {
        mpq_class r;
        if (perfectSquare(a0.constant(), r)) return pconst(r);
        return pconst(fromD(std::sqrt(a0.constant().get_d())));
    }
    // pull the numeric content out
    mpq_class lead = abs(a0.t.rbegin()->second), r;
    Poly a = a0, scale = pconst(1);
    // even powers of inverses and of non-negative atoms are pulled out
    {
        Mono g = a.t.begin()->first;
        for (auto &x : a.t)
        {
            Mono h;
            for (auto &y : g) for (auto &z : x.first)
                if (y.first == z.first && ((y.second > 0) == (z.second > 0)))
                    h.push_back(std::make_pair(y.first, y.second > 0 ? std::min(y.second, z.second) : std::max(y.second, z.second)));
            g = h;
        }
        Mono out;
        for (auto &y : g)
        {
            int e = y.second / 2 * 2;
            if (e == 0) continue;
            std::pair<double, double> rg = polyRange(patom(y.first));
            if (rg.first >= 0) out.push_back(std::make_pair(y.first, e));
            else if (rg.second <= 0) { out.push_back(std::make_pair(y.first, e)); }
        }
        if (!out.empty())
        {
            Mono oi = out, oh = out;
            mpq_class sg = 1;
            for (auto &x : oi) x.second = -x.second;
            for (auto &x : oh)
            {
                x.second /= 2;
                std::pair<double, double> rg = polyRange(patom(x.first));
                if (rg.first < 0 && (x.second & 1)) sg = -sg;
            }
            Poly n;
            for (auto &x : a.t) n.t[mmul(x.first, oi)] = x.second;
            a = n;
            Poly o; o.t[oh] = sg;
            scale = o;
            if (!reduced(oh)) scale = reduceMono(oh, sg);
        }
    }
    if (perfectSquare(lead, r) && lead != 1) { a = pscale(a, 1 / lead); scale = pscale(scale, r); }
    if (a.isConst()) { if (perfectSquare(a.constant(), r)) return pscale(scale, r); return pscale(scale, fromD(std::sqrt(a.constant().get_d()))); }
    return pmul(scale, patom(atomOf(mkAtom(A_SQRT, a))));
}
static const Poly &norm(Id n)
{
    if (normIdx.size() < N.size()) normIdx.resize(N.size(), 0);
    if (normIdx[n]) return norms[normIdx[n] - 1];
    // iterative post order over the arithmetic skeleton
    std::vector<Id> st(1, n);
    while (!st.empty())
    {
        Id x = st.back();
        if (normIdx[x]) { st.pop_back(); continue; }
        Node nd = N[x];
        bool ready = true;
        if (nd.op == R_ADD || nd.op == R_SUB || nd.op == R_MUL || nd.op == R_DIV || nd.op == R_NEG || nd.op == R_FUN || nd.op == R_ATAN2)
        {
            if (nd.a && !normIdx[nd.a]) { st.push_back(nd.a); ready = false; }
            if (nd.b && !normIdx[nd.b]) { st.push_back(nd.b); ready = false; }
        }
        if (!ready) continue;
        st.pop_back();
        Poly r;
#define PA norms[normIdx[nd.a] - 1]
#define PB norms[normIdx[nd.b] - 1]
        switch (nd.op)
        {
            case R_CONST: r = pconst(Q[nd.k]); break;
            case R_SPEC: throw Undecided("inf/nan in an arithmetic expression");
            case R_VAR: { Atom a; a.kind = A_VAR; a.node = x; a.fun = 0; r = patom(atomOf(a)); break; }
            case R_ITOR:
            {
                if (isIC(nd.a)) { r = pconst(mpq_class((double)ic(nd.a))); break; }
                Atom a; a.kind = A_INT; a.node = nd.a; a.fun = 0; r = patom(atomOf(a)); break;
            }
            case R_ADD: r = padd(PA, PB); break;
            case R_SUB: r = padd(PA, PB, -1); break;
            case R_MUL: { Poly a = PA, b = PB; r = pmul(a, b); break; }
            case R_DIV: { Poly a = PA, b = PB; r = pmul(a, pinv(b)); break; }
            case R_NEG: r = pscale(PA, -1); break;
            case R_ATAN2:
            {
                Poly a = PA, b = PB;
                if (a.isConst() && b.isConst()) { r = pconst(fromD(std::atan2(a.constant().get_d(), b.constant().get_d()))); break; }
                Atom t = mkAtom(A_FUN, a); t.fun = 100; t.p2 = b; r = patom(atomOf(t)); break;
            }
            case R_FUN:
            {
                Poly a = PA;
                switch (nd.k)
                {
                    case U_SQRT: r = psqrt(a); break;
                    case U_SIN: { Poly c; sincos(a, r, c); break; }
                    case U_COS: { Poly s; sincos(a, s, r); break; }
                    case U_TAN: { Poly s, c; sincos(a, s, c); r = pmul(s, pinv(c)); break; }
                    case U_EXP: r = pexp(a); break;
                    case U_SINH: r = pscale(padd(pexp(a), pexp(pscale(a, -1)), -1), mpq_class(1, 2)); break;
                    case U_COSH: r = pscale(padd(pexp(a), pexp(pscale(a, -1))), mpq_class(1, 2)); break;
                    case U_TANH:
                    {
                        Poly p = pexp(a), m = pexp(pscale(a, -1));
                        r = pmul(padd(p, m, -1), pinv(padd(p, m)));
                        break;
                    }
                    default: { Atom t = mkAtom(A_FUN, a); t.fun = nd.k; r = patom(atomOf(t)); break; }
                }
                break;
            }
            default: throw Undecided("not a real expression");
        }
        norms.push_back(r);
        normIdx[x] = norms.size();
    }
    return norms[normIdx[n] - 1];
}

// ---- ranges
static std::pair<double, double> atomRange(int a)
{
    const Atom &A = atoms[a];
    switch (A.kind)
    {
        case A_VAR: return std::make_pair(vars[N[A.node].k].lo, vars[N[A.node].k].hi);
        case A_INT: return std::make_pair((double)N[A.node].lo, (double)N[A.node].hi);
        case A_SIN: case A_COS: return std::make_pair(-1., 1.);
        case A_SQRT: { auto r = polyRange(A.p); return std::make_pair(r.first > 0 ? std::sqrt(r.first) * (1 - 1e-12) : 0., r.second > 0 ? std::sqrt(r.second) * (1 + 1e-12) : 0.); }
        case A_INV:
        {
            auto r = polyRange(A.p);
            if (r.first > 0 || r.second < 0) return std::make_pair(1 / r.second - 1e-12 * std::fabs(1 / r.second), 1 / r.first + 1e-12 * std::fabs(1 / r.first));
            return std::make_pair(-INFINITY, INFINITY);
        }
        case A_EXP: { auto r = polyRange(A.p); return std::make_pair(std::exp(r.first) * (1 - 1e-12), std::exp(r.second) * (1 + 1e-12)); }
        case A_FUN:
            switch (A.fun)
            {
                case U_ASIN: case U_ATAN: return std::make_pair(-1.5707963267948968, 1.5707963267948968);
                case U_ACOS: return std::make_pair(0., 3.1415926535897936);
                case 100: return std::make_pair(-3.1415926535897936, 3.1415926535897936);
                default: return std::make_pair(-INFINITY, INFINITY);
            }
    }
    return std::make_pair(-INFINITY, INFINITY);
}
static std::pair<double, double> imul(std::pair<double, double> a, std::pair<double, double> b)
{
    double c[4] = {a.first * b.first, a.first * b.second, a.second * b.first, a.second * b.second};
    double lo = INFINITY, hi = -INFINITY;
    for (double x : c) { if (x != x) x = 0; lo = std::min(lo, x); hi = std::max(hi, x); }
    return std::make_pair(lo, hi);
}
static std::pair<double, double> monoRange(const Mono &m)
{
    std::pair<double, double> r(1, 1);
    for (auto &x : m)
    {
        auto q = atomRange(x.first);
        int e = std::abs(x.second);
        std::pair<double, double> p;
        double l = std::pow(q.first, e), h = std::pow(q.second, e);
        if (e % 2) p = std::make_pair(l, h);
        else if (q.first <= 0 && q.second >= 0) p = std::make_pair(0., std::max(l, h));
        else p = std::make_pair(std::min(l, h), std::max(l, h));
        if (x.second < 0)
        {
            if (p.first > 0 || p.second < 0) p = std::make_pair(1 / p.second, 1 / p.first);
            else if (p.first >= 0) p = std::make_pair(1 / p.second, INFINITY);
            else p = std::make_pair(-INFINITY, INFINITY);
        }
        r = imul(r, p);
    }
    return r;
}
static std::pair<double, double> polyRange(const Poly &p)
{
    double lo = 0, hi = 0;
    for (auto &x : p.t)
    {
        auto r = monoRange(x.first);
        double c = x.second.get_d();
        double a = c * r.first, b = c * r.second;
        lo += std::min(a, b); hi += std::max(a, b);
    }
    double e = 1e-12 * (std::fabs(lo) + std::fabs(hi));
    if (p.t.size() <= 1) e = 0;
    if (!(e < INFINITY)) e = 0;
    return std::make_pair(lo - e, hi + e);
}

static Id mkRCmp(int kind, Id a, Id b)
{
    if (spec(a) || spec(b))
    {
        double x = spec(a) ? N[a].d : 0, y = spec(b) ? N[b].d : 0;
        bool fa = !spec(a), fb = !spec(b);
        if (x != x || y != y) return mkB(false);
        if (fa) return mkB(kind == C_EQ ? false : y > 0);
        if (fb) return mkB(kind == C_EQ ? false : x < 0);
        return mkB(kind == C_EQ ? x == y : kind == C_LT ? x < y : x <= y);
    }
    if (a == b) return mkB(kind != C_LT);
    if (isRC(a) && isRC(b)) return mkB(kind == C_EQ ? rc(a) == rc(b) : kind == C_LT ? rc(a) < rc(b) : rc(a) <= rc(b));
    if (kind == C_LE) return mkNot(mkRCmp(C_LT, b, a));
    Poly p;
    try { p = padd(norm(a), norm(b), -1); if (kind == C_EQ) p = clearDen(p); }
    catch (Undecided &e) { unsupported(std::string("comparison: ") + e.what()); }
    if (p.isConst()) { G->normdecided++; return mkB(kind == C_EQ ? p.zero() : p.constant() < 0); }
    auto rg = polyRange(p);
    if (kind == C_LT) { if (rg.second < -1e-12) return mkB(true); if (rg.first >= 0) return mkB(false); }
    else if (rg.first > 0 || rg.second < 0) return mkB(false);
    mpq_class lead = p.t.rbegin()->second;
    if (kind == C_EQ) p = pscale(p, 1 / lead); else { mpq_class al = abs(lead); p = pscale(p, 1 / al); }
    auto it = polyIdx.find(p);
    int ix;
    if (it == polyIdx.end()) { polys.push_back(p); ix = polys.size() - 1; polyIdx[p] = ix; } else ix = it->second;
    // hash-cons on (kind, polynomial)
    Key key = {B_RCMP, 0, 0, (Id)ix, kind};
    auto c = cons.find(key);
    if (c != cons.end()) return c->second;
    Node n; memset(&n, 0, sizeof n); n.op = B_RCMP; n.sort = BOOL; n.a = a; n.b = b; n.c = ix; n.k = kind;
    N.push_back(n);
    cons[key] = N.size() - 1;
    return N.size() - 1;
}

// ------------------------------------------------------------------ samples
struct Sample { std::vector<double> r; std::vector<i128> i; bool alive; };
static std::vector<Sample> samples;
static const int NRANDOM = 24;
static uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
static std::vector<std::vector<double>> memoR;   // node -> per sample value
static std::vector<std::vector<char>> memoRok;
static std::vector<std::vector<i128>> memoI;
static std::vector<std::vector<char>> memoIok;
static double evR(Id n, int k);
static i128 evI(Id n, int k);
static int evB(Id n, int k); // 0 no, 1 yes, 2 unclear
static double rnd(int k, int v) { return (mix(mix(seed * 7919 + k) + v * 104729) >> 11) * (1.0 / 9007199254740992.0); }
static void ensureVar(int k, int v)
{
    Sample &s = samples[k];
    while ((int)s.r.size() <= v)
    {
        int j = s.r.size();
        double u = rnd(k, j), x = 0;
        i128 xi = 0;
        const Var &V = vars[j];
        if (V.sort == REAL)
        {
            double lo = std::max(V.lo, -1e6), hi = std::min(V.hi, 1e6);
            x = lo + u * (hi - lo);
            // a value with few significant digits keeps counterexamples readable
            double g = (hi - lo) / 1024; x = lo + std::floor((x - lo) / g) * g;
            if (k % 8 == 5 && u < 0.3 && lo <= 0 && hi >= 0) x = 0;
            if (k % 8 == 6) { if (u < 0.2) x = lo; else if (u > 0.8) x = hi; }
        }
        else
        {
            i128 lo = V.ilo, hi = V.ihi;
            if (hi - lo > 1000000000) { lo = std::max(lo, (i128)-1000000); hi = std::min(hi, (i128)1000000); }
            if (k % 4 == 1) hi = std::min(hi, lo + 8);
            if (k % 8 == 6 && u < 0.3) xi = lo; else if (k % 8 == 6 && u > 0.7) xi = hi;
            else xi = lo + (i128)(u * (double)(hi - lo + 1));
            if (xi > hi) xi = hi;
        }
        s.r.push_back(x); s.i.push_back(xi);
    }
}
static double evR(Id n0, int k)
{
    if (memoR.size() < samples.size()) { memoR.resize(samples.size()); memoRok.resize(samples.size()); }
    auto ensure = [&]() { if (memoR[k].size() < N.size()) { memoR[k].resize(N.size() + 256); memoRok[k].resize(N.size() + 256, 0); } };
    ensure();
    if (memoRok[k][n0]) return memoR[k][n0];
    std::vector<Id> st(1, n0);
    while (!st.empty())
    {
        Id x = st.back();
        if (memoRok[k][x]) { st.pop_back(); continue; }
        const Node nd = N[x];
        bool ready = true;
        if (nd.op >= R_ADD && nd.op <= R_ATAN2)
        {
            if (nd.a && !memoRok[k][nd.a]) { st.push_back(nd.a); ready = false; }
            if (nd.b && !memoRok[k][nd.b]) { st.push_back(nd.b); ready = false; }
        }
        if (!ready) continue;
        st.pop_back();
        double v = NAN, a = nd.a && nd.op != R_ITOR ? memoR[k][nd.a] : 0, b = nd.b ? memoR[k][nd.b] : 0;
        switch (nd.op)
        {
            case R_CONST: v = Q[nd.k].get_d(); break;
            case R_SPEC: v = nd.d; break;
            case R_VAR: ensureVar(k, nd.k); v = samples[k].r[nd.k]; break;
            case R_ADD: v = a + b; break; case R_SUB: v = a - b; break; case R_MUL: v = a * b; break; case R_DIV: v = a / b; break;
            case R_NEG: v = -a; break; case R_ATAN2: v = std::atan2(a, b); break;
            case R_ITOR: v = (double)evI(nd.a, k); break;
            case R_FUN:
                switch (nd.k)
                {
                    case U_SQRT: v = std::sqrt(a); break; case U_SIN: v = std::sin(a); break; case U_COS: v = std::cos(a); break;
                    case U_TAN: v = std::tan(a); break; case U_EXP: v = std::exp(a); break; case U_LOG: v = std::log(a); break;
                    case U_SINH: v = std::sinh(a); break; case U_COSH: v = std::cosh(a); break; case U_TANH: v = std::tanh(a); break;
                    case U_ASIN: v = std::asin(a); break; case U_ACOS: v = std::acos(a); break; case U_ATAN: v = std::atan(a); break;
                }
                break;
        }
        ensure();
        memoR[k][x] = v; memoRok[k][x] = 1;
    }
    return memoR[k][n0];
}
static i128 evI(Id n0, int k)
{
    if (memoI.size() < samples.size()) { memoI.resize(samples.size()); memoIok.resize(samples.size()); }
    if (memoI[k].size() < N.size()) { memoI[k].resize(N.size() + 256); memoIok[k].resize(N.size() + 256, 0); }
    if (memoIok[k][n0]) return memoI[k][n0];
    const Node nd = N[n0];
    i128 v = 0;
    switch (nd.op)
    {
        case N_CONST: v = nd.lo; break;
        case N_VAR: ensureVar(k, nd.k); v = samples[k].i[nd.k]; break;
        case N_ADD: v = evI(nd.a, k) + evI(nd.b, k); break;
        case N_SUB: v = evI(nd.a, k) - evI(nd.b, k); break;
        case N_MUL: v = evI(nd.a, k) * evI(nd.b, k); break;
        case N_TDIV: v = evI(nd.a, k) / nd.k; break;
        case N_TREM: v = evI(nd.a, k) % nd.k; break;
        case N_ITE: v = evB(nd.a, k) == 1 ? evI(nd.b, k) : evI(nd.c, k); break;
        case N_RTOI: { double d = evR(nd.a, k); v = (i128)(std::fabs(d) < 1e18 ? d : 0); break; }
        case N_FLOOR: { double d = std::floor(evR(nd.a, k)); v = (i128)(std::fabs(d) < 1e18 ? d : 0); break; }
        case N_WRAP: { i128 M = (i128)1 << nd.k; v = evI(nd.a, k) % M; if (v < 0) v += M; if (v > smax(nd.k)) v -= M; break; }
        default: v = 0;
    }
    if (memoI[k].size() < N.size()) { memoI[k].resize(N.size() + 256); memoIok[k].resize(N.size() + 256, 0); }
    memoI[k][n0] = v; memoIok[k][n0] = 1;
    return v;
}
static int evB(Id n, int k)
{
    const Node nd = N[n];
    switch (nd.op)
    {
        case B_CONST: return nd.k;
        case B_VAR: ensureVar(k, nd.k); return samples[k].i[nd.k] != 0;
        case B_NOT: { int a = evB(nd.a, k); return a == 2 ? 2 : !a; }
        case B_AND: { int a = evB(nd.a, k), b = evB(nd.b, k); if (a == 0 || b == 0) return 0; if (a == 2 || b == 2) return 2; return 1; }
        case B_OR: { int a = evB(nd.a, k), b = evB(nd.b, k); if (a == 1 || b == 1) return 1; if (a == 2 || b == 2) return 2; return 0; }
        case B_ICMP:
        {
            i128 a = evI(nd.a, k), b = evI(nd.b, k);
            return nd.k == C_EQ ? a == b : nd.k == C_LT ? a < b : a <= b;
        }
        case B_RCMP:
        {
            double a = evR(nd.a, k), b = evR(nd.b, k);
            if (a != a || b != b) return 2;
            double m = 1e-9 * (1 + std::fabs(a) + std::fabs(b));
            if (nd.k == C_EQ) return std::fabs(a - b) > m ? 0 : a == b ? 1 : 2;
            if (a < b - m) return 1;
            if (a > b + m) return 0;
            return 2;
        }
    }
    return 2;
}

// ------------------------------------------------------------------ path condition
static std::vector<Id> pc;
static std::unordered_map<Id, char> known;
static std::vector<std::pair<std::string, std::string>> chosen; // values fixed by enumeration
static int decisions = 0;
static std::vector<pid_t> kids;
static bool inForkedToken = false;

static std::unordered_map<Id, std::vector<int>> varMemo;
static std::map<int, std::vector<int>> atomVarMemo;
static const std::vector<int> &varsOf(Id n);
static void addPolyVars(const Poly &p, std::set<int> &s);
static const std::vector<int> &atomVars(int a)
{
    auto it = atomVarMemo.find(a);
    if (it != atomVarMemo.end()) return it->second;
    std::set<int> s;
    Atom A = atoms[a];
    if (A.kind == A_VAR) s.insert(N[A.node].k);
    else if (A.kind == A_INT) { const std::vector<int> &v = varsOf(A.node); s.insert(v.begin(), v.end()); }
    else { addPolyVars(A.p, s); addPolyVars(A.p2, s); }
    return atomVarMemo[a] = std::vector<int>(s.begin(), s.end());
}
static void addPolyVars(const Poly &p, std::set<int> &s)
{
    std::set<int> as;
    for (auto &x : p.t) for (auto &y : x.first) as.insert(y.first);
    for (int a : as) { std::vector<int> v = atomVars(a); s.insert(v.begin(), v.end()); }
}
static const std::vector<int> &varsOf(Id n)
{
    auto it = varMemo.find(n);
    if (it != varMemo.end()) return it->second;
    std::set<int> s;
    const Node nd = N[n];
    switch (nd.op)
    {
        case R_VAR: case N_VAR: case B_VAR: s.insert(nd.k); break;
        case B_RCMP: addPolyVars(polys[nd.c], s); break;
        case N_RTOI: case N_FLOOR: addPolyVars(norm(nd.a), s); break;
        case R_CONST: case N_CONST: case B_CONST: case R_SPEC: break;
        default:
            if (nd.a) { auto v = varsOf(nd.a); s.insert(v.begin(), v.end()); }
            if (nd.b && nd.op != N_TDIV) { auto v = varsOf(nd.b); s.insert(v.begin(), v.end()); }
            if (nd.c) { auto v = varsOf(nd.c); s.insert(v.begin(), v.end()); }
    }
    return varMemo[n] = std::vector<int>(s.begin(), s.end());
}

// ------------------------------------------------------------------ z3
static z3::context *Z;
static z3::context &ctx() { if (!Z) Z = new z3::context(); return *Z; }
struct Trans
{
    z3::context &c;
    std::map<int, z3::expr> atom;
    std::map<Id, z3::expr> memo;
    std::set<int> usedVars;
    z3::expr_vector side;
    bool nonlinear, ints;
    Trans() : c(ctx()), side(c), nonlinear(false), ints(false) {}
    z3::expr q(const mpq_class &x) { return c.real_val(x.get_str().c_str()); }
    z3::expr big(i128 v)
    {
        bool neg = v < 0; unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v;
        std::string s; do { s.insert(s.begin(), '0' + (int)(u % 10)); u /= 10; } while (u);
        if (neg) s = "-" + s;
        return c.int_val(s.c_str());
    }
    z3::expr var(int v)
    {
        std::string nm = "v" + std::to_string(v);
        const Var &V = vars[v];
        z3::expr e = V.sort == REAL ? c.real_const(nm.c_str()) : V.sort == INT ? c.int_const(nm.c_str()) : c.bool_const(nm.c_str());
        if (usedVars.insert(v).second)
        {
            if (V.sort == REAL)
            {
                if (V.lo > -1e300) side.push_back(e >= q(mpq_class(V.lo)));
                if (V.hi < 1e300) side.push_back(e <= q(mpq_class(V.hi)));
            }
            if (V.sort == INT) { ints = true; side.push_back(e >= big(V.ilo)); side.push_back(e <= big(V.ihi)); }
        }
        return e;
    }
    z3::expr A(int a)
    {
        auto it = atom.find(a);
        if (it != atom.end()) return it->second;
        Atom at = atoms[a];
        if (at.kind == A_VAR) { z3::expr e = var(N[at.node].k); atom.insert(std::make_pair(a, e)); return e; }
        if (at.kind == A_INT) { z3::expr e = z3::to_real(I(at.node)); atom.insert(std::make_pair(a, e)); return e; }
        z3::expr e = c.real_const(("a" + std::to_string(a)).c_str());
        atom.insert(std::make_pair(a, e));
        switch (at.kind)
        {
            case A_SQRT: nonlinear = true; side.push_back(e >= 0); side.push_back(e * e == P(at.p)); break;
            case A_INV: nonlinear = true; side.push_back(e * P(at.p) == 1); break;
            case A_SIN: case A_COS:
            {
                z3::expr o = c.real_const("tmp");
                int oa = atomOf(mkAtom(at.kind == A_SIN ? A_COS : A_SIN, at.p));
                auto jt = atom.find(oa);
                if (jt == atom.end())
                {
                    o = c.real_const(("a" + std::to_string(oa)).c_str());
                    atom.insert(std::make_pair(oa, o));
                    nonlinear = true;
                    side.push_back(e * e + o * o == 1);
                    side.push_back(e >= -1 && e <= 1 && o >= -1 && o <= 1);
                }
                break;
            }
            case A_EXP: side.push_back(e > 0); side.push_back(e >= 1 + P(at.p)); break;
            default: break;
        }
        if (at.kind == A_FUN || at.kind == A_EXP || at.kind == A_SQRT)
        {
            auto r = atomRange(a);
            if (std::isfinite(r.first)) side.push_back(e >= q(mpq_class(r.first)));
            if (std::isfinite(r.second)) side.push_back(e <= q(mpq_class(r.second)));
        }
        return e;
    }
    z3::expr P(const Poly &p)
    {
        if (p.zero()) return c.real_val(0);
        z3::expr_vector s(c);
        for (auto &x : p.t)
        {
            z3::expr_vector f(c);
            int deg = 0;
            for (auto &y : x.first)
            {
                int e = y.second;
                int at = y.first;
                if (e < 0) { at = atomOf(mkAtom(A_INV, patom(at))); e = -e; }
                z3::expr z = A(at);
                for (int i = 0; i < e; ++i) f.push_back(z);
                deg += e;
            }
            if (deg > 1) nonlinear = true;
            z3::expr m = q(x.second);
            if (f.size() > 0)
            {
                z3::expr pr = f[0];
                for (unsigned i = 1; i < f.size(); ++i) pr = pr * f[i];
                m = x.second == 1 ? pr : m * pr;
            }
            s.push_back(m);
        }
        if (s.size() == 1) return s[0];
        return z3::sum(s);
    }
    z3::expr R(Id n) { return P(norm(n)); }
    z3::expr I(Id n)
    {
        auto it = memo.find(n);
        if (it != memo.end()) return it->second;
        const Node nd = N[n];
        ints = true;
        z3::expr e = c.int_val(0);
        switch (nd.op)
        {
            case N_CONST: e = big(nd.lo); break;
            case N_VAR: e = var(nd.k); break;
            case N_ADD: e = I(nd.a) + I(nd.b); break;
            case N_SUB: e = I(nd.a) - I(nd.b); break;
            case N_MUL: if (!isIC(nd.a) && !isIC(nd.b)) nonlinear = true; e = I(nd.a) * I(nd.b); break;
            case N_TDIV:
            {
                z3::expr a = I(nd.a), k = big(i128abs(nd.k));
                z3::expr d = N[nd.a].lo >= 0 ? a / k : z3::ite(a >= 0, a / k, -((-a) / k));
                e = nd.k < 0 ? -d : d;
                break;
            }
            case N_TREM:
            {
                z3::expr a = I(nd.a), k = big(i128abs(nd.k));
                e = N[nd.a].lo >= 0 ? z3::mod(a, k) : z3::ite(a >= 0, z3::mod(a, k), -z3::mod(-a, k));
                break;
            }
            case N_ITE: e = z3::ite(B(nd.a), I(nd.b), I(nd.c)); break;
            case N_RTOI: { z3::expr a = R(nd.a); e = z3::ite(a >= 0, z3::expr(c, Z3_mk_real2int(c, a)), -z3::expr(c, Z3_mk_real2int(c, -a))); break; }
            case N_FLOOR: e = z3::expr(c, Z3_mk_real2int(c, R(nd.a))); break;
            case N_WRAP:
            {
                z3::expr a = I(nd.a), M = big((i128)1 << nd.k), h = big((i128)1 << (nd.k - 1));
                e = z3::mod(a + h, M) - h;
                break;
            }
            default: throw Undecided("integer expression");
        }
        memo.insert(std::make_pair(n, e));
        return e;
    }
    z3::expr B(Id n)
    {
        auto it = memo.find(n);
        if (it != memo.end()) return it->second;
        const Node nd = N[n];
        z3::expr e = c.bool_val(true);
        switch (nd.op)
        {
            case B_CONST: e = c.bool_val(nd.k != 0); break;
            case B_VAR: e = var(nd.k); break;
            case B_NOT: e = !B(nd.a); break;
            case B_AND: e = B(nd.a) && B(nd.b); break;
            case B_OR: e = B(nd.a) || B(nd.b); break;
            case B_ICMP: e = nd.k == C_EQ ? I(nd.a) == I(nd.b) : nd.k == C_LT ? I(nd.a) < I(nd.b) : I(nd.a) <= I(nd.b); break;
            case B_RCMP: { z3::expr p = P(polys[nd.c]); e = nd.k == C_EQ ? p == 0 : nd.k == C_LT ? p < 0 : p <= 0; break; }
            default: throw Undecided("boolean expression");
        }
        memo.insert(std::make_pair(n, e));
        return e;
    }
};
enum Res { UNSAT, SAT, UNK };
typedef std::map<int, std::pair<double, std::string>> Model; // var -> value (double, text)
static void readModel(Trans &T, z3::model m, Model &out)
{
    for (int v : T.usedVars)
    {
        z3::expr e = m.eval(T.var(v), true);
        const Var &V = vars[v];
        if (V.sort == BOOL) { bool b = e.is_true(); out[v] = std::make_pair(b ? 1.0 : 0.0, b ? "1" : "0"); }
        else if (V.sort == INT)
        {
            std::string s = Z3_get_numeral_string(ctx(), e);
            out[v] = std::make_pair(atof(s.c_str()), s);
        }
        else
        {
            double d = 0;
            if (e.is_numeral())
            {
                mpq_class r(Z3_get_numeral_string(ctx(), e));
                r.canonicalize();
                d = r.get_d();
                // get_d truncates: round to nearest
                double u = std::nextafter(d, d >= 0 ? INFINITY : -INFINITY);
                if (abs(mpq_class(u) - r) < abs(mpq_class(d) - r)) d = u;
            }
            else
            {
                std::string s = Z3_get_numeral_decimal_string(ctx(), e, 25);
                d = atof(s.c_str());
            }
            char b[64]; snprintf(b, 64, "%.17g", d);
            out[v] = std::make_pair(d, b);
        }
    }
}
static Res solveIn(const std::vector<Id> &conj, Model *m, bool &nl)
{
    try
    {
        Trans T;
        z3::expr_vector as(T.c);
        for (Id x : conj) as.push_back(T.B(x));
        z3::expr_vector all(T.c);
        for (unsigned i = 0; i < as.size(); ++i) all.push_back(as[i]);
        for (unsigned i = 0; i < T.side.size(); ++i) all.push_back(T.side[i]);
        nl = T.nonlinear;
        for (int attempt = 0; attempt < 2; ++attempt)
        {
            bool tac = T.nonlinear && !T.ints && attempt == 0;
            if (!tac && attempt == 1 && !(T.nonlinear && !T.ints)) break;
            z3::solver s = tac ? z3::tactic(T.c, "qfnra-nlsat").mk_solver() : z3::solver(T.c);
            z3::params p(T.c);
            p.set("rlimit", (unsigned)query_rlimit);
            p.set(tac ? "seed" : "random_seed", (unsigned)seed);
            s.set(p);
            for (unsigned i = 0; i < all.size(); ++i) s.add(all[i]);
            z3::check_result r = s.check();
            if (r == z3::unsat) return UNSAT;
            if (r == z3::sat) { if (m) readModel(T, s.get_model(), *m); return SAT; }
        }
        return UNK;
    }
    catch (z3::exception &e) { note("z3error", e.msg()); return UNK; }
    catch (Undecided &e) { note("z3error", e.what()); return UNK; }
}
static bool looksNonlinear(Id x)
{
    const Node nd = N[x];
    switch (nd.op)
    {
        case B_RCMP:
            for (auto &t : polys[nd.c].t)
            {
                int deg = 0;
                for (auto &y : t.first) { deg += std::abs(y.second); if (atoms[y.first].kind > A_INT) return true; if (y.second < 0) return true; }
                if (deg > 1) return true;
            }
            return false;
        case B_NOT: return looksNonlinear(nd.a);
        case B_AND: case B_OR: return looksNonlinear(nd.a) || looksNonlinear(nd.b);
        default: return false;
    }
}
static Res solve(const std::vector<Id> &conj, Model *m)
{
    double t0 = now();
    G->queries++;
    bool nl = false;
    for (Id x : conj) if (looksNonlinear(x)) nl = true;
    Res r = UNK;
    if (!nl) r = solveIn(conj, m, nl);
    else
    {
        int fd[2];
        if (pipe(fd)) return UNK;
        pid_t p = fork();
        if (p == 0)
        {
            close(fd[0]);
            signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL);
            Model mm;
            bool n2;
            Res q = solveIn(conj, &mm, n2);
            std::ostringstream o;
            o << (int)q << "\n";
            for (auto &x : mm) o << x.first << " " << x.second.second << "\n";
            std::string s = o.str();
            size_t off = 0;
            while (off < s.size()) { ssize_t w = write(fd[1], s.data() + off, s.size() - off); if (w <= 0) break; off += w; }
            _exit(0);
        }
        close(fd[1]);
        std::string buf;
        double end = now() + query_seconds;
        bool to = false;
        for (;;)
        {
            double left = end - now();
            if (left <= 0) { to = true; break; }
            struct pollfd pf = {fd[0], POLLIN, 0};
            int pr = poll(&pf, 1, (int)(left * 1000) + 1);
            if (pr <= 0) continue;
            char b[4096];
            ssize_t g = read(fd[0], b, sizeof b);
            if (g <= 0) break;
            buf.append(b, g);
        }
        close(fd[0]);
        if (to) { kill(p, SIGKILL); G->timeouts++; }
        int st;
        waitpid(p, &st, 0);
        if (!to && buf.size())
        {
            std::istringstream in(buf);
            int q; in >> q; r = (Res)q;
            int v; std::string s;
            if (m) while (in >> v >> s) (*m)[v] = std::make_pair(atof(s.c_str()), s);
        }
    }
    G->solver_us += (long)((now() - t0) * 1e6);
    if (r == UNSAT) G->unsat++; else if (r == SAT) G->sat++; else G->unknown++;
    return r;
}
static std::vector<Id> sliceFor(Id q)
{
    std::set<int> vs;
    auto v0 = varsOf(q);
    vs.insert(v0.begin(), v0.end());
    std::vector<char> in(pc.size(), 0);
    bool ch = true;
    while (ch)
    {
        ch = false;
        for (size_t i = 0; i < pc.size(); ++i)
        {
            if (in[i]) continue;
            auto v = varsOf(pc[i]);
            bool hit = false;
            for (int x : v) if (vs.count(x)) { hit = true; break; }
            if (hit) { in[i] = 1; vs.insert(v.begin(), v.end()); ch = true; }
        }
    }
    std::vector<Id> r;
    for (size_t i = 0; i < pc.size(); ++i) if (in[i]) r.push_back(pc[i]);
    r.push_back(q);
    return r;
}
static int aliveSat(Id q)
{
    for (size_t k = 0; k < samples.size(); ++k) if (samples[k].alive && evB(q, k) == 1) return k;
    return -1;
}
static void addSample(const Model &m)
{
    // based on an alive sample, so that independent parts stay satisfied
    int base = -1;
    for (size_t k = 0; k < samples.size(); ++k) if (samples[k].alive) { base = k; break; }
    if (samples.size() > 400) return;
    Sample s;
    if (base >= 0) s = samples[base];
    s.alive = true;
    samples.push_back(s);
    int k = samples.size() - 1;
    if (!vars.empty()) ensureVar(k, vars.size() - 1);
    for (auto &x : m)
    {
        if (vars[x.first].sort == REAL) samples[k].r[x.first] = x.second.first;
        else samples[k].i[x.first] = (i128)atoll(x.second.second.c_str());
    }
    for (Id c : pc) if (evB(c, k) == 0) samples[k].alive = false;
}
// 1 feasible, 0 infeasible, 2 unknown (treated as feasible)
static int feasible(Id c)
{
    if (isBC(c)) return N[c].k;
    auto it = known.find(c);
    if (it != known.end()) return it->second;
    if (aliveSat(c) >= 0) { G->sample_decided++; return 1; }
    Model m;
    Res r = solve(sliceFor(c), &m);
    if (r == SAT) { addSample(m); return 1; }
    return r == UNSAT ? 0 : 2;
}
static void addPC(Id c)
{
    if (isBC(c)) return;
    if (N[c].op == B_AND) { addPC(N[c].a); addPC(N[c].b); return; }
    if (known.count(c)) return;
    pc.push_back(c);
    known[c] = 1; known[mkNot(c)] = 0;
    for (size_t k = 0; k < samples.size(); ++k)
        if (samples[k].alive)
        {
            int e = evB(c, k);
            if (e == 0) samples[k].alive = false;
            // on the boundary: keep solver models, drop random points
            else if (e == 2 && (int)k < NRANDOM) samples[k].alive = false;
        }
}

// ------------------------------------------------------------------ processes
static bool forkPath()
{
    long n = ++G->forks;
    if (n > max_paths || (deadline && now() > deadline))
    {
        G->truncated++;
        note("truncated", "path or time budget exhausted");
        return false;
    }
    bool par = false;
    int t = G->tokens.load();
    while (t > 0) if (G->tokens.compare_exchange_weak(t, t - 1)) { par = true; break; }
    pid_t p;
    for (int i = 0; i < 200; ++i) { p = fork(); if (p >= 0) break; usleep(20000); }
    if (p < 0) { note("truncated", "fork failed"); G->truncated++; return false; }
    if (p == 0) { kids.clear(); inForkedToken = par; armTimer(); return true; }
    if (par) kids.push_back(p);
    else
    {
        int st = 0;
        waitpid(p, &st, 0);
        if (WIFSIGNALED(st)) { note("died", "a path process was killed by signal " + std::to_string(WTERMSIG(st))); G->truncated++; }
    }
    return false;
}
static std::string sampleJson(int k)
{
    std::string o = "{";
    for (auto &c : chosen) o += (o.size() > 1 ? "," : "") + js(c.first) + ":" + js(c.second);
    for (size_t v = 0; v < vars.size(); ++v)
    {
        ensureVar(k, v);
        char b[64];
        if (vars[v].sort == REAL) snprintf(b, 64, "%.17g", samples[k].r[v]); else snprintf(b, 64, "%lld", (long long)samples[k].i[v]);
        o += (o.size() > 1 ? "," : "") + js(vars[v].name) + ":" + js(b);
    }
    return o + "}";
}
static bool fin = false;
[[noreturn]] static void finish(const char *how)
{
    if (!fin)
    {
        fin = true;
        if (std::string(how) == "ok" || std::string(how) == "exception") G->paths++;
        if (G->lastpath++ < 40)
        {
            std::string s = "null";
            for (size_t k = 0; k < samples.size(); ++k) if (samples[k].alive) { s = sampleJson(k); break; }
            std::string ch = "{";
            for (auto &c : chosen) ch += (ch.size() > 1 ? "," : "") + js(c.first) + ":" + js(c.second);
            logline(std::string("{\"t\":\"path\",\"end\":") + js(how) + ",\"decisions\":" + std::to_string(decisions) + ",\"pc\":" + std::to_string(pc.size()) +
                    ",\"nodes\":" + std::to_string(N.size()) + ",\"chosen\":" + ch + "},\"sample\":" + s + "}");
        }
    }
    if (inForkedToken) G->tokens++;
    for (pid_t p : kids)
    {
        int st = 0;
        waitpid(p, &st, 0);
        if (WIFSIGNALED(st)) { note("died", "a path process was killed by signal " + std::to_string(WTERMSIG(st))); G->truncated++; }
    }
    _exit(0);
}
static bool take(Id c, bool v) { addPC(v ? c : mkNot(c)); return v; }
static bool decide(Id c)
{
    if (isBC(c)) return N[c].k;
    auto it = known.find(c);
    if (it != known.end()) return it->second;
    G->decs++;
    if (++decisions > max_decisions) { note("truncated", "decision bound"); G->truncated++; finish("truncated"); }
    int ft = feasible(c);
    if (ft == 0) return take(c, false);
    int ff = feasible(mkNot(c));
    if (ff == 0) return take(c, true);
    if (forkPath()) return take(c, false);
    return take(c, true);
}
static void assume(Id c)
{
    if (isBC(c)) { if (!N[c].k) { G->infeasible_assume++; finish("assume"); } return; }
    if (feasible(c) == 0) { G->infeasible_assume++; finish("assume"); }
    addPC(c);
}

// ------------------------------------------------------------------ violations
static std::string aliveCands()
{
    std::string o = "[";
    int n = 0;
    for (size_t k = 0; k < samples.size() && n < 4; ++k)
        if (samples[k].alive) { o += (n ? "," : "") + sampleJson(k); ++n; }
    return o + "]";
}
static std::string cands(Id bad)
{
    // candidate assignments which make `bad` true on this path, best first
    std::vector<std::string> out;
    int n = 0;
    for (size_t k = 0; k < samples.size() && n < 6; ++k)
        if (samples[k].alive && (isBC(bad) || evB(bad, k) == 1)) { out.push_back(sampleJson(k)); ++n; }
    if (!isBC(bad) || out.empty())
    {
        std::vector<Id> all = pc;
        if (!isBC(bad)) all.push_back(bad);
        Model m;
        if (solve(all, &m) == SAT)
        {
            size_t before = samples.size();
            addSample(m);
            if (samples.size() > before) out.insert(out.begin() + std::min<size_t>(out.size(), 1), sampleJson(samples.size() - 1));
        }
        else if (out.empty() && !isBC(bad))
        {
            Model m2;
            if (solve(sliceFor(bad), &m2) == SAT) { addSample(m2); out.push_back(sampleJson(samples.size() - 1)); }
        }
    }
    if (out.empty() && !samples.empty()) out.push_back(sampleJson(samples.size() - 1));
    std::string o = "[";
    for (size_t i = 0; i < out.size(); ++i) o += (i ? "," : "") + out[i];
    return o + "]";
}
static void violation(const std::string &kind, const std::string &msg, Id bad)
{
    G->viols++;
    if (seenBefore("viol/" + kind + "/" + msg) >= 4) return;
    logline(std::string("{\"t\":\"viol\",\"kind\":") + js(kind) + ",\"msg\":" + js(msg) + ",\"cands\":" + cands(bad) + "}");
}
static std::set<std::string> reached;
static void reach(const std::string &m)
{
    if (reached.insert(m).second && !seenBefore("reach/" + m)) logline("{\"t\":\"reach\",\"what\":" + js(m) + "}");
}
static void undecided(const std::string &what)
{
    G->undecided++;
    if (seenBefore("undec/" + what) >= 2) return;
    logline("{\"t\":\"undecided\",\"what\":" + js(what) + ",\"cands\":" + aliveCands() + "}");
}
static void checkCond(Id c, const char *msg)
{
    G->checks++;
    reach(msg);
    if (isBC(c))
    {
        if (!N[c].k) violation("check", msg, mkB(true));
        else G->normdecided++;
        return;
    }
    auto it = known.find(c);
    if (it != known.end() && it->second) { G->normdecided++; return; }
    Id bad = mkNot(c);
    if (it == known.end())
    {
        if (aliveSat(bad) < 0)
        {
            Model m;
            Res r = solve(sliceFor(bad), &m);
            if (r == UNSAT) { G->solver_checked++; addPC(c); return; }
            if (r == UNK) { undecided(std::string("check: ") + msg); addPC(c); return; }
            addSample(m);
        }
    }
    violation("check", msg, bad);
    if (feasible(c) == 0) finish("violation");
    addPC(c);
}
// z3's verdict on the terms as they were executed (functions are the atoms of the normal form)
static std::map<std::pair<Id, Id>, int> crossMemo;
static z3::expr rawReal(Trans &T, Id n, std::map<Id, z3::expr> &memo, int &fuel)
{
    auto it = memo.find(n);
    if (it != memo.end()) return it->second;
    if (--fuel < 0) throw Undecided("too large");
    const Node nd = N[n];
    z3::expr e = T.c.real_val(0);
    switch (nd.op)
    {
        case R_CONST: e = T.q(Q[nd.k]); break;
        case R_VAR: e = T.var(nd.k); break;
        case R_ADD: { z3::expr x = rawReal(T, nd.a, memo, fuel), y = rawReal(T, nd.b, memo, fuel); e = x + y; break; }
        case R_SUB: { z3::expr x = rawReal(T, nd.a, memo, fuel), y = rawReal(T, nd.b, memo, fuel); e = x - y; break; }
        case R_MUL: { z3::expr x = rawReal(T, nd.a, memo, fuel), y = rawReal(T, nd.b, memo, fuel); e = x * y; T.nonlinear = true; break; }
        case R_NEG: e = -rawReal(T, nd.a, memo, fuel); break;
        case R_DIV:
        {
            z3::expr x = rawReal(T, nd.a, memo, fuel), y = rawReal(T, nd.b, memo, fuel);
            e = T.c.real_const(("d" + std::to_string(n)).c_str());
            T.side.push_back(e * y == x); T.side.push_back(y != 0);
            T.nonlinear = true;
            break;
        }
        default: e = T.R(n);
    }
    memo.insert(std::make_pair(n, e));
    return e;
}
static bool crossCheck(Id a, Id b)
{
    if (!cross) return false;
    auto key = std::make_pair(a, b);
    auto it = crossMemo.find(key);
    if (it != crossMemo.end()) return it->second;
    int ok = 0;
    double t0 = now();
    try
    {
        Trans T;
        std::map<Id, z3::expr> memo;
        int fuel = 400;
        z3::expr x = rawReal(T, a, memo, fuel), y = rawReal(T, b, memo, fuel);
        z3::params sp(T.c);
        sp.set("som", true);
        sp.set("som_blowup", 1000u);
        z3::expr d = (x - y).simplify(sp);
        if (d.is_numeral()) ok = d.get_decimal_string(3) == "0";
        else
        {
            z3::solver s = T.ints ? z3::solver(T.c) : z3::tactic(T.c, "qfnra-nlsat").mk_solver();
            z3::params p(T.c); p.set("rlimit", 400000u); s.set(p);
            s.add(d != 0);
            for (unsigned i = 0; i < T.side.size(); ++i) s.add(T.side[i]);
            ok = s.check() == z3::unsat;
        }
        G->queries++;
        if (ok) G->unsat++; else G->unknown++;
    }
    catch (z3::exception &) {}
    catch (Undecided &) {}
    G->solver_us += (long)((now() - t0) * 1e6);
    crossMemo[key] = ok;
    return ok;
}
static void checkEq(Id a, Id b, double tol, const char *msg)
{
    G->eqs++;
    reach(msg);
    if (spec(a) || spec(b))
    {
        bool ok = spec(a) && spec(b) && N[a].d == N[b].d;
        if (!ok) violation("eq", msg, mkB(true));
        return;
    }
    if (isRC(a) && isRC(b))
    {
        mpq_class d = abs(rc(a) - rc(b));
        double sc = 1 + std::max(std::fabs(cd(a)), std::fabs(cd(b)));
        if (d.get_d() > tol * sc) violation("eq", msg, mkB(true));
        else G->normdecided++;
        return;
    }
    try
    {
        Poly d = padd(norm(a), norm(b), -1);
        if (!d.zero()) d = clearDen(d);
        if (d.zero())
        {
            // identical in the normal form; z3 gets the un-normalised terms and confirms it where it can
            G->identities++;
            if (a != b && crossCheck(a, b)) G->confirmed++;
            else if (a == b) G->confirmed++;
            return;
        }
        // residue bounded by the ranges of the monomials: a linear query with the monomials as variables
        Poly d0 = padd(norm(a), norm(b), -1);
        double bound = 0;
        for (auto &x : d0.t) { auto r = monoRange(x.first); bound += std::fabs(x.second.get_d()) * std::max(std::fabs(r.first), std::fabs(r.second)); }
        if (bound <= tol)
        {
            z3::context &c = ctx();
            z3::solver s(c);
            z3::expr sum = c.real_val(0);
            int i = 0;
            for (auto &x : d0.t)
            {
                auto r = monoRange(x.first);
                z3::expr m = c.real_const(("m" + std::to_string(i++)).c_str());
                s.add(m >= c.real_val(mpq_class(r.first).get_str().c_str()) && m <= c.real_val(mpq_class(r.second).get_str().c_str()));
                sum = sum + c.real_val(x.second.get_str().c_str()) * m;
            }
            z3::expr t = c.real_val(mpq_class(tol * (1 + 1e-9)).get_str().c_str());
            s.add(sum > t || sum < -t);
            double t0 = now();
            z3::check_result r = s.check();
            G->queries++; G->solver_us += (long)((now() - t0) * 1e6);
            if (r == z3::unsat) { G->unsat++; G->bounded++; return; }
        }
    }
    catch (Undecided &e)
    {
        undecided(std::string("eq: ") + msg + ": " + e.what());
        return;
    }
    // is a difference beyond the margin possible on this path?
    double margin = tol * 10;
    Id diff = rsub(a, b);
    Id bad = mkOr(mkRCmp(C_LT, mkD(margin), diff), mkRCmp(C_LT, diff, mkD(-margin)));
    // prefer a difference which is visible in floating point
    int k = aliveSat(bad);
    if (k < 0)
    {
        Model m;
        Res r = solve(sliceFor(bad), &m);
        if (r == UNSAT) { G->solver_checked++; return; }
        if (r == UNK) { undecided(std::string("eq: ") + msg); return; }
        addSample(m);
    }
    violation("eq", msg, bad);
}

// ------------------------------------------------------------------ shadow memory
struct Page { uint32_t id[4096]; uint8_t sz[4096]; uint64_t bits[4096]; uint32_t live; };
static std::unordered_map<uintptr_t, Page *> pages;
static uintptr_t cacheKey[256];
static Page *cacheVal[256];
static const uint32_t CONT = 0x80000000u;
static inline Page *page(uintptr_t a, bool create)
{
    uintptr_t pn = a >> 12;
    unsigned h = (pn ^ (pn >> 8)) & 255;
    if (cacheKey[h] == pn && (cacheVal[h] || !create)) return cacheVal[h];
    auto it = pages.find(pn);
    Page *p = it == pages.end() ? 0 : it->second;
    if (!p && create) { p = (Page *)calloc(1, sizeof(Page)); pages[pn] = p; }
    cacheKey[h] = pn; cacheVal[h] = p;
    return p;
}
static inline uint32_t getId(uintptr_t a) { Page *p = page(a, false); return p ? p->id[a & 4095] : 0; }
static uint64_t rawBits(uintptr_t a, int n) { uint64_t v = 0; memcpy(&v, (void *)a, n); return v; }
static void killAt(uintptr_t start)
{
    Page *p = page(start, false);
    if (!p) return;
    int n = p->sz[start & 4095];
    for (int i = 0; i < n; ++i) { Page *q = page(start + i, true); if (q->id[(start + i) & 4095]) { q->id[(start + i) & 4095] = 0; q->live--; } }
    p->sz[start & 4095] = 0;
}
static void clearRange(uintptr_t a, uint64_t n)
{
    uintptr_t e = a + n;
    while (a < e)
    {
        Page *p = page(a, false);
        if (!p || p->live == 0) { a = (a | 4095) + 1; continue; }
        uint32_t id = p->id[a & 4095];
        if (id) { uintptr_t s = id & CONT ? a - (id & ~CONT) : a; killAt(s); }
        ++a;
    }
}
static void putAt(uintptr_t a, int n, Id id, uint64_t bits)
{
    for (int i = 0; i < n; ++i)
    {
        Page *p = page(a + i, true);
        if (!p->id[(a + i) & 4095]) p->live++;
        p->id[(a + i) & 4095] = i ? (CONT | i) : id;
        if (i == 0) { p->sz[a & 4095] = n; p->bits[a & 4095] = bits; }
    }
}
static Id byteOf(Id s, int w, int k, int64_t);

extern "C" {
void __vps_unsupported(uint32_t s, const char *what) { if (s) unsupported(what); }

static Id combineLoad(uintptr_t a, int n)
{
    // little endian composition from entries of other sizes
    std::vector<Id> by(n, 0);
    bool any = false;
    for (int i = 0; i < n; ++i)
    {
        uint32_t id = getId(a + i);
        if (!id) continue;
        uintptr_t s = id & CONT ? a + i - (id & ~CONT) : a + i;
        Page *p = page(s, false);
        int sz = p->sz[s & 4095];
        if (rawBits(s, sz) != p->bits[s & 4095]) { killAt(s); continue; }
        int off = a + i - s;
        Id e = p->id[s & 4095];
        if (N[e].sort == REAL) { if (sz != 8) unsupported("bytes of a float"); by[i] = mk(N_BYTE, INT, e, 0, 0, off, -128, 127); }
        else if (N[e].op == N_BYTE && N[e].k >= 8) by[i] = mk(N_BYTE, INT, N[e].a, 0, 0, N[e].k == 8 ? off : 7 - off, -128, 127);
        else if (sz == 1) by[i] = e;
        else
        {
            Id x = N[e].sort == BOOL ? mkITE(e, mkI(1), mkI(0)) : e;
            // arithmetic byte: floor((unsigned) / 256^off) mod 256
            Id u = uns(x, sz * 8);
            by[i] = wrap(trem(tdiv(u, (i128)1 << (8 * off)), 256), 8);
        }
        any = true;
    }
    if (!any) return 0;
    if (n == 8)
    {
        bool le = true, be = true;
        for (int i = 0; i < 8; ++i)
        {
            if (!by[i] || N[by[i]].op != N_BYTE || N[by[i]].a != N[by[0]].a) { le = be = false; break; }
            if (N[by[i]].k != i) le = false;
            if (N[by[i]].k != 7 - i) be = false;
        }
        if (le) return N[by[0]].a;
        if (be) return mk(N_BYTE, INT, N[by[0]].a, 0, 0, 9, smin(64), smax(64));
    }
    for (int i = 0; i < n; ++i) if (by[i] && N[by[i]].op == N_BYTE) unsupported("mixed bytes of a double");
    Id r = mkI(0);
    for (int i = 0; i < n; ++i)
    {
        Id x = by[i] ? by[i] : mkI((int64_t)(int8_t)*(uint8_t *)(a + i));
        if (N[x].sort == BOOL) x = mkITE(x, mkI(1), mkI(0));
        r = iadd(r, imulc(uns(x, 8), mkI((i128)1 << (8 * i))));
    }
    return wrap(r, n * 8);
}
uint32_t __vps_load(void *ptr, int size)
{
    uintptr_t a = (uintptr_t)ptr;
    Page *p = page(a, false);
    if ((a & 4095) + size <= 4096 && (!p || p->live == 0)) return 0;
    uint32_t id = p ? p->id[a & 4095] : 0;
    if (id && !(id & CONT) && p->sz[a & 4095] == size)
    {
        if (rawBits(a, size) != p->bits[a & 4095]) { killAt(a); return 0; }
        return id;
    }
    bool any = id != 0;
    for (int i = 1; i < size && !any; ++i) any = getId(a + i) != 0;
    if (!any) return 0;
    return combineLoad(a, size);
}
void __vps_store(void *ptr, int size, uint32_t s)
{
    uintptr_t a = (uintptr_t)ptr;
    Page *p = page(a, false);
    if (!s && (a & 4095) + size <= 4096 && (!p || p->live == 0)) return;
    // bytes of a larger entry which survive this store
    bool partial = false;
    for (int i = 0; i < size; ++i)
    {
        uint32_t id = getId(a + i);
        if (!id) continue;
        uintptr_t st = id & CONT ? a + i - (id & ~CONT) : a + i;
        int sz = page(st, false)->sz[st & 4095];
        if (st < a || st + sz > a + size) partial = true;
    }
    if (partial)
    {
        // split the surviving bytes
        for (int side = 0; side < 2; ++side)
        {
            uintptr_t at = side ? a + size - 1 : a;
            uint32_t id = getId(at);
            if (!id) continue;
            uintptr_t st = id & CONT ? at - (id & ~CONT) : at;
            int sz = page(st, false)->sz[st & 4095];
            Id e = page(st, false)->id[st & 4095];
            std::vector<std::pair<uintptr_t, Id>> keep;
            for (int i = 0; i < sz; ++i)
            {
                if (st + i >= a && st + i < a + size) continue;
                Id b;
                if (N[e].sort == REAL) b = mk(N_BYTE, INT, e, 0, 0, i, -128, 127);
                else if (N[e].op == N_BYTE && N[e].k >= 8) b = mk(N_BYTE, INT, N[e].a, 0, 0, N[e].k == 8 ? i : 7 - i, -128, 127);
                else b = wrap(trem(tdiv(uns(N[e].sort == BOOL ? mkITE(e, mkI(1), mkI(0)) : e, sz * 8), (i128)1 << (8 * i)), 256), 8);
                keep.push_back(std::make_pair(st + i, b));
            }
            killAt(st);
            for (auto &k : keep) putAt(k.first, 1, k.second, rawBits(k.first, 1));
        }
    }
    clearRange(a, size);
    if (s) putAt(a, size, s, rawBits(a, size));
}
void __vps_clear(void *ptr, int64_t n) { if (n > 0) clearRange((uintptr_t)ptr, n); }
void __vps_free(void *p) { if (p) clearRange((uintptr_t)p, malloc_usable_size(p)); }
void __vps_alloced(void *p) { if (p) clearRange((uintptr_t)p, malloc_usable_size(p)); }
void __vps_memcpy(void *d, void *s, int64_t n)
{
    if (n <= 0 || d == s) return;
    uintptr_t S = (uintptr_t)s, D = (uintptr_t)d;
    std::vector<std::tuple<uintptr_t, int, Id, uint64_t>> e;
    for (uintptr_t a = S; a < S + n;)
    {
        Page *p = page(a, false);
        if (!p || p->live == 0) { a = (a | 4095) + 1; continue; }
        uint32_t id = p->id[a & 4095];
        if (!id) { ++a; continue; }
        if (id & CONT || a + p->sz[a & 4095] > S + n)
        {
            Id b = combineLoad(a, 1);
            if (b) e.push_back(std::make_tuple(a - S, 1, b, rawBits(a, 1)));
            ++a; continue;
        }
        int sz = p->sz[a & 4095];
        if (rawBits(a, sz) != p->bits[a & 4095]) { killAt(a); a += sz; continue; }
        e.push_back(std::make_tuple(a - S, sz, (Id)id, p->bits[a & 4095]));
        a += sz;
    }
    clearRange(D, n);
    for (auto &x : e) putAt(D + std::get<0>(x), std::get<1>(x), std::get<2>(x), std::get<3>(x));
}
void *__vps_realloc(void *p, uint64_t n)
{
    void *q = malloc(n);
    if (q) clearRange((uintptr_t)q, n);
    if (p && q)
    {
        size_t k = std::min<size_t>(n, malloc_usable_size(p));
        __vps_memcpy(q, p, k);
        memcpy(q, p, k);
        __vps_free(p);
        free(p);
    }
    return q;
}
// a symbolic byte which has not been overwritten by code outside of the engine
static bool liveByte(uintptr_t a)
{
    uint32_t id = getId(a);
    if (!id) return false;
    uintptr_t s = id & CONT ? a - (id & ~CONT) : a;
    Page *p = page(s, false);
    Id e = p->id[s & 4095];
    if (p->sz[s & 4095] == 1 && isIC(e) && (int8_t)(int64_t)N[e].lo == (int8_t)*(uint8_t *)s) return false;
    if (rawBits(s, p->sz[s & 4095]) == p->bits[s & 4095]) return true;
    killAt(s);
    return false;
}
void __vps_memcmp(void *p, void *q, int64_t n)
{
    for (int64_t i = 0; i < n; ++i) if (liveByte((uintptr_t)p + i) || liveByte((uintptr_t)q + i)) unsupported("memcmp of symbolic bytes");
}
void __vps_owrite(void *, void *buf, int64_t n)
{
    for (int64_t i = 0; i < n; ++i) if (liveByte((uintptr_t)buf + i)) unsupported("stream write of symbolic bytes");
}
void __vps_byval(void *dst, int64_t src, int64_t size)
{
    if (src) __vps_memcpy(dst, (void *)src, size); else __vps_clear(dst, size);
}

// ------------------------------------------------------------------ operations
static Id asBool(Id x)
{
    if (N[x].sort == BOOL) return x;
    if (N[x].sort == INT) return mkNot(mkICmp(C_EQ, x, mkI(0)));
    unsupported("real used as a boolean");
}
static Id asInt(Id x)
{
    if (N[x].sort == BOOL) return mkITE(x, mkI(1), mkI(0));
    return x;
}
static Id concNode(Id x, const char *why, int cap = 256)
{
    // fork over the feasible values of an integer expression
    if (N[x].sort == BOOL) return mkI(decide(x));
    if (isIC(x)) return x;
    std::set<i128> tried;
    for (int i = 0; i < cap; ++i)
    {
        if (N[x].lo == N[x].hi) return mkI(N[x].lo);
        if ((i128)tried.size() == N[x].hi - N[x].lo + 1) finish("infeasible");
        i128 v;
        int k = -1;
        // a sample on the border of a condition may suggest a value which is already excluded
        for (size_t j = 0; j < samples.size(); ++j) if (samples[j].alive && !tried.count(evI(x, j))) { k = j; break; }
        if (k >= 0) v = evI(x, k);
        else if (N[x].hi - N[x].lo < cap)
        {
            v = N[x].lo;
            while (v < N[x].hi && tried.count(v)) ++v;
        }
        else
        {
            std::vector<Id> all = pc;
            Model m;
            // make the variables of x appear
            Id t = mkOr(mkICmp(C_LE, x, mkI(0)), mkICmp(C_LT, mkI(-1), x));
            std::vector<Id> q = all;
            q.push_back(mk(B_ICMP, BOOL, x, x, 0, C_LE));
            (void)t;
            Res r = solve(q, &m);
            if (r == UNSAT) finish("infeasible");
            if (r == UNK) unsupported(std::string("cannot enumerate ") + why);
            addSample(m);
            v = evI(x, samples.size() - 1);
        }
        if (decide(mkICmp(C_EQ, x, mkI(v)))) return mkI(v);
        tried.insert(v);
    }
    note("truncated", std::string("too many values: ") + why);
    G->truncated++;
    finish("truncated");
}
int64_t __vps_conc_int(int64_t nat, uint32_t s, int w, const char *why)
{
    if (!s) return nat;
    if (N[s].sort == REAL || N[s].op == N_BYTE) unsupported(std::string("symbolic double bits as ") + why);
    Id c = concNode(s, why);
    return (int64_t)ic(c);
}
double __vps_conc_dbl(double nat, uint32_t s, const char *why)
{
    if (!s) return nat;
    if (isRC(s) || spec(s)) return cd(s);
    const Poly *p = 0;
    try { p = &norm(s); } catch (Undecided &) {}
    if (p && p->isConst()) return p->constant().get_d();
    // text output: which digits are printed is not modelled
    if (!strncmp(why, "_ZNSo9_M_insert", 15) || !strncmp(why, "_ZNSolsE", 8)) return 0.0;
    unsupported(std::string("symbolic double passed to ") + why);
}
static Id rabs(Id a)
{
    if (isRC(a)) return mkR(abs(rc(a)));
    if (spec(a)) return mkD(std::fabs(N[a].d));
    return decide(mkRCmp(C_LT, a, mkD(0))) ? rneg(a) : a;
}
static Id ftoiNode(Id a)
{
    if (isRC(a)) { mpz_class z = rc(a).get_num() / rc(a).get_den(); return mkI((i128)z.get_d()); }
    if (N[a].op == R_ITOR) return N[a].a;
    auto r = polyRange(norm(a));
    double lo = std::max(r.first, -9e18), hi = std::min(r.second, 9e18);
    return mk(N_RTOI, INT, a, 0, 0, 0, (i128)std::floor(lo) - 1, (i128)std::ceil(hi) + 1);
}
static Id floorNode(Id a)
{
    if (isRC(a)) { mpz_class z; mpz_fdiv_q(z.get_mpz_t(), rc(a).get_num().get_mpz_t(), rc(a).get_den().get_mpz_t()); return mkI((i128)z.get_d()); }
    if (N[a].op == R_ITOR) return N[a].a;
    auto r = polyRange(norm(a));
    double lo = std::max(r.first, -9e18), hi = std::min(r.second, 9e18);
    return mk(N_FLOOR, INT, a, 0, 0, 0, (i128)std::floor(lo) - 1, (i128)std::ceil(hi) + 1);
}
static Id itor(Id a)
{
    if (isIC(a)) return mkR(mpq_class((double)ic(a)));
    return mk(R_ITOR, REAL, a, 0, 0, 0);
}
uint32_t __vps_fun(int op, double a, uint32_t sa)
{
    Id x = realOf(a, sa);
    if (N[x].sort != REAL) unsupported("integer bits used as a double");
    if (isRC(x) || spec(x))
    {
        double d = cd(x);
        switch (op)
        {
            case U_NEG: return rneg(x); case U_ABS: return rabs(x);
            case U_SQRT: { mpq_class r; if (isRC(x) && perfectSquare(rc(x), r)) return mkR(r); return mkD(std::sqrt(d)); }
            case U_SIN: return mkD(std::sin(d)); case U_COS: return mkD(std::cos(d)); case U_TAN: return mkD(std::tan(d));
            case U_EXP: return mkD(std::exp(d)); case U_LOG: return mkD(std::log(d)); case U_SINH: return mkD(std::sinh(d));
            case U_COSH: return mkD(std::cosh(d)); case U_TANH: return mkD(std::tanh(d)); case U_ASIN: return mkD(std::asin(d));
            case U_ACOS: return mkD(std::acos(d)); case U_ATAN: return mkD(std::atan(d)); case U_FLOOR: return mkD(std::floor(d));
            case U_CEIL: return mkD(std::ceil(d)); case U_TRUNC: return mkD(std::trunc(d)); case U_ROUND: return mkD(std::round(d));
            case U_RINT: return mkD(std::rint(d));
        }
    }
    switch (op)
    {
        case U_NEG: return rneg(x);
        case U_ABS: return rabs(x);
        case U_FLOOR: return itor(floorNode(x));
        case U_CEIL: return rneg(itor(floorNode(rneg(x))));
        case U_TRUNC: return itor(ftoiNode(x));
        case U_ROUND: return decide(mkRCmp(C_LT, x, mkD(0))) ? rneg(itor(floorNode(radd(rneg(x), mkD(0.5))))) : itor(floorNode(radd(x, mkD(0.5))));
        case U_RINT:
        {
            Id f = floorNode(x);
            Id fr = rsub(x, itor(f));
            if (decide(mkRCmp(C_LT, fr, mkD(0.5)))) return itor(f);
            if (decide(mkRCmp(C_LT, mkD(0.5), fr))) return itor(iadd(f, mkI(1)));
            Id c = concNode(trem(f, 2), "rint parity");
            return ic(c) == 0 ? itor(f) : itor(iadd(f, mkI(1)));
        }
        case U_SQRT:
        {
            Id neg = mkRCmp(C_LT, x, mkD(0));
            if (decide(neg)) return mkD(NAN);
            // sqrt of a square
            return mk(R_FUN, REAL, x, 0, 0, op);
        }
        case U_ASIN: case U_ACOS:
            if (decide(mkOr(mkRCmp(C_LT, mkD(1), x), mkRCmp(C_LT, x, mkD(-1))))) return mkD(NAN);
            break;
        case U_LOG:
            if (decide(mkRCmp(C_LE, x, mkD(0)))) unsupported("log of a non-positive number");
            break;
        default: break;
    }
    return mk(R_FUN, REAL, x, 0, 0, op);
}
uint32_t __vps_powi(double a, uint32_t s, int n);
uint32_t __vps_fbin(int op, double a, uint32_t sa, double b, uint32_t sb)
{
    Id x = realOf(a, sa), y = realOf(b, sb);
    if (N[x].sort != REAL || N[y].sort != REAL) unsupported("integer bits used as a double");
    switch (op)
    {
        case F_ADD: return radd(x, y);
        case F_SUB: return rsub(x, y);
        case F_MUL: return rmul(x, y);
        case F_DIV:
            if (!isRC(y) && !spec(y) && !spec(x))
            {
                // a symbolic divisor: zero gives inf/nan
                if (decide(mkRCmp(C_EQ, y, mkD(0)))) return rdiv(x, mkD(0));
            }
            return rdiv(x, y);
        case F_MIN: case F_MAX:
            if (spec(x) && N[x].d != N[x].d) return y;
            if (spec(y) && N[y].d != N[y].d) return x;
            return decide(mkRCmp(C_LT, x, y)) == (op == F_MIN) ? x : y;
        case F_COPYSIGN:
        {
            Id m = rabs(x);
            return decide(mkRCmp(C_LT, y, mkD(0))) ? rneg(m) : m;
        }
        case F_HYPOT: return __vps_fun(U_SQRT, 0, radd(rmul(x, x), rmul(y, y)));
        case F_POW:
            if (isRC(y))
            {
                double e = cd(y);
                if (isRC(x)) return mkD(std::pow(cd(x), e));
                if (e == 0.5) return __vps_fun(U_SQRT, 0, x);
                if (e == std::floor(e) && std::fabs(e) <= 16) return __vps_powi(0, x, (int)e);
            }
            unsupported("pow with a symbolic exponent");
        case F_ATAN2:
            if ((isRC(x) || spec(x)) && (isRC(y) || spec(y))) return mkD(std::atan2(cd(x), cd(y)));
            return mk(R_ATAN2, REAL, x, y, 0, 0);
        case F_FMOD: case F_REM:
            if (isRC(y) && !spec(x) && rc(y) != 0)
            {
                if (isRC(x)) return mkD(std::fmod(cd(x), cd(y)));
                Id q = rdiv(x, y);
                return rsub(x, rmul(y, itor(ftoiNode(q))));
            }
            unsupported("fmod");
    }
    unsupported("floating point operation");
}
uint32_t __vps_powi(double a, uint32_t s, int n)
{
    Id x = realOf(a, s);
    Id r = mkD(1);
    for (int i = 0; i < std::abs(n); ++i) r = rmul(r, x);
    return n < 0 ? rdiv(mkD(1), r) : r;
}
static Id icmpNode(int pred, int w, Id x, Id y)
{
    if (N[x].sort == REAL || N[y].sort == REAL || N[x].op == N_BYTE || N[y].op == N_BYTE) unsupported("comparison of the bits of a symbolic double");
    x = asInt(x); y = asInt(y);
    if (pred >= 34 && pred <= 37) { x = uns(x, w); y = uns(y, w); }
    switch (pred)
    {
        case 32: return mkICmp(C_EQ, x, y); case 33: return mkNot(mkICmp(C_EQ, x, y));
        case 34: case 38: return mkICmp(C_LT, y, x);
        case 35: case 39: return mkICmp(C_LE, y, x);
        case 36: case 40: return mkICmp(C_LT, x, y);
        case 37: case 41: return mkICmp(C_LE, x, y);
    }
    unsupported("icmp predicate");
}
uint32_t __vps_icmp(int pred, int w, int64_t a, uint32_t sa, int64_t b, uint32_t sb)
{
    Id x = intOf(a, sa), y = intOf(b, sb);
    if (w == 1)
    {
        Id p = asBool(x), q = asBool(y);
        if (pred == 32) return mkNot(mkXor(p, q));
        if (pred == 33) return mkXor(p, q);
        // unsigned order on booleans; signed order is reversed
        switch (pred)
        {
            case 34: case 40: return mkAnd(p, mkNot(q));
            case 36: case 38: return mkAnd(mkNot(p), q);
            case 35: case 41: return mkOr(p, mkNot(q));
            default: return mkOr(mkNot(p), q);
        }
    }
    // a symbolic double compared bitwise with a constant
    return icmpNode(pred, w, x, y);
}
static bool bool01(Id x) { return N[x].op == N_ITE && isIC(N[x].b) && isIC(N[x].c) && ic(N[x].b) == 1 && ic(N[x].c) == 0; }
uint32_t __vps_ibin(int op, int w, int64_t a, uint32_t sa, int64_t b, uint32_t sb)
{
    Id x = intOf(a, sa), y = intOf(b, sb);
    if (w == 1)
    {
        Id p = asBool(x), q = asBool(y);
        switch (op)
        {
            case I_AND: case I_MUL: case I_UMIN: case I_SMAX: return mkAnd(p, q);
            case I_OR: case I_UMAX: case I_SMIN: return mkOr(p, q);
            case I_XOR: case I_ADD: case I_SUB: return mkXor(p, q);
        }
        unsupported("operation on i1");
    }
    if (N[x].sort == REAL || N[y].sort == REAL)
    {
        if (N[y].sort == REAL && N[x].sort != REAL) std::swap(x, y);
        if (isIC(y) && op == I_AND && ic(y) == (i128)0x7fffffffffffffffLL) return rabs(x);
        if (isIC(y) && op == I_XOR && ic(y) == smin(64)) return rneg(x);
        if (isIC(y) && op == I_LSHR && ic(y) % 8 == 0)
        {
            if (ic(y) == 0) return x;
            // only useful when truncated to a byte: keep a marker
            return mk(N_BYTE, INT, x, 1, 0, (int64_t)ic(y) / 8, smin(64), smax(64));
        }
        if (isIC(y) && op == I_LSHR && ic(y) == 63) return asInt(mkRCmp(C_LT, x, mkD(0)));
        unsupported("bit operation on a symbolic double");
    }
    if (N[x].op == N_BYTE || N[y].op == N_BYTE)
    {
        if (isIC(y) && op == I_LSHR && ic(y) % 8 == 0 && (N[x].k == 9 || (N[x].b == 1)))
        {
            int sh = ic(y) / 8;
            if (N[x].b == 1) return mk(N_BYTE, INT, N[x].a, 1, 0, N[x].k + sh, smin(64), smax(64));
            return mk(N_BYTE, INT, N[x].a, 2, 0, 7 - sh, smin(64), smax(64)); // low byte after swap and shift
        }
        unsupported("bit operation on the bytes of a symbolic double");
    }
    x = asInt(x); y = asInt(y);
    switch (op)
    {
        case I_ADD: return wrap(iadd(x, y), w);
        case I_SUB: return wrap(isub(x, y), w);
        case I_MUL:
            if (!isIC(x) && !isIC(y) && (i128abs(N[x].lo) > 1000000000 || i128abs(N[x].hi) > 1000000000 || i128abs(N[y].lo) > 1000000000 || i128abs(N[y].hi) > 1000000000))
                y = concNode(y, "factor");
            return wrap(imulc(x, y), w);
        case I_UDIV: case I_UREM:
            x = uns(x, w);
            if (!isIC(y) || ic(y) == 0) unsupported("symbolic divisor");
            return wrap(op == I_UDIV ? tdiv(x, ic(uns(y, w))) : trem(x, ic(uns(y, w))), w);
        case I_SDIV: case I_SREM:
            if (!isIC(y) || ic(y) == 0) unsupported("symbolic divisor");
            return op == I_SDIV ? wrap(tdiv(x, ic(y)), w) : trem(x, ic(y));
        case I_SHL:
            if (isIC(y)) return wrap(imulc(x, mkI((i128)1 << (int)ic(y))), w);
            break;
        case I_LSHR:
            if (isIC(y)) return wrap(tdiv(uns(x, w), (i128)1 << (int)ic(y)), w);
            break;
        case I_ASHR:
            if (isIC(y) && N[x].lo >= 0) return tdiv(x, (i128)1 << (int)ic(y));
            break;
        case I_AND:
            if (isIC(x)) std::swap(x, y);
            if (isIC(y))
            {
                i128 m = ic(y);
                if (m == 0) return y;
                if (m == -1) return x;
                if (m > 0 && (m & (m + 1)) == 0) return trem(uns(x, w), m + 1);
            }
            if (bool01(x) && bool01(y)) return asInt(mkAnd(N[x].a, N[y].a));
            break;
        case I_OR:
            if (isIC(x)) std::swap(x, y);
            if (isIC(y) && ic(y) == 0) return x;
            if (bool01(x) && bool01(y)) return asInt(mkOr(N[x].a, N[y].a));
            break;
        case I_XOR:
            if (isIC(x)) std::swap(x, y);
            if (isIC(y) && ic(y) == 0) return x;
            if (isIC(y) && ic(y) == -1) return wrap(isub(mkI(-1), x), w);
            if (bool01(x) && isIC(y) && ic(y) == 1) return asInt(mkNot(N[x].a));
            if (bool01(x) && bool01(y)) return asInt(mkXor(N[x].a, N[y].a));
            break;
        case I_SMIN: return mkITE(mkICmp(C_LT, x, y), x, y);
        case I_SMAX: return mkITE(mkICmp(C_LT, x, y), y, x);
        case I_UMIN: return mkITE(mkICmp(C_LT, uns(x, w), uns(y, w)), x, y);
        case I_UMAX: return mkITE(mkICmp(C_LT, uns(x, w), uns(y, w)), y, x);
        case I_USUBSAT: return mkITE(mkICmp(C_LT, uns(x, w), uns(y, w)), mkI(0), wrap(isub(x, y), w));
        case I_UADDSAT: break;
    }
    // anything else: enumerate the operands
    x = concNode(x, "bit operation"); y = concNode(y, "bit operation");
    uint64_t p = (uint64_t)ic(x), q = (uint64_t)ic(y), r = 0;
    switch (op)
    {
        case I_AND: r = p & q; break; case I_OR: r = p | q; break; case I_XOR: r = p ^ q; break;
        case I_SHL: r = p << q; break; case I_ASHR: r = (uint64_t)((int64_t)p >> q); break;
        default: unsupported("integer operation");
    }
    return wrap(mkI((i128)(int64_t)r), w);
}
uint32_t __vps_overflow(int op, int sgn, int w, int64_t a, uint32_t sa, int64_t b, uint32_t sb)
{
    Id x = asInt(intOf(a, sa)), y = asInt(intOf(b, sb));
    if (!sgn) { x = uns(x, w); y = uns(y, w); }
    Id r = op == I_ADD ? iadd(x, y) : op == I_SUB ? isub(x, y) : imulc(x, y);
    i128 lo = sgn ? smin(w) : 0, hi = sgn ? smax(w) : ((i128)1 << w) - 1;
    return mkOr(mkICmp(C_LT, r, mkI(lo)), mkICmp(C_LT, mkI(hi), r));
}
uint32_t __vps_fcmp(int pred, double a, uint32_t sa, double b, uint32_t sb)
{
    Id x = realOf(a, sa), y = realOf(b, sb);
    if (N[x].sort != REAL || N[y].sort != REAL) unsupported("integer bits used as a double");
    bool nan = (spec(x) && N[x].d != N[x].d) || (spec(y) && N[y].d != N[y].d);
    if (nan) return mkB(pred >= 8);
    switch (pred)
    {
        case 0: return mkB(false); case 15: return mkB(true); case 7: return mkB(true); case 8: return mkB(false);
        case 1: case 9: return mkRCmp(C_EQ, x, y);
        case 2: case 10: return mkRCmp(C_LT, y, x);
        case 3: case 11: return mkRCmp(C_LE, y, x);
        case 4: case 12: return mkRCmp(C_LT, x, y);
        case 5: case 13: return mkRCmp(C_LE, x, y);
        case 6: case 14: return mkNot(mkRCmp(C_EQ, x, y));
    }
    unsupported("fcmp predicate");
}
uint32_t __vps_icast(int kind, int from, int to, uint32_t s)
{
    if (!s) return 0;
    if (N[s].sort == REAL)
    {
        if (kind == 2 && to == 8) return mk(N_BYTE, INT, s, 0, 0, 0, -128, 127);
        unsupported("integer cast of the bits of a symbolic double");
    }
    if (N[s].op == N_BYTE)
    {
        if (kind == 2 && to == 8)
        {
            if (N[s].b == 1 || N[s].b == 2) return mk(N_BYTE, INT, N[s].a, 0, 0, N[s].k, -128, 127);
            if (N[s].k == 8) return mk(N_BYTE, INT, N[s].a, 0, 0, 0, -128, 127);
            if (N[s].k == 9) return mk(N_BYTE, INT, N[s].a, 0, 0, 7, -128, 127);
        }
        unsupported("integer cast of the bytes of a symbolic double");
    }
    if (from == 1)
    {
        Id b = asBool(s);
        return kind == 1 ? mkITE(b, mkI(-1), mkI(0)) : mkITE(b, mkI(1), mkI(0));
    }
    Id x = asInt(s);
    if (kind == 0) return uns(x, from);
    if (kind == 1) return x;
    if (to == 1)
    {
        if (bool01(x)) return N[x].a;
        return mkNot(mkICmp(C_EQ, trem(uns(x, from), 2), mkI(0)));
    }
    return wrap(x, to);
}
uint32_t __vps_itof(int sgn, int w, uint32_t s)
{
    if (!s) return 0;
    if (N[s].sort == REAL || N[s].op == N_BYTE) unsupported("conversion of double bits");
    Id x = asInt(s);
    if (w == 1 && sgn) x = mkITE(asBool(s), mkI(-1), mkI(0));
    if (!sgn) x = uns(x, w);
    return itor(x);
}
uint32_t __vps_ftoi(int sgn, int w, uint32_t s)
{
    if (!s) return 0;
    if (spec(s)) unsupported("conversion of inf/nan to an integer");
    Id n = ftoiNode(s);
    return wrap(n, w);
}
uint32_t __vps_select(bool c, uint32_t sc, int64_t t, uint32_t st, int64_t f, uint32_t sf, int w)
{
    if (!sc) return c ? st : sf;
    if (N[sc].sort != BOOL) sc = asBool(sc);
    bool real = w == 0 || (st && (N[st].sort == REAL || N[st].op == N_BYTE)) || (sf && (N[sf].sort == REAL || N[sf].op == N_BYTE));
    if (real)
    {
        bool v = decide(sc);
        if (w == 0)
        {
            double dt, df; memcpy(&dt, &t, 8); memcpy(&df, &f, 8);
            return v ? realOf(dt, st) : realOf(df, sf);
        }
        return v ? intOf(t, st) : intOf(f, sf);
    }
    Id x = intOf(t, st), y = intOf(f, sf);
    if (w == 1)
    {
        Id a = asBool(x), b = asBool(y);
        return mkOr(mkAnd(sc, a), mkAnd(mkNot(sc), b));
    }
    return mkITE(asBool(sc), asInt(x), asInt(y));
}
bool __vps_branch(bool nat, uint32_t s)
{
    if (!s) return nat;
    return decide(asBool(s));
}
int64_t __vps_switch(int64_t nat, uint32_t s, int w, int n, const int64_t *cases)
{
    if (!s) return nat;
    if (N[s].sort == REAL || N[s].op == N_BYTE) unsupported("switch on double bits");
    if (isIC(s)) return (int64_t)ic(s);
    for (int i = 0; i < n; ++i)
        if (decide(mkICmp(C_EQ, asInt(s), mkI(cases[i])))) return cases[i];
    // the default: any value different from the cases
    for (int64_t v = 0;; ++v)
    {
        bool hit = false;
        for (int i = 0; i < n; ++i) if (cases[i] == v) hit = true;
        if (!hit) return v;
    }
}
uint32_t __vps_iabs(int w, uint32_t s)
{
    Id x = asInt(s);
    return wrap(mkITE(mkICmp(C_LT, x, mkI(0)), isub(mkI(0), x), x), w);
}
uint32_t __vps_bswap(int w, uint32_t s)
{
    if (N[s].sort == REAL && w == 64) return mk(N_BYTE, INT, s, 0, 0, 9, smin(64), smax(64));
    if (N[s].op == N_BYTE && N[s].k == 9) return N[s].a;
    Id c = concNode(s, "byte swap");
    uint64_t v = (uint64_t)ic(c), r = 0;
    for (int i = 0; i < w / 8; ++i) r |= ((v >> (8 * i)) & 255) << (w - 8 - 8 * i);
    return wrap(mkI((i128)(int64_t)r), w);
}
uint32_t __vps_fpclass(uint32_t s, int mask)
{
    if (spec(s))
    {
        double d = N[s].d;
        bool r = d != d ? (mask & 3) != 0 : d > 0 ? (mask & 0x200) != 0 : (mask & 4) != 0;
        return mkB(r);
    }
    // finite: negative normal 8, -subnormal 0x10, -0 0x20, +0 0x40, +sub 0x80, +normal 0x100
    int fin = mask & 0x1f8;
    if (fin == 0) return mkB(false);
    if (fin == 0x1f8) return mkB(true);
    unsupported("fpclass");
}
static std::set<const char *> seenFn;
void __vps_fn(const char *n) { if (G && seenFn.insert(n).second && !seenBefore(std::string("fn/") + n)) logline(std::string("{\"t\":\"fn\",\"what\":") + js(n) + "}"); }

// ------------------------------------------------------------------ harness API
static Id argShadow(void *fn, int slot) { return __vps_tag == fn ? (Id)__vps_args[slot] : 0; }
static void setRet(void *fn, Id id) { __vps_ret[0] = id; __vps_rettag = fn; }
static std::map<std::string, int> nameCount;
static std::string uniq(const char *name)
{
    int k = nameCount[name]++;
    return k ? std::string(name) + "#" + std::to_string(k) : std::string(name);
}
static void ensureSamples()
{
    while ((int)samples.size() < NRANDOM) { Sample s; s.alive = true; samples.push_back(s); }
}
static double poison() { uint64_t b = 0x7ff8dead0000beefull; double d; memcpy(&d, &b, 8); return d; }
double vp_real(const char *name, double lo, double hi)
{
    ensureSamples();
    Var v; v.name = uniq(name); v.sort = REAL; v.lo = lo; v.hi = hi; v.ilo = v.ihi = 0;
    vars.push_back(v);
    Id id = mk(R_VAR, REAL, 0, 0, 0, vars.size() - 1);
    vars.back().node = id;
    setRet((void *)vp_real, id);
    return poison();
}
long vp_int(const char *name, long lo, long hi)
{
    ensureSamples();
    Var v; v.name = uniq(name); v.sort = INT; v.lo = v.hi = 0; v.ilo = lo; v.ihi = hi;
    vars.push_back(v);
    Id id = mk(N_VAR, INT, 0, 0, 0, vars.size() - 1, lo, hi);
    vars.back().node = id;
    setRet((void *)vp_int, id);
    return lo;
}
bool vp_bool(const char *name)
{
    ensureSamples();
    Var v; v.name = uniq(name); v.sort = BOOL; v.lo = v.hi = 0; v.ilo = 0; v.ihi = 1;
    vars.push_back(v);
    Id id = mk(B_VAR, BOOL, 0, 0, 0, vars.size() - 1);
    vars.back().node = id;
    setRet((void *)vp_bool, id);
    return false;
}
long vp_choose(const char *name, long lo, long hi)
{
    ensureSamples();
    __vps_rettag = 0;
    std::string nm = uniq(name);
    long v = lo;
    for (; v < hi; ++v) if (forkPath()) break;
    chosen.push_back(std::make_pair(nm, std::to_string(v)));
    return v;
}
void vp_assume(bool c)
{
    Id s = argShadow((void *)vp_assume, 0);
    assume(s ? asBool(s) : mkB(c));
}
void vp_check(bool c, const char *msg)
{
    Id s = argShadow((void *)vp_check, 0);
    checkCond(s ? asBool(s) : mkB(c), msg);
}
void vp_eq_tol(double a, double b, double tol, const char *msg)
{
    Id x = realOf(a, argShadow((void *)vp_eq_tol, 0)), y = realOf(b, argShadow((void *)vp_eq_tol, 1));
    checkEq(x, y, tol, msg);
}
void vp_reach(const char *label) { reach(label); }
void vp_fail(const char *msg) { G->checks++; reach(msg); violation("fail", msg, mkB(true)); finish("violation"); }
void vp_stop(void) { finish("ok"); }
int vp_symbolic(void) { return 1; }
void vp_half_angles(void) { half_angles = true; }
long vp_seed(void) { return seed; }
// the value is known to differ from zero etc. on this path?
void vp_dump(double a, const char *msg)
{
    Id x = argShadow((void *)vp_dump, 0);
    std::ostringstream o;
    o << msg << " = ";
    if (!x) o << "concrete " << a;
    else if (spec(x)) o << N[x].d;
    else
    {
        try
        {
            for (auto &t : norm(x).t)
            {
                o << " + " << t.second.get_str();
                for (auto &y : t.first)
                {
                    const Atom &A = atoms[y.first];
                    o << "*" << (A.kind == A_VAR ? vars[N[A.node].k].name : "a" + std::to_string(y.first) + "k" + std::to_string(A.kind)) << "^" << y.second;
                }
            }
        }
        catch (Undecided &e) { o << e.what(); }
    }
    fprintf(stderr, "%s\n", o.str().c_str());
}
} // extern "C"

// ------------------------------------------------------------------ main
struct Reg { const char *name; void (*fn)(); };
static std::vector<Reg> &regs() { static std::vector<Reg> r; return r; }
extern "C" int vp_register(const char *name, void (*fn)()) { Reg r = {name, fn}; regs().push_back(r); return 0; }

static volatile int inHandler = 0;
static void onSignal(int sig)
{
    if (inHandler) _exit(9);
    inHandler = 1;
    if (sig == SIGVTALRM)
    {
        note("truncated", "a path ran out of time");
        G->truncated++;
        violation("timeout", "path does not terminate in time", mkB(true));
        finish("timeout");
    }
    signal(SIGVTALRM, SIG_DFL);
    alarm(60);
    G->crashed++;
    violation("crash", std::string("crash: signal ") + strsignal(sig), mkB(true));
    finish("crash");
}
int main(int argc, char **argv)
{
    if (argc < 3)
    {
        for (auto &r : regs()) printf("%s\n", r.name);
        return 0;
    }
    harness_name = argv[1];
    logfd = open(argv[2], O_WRONLY | O_CREAT | O_APPEND, 0644);
    int tokens = 1;
    for (int i = 3; i < argc; ++i)
    {
        std::string a = argv[i];
        size_t e = a.find('=');
        std::string k = a.substr(0, e), v = a.substr(e + 1);
        if (k == "tokens") tokens = atoi(v.c_str());
        else if (k == "paths") max_paths = atol(v.c_str());
        else if (k == "decisions") max_decisions = atol(v.c_str());
        else if (k == "rlimit") query_rlimit = atol(v.c_str());
        else if (k == "qsec") query_seconds = atoi(v.c_str());
        else if (k == "psec") path_seconds = atoi(v.c_str());
        else if (k == "seed") seed = atoll(v.c_str());
        else if (k == "time") deadline = now() + atof(v.c_str());
        else if (k == "cross") cross = atoi(v.c_str());
    }
    G = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    new (G) Shared();
    G->tokens = tokens - 1;
    void (*fn)() = 0;
    for (auto &r : regs()) if (harness_name == r.name) fn = r.fn;
    if (!fn) { fprintf(stderr, "no harness %s\n", argv[1]); return 3; }
    double t0 = now();
    pid_t p = fork();
    if (p == 0)
    {
        stack_t ss; ss.ss_sp = malloc(1 << 20); ss.ss_size = 1 << 20; ss.ss_flags = 0;
        sigaltstack(&ss, 0);
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onSignal; sa.sa_flags = SA_ONSTACK;
        for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) sigaction(s, &sa, 0);
        struct sigaction sb; memset(&sb, 0, sizeof sb); sb.sa_handler = onSignal;
        sigaction(SIGVTALRM, &sb, 0);
        armTimer(); // CPU time of one path
        try { fn(); }
        catch (std::exception &e) { reach("exception"); violation("exception", std::string("unexpected exception: ") + e.what(), mkB(true)); finish("exception"); }
        catch (...) { violation("exception", "unexpected exception", mkB(true)); finish("exception"); }
        finish("ok");
    }
    int st = 0;
    waitpid(p, &st, 0);
    std::ostringstream o;
    o << "{\"t\":\"stat\",\"paths\":" << G->paths << ",\"forks\":" << G->forks << ",\"queries\":" << G->queries << ",\"unsat\":" << G->unsat
      << ",\"sat\":" << G->sat << ",\"unknown\":" << G->unknown << ",\"solver_s\":" << G->solver_us * 1e-6 << ",\"checks\":" << G->checks
      << ",\"eqs\":" << G->eqs << ",\"identities\":" << G->identities << ",\"confirmed\":" << G->confirmed << ",\"bounded\":" << G->bounded << ",\"solver_checked\":" << G->solver_checked
      << ",\"undecided\":" << G->undecided << ",\"cut_by_assume\":" << G->infeasible_assume << ",\"truncated\":" << G->truncated
      << ",\"sample_decided\":" << G->sample_decided << ",\"crashed\":" << G->crashed << ",\"viols\":" << G->viols << ",\"constant\":" << G->normdecided
      << ",\"decisions\":" << G->decs << ",\"timeouts\":" << G->timeouts << ",\"wall\":" << now() - t0 << ",\"status\":" << (WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st)) << "}";
    logline(o.str());
    return 0;
}
