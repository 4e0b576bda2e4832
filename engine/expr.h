// Expression DAG, ring normaliser, z3 translation of the VPS runtime.
#pragma once
#include <cstdint>
#include <cmath>
#include <cstring>
#include <gmpxx.h>
#include <map>
#include <deque>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include <stdexcept>

typedef __int128 i128;
typedef uint32_t Id;

enum FBin { F_ADD, F_SUB, F_MUL, F_DIV, F_REM, F_MIN, F_MAX, F_POW, F_ATAN2, F_HYPOT, F_COPYSIGN, F_FMOD };
enum FUn { U_NEG, U_ABS, U_SQRT, U_SIN, U_COS, U_TAN, U_EXP, U_LOG, U_SINH, U_COSH, U_TANH, U_ASIN, U_ACOS, U_ATAN,
           U_FLOOR, U_CEIL, U_TRUNC, U_ROUND, U_RINT };
enum IBin { I_ADD, I_SUB, I_MUL, I_UDIV, I_SDIV, I_UREM, I_SREM, I_SHL, I_LSHR, I_ASHR, I_AND, I_OR, I_XOR,
            I_SMIN, I_SMAX, I_UMIN, I_UMAX, I_USUBSAT, I_UADDSAT };

enum Sort { REAL, INT, BOOL };
enum Op
{
    // real
    R_CONST, R_SPEC, R_VAR, R_ADD, R_SUB, R_MUL, R_DIV, R_NEG, R_FUN, R_ATAN2, R_ITOR,
    // int (mathematical; machine wrap is explicit)
    N_CONST, N_VAR, N_ADD, N_SUB, N_MUL, N_TDIV, N_TREM, N_ITE, N_RTOI, N_FLOOR, N_WRAP,
    // bytes of a double seen as an integer: a=real, k=byte index (little endian); k=8: all, k=9: all, byte swapped
    N_BYTE,
    // bool
    B_CONST, B_VAR, B_RCMP, B_ICMP, B_NOT, B_AND, B_OR
};
enum Cmp { C_LT, C_LE, C_EQ };

struct Undecided : std::runtime_error { Undecided(const std::string &s) : std::runtime_error(s) {} };

struct Node
{
    uint8_t op, sort;
    Id a, b, c;
    int64_t k;      // constant / var index / cmp kind / function / bool value
    i128 lo, hi;    // INT: interval
    double d;       // R_SPEC
};

struct Var
{
    std::string name;
    int sort;
    double lo, hi;  // REAL
    i128 ilo, ihi;  // INT
    Id node;
};

// ---- polynomials ----
typedef std::vector<std::pair<int, int>> Mono; // (atom, exponent), sorted by atom
struct MonoHash
{
    size_t operator()(const Mono &m) const
    {
        size_t h = 1469598103934665603ull;
        for (auto &p : m) { h ^= p.first; h *= 1099511628211ull; h ^= (unsigned)p.second; h *= 1099511628211ull; }
        return h;
    }
};
struct Poly
{
    std::map<Mono, mpq_class> t;
    bool zero() const { return t.empty(); }
    bool isConst() const { return t.empty() || (t.size() == 1 && t.begin()->first.empty()); }
    mpq_class constant() const { return t.empty() ? mpq_class(0) : t.begin()->second; }
    bool operator<(const Poly &o) const { return t < o.t; }
};

enum AtomKind { A_VAR, A_INT, A_SQRT, A_SIN, A_COS, A_INV, A_EXP, A_FUN };
struct Atom
{
    int kind;
    Id node;   // A_VAR: variable node, A_INT: int node
    int fun;   // A_FUN
    Poly p;    // argument
    Poly p2;   // second argument (atan2)
    bool operator<(const Atom &o) const
    {
        if (kind != o.kind) return kind < o.kind;
        if (node != o.node) return node < o.node;
        if (fun != o.fun) return fun < o.fun;
        if (p.t != o.p.t) return p.t < o.p.t;
        return p2.t < o.p2.t;
    }
};
