#pragma once
#include "vp.h"
#include <cstdio>
#include <string>
#include <vector>
#include <sstream>
#include <stdexcept>
#include "humoto/humoto.h"

// symbolic matrices and vectors
static inline Eigen::MatrixXd symMat(const char *n, int r, int c, double lo = -4, double hi = 4)
{
    Eigen::MatrixXd m(r, c);
    for (int i = 0; i < r; ++i)
        for (int j = 0; j < c; ++j)
        {
            char b[64]; snprintf(b, 64, "%s_%d_%d", n, i, j);
            m(i, j) = vp_real(b, lo, hi);
        }
    return m;
}
static inline Eigen::VectorXd symVec(const char *n, int r, double lo = -4, double hi = 4)
{
    Eigen::VectorXd v(r);
    for (int i = 0; i < r; ++i)
    {
        char b[64]; snprintf(b, 64, "%s_%d", n, i);
        v(i) = vp_real(b, lo, hi);
    }
    return v;
}
template <class A, class B> static inline void eqMat(const A &a0, const B &b0, const char *msg)
{
    Eigen::MatrixXd a = a0, b = b0;
    vp_check(a.rows() == b.rows() && a.cols() == b.cols(), msg);
    if (a.rows() != b.rows() || a.cols() != b.cols()) return;
    for (int i = 0; i < a.rows(); ++i)
        for (int j = 0; j < a.cols(); ++j) vp_eq(a(i, j), b(i, j), msg);
}
// reference product, written out
static inline Eigen::MatrixXd mul(const Eigen::MatrixXd &a, const Eigen::MatrixXd &b)
{
    Eigen::MatrixXd r = Eigen::MatrixXd::Zero(a.rows(), b.cols());
    for (int i = 0; i < a.rows(); ++i)
        for (int j = 0; j < b.cols(); ++j)
        {
            double s = 0;
            for (int k = 0; k < a.cols(); ++k) s += a(i, k) * b(k, j);
            r(i, j) = s;
        }
    return r;
}
// true when f throws
template <class F> static inline bool throws(F f)
{
    try { f(); } catch (const std::exception &) { return true; }
    return false;
}
// dense reference of a block Kronecker product with an identity matrix
static inline Eigen::MatrixXd kronRef(const Eigen::MatrixXd &m, int r, int c, int n)
{
    Eigen::MatrixXd out = Eigen::MatrixXd::Zero(m.rows() * n, m.cols() * n);
    for (int i = 0; i < m.rows() / r; ++i)
        for (int j = 0; j < m.cols() / c; ++j)
            for (int k = 0; k < n; ++k)
                for (int a = 0; a < r; ++a)
                    for (int b = 0; b < c; ++b) out((i * n + k) * r + a, (j * n + k) * c + b) = m(i * r + a, j * c + b);
    return out;
}
// zero all blocks outside of the diagonal
static inline Eigen::MatrixXd blockDiagRef(const Eigen::MatrixXd &m, int r, int c)
{
    Eigen::MatrixXd out = Eigen::MatrixXd::Zero(m.rows(), m.cols());
    for (int i = 0; i < m.rows(); ++i)
        for (int j = 0; j < m.cols(); ++j)
            if (i / r == j / c) out(i, j) = m(i, j);
    return out;
}
// zero all blocks above the diagonal
static inline Eigen::MatrixXd blockLowerRef(const Eigen::MatrixXd &m, int r, int c)
{
    Eigen::MatrixXd out = Eigen::MatrixXd::Zero(m.rows(), m.cols());
    for (int i = 0; i < m.rows(); ++i)
        for (int j = 0; j < m.cols(); ++j)
            if (i / r >= j / c) out(i, j) = m(i, j);
    return out;
}
