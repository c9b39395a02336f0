// Naive dense arithmetic used as the reference for P13.
#ifndef VF_LINREF_H
#define VF_LINREF_H
#include "vf.h"
#include "LinearAlgebra/MiddleSizeMatrix.h"
#include "LinearAlgebra/MiddleSizeVector.h"
#include "LinearAlgebra/SmallMatrix.h"
#include "LinearAlgebra/SmallVector.h"
#include "LinearAlgebra/Axpy.h"
#include <algorithm>

using namespace hpgem;
using namespace hpgem::LinearAlgebra;
using S = MiddleSizeMatrix::type;
using C = std::complex<double>;
using vf::str;

inline double scaleOf(vf::Rng& r) {
    static const double sc[] = {1, 1, 1, 1e-3, 1e4};
    return sc[vf::below(r, 5)];
}
template <typename T>
T rnd(vf::Rng& r);
template <>
inline double rnd<double>(vf::Rng& r) {
    if (vf::below(r, 8) == 0) return (double)((int)vf::below(r, 5) - 2);
    return vf::uni(r, -1, 1);
}
template <>
inline C rnd<C>(vf::Rng& r) {
    double a = rnd<double>(r), b = rnd<double>(r);
    return C(a, b);
}
inline double cj(double a) { return a; }
inline C cj(C a) { return std::conj(a); }

// reference dense matrix, row/column addressed by map-like storage [i][j]
template <typename T>
struct M {
    std::size_t r, c;
    std::vector<std::vector<T>> a;
    M(std::size_t r_ = 0, std::size_t c_ = 0) : r(r_), c(c_), a(r_, std::vector<T>(c_, T(0))) {}
    double mx() const {
        double m = 0;
        for (auto& x : a)
            for (auto& y : x) m = std::max(m, std::abs(y));
        return m;
    }
};
template <typename T>
M<T> mul(const M<T>& x, const M<T>& y) {
    M<T> z(x.r, y.c);
    for (std::size_t i = 0; i < x.r; ++i)
        for (std::size_t j = 0; j < y.c; ++j)
            for (std::size_t k = 0; k < x.c; ++k) z.a[i][j] += x.a[i][k] * y.a[k][j];
    return z;
}
template <typename T>
M<T> tr(const M<T>& x, bool conj) {
    M<T> z(x.c, x.r);
    for (std::size_t i = 0; i < x.r; ++i)
        for (std::size_t j = 0; j < x.c; ++j) z.a[j][i] = conj ? cj(x.a[i][j]) : x.a[i][j];
    return z;
}
template <typename T>
M<T> lin(T al, const M<T>& x, T be, const M<T>& y) {
    M<T> z(x.r, x.c);
    for (std::size_t i = 0; i < x.r; ++i)
        for (std::size_t j = 0; j < x.c; ++j) z.a[i][j] = al * x.a[i][j] + be * y.a[i][j];
    return z;
}
template <typename T>
M<T> randM(std::size_t r, std::size_t c, vf::Rng& g, double sc = 1) {
    M<T> z(r, c);
    for (auto& x : z.a)
        for (auto& y : x) y = rnd<T>(g) * sc;
    return z;
}
// well conditioned random square matrix with rows permuted (pivoting needed)
template <typename T>
M<T> randReg(std::size_t n, vf::Rng& g) {
    M<T> z = randM<T>(n, n, g);
    std::vector<std::size_t> p(n);
    for (std::size_t i = 0; i < n; ++i) p[i] = i;
    vf::shuffle(p, g);
    for (std::size_t i = 0; i < n; ++i) {
        T big = T(3.0 * (n + 1));
        if (vf::below(g, 2)) big = -big;
        z.a[p[i]][i] += big;
        // zeros on the diagonal are legal
        if (n > 1 && p[i] != i && vf::below(g, 2)) z.a[i][i] = T(0);
    }
    return z;
}
inline MiddleSizeMatrix toMid(const M<S>& x) {
    MiddleSizeMatrix m(x.r, x.c);
    for (std::size_t i = 0; i < x.r; ++i)
        for (std::size_t j = 0; j < x.c; ++j) m(i, j) = x.a[i][j];
    return m;
}
template <typename MM, typename T>
bool same(const MM& got, const M<T>& want, double tol, const std::string& key) {
    if (!vf::expect(got.getNumberOfRows() == want.r && got.getNumberOfColumns() == want.c, key + ":shape",
                    "shape ", got.getNumberOfRows(), "x", got.getNumberOfColumns(), " expected ", want.r, "x", want.c))
        return false;
    for (std::size_t i = 0; i < want.r; ++i)
        for (std::size_t j = 0; j < want.c; ++j)
            if (!vf::near(got(i, j), want.a[i][j], tol, key, "entry ", i, ",", j)) return false;
    return true;
}
template <typename V, typename T>
bool sameV(const V& got, const std::vector<T>& want, double tol, const std::string& key) {
    if (!vf::expect(got.size() == want.size(), key + ":size", "size ", got.size(), " expected ", want.size())) return false;
    for (std::size_t i = 0; i < want.size(); ++i)
        if (!vf::near(got[i], want[i], tol, key, "entry ", i)) return false;
    return true;
}
template <typename T>
std::vector<T> randV(std::size_t n, vf::Rng& g, double sc = 1) {
    std::vector<T> v(n);
    for (auto& x : v) x = rnd<T>(g) * sc;
    return v;
}
inline MiddleSizeVector toMidV(const std::vector<S>& v) {
    MiddleSizeVector w(v.size());
    for (std::size_t i = 0; i < v.size(); ++i) w[i] = v[i];
    return w;
}
template <typename T>
M<T> colM(const std::vector<T>& v) {
    M<T> z(v.size(), 1);
    for (std::size_t i = 0; i < v.size(); ++i) z.a[i][0] = v[i];
    return z;
}
template <typename T>
std::vector<T> col(const M<T>& m, std::size_t j) {
    std::vector<T> v;
    for (std::size_t i = 0; i < m.r; ++i) v.push_back(m.a[i][j]);
    return v;
}
template <typename T>
T det(const M<T>& m) {
    if (m.r == 0) return T(1);
    std::vector<std::size_t> p(m.r);
    for (std::size_t i = 0; i < m.r; ++i) p[i] = i;
    T sum = T(0);
    do {
        int inv = 0;
        for (std::size_t i = 0; i < m.r; ++i)
            for (std::size_t j = i + 1; j < m.r; ++j) inv += p[i] > p[j];
        T t = T(inv % 2 ? -1. : 1.);
        for (std::size_t i = 0; i < m.r; ++i) t *= m.a[i][p[i]];
        sum += t;
    } while (std::next_permutation(p.begin(), p.end()));
    return sum;
}
template <typename T>
std::vector<T> wedge(const M<T>& j) {
    std::vector<T> w;
    for (std::size_t i = 0; i < j.r; ++i) {
        M<T> q(j.r, j.r);
        for (std::size_t a = 0; a < j.r; ++a)
            for (std::size_t b = 0; b < j.c; ++b) q.a[a][b] = j.a[a][b];
        q.a[i][j.r - 1] = T(1);
        w.push_back(det(q));
    }
    return w;
}
// P A = L U for some row permutation P: row-pivoted LU in one matrix
template <typename MM, typename T>
void checkLU(const MM& lu, const M<T>& a, const std::string& key) {
    std::size_t k = std::min(a.r, a.c);
    M<T> l(a.r, k), u(k, a.c);
    for (std::size_t i = 0; i < a.r; ++i)
        for (std::size_t j = 0; j < a.c; ++j) {
            if (i > j) {
                if (j < k) l.a[i][j] = lu(i, j);
            } else {
                u.a[i][j] = lu(i, j);
            }
        }
    for (std::size_t i = 0; i < k; ++i) l.a[i][i] = T(1);
    M<T> p = mul(l, u);
    // each row of LU is one row of A, each used once
    std::vector<bool> used(a.r, false);
    double tol = 1e-11 * (1 + a.mx()) * (1 + a.r);
    for (std::size_t i = 0; i < a.r; ++i) {
        bool found = false;
        for (std::size_t q = 0; q < a.r && !found; ++q) {
            if (used[q]) continue;
            double e = 0;
            for (std::size_t j = 0; j < a.c; ++j) e = std::max(e, std::abs(p.a[i][j] - a.a[q][j]));
            if (e <= tol) used[q] = found = true;
        }
        if (!vf::expect(found, key, "row ", i, " of L*U is not a row of the matrix")) return;
    }
}

#endif
