// Differential geometry of the mesh model, by differences and by hand.
#ifndef VF_PHYSGEO_H
#define VF_PHYSGEO_H
#include "loadmesh.h"

namespace vf {
using M3 = std::array<std::array<double, 3>, 3>;
// derivative of the model's map: 4th order differences
template <std::size_t D>
M3 jacobian(const MMesh& m, int e, const V3& x) {
    M3 j{};
    const double h = 2e-3;
    for (std::size_t c = 0; c < D; ++c) {
        V3 p[4];
        double s[4] = {-2, -1, 1, 2};
        for (int k = 0; k < 4; ++k) {
            V3 y = x;
            y[c] += s[k] * h;
            p[k] = m.map(e, y);
        }
        for (std::size_t r = 0; r < D; ++r) j[r][c] = (p[0][r] - 8 * p[1][r] + 8 * p[2][r] - p[3][r]) / (12 * h);
    }
    return j;
}
template <std::size_t D>
double detOf(const M3& j) {
    if (D == 1) return j[0][0];
    if (D == 2) return j[0][0] * j[1][1] - j[0][1] * j[1][0];
    return j[0][0] * (j[1][1] * j[2][2] - j[1][2] * j[2][1]) - j[0][1] * (j[1][0] * j[2][2] - j[1][2] * j[2][0]) + j[0][2] * (j[1][0] * j[2][1] - j[1][1] * j[2][0]);
}
template <std::size_t D>
M3 inverse(const M3& j) {
    M3 r{};
    double d = detOf<D>(j);
    if (D == 1) {
        r[0][0] = 1 / j[0][0];
    } else if (D == 2) {
        r[0][0] = j[1][1] / d, r[1][1] = j[0][0] / d, r[0][1] = -j[0][1] / d, r[1][0] = -j[1][0] / d;
    } else {
        for (int a = 0; a < 3; ++a)
            for (int b = 0; b < 3; ++b) {
                int a1 = (a + 1) % 3, a2 = (a + 2) % 3, b1 = (b + 1) % 3, b2 = (b + 2) % 3;
                r[b][a] = (j[a1][b1] * j[a2][b2] - j[a1][b2] * j[a2][b1]) / d;
            }
    }
    return r;
}
template <std::size_t D>
V3 mul(const M3& j, const V3& v, bool transpose = false) {
    V3 r{0, 0, 0};
    for (std::size_t a = 0; a < D; ++a)
        for (std::size_t b = 0; b < D; ++b) r[a] += (transpose ? j[b][a] : j[a][b]) * v[b];
    return r;
}
inline double len(const V3& v) { return std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); }
inline V3 scale(const V3& v, double s) { return {v[0] * s, v[1] * s, v[2] * s}; }
inline V3 cross(const V3& a, const V3& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
inline double dot(const V3& a, const V3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }


// Gauss-Legendre on [-1,1], computed here
inline const std::vector<std::pair<double, double>>& legendre(int n) {
    static std::map<int, std::vector<std::pair<double, double>>> cache;
    auto& r = cache[n];
    if (!r.empty()) return r;
    for (int i = 0; i < n; ++i) {
        double x = std::cos(M_PI * (i + 0.75) / (n + 0.5)), d = 1;
        for (int it = 0; it < 100; ++it) {
            double p0 = 1, p1 = x;
            for (int k = 2; k <= n; ++k) {
                double p = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k;
                p0 = p1, p1 = p;
            }
            d = n * (x * p1 - p0) / (x * x - 1);
            double dx = p1 / d;
            x -= dx;
            if (std::abs(dx) < 1e-16) break;
        }
        r.push_back({x, 2 / ((1 - x * x) * d * d)});
    }
    return r;
}
struct QPoint {
    V3 x;
    double w;
};
// exact for polynomials of degree 2n-3 or more on every shape
inline std::vector<QPoint> ownRule(MShape s, int n) {
    std::vector<QPoint> r;
    auto& g = legendre(n);
    int dim = shapeInfo(s).dim;
    for (auto& a : g) {
        if (dim == 1) {
            r.push_back({{a.first, 0, 0}, a.second});
            continue;
        }
        for (auto& b : g) {
            double u = (1 + a.first) / 2, v = (1 + b.first) / 2;
            if (s == QUAD) r.push_back({{a.first, b.first, 0}, a.second * b.second});
            else if (s == TRI) r.push_back({{u, v * (1 - u), 0}, a.second * b.second / 4 * (1 - u)});
            if (dim == 2) continue;
            for (auto& c : g) {
                double w = (1 + c.first) / 2, W = a.second * b.second * c.second;
                if (s == HEX) r.push_back({{a.first, b.first, c.first}, W});
                else if (s == PRISM) r.push_back({{u, v * (1 - u), c.first}, W / 4 * (1 - u)});
                else if (s == TET) r.push_back({{u, v * (1 - u), w * (1 - u) * (1 - v)}, W / 8 * (1 - u) * (1 - u) * (1 - v)});
                else r.push_back({{a.first * (1 - w), b.first * (1 - w), w}, W / 2 * (1 - w) * (1 - w)});
            }
        }
    }
    return r;
}
// reference position and outward reference normal (times surface ratio) of a
// point of a local face
inline void facePoint(MShape s, int lf, const V3& p, V3& x, V3& n) {
    auto& si = shapeInfo(s);
    auto& f = si.faces[lf];
    V3 c{0, 0, 0}, t1{0, 0, 0}, t2{0, 0, 0};
    for (auto& q : si.pts) c = add(c, q, 1. / si.corners);
    auto P = [&](int k) { return si.pts[f[k]]; };
    if (si.dim == 1) {
        x = P(0);
        n = {x[0] > 0 ? 1. : -1., 0, 0};
        return;
    }
    if (si.dim == 2) {
        x = add(scale(P(0), (1 - p[0]) / 2), P(1), (1 + p[0]) / 2);
        t1 = scale(sub(P(1), P(0)), 0.5);
        n = {t1[1], -t1[0], 0};
    } else {
        if (f.size() == 3) {
            x = add(add(scale(P(0), 1 - p[0] - p[1]), P(1), p[0]), P(2), p[1]);
            t1 = sub(P(1), P(0)), t2 = sub(P(2), P(0));
        } else {
            double w[4] = {(1 - p[0]) * (1 - p[1]) / 4, (1 + p[0]) * (1 - p[1]) / 4, (1 - p[0]) * (1 + p[1]) / 4, (1 + p[0]) * (1 + p[1]) / 4};
            x = {0, 0, 0};
            for (int k = 0; k < 4; ++k) x = add(x, P(k), w[k]);
            t1 = scale(sub(P(1), P(0)), 0.5), t2 = scale(sub(P(2), P(0)), 0.5);  // reference faces are parallelograms
        }
        n = cross(t1, t2);
    }
    if (dot(n, sub(x, c)) < 0) n = scale(n, -1);
}
}  // namespace vf
#endif
