// Independent model of the reference shapes (not taken from hpGEM's tables).
#ifndef VF_REFGEO_H
#define VF_REFGEO_H
#include "vf.h"
#include "Geometry/ReferenceGeometry.h"
#include "Geometry/ReferenceGeometryFactory.h"
#include "Geometry/ReferencePoint.h"
#include "Geometry/ReferenceLine.h"
#include "Geometry/ReferenceTriangle.h"
#include "Geometry/ReferenceSquare.h"
#include "Geometry/ReferenceTetrahedron.h"
#include "Geometry/ReferencePyramid.h"
#include "Geometry/ReferenceCube.h"
#include "Geometry/ReferenceTriangularPrism.h"
#include "Geometry/ReferenceHypercube.h"
#include "Geometry/ReferenceCurvilinearElement.h"

namespace vf {
using namespace hpgem;
using RT = Geometry::ReferenceGeometryType;

inline double fact(int n) {
    double r = 1;
    for (int i = 2; i <= n; ++i) r *= i;
    return r;
}
inline double line1(int a) { return a % 2 ? 0.0 : 2.0 / (a + 1); }

// exact integral of x^a y^b z^c w^d
inline double exactMonomial(RT t, const std::vector<int>& e) {
    switch (t) {
        case RT::POINT:
            return 1;
        case RT::LINE:
        case RT::SQUARE:
        case RT::CUBE:
        case RT::HYPERCUBE: {
            double r = 1;
            for (int a : e) r *= line1(a);
            return r;
        }
        case RT::TRIANGLE:
            return fact(e[0]) * fact(e[1]) / fact(e[0] + e[1] + 2);
        case RT::TETRAHEDRON:
            return fact(e[0]) * fact(e[1]) * fact(e[2]) /
                   fact(e[0] + e[1] + e[2] + 3);
        case RT::TRIANGULARPRISM:
            return fact(e[0]) * fact(e[1]) / fact(e[0] + e[1] + 2) *
                   line1(e[2]);
        case RT::PYRAMID: {
            // x,y in [-(1-z),1-z]
            int p = e[0] + e[1] + 2;
            return line1(e[0]) * line1(e[1]) * fact(e[2]) * fact(p) /
                   fact(e[2] + p + 1);
        }
    }
    return 0;
}
inline bool inside(RT t, const std::vector<double>& x, double tol) {
    double s = 0;
    switch (t) {
        case RT::POINT:
            return true;
        case RT::LINE:
        case RT::SQUARE:
        case RT::CUBE:
        case RT::HYPERCUBE:
            for (double v : x)
                if (std::abs(v) > 1 + tol) return false;
            return true;
        case RT::TRIANGLE:
        case RT::TETRAHEDRON:
            for (double v : x) {
                if (v < -tol) return false;
                s += v;
            }
            return s <= 1 + tol;
        case RT::TRIANGULARPRISM:
            return x[0] >= -tol && x[1] >= -tol && x[0] + x[1] <= 1 + tol &&
                   std::abs(x[2]) <= 1 + tol;
        case RT::PYRAMID:
            return x[2] >= -tol && x[2] <= 1 + tol &&
                   std::abs(x[0]) <= 1 - x[2] + tol &&
                   std::abs(x[1]) <= 1 - x[2] + tol;
    }
    return false;
}
inline std::size_t dimOf(RT t) {
    switch (t) {
        case RT::POINT:
            return 0;
        case RT::LINE:
            return 1;
        case RT::TRIANGLE:
        case RT::SQUARE:
            return 2;
        case RT::HYPERCUBE:
            return 4;
        default:
            return 3;
    }
}
inline const char* nameOf(RT t) {
    switch (t) {
        case RT::POINT:
            return "point";
        case RT::LINE:
            return "line";
        case RT::TRIANGLE:
            return "triangle";
        case RT::SQUARE:
            return "square";
        case RT::TETRAHEDRON:
            return "tetrahedron";
        case RT::PYRAMID:
            return "pyramid";
        case RT::CUBE:
            return "cube";
        case RT::TRIANGULARPRISM:
            return "prism";
        case RT::HYPERCUBE:
            return "hypercube";
    }
    return "?";
}
// random interior point; edge>0 pulls it towards the boundary
inline std::vector<double> randomPoint(RT t, Rng& r) {
    std::size_t d = dimOf(t);
    std::vector<double> x(d);
    for (;;) {
        for (auto& v : x) v = uni(r, -1, 1);
        if (t == RT::TRIANGLE || t == RT::TETRAHEDRON)
            for (auto& v : x) v = std::abs(v);
        if (t == RT::TRIANGULARPRISM)
            x[0] = std::abs(x[0]), x[1] = std::abs(x[1]);
        if (t == RT::PYRAMID) {
            x[2] = std::abs(x[2]) * 0.97;
            x[0] *= 1 - x[2];
            x[1] *= 1 - x[2];
        }
        if (inside(t, x, 0)) return x;
    }
}
template <std::size_t D>
Geometry::PointReference<D> toPoint(const std::vector<double>& x) {
    Geometry::PointReference<D> p;
    for (std::size_t i = 0; i < D; ++i) p[i] = x[i];
    return p;
}
struct Shape {
    Geometry::ReferenceGeometry* geo;
    RT type;
    bool curved;
    std::size_t order;
    std::string name;
};
// every reference shape hpGEM offers to a user (curved ones up to the order
// that is documented to be constructible by number of points)
inline std::vector<Shape> allShapes(bool withCurved, std::size_t maxCurved = 2) {
    auto& f = Geometry::ReferenceGeometryFactory::Instance();
    std::vector<Shape> s;
    auto add = [&](std::size_t d, std::size_t n, RT t, bool c, std::size_t o) {
        s.push_back({&f.getGeometry(d, n), t, c, o,
                     std::string(nameOf(t)) + (c ? "-o" + std::to_string(o) : "")});
    };
    add(0, 1, RT::POINT, false, 1);
    add(1, 2, RT::LINE, false, 1);
    add(2, 3, RT::TRIANGLE, false, 1);
    add(2, 4, RT::SQUARE, false, 1);
    add(3, 4, RT::TETRAHEDRON, false, 1);
    add(3, 5, RT::PYRAMID, false, 1);
    add(3, 6, RT::TRIANGULARPRISM, false, 1);
    add(3, 8, RT::CUBE, false, 1);
    add(4, 16, RT::HYPERCUBE, false, 1);
    if (withCurved) {
        for (std::size_t o = 2; o <= maxCurved; ++o) {
            add(1, o + 1, RT::LINE, true, o);
            add(2, (o + 1) * (o + 2) / 2, RT::TRIANGLE, true, o);
            add(3, (o + 1) * (o + 2) * (o + 3) / 6, RT::TETRAHEDRON, true, o);
        }
    }
    return s;
}
inline void forMonomials(std::size_t d, int maxDegree,
                         const std::function<void(const std::vector<int>&)>& f) {
    std::vector<int> e(d, 0);
    std::function<void(std::size_t, int)> rec = [&](std::size_t i, int left) {
        if (i == d) {
            f(e);
            return;
        }
        for (int k = 0; k <= left; ++k) {
            e[i] = k;
            rec(i + 1, left - k);
        }
        e[i] = 0;
    };
    rec(0, maxDegree);
}
inline double monomial(const std::vector<int>& e, const std::vector<double>& x) {
    double v = 1;
    for (std::size_t i = 0; i < e.size(); ++i)
        for (int k = 0; k < e[i]; ++k) v *= x[i];
    return v;
}
}  // namespace vf
#endif
