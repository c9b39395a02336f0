// P11: what a physical element or face reports depends on the current
// selection only, and equals the transformed reference quantities.
#include "loadmesh.h"
#include "physgeo.h"
#include "userfn.h"
#include "Base/PhysicalElement.h"
#include "Base/PhysicalFace.h"
#include "Base/H1ConformingTransformation.h"
#include "Base/HCurlConformingTransformation.h"
#include "Base/HDivConformingTransformation.h"
#include "Base/CoordinateTransformation.h"
#include "Base/FaceMatrix.h"
#include "Integration/QuadratureRules/GaussQuadratureRule.h"
using namespace vf;
using Base::IteratorType;
using Base::Side;

// an application's own transformation
template <std::size_t D>
struct Identity : public Base::CoordinateTransformation<D> {
    using Data = Base::CoordinateTransformationData<D>;
    using V = LinearAlgebra::SmallVector<D>;
    double transform(double x, const Data&) const override { return x; }
    V transform(V x, const Data&) const override { return x; }
    V transformDeriv(V x, const Data&) const override { return x; }
    double transformDiv(double x, const Data&) const override { return x; }
    V transformCurl(V x, const Data&) const override { return x; }
};

enum Tr { H1, HCURL, HDIV, IDENT };
static const char* trName[] = {"h1", "hcurl", "hdiv", "identity"};
template <std::size_t D>
std::shared_ptr<Base::CoordinateTransformation<D>> makeTr(Tr t) {
    switch (t) {
        case H1: return std::make_shared<Base::H1ConformingTransformation<D>>();
        case HCURL: return std::make_shared<Base::HCurlConformingTransformation<D>>();
        case HDIV: return std::make_shared<Base::HDivConformingTransformation<D>>();
        default: return std::make_shared<Identity<D>>();
    }
}
template <std::size_t D>
struct World {
    Loaded<D>& L;
    std::size_t unknowns;
    bool vec0;                 // unknown 0 is vector valued
    bool div0 = false;         // and has a divergence
    bool plain = true;         // calls without unknown need bases of one size
    bool tight = true;         // no rational maps
    std::vector<std::vector<double>> coeff;
    double tol() const { return tight ? 1e-8 : 2e-5; }
};

// The reference quantities of one element at one point, transformed by hand.
template <std::size_t D>
struct Oracle {
    World<D>& w;
    int e;
    Geometry::PointReference<D> p;
    M3 J, I;
    double det;
    Oracle(World<D>& w_, int e_, const Geometry::PointReference<D>& p_) : w(w_), e(e_), p(p_) {
        J = jacobian<D>(w.L.m, e, toV3(p));
        I = inverse<D>(J);
        det = detOf<D>(J);
    }
    const Base::Element* el() { return w.L.el[e]; }
    std::size_t n(std::size_t u) { return el()->getNumberOfBasisFunctions(u); }
    double value(std::size_t i, std::size_t u) { return el()->basisFunction(i, p, u); }
    V3 grad(std::size_t i, std::size_t u, Tr t) {
        V3 g = toV3(el()->basisFunctionDeriv(i, p, u));
        return t == IDENT ? g : mul<D>(I, g, true);
    }
    V3 vec(std::size_t i, std::size_t u, Tr t) {
        LinearAlgebra::SmallVector<D> v;
        el()->basisFunction(i, p, v, u);
        V3 g = toV3(v);
        return t == IDENT ? g : t == HCURL ? mul<D>(I, g, true) : scale(mul<D>(J, g), 1 / det);
    }
    V3 curl(std::size_t i, std::size_t u, Tr t) {
        V3 g = toV3(el()->basisFunctionCurl(i, p, u));
        if (t == IDENT) return g;
        return D == 2 ? scale(g, 1 / det) : scale(mul<D>(J, g), 1 / det);
    }
    double div(std::size_t i, std::size_t u, Tr t) {
        double x = el()->basisFunctionDiv(i, p, u);
        return t == IDENT ? x : x / det;
    }
    double solution(std::size_t u) {
        double s = 0;
        for (std::size_t i = 0; i < n(u); ++i) s += w.coeff[e][el()->convertToSingleIndex(i, u)] * value(i, u);
        return s;
    }
    V3 solutionDeriv(std::size_t u, Tr t) {
        V3 s{0, 0, 0};
        for (std::size_t i = 0; i < n(u); ++i) s = add(s, grad(i, u, t), w.coeff[e][el()->convertToSingleIndex(i, u)]);
        return s;
    }
};

static bool nearV(const V3& a, const V3& b, double tol, const std::string& key, const std::string& d) {
    double err = len(sub(a, b));
    return expect(err <= tol * (1 + len(b)), key, "got ", a[0], ",", a[1], ",", a[2], " want ", b[0], ",", b[1], ",", b[2], " ", d);
}

// Selection and query history on a physical element.
template <std::size_t D>
void elementHistory(World<D>& w, Rng& r, int steps) {
    Base::PhysicalElement<D> pe;
    std::vector<Tr> tr(w.unknowns, H1);
    std::vector<std::size_t> many;
    bool own = w.vec0 || below(r, 2);
    for (std::size_t u = 0; u < w.unknowns; ++u)
        if (own) {
            tr[u] = u == 0 && w.vec0 ? HCURL : H1;
            pe.setTransformation(makeTr<D>(tr[u]), u);
        }
    int cur = below(r, w.L.el.size());
    pe.setElement(w.L.el[cur]);
    auto shape = [&](int e) { return w.L.el[e]->getReferenceGeometry()->getGeometryType(); };
    Geometry::PointReference<D> p;
    QuadratureRules::GaussQuadratureRule* rule = nullptr;
    std::size_t index = 0;
    auto newPoint = [&]() {
        if (below(r, 2)) {
            auto pv = randomPoint(shape(cur), r);
            for (std::size_t d = 0; d < D; ++d) p[d] = pv[d];
            if (shape(cur) == RT::PYRAMID && p[2] > 0.8) p[2] = 0.5, p[0] *= 0.4, p[1] *= 0.4;
            rule = nullptr;
            pe.setPointReference(p);
        } else {
            rule = w.L.el[cur]->getReferenceGeometry()->getGaussQuadratureRule(1 + below(r, shape(cur) == RT::PYRAMID ? 3 : 5));
            index = 0;
            pe.setQuadratureRule(rule);
            p = rule->getPoint(0);
        }
    };
    newPoint();
    std::string hist;
    for (int k = 0; k < steps; ++k) {
        switch (below(r, 12)) {
            case 0: {
                int next = below(r, w.L.el.size());
                bool same = shape(next) == shape(cur);
                cur = next;
                pe.setElement(w.L.el[cur]);
                hist = "setElement";
                if (!same || below(r, 2)) newPoint();
                break;
            }
            case 1: newPoint(), hist = "newPoint"; break;
            case 2:
                if (rule) {
                    index = below(r, rule->getNumberOfPoints());
                    pe.setQuadraturePointIndex(index);
                    p = rule->getPoint(index);
                    hist = "index";
                }
                break;
            case 3: {
                std::size_t u = below(r, w.unknowns);
                if (u > 0 && !own) break;
                Tr t = u == 0 && w.vec0 ? Tr(1 + below(r, 3)) : below(r, 2) ? H1 : IDENT;
                if (!own)
                    for (auto& x : tr) x = t;  // the others follow the first
                tr[u] = t;
                pe.setTransformation(makeTr<D>(t), u);
                hist = "transform";
                break;
            }
            default: break;
        }
        Oracle<D> o(w, cur, p);
        std::size_t u = below(r, w.unknowns), i = below(r, o.n(u));
        bool vec = u == 0 && w.vec0, plain = u == 0 && w.plain && below(r, 2);
        std::string ctx = str("phys:element:", D, "D:", nameOf(shape(cur)), rule ? ":rule" : ":point");
        std::string info = str(w.L.m.name, " after ", hist, " unknown ", u, " function ", i, " ", trName[tr[u]]);
        double sc = len({o.I[0][0], o.I[1][1], o.I[2][2]});
        double t9 = 1e-9 * (1 + sc);
        switch (below(r, 13)) {
            case 12:
                if (vec && w.div0 && tr[u] != HCURL) near(plain ? pe.basisFunctionDiv(i) : pe.basisFunctionDiv(i, u), o.div(i, u, tr[u]), w.tol() * (1 + std::abs(o.div(i, u, tr[u]))) * (1 + w.L.size), ctx + ":divergence", info), count("divergences");
                break;
            case 0:
            case 1:
                if (vec) {
                    if constexpr (D > 1) {
                        LinearAlgebra::SmallVector<D> v;
                        if (plain) pe.basisFunction(i, v);
                        else pe.basisFunction(i, v, u);
                        nearV(toV3(v), o.vec(i, u, tr[u]), w.tol(), ctx + ":vector", info);
                    }
                } else {
                    double v = plain ? pe.basisFunction(i) : pe.basisFunction(i, u);
                    near(v, o.value(i, u), t9, ctx + ":value", info);
                }
                break;
            case 2:
            case 3:
                if (vec) {
                    if (tr[u] == HDIV || D == 1) break;  // no curl promised
                    nearV(toV3(plain ? pe.basisFunctionCurl(i) : pe.basisFunctionCurl(i, u)), o.curl(i, u, tr[u]), w.tol(), ctx + ":curl", info);
                } else {
                    nearV(toV3(plain ? pe.basisFunctionDeriv(i) : pe.basisFunctionDeriv(i, u)), o.grad(i, u, tr[u]), w.tol(), ctx + ":gradient", info);
                }
                break;
            case 4:
                if (!w.vec0) {
                    auto& s = pe.getSolution();
                    if (expect(s.size() == w.unknowns, ctx + ":solution-size", info)) near(std::abs(s[u] - o.solution(u)), 0.0, 1e-8 * (1 + std::abs(o.solution(u))), ctx + ":solution", info, " want ", o.solution(u));
                }
                break;
            case 5:
                if (!w.vec0) {
                    auto& s = pe.getSolutionDeriv();
                    if (expect(s.size() == w.unknowns, ctx + ":solution-size", info)) nearV(toV3(s[u]), o.solutionDeriv(u, tr[u]), 10 * w.tol(), ctx + ":solution-gradient", info);
                }
                break;
            case 6: nearV(toV3(pe.getPointPhysical()), w.L.m.map(cur, toV3(p)), 1e-10 * (1 + w.L.size), ctx + ":physical-point", info); break;
            case 7: {
                auto& a = pe.getJacobian();
                auto& b = pe.getTransposeJacobian();
                auto& c = pe.getInverseTransposeJacobian();
                for (std::size_t x = 0; x < D; ++x)
                    for (std::size_t y = 0; y < D; ++y) {
                        near(a(x, y), o.J[x][y], w.tol() * (1 + w.L.size), ctx + ":jacobian", info);
                        near(b(x, y), o.J[y][x], w.tol() * (1 + w.L.size), ctx + ":transpose", info);
                        near(c(x, y), o.I[y][x], w.tol() * (1 + std::abs(o.I[y][x])) * (1 + sc), ctx + ":inverse-transpose", info);
                    }
                break;
            }
            case 8: near(pe.getJacobianDet(), o.det, w.tol() * (1 + std::abs(o.det)) * (1 + w.L.size), ctx + ":determinant", info); break;
            case 9: near(pe.getJacobianAbsDet(), std::abs(o.det), w.tol() * (1 + std::abs(o.det)) * (1 + w.L.size), ctx + ":abs-determinant", info); break;
            case 10: {
                nearV(toV3(pe.getPointReference()), toV3(p), 1e-13, ctx + ":reference-point", info);
                expect(pe.getElement() == w.L.el[cur], ctx + ":element", info);
                expect(pe.getNumberOfBasisFunctions(u) == o.n(u), ctx + ":size", info);
                break;
            }
            case 11: {
                // results are handed out zeroed, once per point
                auto q = p;
                rule = nullptr;
                pe.setPointReference(q);
                auto& a = pe.getResultMatrix();
                auto& b = pe.getResultVector();
                std::size_t n = w.L.el[cur]->getTotalNumberOfBasisFunctions();
                if (expect(a.getNumberOfRows() == n && a.getNumberOfColumns() == n && b.size() == n, ctx + ":result-size", info, " ", a.getNumberOfRows(), " ", n)) {
                    bool zero = true;
                    for (std::size_t x = 0; x < n; ++x)
                        for (std::size_t y = 0; y < n; ++y) zero &= a(x, y) == 0.0, a(x, y) = 7.5;
                    for (std::size_t x = 0; x < n; ++x) zero &= b[x] == 0.0, b[x] = -3;
                    expect(zero, ctx + ":result-not-cleared", info);
                }
                break;
            }
        }
        count("element-queries");
        distinct(str("element ", D, nameOf(shape(cur)), rule ? "r" : "p", hist, trName[tr[u]], vec, u));
    }
}

template <std::size_t D>
void faceHistory(World<D>& w, Rng& r, int steps, bool internal) {
    std::vector<Base::Face*> faces;
    for (Base::Face* f : w.L.mesh->getFacesList(IteratorType::GLOBAL)) {
        if (f->isInternal() != internal) continue;
        if (D == 3 && internal && f->getReferenceGeometry()->getGeometryType() == RT::SQUARE) {
            // faces whose two sides see different points are a finding of P01
            auto c = f->getFaceToFaceMapIndex();
            if (c == 1 || c == 3) continue;
        }
        faces.push_back(f);
    }
    if (faces.empty()) return;
    Base::PhysicalFace<D> pf(internal);
    std::vector<Tr> tr(w.unknowns, H1);
    bool own = w.vec0 || below(r, 2);
    for (std::size_t u = 0; u < w.unknowns; ++u)
        if (own) {
            tr[u] = u == 0 && w.vec0 ? HCURL : H1;
            pf.setTransform(makeTr<D>(tr[u]), u);
        }
    Base::Face* f = faces[below(r, faces.size())];
    pf.setFace(f);
    Geometry::PointReference<D - 1> p;
    QuadratureRules::GaussQuadratureRule* rule = nullptr;
    auto ft = [&](Base::Face* g) { return g->getReferenceGeometry()->getGeometryType(); };
    auto newPoint = [&]() {
        if (below(r, 2)) {
            if (D > 1) {
                auto pv = randomPoint(ft(f), r);
                for (std::size_t d = 0; d + 1 < D; ++d) p[d] = 0.1 * (ft(f) == RT::SQUARE || ft(f) == RT::LINE ? 0.0 : 1.0 / 3) + 0.9 * pv[d];
            }
            rule = nullptr;
            pf.setPointReference(p);
        } else {
            rule = f->getReferenceGeometry()->getGaussQuadratureRule(1 + below(r, 7));
            pf.setQuadratureRule(rule);
            p = rule->getPoint(0);
        }
    };
    newPoint();
    std::string hist;
    for (int k = 0; k < steps; ++k) {
        switch (below(r, 10)) {
            case 0: {
                Base::Face* g = faces[below(r, faces.size())];
                bool keep = ft(g) == ft(f) && !rule && below(r, 2);
                f = g;
                pf.setFace(f);
                hist = "setFace";
                if (!keep) newPoint();
                break;
            }
            case 1: newPoint(), hist = "newPoint"; break;
            case 2:
                if (rule) {
                    std::size_t index = below(r, rule->getNumberOfPoints());
                    pf.setQuadraturePointIndex(index);
                    p = rule->getPoint(index);
                    hist = "index";
                }
                break;
            case 3: {
                std::size_t u = below(r, w.unknowns);
                if (u > 0 && !own) break;
                Tr t = u == 0 && w.vec0 ? Tr(1 + below(r, 3)) : below(r, 2) ? H1 : IDENT;
                if (!own)
                    for (auto& x : tr) x = t;
                tr[u] = t;
                pf.setTransform(makeTr<D>(t), u);
                hist = "transform";
                break;
            }
            default: break;
        }
        int el = w.L.indexOf.at(f->getPtrElementLeft()), er = internal ? w.L.indexOf.at(f->getPtrElementRight()) : -1;
        Oracle<D> ol(w, el, f->mapRefFaceToRefElemL(p));
        Oracle<D> orr(w, internal ? er : el, internal ? f->mapRefFaceToRefElemR(p) : f->mapRefFaceToRefElemL(p));
        Side side = internal && below(r, 2) ? Side::RIGHT : Side::LEFT;
        Oracle<D>& o = side == Side::LEFT ? ol : orr;
        std::size_t u = below(r, w.unknowns), i = below(r, o.n(u)), flat = side == Side::LEFT ? i : i + ol.n(u);
        bool vec = u == 0 && w.vec0, useFlat = below(r, 2), plain = u == 0 && w.plain && below(r, 2);
        std::string ctx = str("phys:", internal ? "internal" : "boundary", "-face:", D, "D:", nameOf(ft(f)), ":", nameOf(w.L.el[o.e]->getReferenceGeometry()->getGeometryType()), rule ? ":rule" : ":point");
        std::string info = str(w.L.m.name, " after ", hist, " unknown ", u, " function ", i, side == Side::LEFT ? " left " : " right ", trName[tr[u]], " code ", internal ? (int)f->getFaceToFaceMapIndex() : -1);
        double sgn = side == Side::LEFT ? 1 : -1;
        // the normal by hand: tangents through the left element's map
        V3 n;
        if (D == 1) {
            n = {toV3(ol.p)[0] > 0 ? ol.J[0][0] > 0 ? 1. : -1. : ol.J[0][0] > 0 ? -1. : 1., 0, 0};
        } else {
            V3 t[2];
            const double h = 1e-2;
            for (std::size_t d = 0; d + 1 < D; ++d) {
                V3 q[4];
                double s[4] = {-2, -1, 1, 2};
                for (int a = 0; a < 4; ++a) {
                    auto y = p;
                    y[d] += s[a] * h;
                    // through the reference element, so that only the face map is shared
                    q[a] = w.L.m.map(el, toV3(f->mapRefFaceToRefElemL(y)));
                }
                for (int c = 0; c < 3; ++c) t[d][c] = (q[0][c] - 8 * q[1][c] + 8 * q[2][c] - q[3][c]) / (12 * h);
            }
            n = D == 2 ? V3{t[0][1], -t[0][0], 0} : cross(t[0], t[1]);
            // outward: stepping against it stays in the left element
            V3 back = mul<D>(ol.I, n);
            double m = 0;
            for (std::size_t d = 0; d < D; ++d) m = std::max(m, std::abs(back[d]));
            std::vector<double> y(D);
            for (std::size_t d = 0; d < D; ++d) y[d] = toV3(ol.p)[d] - 1e-5 * back[d] / m;
            if (!inside(w.L.el[el]->getReferenceGeometry()->getGeometryType(), y, 1e-9)) n = scale(n, -1);
        }
        double area = len(n), tolN = (w.tight ? 1e-9 : 1e-6) * (1 + w.L.size * w.L.size);
        V3 unit = scale(n, 1 / area);
        switch (below(r, 13)) {
            case 12:
                if (vec && w.div0 && tr[u] != HCURL) near(useFlat ? pf.basisFunctionDiv(flat, u) : pf.basisFunctionDiv(side, i, u), o.div(i, u, tr[u]), w.tol() * (1 + std::abs(o.div(i, u, tr[u]))) * (1 + w.L.size), ctx + ":divergence", info), count("face-divergences");
                break;
            case 0:
            case 1:
                if (vec) {
                    if constexpr (D > 1) {
                        LinearAlgebra::SmallVector<D> v;
                        if (plain && useFlat) pf.basisFunction(flat, v);
                        else if (plain) pf.basisFunction(side, i, v);
                        else if (useFlat) pf.basisFunction(flat, v, u);
                        else pf.basisFunction(side, i, v, u);
                        nearV(toV3(v), o.vec(i, u, tr[u]), w.tol(), ctx + ":vector", info);
                    }
                } else {
                    double v = plain ? (useFlat ? pf.basisFunction(flat) : pf.basisFunction(side, i)) : useFlat ? pf.basisFunction(flat, u) : pf.basisFunction(side, i, u);
                    near(v, o.value(i, u), 1e-9 * (1 + std::abs(v)), ctx + ":value", info);
                }
                break;
            case 2:
                if (vec) {
                    if (tr[u] == HDIV || D == 1) break;
                    nearV(toV3(useFlat ? pf.basisFunctionCurl(flat, u) : pf.basisFunctionCurl(side, i, u)), o.curl(i, u, tr[u]), w.tol(), ctx + ":curl", info);
                } else {
                    nearV(toV3(useFlat ? pf.basisFunctionDeriv(flat, u) : pf.basisFunctionDeriv(side, i, u)), o.grad(i, u, tr[u]), w.tol(), ctx + ":gradient", info);
                }
                break;
            case 3:
                if (!vec) {
                    V3 got = toV3(plain ? (useFlat ? pf.basisFunctionNormal(flat) : pf.basisFunctionNormal(side, i)) : useFlat ? pf.basisFunctionNormal(flat, u) : pf.basisFunctionNormal(side, i, u));
                    nearV(got, scale(n, sgn * o.value(i, u)), tolN, ctx + ":value-normal", info);
                } else if constexpr (D == 3) {
                    LinearAlgebra::SmallVector<D> v;
                    if (plain && useFlat) pf.basisFunctionNormalCross(flat, v);
                    else if (plain) pf.basisFunctionNormalCross(side, i, v);
                    else if (useFlat) pf.basisFunctionNormalCross(flat, v, u);
                    else pf.basisFunctionNormalCross(side, i, v, u);
                    nearV(toV3(v), scale(cross(n, o.vec(i, u, tr[u])), sgn), w.tol() * (1 + area), ctx + ":normal-cross", info);
                }
                break;
            case 4:
                if (!vec) {
                    V3 got = toV3(plain ? (useFlat ? pf.basisFunctionUnitNormal(flat) : pf.basisFunctionUnitNormal(side, i)) : useFlat ? pf.basisFunctionUnitNormal(flat, u) : pf.basisFunctionUnitNormal(side, i, u));
                    nearV(got, scale(unit, sgn * o.value(i, u)), tolN, ctx + ":value-unit-normal", info);
                } else if constexpr (D > 1) {
                    LinearAlgebra::SmallVector<D> v;
                    if (plain && useFlat) pf.basisFunctionUnitNormalCross(flat, v);
                    else if (plain) pf.basisFunctionUnitNormalCross(side, i, v);
                    else if (useFlat) pf.basisFunctionUnitNormalCross(flat, v, u);
                    else pf.basisFunctionUnitNormalCross(side, i, v, u);
                    V3 c = cross(unit, o.vec(i, u, tr[u]));
                    nearV(toV3(v), scale(D == 2 ? V3{c[2], 0, 0} : c, sgn), w.tol(), ctx + ":unit-normal-cross", info);
                }
                break;
            case 5:
                if (!w.vec0) {
                    auto& s = pf.getSolution(side);
                    if (expect(s.size() == w.unknowns, ctx + ":solution-size", info)) near(std::abs(s[u] - o.solution(u)), 0.0, 1e-8 * (1 + std::abs(o.solution(u))), ctx + ":solution", info);
                }
                break;
            case 6:
                if (!w.vec0) {
                    auto& s = pf.getSolutionDeriv(side);
                    if (expect(s.size() == w.unknowns, ctx + ":solution-size", info)) nearV(toV3(s[u]), o.solutionDeriv(u, tr[u]), 10 * w.tol(), ctx + ":solution-gradient", info);
                }
                break;
            case 7: {
                nearV(toV3(pf.getPointPhysical()), w.L.m.map(el, toV3(ol.p)), 1e-10 * (1 + w.L.size), ctx + ":physical-point", info);
                expect(pf.getFace() == f && pf.isInternal() == internal && pf.getID() == f->getID(), ctx + ":face", info);
                expect(pf.getNumberOfBasisFunctions(u) == ol.n(u) + (internal ? orr.n(u) : 0), ctx + ":size", info);
                expect(pf.getPhysicalElement(side).getElement() == w.L.el[o.e], ctx + ":side-element", info);
                if (internal) expect(pf.getPhysicalElementOpposite(side).getElement() == w.L.el[side == Side::LEFT ? er : el], ctx + ":opposite-element", info);
                break;
            }
            case 8: nearV(toV3(pf.getNormalVector()), n, tolN, ctx + ":normal", info); break;
            case 9: nearV(toV3(pf.getUnitNormalVector()), unit, tolN / std::min(1.0, area), ctx + ":unit-normal", info); break;
            case 10: near(pf.getRelativeSurfaceArea(), area, tolN, ctx + ":area", info); break;
            case 11: {
                auto q = p;
                rule = nullptr;
                pf.setPointReference(q);
                std::size_t nl = w.L.el[el]->getTotalNumberOfBasisFunctions(), nr = internal ? w.L.el[er]->getTotalNumberOfBasisFunctions() : 0;
                auto& b = pf.getResultVector();
                bool zero = true;
                if (expect(b.size() == nl + nr, ctx + ":result-vector-size", info, " ", b.size(), " ", nl + nr))
                    for (std::size_t x = 0; x < nl + nr; ++x) zero &= b[x] == 0.0, b[x] = -3;
                auto& fm = pf.getResultMatrix();
                auto clear = [&](LinearAlgebra::MiddleSizeMatrix& a, std::size_t rows, std::size_t cols) {
                    if (!expect(a.getNumberOfRows() == rows && a.getNumberOfColumns() == cols, ctx + ":result-matrix-size", info)) return;
                    for (std::size_t x = 0; x < rows; ++x)
                        for (std::size_t y = 0; y < cols; ++y) zero &= a(x, y) == 0.0, a(x, y) = 2;
                };
                for (Side a : {Side::LEFT, Side::RIGHT})
                    for (Side c : {Side::LEFT, Side::RIGHT}) {
                        if (!internal && (a == Side::RIGHT || c == Side::RIGHT)) continue;
                        std::size_t rows = a == Side::LEFT ? nl : nr, cols = c == Side::LEFT ? nl : nr;
                        auto part = fm.getElementMatrix(a, c);
                        if (expect(part.getNumberOfRows() == rows && part.getNumberOfColumns() == cols, ctx + ":face-matrix-size", info)) clear(part, rows, cols);
                        fm.setElementMatrix(part, a, c);
                        clear(pf.getResultMatrix(a, c), rows, cols);
                    }
                expect(zero, ctx + ":result-not-cleared", info);
                break;
            }
        }
        count(internal ? "internal-face-queries" : "boundary-face-queries");
        distinct(str("face ", D, internal, nameOf(ft(f)), nameOf(w.L.el[o.e]->getReferenceGeometry()->getGeometryType()), rule ? "r" : "p", hist, trName[tr[u]], vec, u, side == Side::LEFT));
    }
}

template <std::size_t D>
struct FakeData : public Base::CoordinateTransformationData<D> {
    Geometry::Jacobian<D, D> j, t;
    double d;
    const Geometry::Jacobian<D, D>& getJacobian() const final { return j; }
    const Geometry::Jacobian<D, D>& getTransposeJacobian() const final { return t; }
    double getJacobianDet() const final { return d; }
};
template <std::size_t D>
void transformations(Rng& r) {
    FakeData<D> f;
    M3 J{};
    do {
        for (std::size_t a = 0; a < D; ++a)
            for (std::size_t b = 0; b < D; ++b) J[a][b] = uni(r, -2, 2);
    } while (std::abs(detOf<D>(J)) < 0.3);
    M3 I = inverse<D>(J);
    f.d = detOf<D>(J);
    for (std::size_t a = 0; a < D; ++a)
        for (std::size_t b = 0; b < D; ++b) f.j(a, b) = J[a][b], f.t(b, a) = J[a][b];
    V3 v{0, 0, 0};
    LinearAlgebra::SmallVector<D> s;
    for (std::size_t a = 0; a < D; ++a) s[a] = v[a] = uni(r, -3, 3);
    double x = uni(r, -3, 3);
    std::string k = str("phys:transformation:", D, "D");
    near(makeTr<D>(H1)->transform(x, f), x, 0, k + ":h1-value");
    nearV(toV3(makeTr<D>(H1)->transformDeriv(s, f)), mul<D>(I, v, true), 1e-10, k + ":h1-gradient", "");
    if (D > 1) {
        nearV(toV3(makeTr<D>(HCURL)->transform(s, f)), mul<D>(I, v, true), 1e-10, k + ":hcurl-vector", "");
        nearV(toV3(makeTr<D>(HDIV)->transform(s, f)), scale(mul<D>(J, v), 1 / f.d), 1e-10, k + ":hdiv-vector", "");
        near(makeTr<D>(HDIV)->transformDiv(x, f), x / f.d, 1e-10, k + ":hdiv-divergence");
        nearV(toV3(makeTr<D>(HCURL)->transformCurl(s, f)), D == 2 ? scale(v, 1 / f.d) : scale(mul<D>(J, v), 1 / f.d), 1e-10, k + ":hcurl-curl", "");
    }
}

template <std::size_t D>
void runCase(const MMesh& model, Rng& r) {
    std::size_t unknowns = 1 + below(r, 3);
    Loaded<D> L(model, unknowns, 1);
    if (!L.match()) return;
    World<D> w{L, unknowns, false};
    auto sh = model.shapes();
    bool simplex = sh.size() == 1 && (sh.count(TRI) || sh.count(TET));
    w.tight = !sh.count(PYR);
    int top = sh.count(PYR) ? 1 : 2;
    bool own = D > 1 && below(r, 3) == 0;
    if (own) {
        // a set per node, for all unknowns; those but the first are replaced
        if constexpr (D > 1) {
            L.mesh->clearBasisFunctionAssignment();
            std::vector<const FE::BasisFunctionSet*> sets;
            std::size_t per = 1 + below(r, 2);
            for (int k = 0; k < 8; ++k) {
                auto* s = new FE::BasisFunctionSet(2);
                for (std::size_t j = 0; j < per; ++j) s->addBasisFunction(new Quadratic<D>(r));
                sets.push_back(s);
            }
            L.mesh->addVertexBasisFunctionSet(sets);
            w.vec0 = w.div0 = true;
        }
    } else if (simplex && below(r, 2)) {
        w.vec0 = true;
        if (D == 3 && below(r, 2)) L.mesh->useAinsworthCoyleDGBasisFunctions(1 + below(r, 2));
        else L.mesh->useNedelecDGBasisFunctions(1 + below(r, 2));
    } else if (below(r, 3) == 0) {
        L.mesh->useDefaultConformingBasisFunctions(1 + below(r, top));
    } else {
        L.mesh->useDefaultDGBasisFunctions(below(r, 1 + top));
    }
    for (std::size_t u = 1; u < unknowns; ++u)
        if (below(r, 2)) L.mesh->useDefaultDGBasisFunctions(below(r, 1 + top), u);
        else L.mesh->useDefaultConformingBasisFunctions(1 + below(r, top), u);
    w.coeff.resize(L.el.size());
    for (std::size_t e = 0; e < L.el.size(); ++e) {
        std::size_t n = L.el[e]->getTotalNumberOfBasisFunctions();
        LinearAlgebra::MiddleSizeVector v(n);
        w.coeff[e].resize(n);
        for (std::size_t i = 0; i < n; ++i) v[i] = w.coeff[e][i] = uni(r, -1, 1);
        for (std::size_t u = 1; u < unknowns; ++u) w.plain &= L.el[e]->getNumberOfBasisFunctions(u) == L.el[e]->getNumberOfBasisFunctions(0);
        L.el[e]->setNumberOfTimeIntegrationVectors(1);
        L.el[e]->setTimeIntegrationVector(0, v);
    }
    elementHistory<D>(w, r, 150);
    faceHistory<D>(w, r, 250, true);
    faceHistory<D>(w, r, 80, false);
}

int main(int argc, char** argv) {
    startHpgem(argc, argv);
    Rng r = rng("phys");
    for (int k = 0; k < 200; ++k) {
        begin(str("transformations ", k));
        guard("phys:transformation", [&]() {
            transformations<1>(r);
            transformations<2>(r);
            transformations<3>(r);
        });
    }
    int total = std::stoi(arg("cases", st().thorough ? "4000" : "400"));
    for (int k = 0; k < total; ++k) {
        int dim = k % 7 < 1 ? 1 : k % 7 < 3 ? 2 : 3;
        ZooOptions o = randomOptions(dim, r, 0);
        MMesh m = makeMesh(o, r);
        Rng rc(r());
        begin(str("phys case ", k, " ", m.name));
        guard("phys", [&]() {
            if (dim == 1) runCase<1>(m, rc);
            else if (dim == 2) runCase<2>(m, rc);
            else runCase<3>(m, rc);
        });
    }
    return finish();
}
