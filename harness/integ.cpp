// P12: integrals over elements and faces of the real mesh equal independent
// quadrature of the mesh model; measures add up; the divergence theorem holds.
#include "loadmesh.h"
#include "physgeo.h"
#include "Integration/ElementIntegral.h"
#include "Integration/FaceIntegral.h"
#include "Integration/ElementIntegrandBase.h"
#include "Integration/FaceIntegrandBase.h"
#include "Integration/QuadratureRules/AllGaussQuadratureRules.h"
#include "Integration/QuadratureRules/GaussQuadratureRule.h"
#include "Base/H1ConformingTransformation.h"
#include "Base/FaceMatrix.h"
using namespace vf;
using Rule = QuadratureRules::GaussQuadratureRule;
using Base::Side;

// polynomial of a given total degree in scaled coordinates
struct Poly {
    struct T {
        double c;
        int a[3];
    };
    std::vector<T> t;
    V3 o{0, 0, 0};
    double h = 1;
    double operator()(const V3& x) const {
        double s = 0;
        for (auto& m : t) {
            double v = m.c;
            for (int d = 0; d < 3; ++d)
                for (int k = 0; k < m.a[d]; ++k) v *= (x[d] - o[d]) / h;
            s += v;
        }
        return s;
    }
    double deriv(const V3& x, int dir) const {
        double s = 0;
        for (auto& m : t) {
            if (!m.a[dir]) continue;
            double v = m.c * m.a[dir] / h;
            for (int d = 0; d < 3; ++d)
                for (int k = 0; k < m.a[d] - (d == dir); ++k) v *= (x[d] - o[d]) / h;
            s += v;
        }
        return s;
    }
};
static Poly randomPoly(int dim, int degree, const V3& o, double h, Rng& r) {
    Poly p;
    p.o = o, p.h = h;
    for (int a = 0; a <= degree; ++a)
        for (int b = 0; b <= (dim > 1 ? degree - a : 0); ++b)
            for (int c = 0; c <= (dim > 2 ? degree - a - b : 0); ++c) p.t.push_back({uni(r, -1, 1), {a, b, c}});
    return p;
}

static int maxOrder(RT t) {
    switch (t) {
        case RT::POINT: return 99;
        case RT::PYRAMID:
        case RT::TRIANGULARPRISM: return 7;
        case RT::TETRAHEDRON: return 10;
        default: return 11;
    }
}

template <std::size_t D>
bool isAffine(const MMesh& m, int e) {
    auto& si = shapeInfo(m.el[e].shape);
    V3 c{0, 0, 0};
    for (auto& q : si.pts) c = add(c, q, 1. / si.corners);
    M3 J = jacobian<D>(m, e, c);
    V3 x0 = m.map(e, c);
    double size = 0, err = 0;
    std::vector<V3> probe = si.pts;
    for (auto& f : si.faces)
        for (std::size_t k = 0; k < f.size(); ++k) probe.push_back(scale(add(si.pts[f[k]], si.pts[f[(k + 1) % f.size()]]), 0.5));
    for (auto& q : probe) {
        V3 y = m.map(e, q), lin = add(x0, mul<D>(J, sub(q, c)), 1);
        size = std::max(size, len(sub(y, x0)));
        err = std::max(err, len(sub(y, lin)));
    }
    return err < 1e-8 * size;
}
// total degree of f(map) * Jacobian on the element, -1: not a polynomial
static int elementDegree(const MElement& e, bool affine, int p) {
    if (affine) return p;
    int D = shapeInfo(e.shape).dim;
    switch (e.shape) {
        case LINE:
        case TRI:
        case TET: return e.order * p + D * (e.order - 1);
        case QUAD: return 2 * p + 2;
        case PRISM: return 2 * p + 3;
        case HEX: return 3 * p + 6;
        default: return -1;
    }
}
static int fluxDegree(const MElement& e, bool affine, int corners, int p) {
    if (affine || corners == 1) return p;
    if (e.shape == PYR) return -1;
    if (corners == 2) return e.order * p + e.order - 1;
    if (corners == 3) return e.order * p + 2 * (e.order - 1);
    return 2 * p + 2;
}

template <std::size_t D>
struct Integrand : public Integration::ElementIntegrandBase<double, D>, public Integration::FaceIntegrandBase<double, D> {
    const Poly* f;
    const std::vector<Poly>* F;
    bool flux = false;
    void elementIntegrand(Base::PhysicalElement<D>& el, double& ret) override { ret = (*f)(toV3(el.getPointPhysical())); }
    void faceIntegrand(Base::PhysicalFace<D>& fa, double& ret) override {
        V3 x = toV3(fa.getPointPhysical());
        if (!flux) {
            ret = (*f)(x);
            return;
        }
        ret = 0;
        for (std::size_t d = 0; d < D; ++d) ret += (*F)[d](x) * fa.getUnitNormalVector()[d];
    }
};

template <std::size_t D>
Rule* pickRule(const Geometry::ReferenceGeometry* g, Rule* standard, int need, Rng& r) {
    if (below(r, 2) && (int)standard->order() >= need) {
        count("default-rule");
        return nullptr;
    }
    RT t = g->getGeometryType();
    if (t == RT::POINT) return nullptr;
    int hi = maxOrder(t);
    count("explicit-rule");
    return QuadratureRules::AllGaussQuadratureRules::instance().getRule(g, need + below(r, hi - need + 1));
}

template <std::size_t D>
void runCase(const MMesh& model, Rng& r) {
    std::size_t unknowns = 1 + below(r, 2);
    Loaded<D> L(model, unknowns, 1);
    if (!L.match()) return;
    auto sh = model.shapes();
    int order = below(r, sh.count(PYR) ? 2 : 3);
    if (order && below(r, 3) == 0) L.mesh->useDefaultConformingBasisFunctions(order);
    else L.mesh->useDefaultDGBasisFunctions(order);
    if (unknowns > 1) L.mesh->useDefaultDGBasisFunctions(order, 1);
    const MMesh& m = L.m;
    std::size_t N = L.el.size();
    std::vector<bool> affine(N);
    for (std::size_t e = 0; e < N; ++e) affine[e] = isAffine<D>(m, e);
    Integration::ElementIntegral<D> ei;
    Integration::FaceIntegral<D> fi;
    if (below(r, 2)) {
        auto t = std::make_shared<Base::H1ConformingTransformation<D>>();
        for (std::size_t u = 0; u < unknowns; ++u) ei.setTransformation(t, u), fi.setTransformation(t, u);
    }
    std::vector<Base::Face*> faces;
    for (Base::Face* f : L.mesh->getFacesList()) faces.push_back(f);

    // measures
    double sum = 0, own = 0;
    bool all = true;
    for (std::size_t e = 0; e < N; ++e) {
        int need = elementDegree(m.el[e], affine[e], 0);
        if (need < 0) {
            all = false;
            break;
        }
        Rule* q = pickRule<D>(L.el[e]->getReferenceGeometry(), L.el[e]->getGaussQuadratureRule(), need, r);
        double v = ei.integrate(L.el[e], [](Base::PhysicalElement<D>&) { return 1.; }, q);
        double w = 0;
        for (auto& p : ownRule(m.el[e].shape, 5)) w += p.w * std::abs(detOf<D>(jacobian<D>(m, e, p.x)));
        near(v, w, 1e-9 * (1 + w), str("integ:measure:", shapeInfo(m.el[e].shape).name), m.name);
        sum += v, own += w;
    }
    if (all) {
        count("domain-measures");
        near(sum, own, 1e-8 * own, "integ:domain-measure", m.name);
        if (!m.holes) near(sum, m.measure(), 1e-8 * own, "integ:domain-measure:exact", m.name);
    }
    // random calls on shared integral objects
    int steps = std::min<int>(3 * N + 10, st().thorough ? 200 : 45);
    for (int k = 0; k < steps; ++k) {
        int e = below(r, N);
        MShape s = m.el[e].shape;
        RT t = typeOf(s);
        auto* el = L.el[e];
        std::string key = str("integ:", shapeInfo(s).name, affine[e] ? ":affine" : ":curved");
        V3 centre{0, 0, 0};
        for (int c : m.el[e].corner) centre = add(centre, m.coord(e, c), 1. / m.el[e].corner.size());
        double h = 0;
        for (int c : m.el[e].corner) h = std::max(h, len(sub(m.coord(e, c), centre)));
        int pmax = -1;
        while (pmax < 6 && elementDegree(m.el[e], affine[e], pmax + 1) >= 0 && elementDegree(m.el[e], affine[e], pmax + 1) <= maxOrder(t)) ++pmax;
        // two shipped tetrahedron tables are rounded (P07 known finding)
        double tol = t == RT::TETRAHEDRON ? 3e-7 : 1e-8;
        double vol = 0;
        std::vector<std::pair<QPoint, double>> q;
        for (auto& p : ownRule(s, affine[e] ? 5 : 7)) {
            double d = std::abs(detOf<D>(jacobian<D>(m, e, p.x)));
            q.push_back({p, d});
            vol += p.w * d;
        }
        tol *= vol * 10;
        if (pmax >= 0) {
            int p = below(r, pmax + 1);
            Poly f = randomPoly(D, p, centre, h, r);
            double want = 0;
            for (auto& x : q) want += x.first.w * x.second * f(m.map(e, x.first.x));
            Rule* rule = pickRule<D>(el->getReferenceGeometry(), el->getGaussQuadratureRule(), elementDegree(m.el[e], affine[e], p), r);
            std::string info = str(m.name, " degree ", p, " rule ", rule ? rule->getName() : "default");
            switch (below(r, 4)) {
                case 0: {
                    double v = ei.integrate(el, [&](Base::PhysicalElement<D>& pe) { return f(toV3(pe.getPointPhysical())); }, rule);
                    near(v, want, tol, key + ":function", info);
                    double again = ei.integrate(el, [&](Base::PhysicalElement<D>& pe) { return f(toV3(pe.getPointPhysical())); }, rule);
                    near(again, v, 1e-13 * vol, key + ":repeat", info);
                    Integration::ElementIntegral<D> fresh;
                    near(fresh.integrate(el, [&](Base::PhysicalElement<D>& pe) { return f(toV3(pe.getPointPhysical())); }, rule), v, 1e-13 * vol, key + ":history", info);
                    break;
                }
                case 1: {
                    Integrand<D> I;
                    I.f = &f;
                    near(ei.integrate(el, (Integration::ElementIntegrandBase<double, D>*)&I, rule), want, tol, key + ":integrand", info);
                    break;
                }
                case 2: {
                    LinearAlgebra::SmallVector<D> v = ei.integrate(el, [&](Base::PhysicalElement<D>& pe) {
                        LinearAlgebra::SmallVector<D> x;
                        for (std::size_t d = 0; d < D; ++d) x[d] = (d + 1.) * f(toV3(pe.getPointPhysical()));
                        return x;
                    }, rule);
                    for (std::size_t d = 0; d < D; ++d) near(v[d], (d + 1) * want, 3 * tol, key + ":vector", info);
                    break;
                }
                default: {
                    LinearAlgebra::MiddleSizeMatrix v = ei.integrate(el, [&](Base::PhysicalElement<D>& pe) {
                        LinearAlgebra::MiddleSizeMatrix x(2, 3);
                        for (int a = 0; a < 6; ++a) x[a] = (a - 2.) * f(toV3(pe.getPointPhysical()));
                        return x;
                    }, rule);
                    if (expect(v.getNumberOfRows() == 2 && v.getNumberOfColumns() == 3, key + ":matrix-shape", info))
                        for (int a = 0; a < 6; ++a) near(std::real(v[a]), (a - 2) * want, 4 * tol, key + ":matrix", info);
                }
            }
            count("element-integrals");
            distinct(str(key, ":", p, rule ? rule->getName() : "default"));
        }
        {
            // a mass matrix, a load vector and an unscaled integral against
            // the plain weighted sum over the points of the rule
            Rule* rule = below(r, 2) ? el->getGaussQuadratureRule() : QuadratureRules::AllGaussQuadratureRules::instance().getRule(el->getReferenceGeometry(), below(r, maxOrder(t) + 1));
            bool scaleIt = below(r, 4) != 0;
            ei.setJacobianScaling(scaleIt);
            std::size_t n = el->getNumberOfBasisFunctions(0);
            Poly f = randomPoly(D, 2, centre, h, r);
            std::vector<double> want(n * n, 0.), load(n, 0.);
            double mag = 0;
            for (std::size_t i = 0; i < rule->getNumberOfPoints(); ++i) {
                Geometry::PointReference<D> p = rule->getPoint(i);
                double w = rule->weight(i) * (scaleIt ? std::abs(detOf<D>(jacobian<D>(m, e, toV3(p)))) : 1.);
                double fx = f(m.map(e, toV3(p)));
                mag += std::abs(w);
                for (std::size_t a = 0; a < n; ++a) {
                    load[a] += w * fx * el->basisFunction(a, p, 0);
                    for (std::size_t b = 0; b < n; ++b) want[a + n * b] += w * el->basisFunction(a, p, 0) * el->basisFunction(b, p, 0);
                }
            }
            double mt = (s == PYR ? 1e-5 : 1e-8) * mag;
            auto mass = ei.integrate(el, [&](Base::PhysicalElement<D>& pe) -> LinearAlgebra::MiddleSizeMatrix {
                LinearAlgebra::MiddleSizeMatrix x(n, n);
                for (std::size_t a = 0; a < n; ++a)
                    for (std::size_t b = 0; b < n; ++b) x(a, b) = pe.basisFunction(a, 0) * pe.basisFunction(b, 0);
                return x;
            }, below(r, 2) || rule != el->getGaussQuadratureRule() ? rule : nullptr);
            for (std::size_t a = 0; a < n * n; ++a) near(std::real(mass[a]), want[a], mt, key + ":mass", m.name, " scaling ", scaleIt);
            auto rhs = ei.integrate(el, [&](Base::PhysicalElement<D>& pe) -> LinearAlgebra::MiddleSizeVector {
                LinearAlgebra::MiddleSizeVector& x = pe.getResultVector();
                for (std::size_t a = 0; a < n; ++a) x[a] = pe.basisFunction(a, 0) * f(toV3(pe.getPointPhysical()));
                return x;
            }, rule);
            for (std::size_t a = 0; a < n; ++a) near(std::real(rhs[a]), load[a], 3 * mt, key + ":load", m.name, " scaling ", scaleIt);
            ei.setJacobianScaling(true);
            count("weighted-sums");
        }
        // the divergence theorem on this element
        {
            auto degree = [&](int p) {  // of everything involved
                int d = elementDegree(m.el[e], affine[e], std::max(0, p - 1));
                return d;
            };
            int p = -1;
            auto fine = [&](int c) {
                if (degree(c) < 0 || degree(c) > maxOrder(t)) return false;
                for (Base::Face* f : el->getFacesList()) {
                    int le = L.indexOf[f->getPtrElementLeft()];
                    RT ft = f->getReferenceGeometry()->getGeometryType();
                    int fd = fluxDegree(m.el[le], affine[le], f->getReferenceGeometry()->getNumberOfNodes(), c);
                    if (ft == RT::TRIANGLE || ft == RT::SQUARE || ft == RT::LINE || ft == RT::POINT) {
                        int nc = ft == RT::POINT ? 1 : ft == RT::LINE ? 2 : ft == RT::TRIANGLE ? 3 : 4;
                        fd = fluxDegree(m.el[le], affine[le], nc, c);
                    }
                    if (fd < 0 || fd > maxOrder(ft)) return false;
                }
                return true;
            };
            while (p < 4 && fine(p + 1)) ++p;
            if (p < 0) continue;
            p = below(r, p + 1);
            std::vector<Poly> F;
            for (std::size_t d = 0; d < D; ++d) F.push_back(randomPoly(D, p, centre, h, r));
            double div = ei.integrate(el, [&](Base::PhysicalElement<D>& pe) {
                V3 x = toV3(pe.getPointPhysical());
                double v = 0;
                for (std::size_t d = 0; d < D; ++d) v += F[d].deriv(x, d);
                return v;
            }, pickRule<D>(el->getReferenceGeometry(), el->getGaussQuadratureRule(), std::max(0, degree(p)), r));
            double flux = 0, area = 0;
            std::size_t nf = el->getReferenceGeometry()->getNumberOfCodim1Entities();
            bool periodic = false;
            for (std::size_t lf = 0; lf < nf; ++lf) {
                const Base::Face* f = el->getFace(lf);
                int le = L.indexOf[f->getPtrElementLeft()];
                bool left = f->getPtrElementLeft() == el && f->localFaceNumberLeft() == lf;
                RT ft = f->getReferenceGeometry()->getGeometryType();
                int nc = ft == RT::POINT ? 1 : ft == RT::LINE ? 2 : ft == RT::TRIANGLE ? 3 : 4;
                Rule* rule = pickRule<D>(f->getReferenceGeometry(), f->getGaussQuadratureRule(), fluxDegree(m.el[le], affine[le], nc, p), r);
                // the field seen from the left element across a periodic face
                // is the translated one
                V3 shift{0, 0, 0};
                if (!left) {
                    MShape ls = m.el[le].shape;
                    V3 a{0, 0, 0}, b{0, 0, 0}, nn;
                    std::size_t llf = f->localFaceNumberLeft();
                    for (int c : shapeInfo(ls).faces[llf]) a = add(a, m.coord(le, m.el[le].corner[c]), 1. / nc);
                    for (int c : shapeInfo(s).faces[lf]) b = add(b, m.coord(e, m.el[e].corner[c]), 1. / nc);
                    (void)nn;
                    shift = sub(b, a);
                    if (len(shift) > 1e-6 * h) periodic = true;
                    else shift = {0, 0, 0};
                }
                // own flux
                double ownFlux = 0, ownArea = 0;
                MShape fs = nc == 1 ? LINE : nc == 2 ? LINE : nc == 3 ? TRI : QUAD;
                std::vector<QPoint> pts = nc == 1 ? std::vector<QPoint>{{{0, 0, 0}, 1.}} : ownRule(fs, 7);
                for (auto& pt : pts) {
                    V3 x, nr;
                    facePoint(s, lf, pt.x, x, nr);
                    M3 J = jacobian<D>(m, e, x);
                    V3 nn = scale(mul<D>(inverse<D>(J), nr, true), std::abs(detOf<D>(J)));
                    V3 y = m.map(e, x);
                    for (std::size_t d = 0; d < D; ++d) ownFlux += pt.w * F[d](y) * nn[d];
                    ownArea += pt.w * len(nn);
                }
                double got;
                if (below(r, 2)) {
                    got = fi.integrate(f, [&](Base::PhysicalFace<D>& pf) {
                        V3 x = add(toV3(pf.getPointPhysical()), shift), nn = toV3(pf.getUnitNormalVector());
                        double v = 0;
                        for (std::size_t d = 0; d < D; ++d) v += F[d](x) * nn[d];
                        return v;
                    }, rule);
                } else {
                    auto pr = fi.integratePair(f, [&](Base::PhysicalFace<D>& pf) {
                        V3 x = add(toV3(pf.getPointPhysical()), shift), nn = toV3(pf.getUnitNormalVector());
                        LinearAlgebra::MiddleSizeVector v(1), w(2);
                        v[0] = 0.;
                        for (std::size_t d = 0; d < D; ++d) v[0] += F[d](x) * nn[d];
                        w[0] = 2. * v[0], w[1] = -v[0];
                        return std::make_pair(v, w);
                    }, rule);
                    got = std::real(pr.first[0]);
                    near(std::real(pr.second[0]), 2 * got, 1e-12 * ownArea, "integ:face:pair", m.name);
                    near(std::real(pr.second[1]), -got, 1e-12 * ownArea, "integ:face:pair", m.name);
                    count("pair-integrals");
                }
                if (!left) got = -got;
                near(got, ownFlux, 1e-7 * ownArea, str("integ:flux:", shapeInfo(s).name, left ? ":left" : ":right", f->isInternal() ? ":internal" : ":boundary"), m.name, " face ", lf, " degree ", p);
                flux += got;
                area += ownArea;
                count("face-integrals");
                if (affine[le]) {
                    Integrand<D> I;
                    Poly g = randomPoly(D, below(r, 5), centre, h, r);
                    I.f = &g;
                    int gd = 0;
                    for (auto& tt : g.t) gd = std::max(gd, tt.a[0] + tt.a[1] + tt.a[2]);
                    double w = 0;
                    for (auto& pt : pts) {
                        V3 x, nr;
                        facePoint(s, lf, pt.x, x, nr);
                        M3 J = jacobian<D>(m, e, x);
                        w += pt.w * len(mul<D>(inverse<D>(J), nr, true)) * std::abs(detOf<D>(J)) * g(sub(m.map(e, x), shift));
                    }
                    double v = fi.integrate(f, (Integration::FaceIntegrandBase<double, D>*)&I, pickRule<D>(f->getReferenceGeometry(), f->getGaussQuadratureRule(), gd, r));
                    near(v, w, 1e-7 * ownArea, str("integ:face:scalar:", nc), m.name);
                }
            }
            near(flux, div, 1e-6 * area, str("integ:divergence:", shapeInfo(s).name, affine[e] ? ":affine" : ":curved"), m.name, " degree ", p, periodic ? " periodic" : "");
            count("divergence-theorems");
        }
    }
    // face matrices against weighted sums of direct evaluations
    for (int k = 0; k < 20; ++k) {
        Base::Face* f = faces[below(r, faces.size())];
        int code = f->isInternal() ? f->getFaceToFaceMapIndex() : 0;
        if (f->getReferenceGeometry()->getGeometryType() == RT::SQUARE && (code == 1 || code == 3)) continue;
        int le = L.indexOf[f->getPtrElementLeft()];
        RT ft = f->getReferenceGeometry()->getGeometryType();
        Rule* rule = ft == RT::POINT || below(r, 2) ? f->getGaussQuadratureRule() : QuadratureRules::AllGaussQuadratureRules::instance().getRule(f->getReferenceGeometry(), below(r, 12));
        std::size_t n = f->getNumberOfBasisFunctions(0);
        std::vector<double> want(n * n, 0.);
        double mag = 0;
        for (std::size_t i = 0; i < rule->getNumberOfPoints(); ++i) {
            Geometry::PointReference<D - 1> p = rule->getPoint(i);
            V3 x = toV3(f->mapRefFaceToRefElemL(p)), px{0, 0, 0}, dummy, nr;
            for (std::size_t d = 0; d + 1 < D; ++d) px[d] = p[d];
            facePoint(m.el[le].shape, f->localFaceNumberLeft(), px, dummy, nr);
            M3 J = jacobian<D>(m, le, x);
            double w = rule->weight(i) * len(mul<D>(inverse<D>(J), nr, true)) * std::abs(detOf<D>(J));
            mag += std::abs(w);
            for (std::size_t a = 0; a < n; ++a)
                for (std::size_t b = 0; b < n; ++b) want[a + n * b] += w * f->basisFunction(a, p, 0) * f->basisFunction(b, p, 0);
        }
        auto got = fi.integrate(f, [&](Base::PhysicalFace<D>& pf) -> LinearAlgebra::MiddleSizeMatrix {
            LinearAlgebra::MiddleSizeMatrix x(n, n);
            for (std::size_t a = 0; a < n; ++a)
                for (std::size_t b = 0; b < n; ++b) x(a, b) = pf.basisFunction(a, 0) * pf.basisFunction(b, 0);
            return x;
        }, rule == f->getGaussQuadratureRule() && below(r, 2) ? nullptr : rule);
        double mt = (sh.count(PYR) ? 1e-5 : 1e-8) * mag;
        for (std::size_t a = 0; a < n * n; ++a) near(std::real(got[a]), want[a], mt, str("integ:face:mass:", nameOf(ft), f->isInternal() ? ":internal" : ":boundary"), m.name);
        count("face-matrices");
    }
}

int main(int argc, char** argv) {
    startHpgem(argc, argv);
    Rng r = rng("integ" + arg("salt"));
    int total = std::stoi(arg("cases", st().thorough ? "1500" : "130"));
    for (int k = 0; k < total; ++k) {
        int dim = k % 7 < 1 ? 1 : k % 7 < 3 ? 2 : 3;
        ZooOptions o = randomOptions(dim, r, 0);
        if (below(r, 4) == 0) o.perturb = 0;
        MMesh m = makeMesh(o, r);
        Rng rc(r());
        begin(str("integ case ", k, " ", m.name));
        guard("integ", [&]() {
            if (dim == 1) runCase<1>(m, rc);
            else if (dim == 2) runCase<2>(m, rc);
            else runCase<3>(m, rc);
        });
    }
    return finish();
}
