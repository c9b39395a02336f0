// P10: reference shapes, the mappings between them and to physical elements.
#include "physgeo.h"
#include "Base/MeshMoverBase.h"
#include "Geometry/ElementGeometry.h"
#include "Geometry/ReferenceCurvilinearLine.h"
#include "Geometry/ReferenceCurvilinearTriangle.h"
#include "Geometry/ReferenceCurvilinearTetrahedron.h"
#include "Geometry/Mappings/ConcatenatedMapping.h"
using namespace vf;
using RG = Geometry::ReferenceGeometry;
using Pt = std::vector<double>;

template <std::size_t D>
Pt coords(const Geometry::PointReference<D>& p) {
    Pt r(D);
    for (std::size_t i = 0; i < D; ++i) r[i] = p[i];
    return r;
}
template <std::size_t D>
Geometry::PointReference<D> pointOf(const Pt& p) {
    Geometry::PointReference<D> r;
    for (std::size_t i = 0; i < D; ++i) r[i] = p[i];
    return r;
}
template <std::size_t D>
Pt nodeOf(const RG& g, std::size_t i) {
    const Geometry::PointReference<D>& p = g.getReferenceNodeCoordinate(i);
    return coords<D>(p);
}
static double dist(const Pt& a, const Pt& b) {
    double s = 0;
    for (std::size_t i = 0; i < a.size(); ++i) s = std::max(s, std::abs(a[i] - b[i]));
    return s;
}
static std::string show(const Pt& p) {
    std::string s = "(";
    for (double x : p) s += str(x, " ");
    return s + ")";
}
// corners, written down independently
static std::vector<Pt> cornersOf(RT t) {
    std::vector<Pt> r;
    if (t == RT::POINT) return {{}};
    if (t == RT::HYPERCUBE) {
        for (int k = 0; k < 16; ++k) r.push_back({k & 1 ? 1. : -1., k & 2 ? 1. : -1., k & 4 ? 1. : -1., k & 8 ? 1. : -1.});
        return r;
    }
    for (int s = 0; s < 7; ++s)
        if (typeOf(MShape(s)) == t) {
            auto& si = shapeInfo(MShape(s));
            for (auto& p : si.pts) r.push_back(Pt(p.begin(), p.begin() + si.dim));
        }
    return r;
}
using CornerSet = std::set<std::size_t>;
static std::set<CornerSet> facesOf(RT t) {
    std::set<CornerSet> r;
    if (t == RT::HYPERCUBE) {
        for (int d = 0; d < 4; ++d)
            for (int v = 0; v < 2; ++v) {
                CornerSet s;
                for (int k = 0; k < 16; ++k)
                    if (((k >> d) & 1) == v) s.insert(k);
                r.insert(s);
            }
        return r;
    }
    for (int s = 0; s < 7; ++s)
        if (typeOf(MShape(s)) == t)
            for (auto& f : shapeInfo(MShape(s)).faces) r.insert(CornerSet(f.begin(), f.end()));
    return r;
}
static std::set<CornerSet> edgesOf(RT t) {
    std::set<CornerSet> r;
    for (int s = 0; s < 7; ++s)
        if (typeOf(MShape(s)) == t)
            for (auto& f : shapeInfo(MShape(s)).edges) r.insert(CornerSet(f.begin(), f.end()));
    return r;
}
static double measureOf(RT t) { return t == RT::POINT ? 1 : exactMonomial(t, std::vector<int>(dimOf(t), 0)); }
static std::vector<double> random4(RT t, Rng& r) {
    if (t == RT::HYPERCUBE) return {uni(r, -1, 1), uni(r, -1, 1), uni(r, -1, 1), uni(r, -1, 1)};
    if (t == RT::POINT) return {};
    auto p = randomPoint(t, r);
    return Pt(p.begin(), p.end());
}

// derivative of a reference map against differences
template <std::size_t D, int C, typename Map>
void checkMapDerivative(const Map& map, RT t, Rng& r, const std::string& key) {
    if constexpr (D > 0) {
        for (int k = 0; k < 4; ++k) {
            Pt x = random4(t, r);
            x.resize(D);
            auto j = map.calcJacobian(pointOf<D>(x));
            for (std::size_t c = 0; c < D; ++c) {
                Pt a = x, b = x;
                a[c] += 1e-4, b[c] -= 1e-4;
                Pt fa = coords<D + C>(map.transform(pointOf<D>(a))), fb = coords<D + C>(map.transform(pointOf<D>(b)));
                for (std::size_t i = 0; i < D + C; ++i) near(j(i, c), (fa[i] - fb[i]) / 2e-4, 1e-8, key + ":jacobian", "entry ", i, ",", c, " at ", show(x));
            }
        }
    }
}

template <std::size_t D>
void checkFaces(const RG& g, const std::string& name, bool curved, Rng& r) {
    RT t = g.getGeometryType();
    auto corner = cornersOf(t);
    auto cornerIndex = [&](const Pt& p) -> long {
        for (std::size_t i = 0; i < corner.size(); ++i)
            if (dist(corner[i], p) < 1e-12) return i;
        return -1;
    };
    if constexpr (D > 0) {
        Pt centre(D, 0.);
        for (auto& c : corner)
            for (std::size_t d = 0; d < D; ++d) centre[d] += c[d] / corner.size();
        auto want = facesOf(t);
        std::set<CornerSet> seen;
        expect(g.getNumberOfCodim1Entities() == want.size(), "geom:" + name + ":face-count", g.getNumberOfCodim1Entities());
        for (std::size_t f = 0; f < g.getNumberOfCodim1Entities(); ++f) {
            std::string key = str("geom:", name, ":face", f);
            const RG* s = g.getCodim1ReferenceGeometry(f);
            auto idx = g.getCodim1EntityLocalIndices(f);
            const auto* map = g.getCodim1MappingPtr(f);
            if (!expect(idx.size() == s->getNumberOfNodes(), key + ":nodes", idx.size())) continue;
            CornerSet cs;
            for (std::size_t k = 0; k < idx.size(); ++k) {
                Pt mapped = coords<D>(map->transform(pointOf<D - 1>(nodeOf<D - 1>(*s, k))));
                if (!expect(idx[k] < g.getNumberOfNodes(), key + ":index", idx[k])) continue;
                Pt own = nodeOf<D>(g, idx[k]);
                expect(dist(mapped, own) < 1e-12, key + ":corner-to-corner", "node ", k, " mapped to ", show(mapped), " but is ", show(own));
                expect(g.getLocalNodeIndexFromFaceAndIndexOnFace(f, k) == idx[k], key + ":index-on-face");
                long c = cornerIndex(own);
                if (c >= 0) cs.insert(c);
            }
            expect(want.count(cs), key + ":is-a-face", "not the corners of a face of the shape");
            expect(seen.insert(cs).second, key + ":twice", "");
            checkMapDerivative<D - 1, 1>(*map, s->getGeometryType(), r, key);
            expect(map->getTargetDimension() == D, key + ":target-dimension", map->getTargetDimension());
            if constexpr (D > 1) {
                Pt x = random4(s->getGeometryType(), r);
                Pt p = coords<D>(map->transform(pointOf<D - 1>(x)));
                auto j = map->calcJacobian(pointOf<D - 1>(x));
                auto n = j.computeWedgeStuffVector();
                double out = 0;
                for (std::size_t d = 0; d < D; ++d) out += n[d] * (p[d] - centre[d]);
                expect(out * map->outwardNormalSign() > 1e-6, key + ":outward-sign", out);
            }
            distinct(key);
        }
    }
    if constexpr (D == 3) {
        auto want = edgesOf(t);
        std::set<CornerSet> seen;
        expect(g.getNumberOfCodim2Entities() == want.size(), "geom:" + name + ":edge-count", g.getNumberOfCodim2Entities());
        for (std::size_t f = 0; f < g.getNumberOfCodim2Entities(); ++f) {
            std::string key = str("geom:", name, ":edge", f);
            auto idx = g.getCodim2EntityLocalIndices(f);
            const RG* s = g.getCodim2ReferenceGeometry(f);
            expect(s->getGeometryType() == RT::LINE, key + ":type");
            if (!expect(idx.size() == s->getNumberOfNodes(), key + ":nodes", idx.size())) continue;
            CornerSet cs;
            for (std::size_t k : idx) {
                long c = cornerIndex(nodeOf<D>(g, k));
                if (c >= 0) cs.insert(c);
            }
            expect(want.count(cs), key + ":is-an-edge", "");
            expect(seen.insert(cs).second, key + ":twice", "");
            if (t == RT::TETRAHEDRON) {
                auto* map = g.getCodim2MappingPtr(f);
                for (std::size_t k = 0; k < idx.size(); ++k) {
                    Pt mapped = coords<3>(map->transform(pointOf<1>(nodeOf<1>(*s, k))));
                    expect(dist(mapped, nodeOf<3>(g, idx[k])) < 1e-12, key + ":corner-to-corner", show(mapped));
                }
                checkMapDerivative<1, 2>(*map, RT::LINE, r, key);
            }
            distinct(key);
        }
        expect(g.getNumberOfCodim3Entities() == corner.size(), "geom:" + name + ":corner-count");
        for (std::size_t f = 0; f < g.getNumberOfCodim3Entities(); ++f) {
            auto idx = g.getCodim3EntityLocalIndices(f);
            if (expect(idx.size() == 1, "geom:" + name + ":corner-entity")) {
                Pt p = nodeOf<D>(g, idx[0]);
                expect(cornerIndex(p) >= 0, "geom:" + name + ":corner-entity:place", show(p));
            }
        }
    }
    if constexpr (D == 2) {
        expect(g.getNumberOfCodim2Entities() == corner.size(), "geom:" + name + ":corner-count");
        std::set<long> all;
        for (std::size_t f = 0; f < g.getNumberOfCodim2Entities(); ++f) {
            auto idx = g.getCodim2EntityLocalIndices(f);
            if (expect(idx.size() == 1, "geom:" + name + ":corner-entity")) all.insert(cornerIndex(nodeOf<D>(g, idx[0])));
            expect(g.getCodim2ReferenceGeometry(f)->getGeometryType() == RT::POINT, "geom:" + name + ":corner-type");
        }
        expect(all.size() == corner.size() && !all.count(-1), "geom:" + name + ":corner-entity:place");
    }
}

template <std::size_t D>
void checkShape(const RG& g, const std::string& name, int order, Rng& r) {
    RT t = g.getGeometryType();
    auto corner = cornersOf(t);
    std::string key = "geom:" + name;
    expect(g.getDimension() == D, key + ":dimension");
    near(g.measure(), measureOf(t), 1e-12, key + ":measure");
    if (order == 1) {
        if (expect(g.getNumberOfNodes() == corner.size(), key + ":node-count", g.getNumberOfNodes()))
            for (std::size_t i = 0; i < corner.size(); ++i) {
                expect(dist(nodeOf<D>(g, i), corner[i]) < 1e-13, key + ":node", i, show(nodeOf<D>(g, i)));
                expect(g.getTopologicalLocalIndex(i) == (long long)i, key + ":topological");
            }
    } else {
        auto lat = simplexLattice(D, order);
        if (expect(g.getNumberOfNodes() == lat.size(), key + ":node-count", g.getNumberOfNodes())) {
            std::set<long long> topo;
            for (std::size_t i = 0; i < lat.size(); ++i) {
                Pt p(D);
                for (std::size_t d = 0; d < D; ++d) p[d] = t == RT::LINE ? -1 + 2. * lat[i][d] / order : double(lat[i][d]) / order;
                expect(dist(nodeOf<D>(g, i), p) < 1e-13, key + ":node", i, show(nodeOf<D>(g, i)), " want ", show(p));
                long long ti = g.getTopologicalLocalIndex(i);
                bool isCorner = false;
                for (std::size_t c = 0; c < corner.size(); ++c)
                    if (dist(corner[c], p) < 1e-12) {
                        isCorner = true;
                        expect(ti == (long long)c, key + ":topological", i, " is ", ti, " want ", c);
                    }
                if (!isCorner) expect(ti == -1, key + ":topological", i, " is ", ti);
            }
        }
    }
    // centre of mass
    const Geometry::PointReference<D>& c = g.getCenter();
    for (std::size_t d = 0; d < D; ++d) {
        std::vector<int> e(4, 0);
        e[d] = 1;
        e.resize(std::max<std::size_t>(D, 1));
        near(c[d], exactMonomial(t, e) / measureOf(t), 1e-12, key + ":centre", "direction ", d);
    }
    // inside
    if constexpr (D > 0)
        for (int k = 0; k < 400; ++k) {
            Pt p(D);
            if (k % 2) {
                for (auto& x : p) x = uni(r, -1.4, 1.4);
            } else {
                p = random4(t, r);
                p.resize(D);
            }
            bool in = inside(t, p, -1e-9), out = !inside(t, p, 1e-9);
            if (!in && !out) continue;
            expect(g.isInternalPoint(pointOf<D>(p)) == in, key + ":inside", show(p));
        }
    checkFaces<D>(g, name, order > 1, r);
}

// maps of a shape to itself
template <std::size_t D>
void checkSymmetries(const RG& g, const std::string& name, const std::vector<std::vector<int>>& perms, Rng& r) {
    auto corner = cornersOf(g.getGeometryType());
    for (auto& p : perms)
        for (int rep = 0; rep < 3; ++rep) {
            // v1: the physical nodes of the first configuration
            std::vector<std::size_t> v1(p.size()), v2(p.size());
            std::set<std::size_t> used;
            for (auto& x : v1)
                do x = rep == 0 ? used.size() : below(r, 100000);
                while (!used.insert(x).second);
            for (std::size_t i = 0; i < p.size(); ++i) v2[p[i]] = v1[i];
            std::string ps;
            for (int x : p) ps += str(x);
            std::string key = str("geom:", name, ":symmetry:", ps);
            std::size_t index = g.getCodim0MappingIndex(v1, v2);
            auto* map = g.getCodim0MappingPtr(index);
            expect(map == g.getCodim0MappingPtr(v1, v2), key + ":pointer");
            for (std::size_t i = 0; i < p.size(); ++i) {
                Pt y = coords<D>(map->transform(pointOf<D>(corner[i])));
                expect(dist(y, corner[p[i]]) < 1e-12, key + ":corner-to-corner", "corner ", i, " goes to ", show(y), " want ", show(corner[p[i]]));
            }
            checkMapDerivative<D, 0>(*map, g.getGeometryType(), r, key);
            distinct(key);
            count("symmetries");
        }
}

// composition of a face-to-face map and a face-to-element map
template <std::size_t D>
void checkComposition(const RG& g, Rng& r) {
    for (std::size_t f = 0; f < g.getNumberOfCodim1Entities(); ++f) {
        const RG* s = g.getCodim1ReferenceGeometry(f);
        std::size_t n = s->getGeometryType() == RT::LINE ? 2 : s->getGeometryType() == RT::TRIANGLE ? 6 : s->getGeometryType() == RT::SQUARE || s->getGeometryType() == RT::CUBE ? 8 : 1;
        for (std::size_t i = 0; i < n; ++i) {
            auto *m1 = s->getCodim0MappingPtr(i);
            auto *m2 = g.getCodim1MappingPtr(f);
            Geometry::ConcatenatedMapping m(*m1, *m2);
            std::string key = str("geom:composition:", D);
            Pt x = random4(s->getGeometryType(), r);
            x.resize(D - 1);
            expect(dist(coords<D>(m.transform(pointOf<D - 1>(x))), coords<D>(m2->transform(m1->transform(pointOf<D - 1>(x))))) < 1e-14, key + ":transform");
            checkMapDerivative<D - 1, 1>(m, s->getGeometryType(), r, key);
            expect(m.getTargetDimension() == D, key + ":dimension");
        }
    }
}

// ---------------------------------------------------------------- physical
template <std::size_t D>
struct PhysCase {
    RT t;
    int order;
    std::vector<Pt> node;
    std::string name;
    Pt map(const Pt& x) const {
        std::vector<double> w;
        if (t == RT::HYPERCUBE) {
            for (int k = 0; k < 16; ++k) {
                double v = 1;
                for (int d = 0; d < 4; ++d) v *= (k >> d) & 1 ? (1 + x[d]) / 2 : (1 - x[d]) / 2;
                w.push_back(v);
            }
        } else {
            MShape s = LINE;
            for (int k = 0; k < 7; ++k)
                if (typeOf(MShape(k)) == t) s = MShape(k);
            V3 y{0, 0, 0};
            for (std::size_t d = 0; d < std::min<std::size_t>(3, D); ++d) y[d] = x[d];
            w = order > 1 ? lagrangeWeights(s, order, y) : cornerWeights(s, y);
        }
        Pt r(D, 0.);
        for (std::size_t i = 0; i < w.size(); ++i)
            for (std::size_t d = 0; d < D; ++d) r[d] += w[i] * node[i][d];
        return r;
    }
};

template <std::size_t D>
void checkPhysical(RT t, int order, Rng& r) {
    PhysCase<D> c;
    c.t = t, c.order = order;
    std::vector<Pt> ref;
    if (order > 1) {
        for (auto& k : simplexLattice(D, order)) {
            Pt p(D);
            for (std::size_t d = 0; d < D; ++d) p[d] = double(k[d]) / order;
            ref.push_back(p);
        }
    } else {
        ref = cornersOf(t);
    }
    const RG& g = Geometry::ReferenceGeometryFactory::Instance().getGeometry(D, ref.size());
    std::string key = str("geom:physical:", g.getName(), order > 1 ? str(":order", order) : "");
    // random well conditioned affine map, optionally reflected, and a mild
    // perturbation of the nodes
    double sizeOf = std::pow(10., uni(r, -3, 3)), bend = D == 4 || below(r, 3) == 0 ? 0. : uni(r, 0, order > 1 ? 0.04 : 0.1);
    std::vector<Pt> A(D, Pt(D, 0.));
    for (std::size_t i = 0; i < D; ++i)
        for (std::size_t j = 0; j < D; ++j) A[i][j] = (i == j ? (below(r, 4) == 0 ? -1. : 1.) : 0.) + uni(r, -0.2, 0.2);
    std::vector<std::size_t> perm(D);
    for (std::size_t i = 0; i < D; ++i) perm[i] = i;
    shuffle(perm, r);
    Pt origin(D);
    for (auto& x : origin) x = uni(r, -3, 3) * sizeOf;
    std::vector<Geometry::PointPhysical<D>> nodes;
    std::vector<std::size_t> index;
    std::size_t junk = below(r, 4);
    nodes.resize(ref.size() + junk);
    for (std::size_t i = 0; i < ref.size(); ++i) index.push_back(i);
    for (std::size_t i = 0; i < junk; ++i) index.push_back(ref.size() + i);
    shuffle(index, r);
    index.resize(ref.size());
    for (std::size_t i = 0; i < ref.size(); ++i) {
        Pt p(D, 0.);
        for (std::size_t d = 0; d < D; ++d) {
            for (std::size_t k = 0; k < D; ++k) p[perm[d]] += A[d][k] * ref[i][k];
            p[perm[d]] += uni(r, -bend, bend);
        }
        for (std::size_t d = 0; d < D; ++d) nodes[index[i]][d] = p[d] * sizeOf + origin[d];
    }
    auto fresh = [&]() {
        c.node.clear();
        for (std::size_t i = 0; i < ref.size(); ++i) {
            Pt p(D);
            for (std::size_t d = 0; d < D; ++d) p[d] = nodes[index[i]][d];
            c.node.push_back(p);
        }
    };
    fresh();
    Geometry::ElementGeometry el(index, nodes);
    expect(el.getReferenceGeometry() == &g, key + ":reference-geometry");
    auto check = [&](Geometry::ElementGeometry& e, const std::string& stage) {
        for (std::size_t i = 0; i < ref.size(); ++i) {
            Geometry::PointReference<D> p = pointOf<D>(ref[i]);
            Geometry::PointPhysical<D> q = e.referenceToPhysical(p);
            Pt got(D);
            for (std::size_t d = 0; d < D; ++d) got[d] = q[d];
            expect(dist(got, c.node[i]) < 1e-11 * sizeOf * 10, key + ":corner-to-corner" + stage, "node ", i, show(got), " want ", show(c.node[i]));
            const Geometry::PointPhysical<D>& ln = e.getPhysicalGeometry()->getLocalNodeCoordinates(i);
            for (std::size_t d = 0; d < D; ++d) got[d] = ln[d];
            expect(dist(got, c.node[i]) == 0, key + ":local-node" + stage, i);
            expect(e.getPhysicalGeometry()->getNodeIndex(i) == index[i], key + ":node-index" + stage);
        }
        for (int k = 0; k < 8; ++k) {
            Pt x = random4(t, r);
            x.resize(D);
            if (t == RT::PYRAMID && x[2] > 0.85) x[2] = 0.6, x[0] *= 0.3, x[1] *= 0.3;
            Geometry::PointPhysical<D> q = e.referenceToPhysical(pointOf<D>(x));
            Pt want = c.map(x), got(D);
            for (std::size_t d = 0; d < D; ++d) got[d] = q[d];
            expect(dist(got, want) < 1e-11 * sizeOf * 10, key + ":point" + stage, show(got), " want ", show(want));
            auto j = e.calcJacobian(pointOf<D>(x));
            const double h = 2e-3;
            for (std::size_t col = 0; col < D; ++col) {
                Pt p[4];
                double s[4] = {-2, -1, 1, 2};
                for (int m = 0; m < 4; ++m) {
                    Pt y = x;
                    y[col] += s[m] * h;
                    p[m] = c.map(y);
                }
                for (std::size_t row = 0; row < D; ++row) {
                    double dd = (p[0][row] - 8 * p[1][row] + 8 * p[2][row] - p[3][row]) / (12 * h);
                    near(j(row, col), dd, (t == RT::PYRAMID ? 1e-5 : 1e-8) * sizeOf, key + ":jacobian" + stage, row, ",", col, " at ", show(x));
                }
            }
            {
                Geometry::PointPhysical<D> pp;
                for (std::size_t d = 0; d < D; ++d) pp[d] = want[d];
                Geometry::PointReference<D> back = e.physicalToReference(pp);
                expect(dist(coords<D>(back), x) < 1e-6, key + ":inverse" + stage, show(coords<D>(back)), " want ", show(x), " size ", sizeOf, " bend ", bend);
                count("inverses");
            }
            count("physical-points");
        }
        double dm = 0;
        for (auto& a : c.node)
            for (auto& b : c.node) {
                double s2 = 0;
                for (std::size_t d = 0; d < D; ++d) s2 += (a[d] - b[d]) * (a[d] - b[d]);
                dm = std::max(dm, std::sqrt(s2));
            }
        if (stage.empty() && order == 1) near(e.getPhysicalGeometry()->getDiameter(), dm, 1e-12 * dm, key + ":diameter" + stage);
    };
    distinct(str(key, ":", int(std::log10(sizeOf)), bend > 0));
    check(el, "");
    {
        Geometry::ElementGeometry copy(el);
        check(copy, ":copied");
    }
    // moved nodes and the documented reinit
    for (auto& n : nodes)
        for (std::size_t d = 0; d < D; ++d) n[d] = n[d] * 1.1 + 0.05 * sizeOf * (1 + d);
    fresh();
    el.getReferenceToPhysicalMap()->reinit();
    check(el, ":moved");
}

// ------------------------------------------------------------------- mesh
template <std::size_t D>
struct Mover : public Base::MeshMoverBase<D> {
    std::array<std::array<double, 3>, 3> A;
    V3 b;
    double bend, size;
    V3 at(const V3& x) const {
        V3 r = b;
        for (std::size_t i = 0; i < D; ++i)
            for (std::size_t j = 0; j < D; ++j) r[i] += A[i][j] * x[j];
        for (std::size_t i = 0; i < D; ++i) r[i] += bend * size * std::sin(2 * x[(i + 1) % D] / size);
        return r;
    }
    void movePoint(Geometry::PointPhysical<D>& p) const override {
        V3 x{0, 0, 0};
        for (std::size_t i = 0; i < D; ++i) x[i] = p[i];
        V3 y = at(x);
        for (std::size_t i = 0; i < D; ++i) p[i] = y[i];
    }
};
template <std::size_t D>
void meshCase(const MMesh& model, Rng& r) {
    Loaded<D> L(model, 1, 1);
    if (!L.match()) return;
    MMesh& m = L.m;
    for (int round = 0; round < 2; ++round) {
        std::string stage = round ? ":moved" : "";
        if (round) {
            static Mover<D> mover;
            mover.size = L.size;
            mover.bend = below(r, 2) ? 0.02 : 0.;
            for (std::size_t i = 0; i < D; ++i) {
                for (std::size_t j = 0; j < D; ++j) mover.A[i][j] = (i == j) + uni(r, -0.15, 0.15);
                mover.b[i] = uni(r, -1, 1);
            }
            if (m.periodic[0] || m.periodic[1] || m.periodic[2]) mover.bend = 0;
            L.mesh->setMeshMover(&mover);
            L.mesh->move();
            L.mesh->setMeshMover(nullptr);
            for (Base::Element* e : L.mesh->getElementsList(Base::IteratorType::GLOBAL)) e->getReferenceToPhysicalMap()->reinit();
            for (auto& n : m.nodes)
                for (auto& x : n.x) x = mover.at(x);
        }
        for (int k = 0; k < 40; ++k) {
            int e = below(r, L.el.size());
            RT t = typeOf(m.el[e].shape);
            V3 x{0, 0, 0};
            auto pv = randomPoint(t, r);
            for (std::size_t d = 0; d < D; ++d) x[d] = pv[d];
            if (t == RT::PYRAMID && x[2] > 0.8) x[2] = 0.5, x[0] *= 0.4, x[1] *= 0.4;
            auto p = refPoint<D>(x);
            V3 want = m.map(e, x), got = toV3(L.el[e]->referenceToPhysical(p));
            expect(len(sub(got, want)) < 1e-11 * (1 + L.size), "geom:mesh:point" + stage, m.name);
            M3 J = jacobian<D>(m, e, x);
            auto j = L.el[e]->calcJacobian(p);
            for (std::size_t a = 0; a < D; ++a)
                for (std::size_t b = 0; b < D; ++b) near(j(a, b), J[a][b], (t == RT::PYRAMID ? 1e-5 : 1e-8) * (1 + L.size), str("geom:mesh:jacobian:", nameOf(t), stage), m.name);
            V3 back = toV3(L.el[e]->physicalToReference(physPoint<D>(want)));
            V3 again = m.map(e, back);
            expect(len(sub(again, want)) < 1e-6 * (1 + L.size), str("geom:mesh:inverse:", nameOf(t), stage), m.name, " point ", x[0], ",", x[1], ",", x[2], " came back as ", back[0], ",", back[1], ",", back[2]);
            count("mesh-points");
        }
        std::vector<Base::Face*> faces;
        for (Base::Face* f : L.mesh->getFacesList()) faces.push_back(f);
        for (int k = 0; k < 40; ++k) {
            Base::Face* f = faces[below(r, faces.size())];
            int le = L.indexOf[f->getPtrElementLeft()];
            MShape ls = m.el[le].shape;
            RT ft = f->getReferenceGeometry()->getGeometryType();
            Geometry::PointReference<D - 1> p;
            V3 px{0, 0, 0}, x, n;
            if (D > 1) {
                auto pv = random4(ft, r);
                for (std::size_t d = 0; d + 1 < D; ++d) p[d] = px[d] = pv[d];
            }
            facePoint(ls, f->localFaceNumberLeft(), px, x, n);
            if (ls == PYR && x[2] > 0.8) continue;
            std::string key = str("geom:mesh:face:", nameOf(ft), stage);
            expect(len(sub(toV3(f->mapRefFaceToRefElemL(p)), x)) < 1e-12, key + ":left", m.name);
            expect(len(sub(toV3(f->refFaceToRefElemMapL()->transform(p)), x)) < 1e-12, key + ":left-map", m.name);
            V3 y = m.map(le, x);
            expect(len(sub(toV3(f->referenceToPhysical(p)), y)) < 1e-11 * (1 + L.size), key + ":physical", m.name);
            M3 J = jacobian<D>(m, le, x);
            V3 nn = scale(mul<D>(inverse<D>(J), n, true), std::abs(detOf<D>(J)));
            V3 gn = toV3(f->getNormalVector(p));
            expect(len(sub(gn, nn)) < 1e-5 * (len(nn)), key + ":normal", m.name, " got ", gn[0], ",", gn[1], ",", gn[2], " want ", nn[0], ",", nn[1], ",", nn[2]);
            if (f->isInternal()) {
                int re = L.indexOf[f->getPtrElementRight()];
                int code = f->getFaceToFaceMapIndex();
                auto pr = f->mapRefFaceToRefElemR(p);
                expect(len(sub(toV3(pr), toV3(f->refFaceToRefElemMapR()->transform(p)))) < 1e-13, key + ":right-map", m.name);
                if (ft == RT::SQUARE && (code == 1 || code == 3)) continue;  // P01 known finding
                V3 z = m.map(re, toV3(pr));
                // equal up to the translation between the two views of the face
                V3 a{0, 0, 0}, b{0, 0, 0};
                auto& lf = shapeInfo(ls).faces[f->localFaceNumberLeft()];
                auto& rf = shapeInfo(m.el[re].shape).faces[f->localFaceNumberRight()];
                for (int c : lf) a = add(a, m.coord(le, m.el[le].corner[c]), 1. / lf.size());
                for (int c : rf) b = add(b, m.coord(re, m.el[re].corner[c]), 1. / rf.size());
                expect(len(sub(sub(z, y), sub(b, a))) < 1e-10 * (1 + L.size), key + ":both-sides", m.name, " code ", code);
                distinct(str(key, ":", ls, f->localFaceNumberLeft(), m.el[re].shape, f->localFaceNumberRight(), code));
            }
            count("mesh-face-points");
        }
    }
}

int main(int argc, char** argv) {
    startHpgem(argc, argv);
    Rng r = rng("geom" + arg("salt"));
    auto& F = Geometry::ReferenceGeometryFactory::Instance();
    int reps = st().thorough ? 40 : 4;
    for (int k = 0; k < reps; ++k) {
        auto run = [&](const std::string& n, std::function<void()> f) {
            begin("reference " + n);
            guard("geom:" + n, f);
        };
        run("point", [&]() { checkShape<0>(F.getGeometry(0, 1), "point", 1, r); });
        run("line", [&]() { checkShape<1>(F.getGeometry(1, 2), "line", 1, r); });
        run("triangle", [&]() { checkShape<2>(F.getGeometry(2, 3), "triangle", 1, r); });
        run("square", [&]() { checkShape<2>(F.getGeometry(2, 4), "square", 1, r); });
        run("tetrahedron", [&]() { checkShape<3>(F.getGeometry(3, 4), "tetrahedron", 1, r); });
        run("pyramid", [&]() { checkShape<3>(F.getGeometry(3, 5), "pyramid", 1, r); });
        run("prism", [&]() { checkShape<3>(F.getGeometry(3, 6), "prism", 1, r); });
        run("cube", [&]() { checkShape<3>(F.getGeometry(3, 8), "cube", 1, r); });
        run("hypercube", [&]() { checkShape<4>(F.getGeometry(4, 16), "hypercube", 1, r); });
        for (int o = 2; o <= 6; ++o) {
            run(str("line", o), [&]() { checkShape<1>(F.getGeometry(1, o + 1), str("line", o), o, r); });
            run(str("triangle", o), [&]() { checkShape<2>(F.getGeometry(2, (o + 1) * (o + 2) / 2), str("triangle", o), o, r); });
            run(str("tetrahedron", o), [&]() { checkShape<3>(F.getGeometry(3, (o + 1) * (o + 2) * (o + 3) / 6), str("tetrahedron", o), o, r); });
        }
        run("symmetry line", [&]() { checkSymmetries<1>(F.getGeometry(1, 2), "line", automorphisms(LINE), r); });
        run("symmetry triangle", [&]() { checkSymmetries<2>(F.getGeometry(2, 3), "triangle", automorphisms(TRI), r); });
        run("symmetry square", [&]() { checkSymmetries<2>(F.getGeometry(2, 4), "square", automorphisms(QUAD), r); });
        // The maps of the cube onto itself serve only faces of four-dimensional
        // meshes, which cannot be read or made; they are not checked.
        run("compositions", [&]() {
            checkComposition<1>(F.getGeometry(1, 2), r);
            checkComposition<2>(F.getGeometry(2, 3), r);
            checkComposition<2>(F.getGeometry(2, 4), r);
            checkComposition<3>(F.getGeometry(3, 4), r);
            checkComposition<3>(F.getGeometry(3, 5), r);
            checkComposition<3>(F.getGeometry(3, 6), r);
            checkComposition<3>(F.getGeometry(3, 8), r);
            checkComposition<4>(F.getGeometry(4, 16), r);
        });
    }
    int phys = st().thorough ? 20000 : 1200;
    for (int k = 0; k < phys; ++k) {
        begin(str("physical ", k));
        guard("geom:physical", [&]() {
            switch (k % 10) {
                case 0: checkPhysical<1>(RT::LINE, 1, r); break;
                case 1: checkPhysical<2>(RT::TRIANGLE, 1, r); break;
                case 2: checkPhysical<2>(RT::SQUARE, 1, r); break;
                case 3: checkPhysical<3>(RT::TETRAHEDRON, 1, r); break;
                case 4: checkPhysical<3>(RT::PYRAMID, 1, r); break;
                case 5: checkPhysical<3>(RT::TRIANGULARPRISM, 1, r); break;
                case 6: checkPhysical<3>(RT::CUBE, 1, r); break;
                case 7: checkPhysical<4>(RT::HYPERCUBE, 1, r); break;
                case 8: checkPhysical<2>(RT::TRIANGLE, 2, r); break;
                case 9: checkPhysical<3>(RT::TETRAHEDRON, 2, r); break;
            }
        });
    }
    int total = std::stoi(arg("cases", st().thorough ? "4000" : "300"));
    for (int k = 0; k < total; ++k) {
        int dim = k % 7 < 1 ? 1 : k % 7 < 3 ? 2 : 3;
        ZooOptions o = randomOptions(dim, r, 0);
        o.reflectAllowed = below(r, 2);
        MMesh m = makeMesh(o, r);
        Rng rc(r());
        begin(str("geom mesh ", k, " ", m.name));
        guard("geom:mesh", [&]() {
            if (dim == 1) meshCase<1>(m, rc);
            else if (dim == 2) meshCase<2>(m, rc);
            else meshCase<3>(m, rc);
        });
    }
    return finish();
}
