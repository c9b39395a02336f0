// P14: refinement templates and one refinement step of a mesh.
#include "physgeo.h"
#include "Geometry/Mappings/RefinementMapsForPoint.h"
#include "Geometry/Mappings/RefinementMapsForLine.h"
#include "Geometry/Mappings/RefinementMapsForSquare.h"
#include "Geometry/Mappings/RefinementMapsForTriangle.h"
#include "Geometry/Mappings/RefinementMapsForCube.h"
#include "Geometry/Mappings/RefinementMapsForTriangularPrism.h"
#include "Geometry/Mappings/RefinementMapsForTetrahedron.h"
#include "Geometry/Mappings/RefinementMapsForPyramid.h"
using namespace vf;
using namespace hpgem;
using Map = Geometry::RefinementMapping;

struct Named {
    const Map* map;
    std::string name;
    MShape shape;
};
static long num(const char* n, long d) { return std::stol(vf::arg(n, std::to_string(d))); }
#define MAPS(S, shape, ...)                                                      \
    {                                                                            \
        int k = 0;                                                               \
        for (const Map* p : std::initializer_list<const Map*>{__VA_ARGS__}) {    \
            r.push_back({p, str(S, k), shape});                                  \
            ++k;                                                                 \
        }                                                                        \
    }
#define M(x) Geometry::RefinementMapFor##x::instance()
static std::vector<Named> allMaps() {
    std::vector<Named> r;
    MAPS("line", LINE, M(Line0), M(Line1))
    MAPS("square", QUAD, M(Square0), M(Square1), M(Square2), M(Square3))
    MAPS("triangle", TRI, M(Triangle0), M(Triangle1), M(Triangle2), M(Triangle3), M(Triangle4), M(Triangle5),
         M(Triangle6), M(Triangle7), M(Triangle8))
    MAPS("cube", HEX, M(Cube0), M(Cube1), M(Cube2), M(Cube3), M(Cube4), M(Cube5), M(Cube6), M(Cube7))
    MAPS("prism", PRISM, M(TriangularPrism0), M(TriangularPrism1), M(TriangularPrism2), M(TriangularPrism3),
         M(TriangularPrism4), M(TriangularPrism5), M(TriangularPrism6), M(TriangularPrism7), M(TriangularPrism8),
         M(TriangularPrism9))
    MAPS("tetrahedron", TET, M(Tetrahedron0))
    MAPS("pyramid", PYR, M(Pyramid0))
    return r;
}
static MShape shapeOf(RT t) {
    for (MShape s : {LINE, TRI, QUAD, TET, PYR, PRISM, HEX})
        if (typeOf(s) == t) return s;
    return LINE;
}
// reference position of every old and new node
template <std::size_t D>
static std::vector<V3> nodePositions(const Map* map, MShape shape) {
    std::vector<V3> r = shapeInfo(shape).pts;
    r.resize(shapeInfo(shape).corners);
    for (auto& p : map->getNewNodeLocations(Geometry::PointReference<D>{})) r.push_back(toV3<D>(p));
    return r;
}
static const double TOL = 1e-11;

template <std::size_t D>
static void checkMap(const Named& n, Rng& rng) {
    const Map* map = n.map;
    std::string K = "map:" + n.name + ":";
    auto& si = shapeInfo(n.shape);
    begin(std::string("template " + n.name));
    if (!expect(map->getBigElementReferenceGeometry()->getGeometryType() == typeOf(n.shape), K + "shape", n.name)) return;
    std::vector<V3> pos = nodePositions<D>(map, n.shape);
    if (!expect(pos.size() == si.corners + map->getNumberOfNewNodes(), K + "new-nodes", pos.size(), " positions for ",
                map->getNumberOfNewNodes(), " new nodes"))
        return;
    for (std::size_t i = 0; i < pos.size(); ++i) {
        std::vector<double> x(pos[i].begin(), pos[i].begin() + D);
        expect(inside(typeOf(n.shape), x, 1e-12), K + "new-node-outside", i);
        for (std::size_t j = 0; j < i; ++j) expect(dist(pos[i], pos[j]) > 1e-8, K + "nodes-coincide", i, " ", j);
    }
    std::size_t nc = map->getNumberOfSubElements();
    std::vector<MShape> cs;
    std::vector<std::vector<std::size_t>> cn;
    for (std::size_t c = 0; c < nc; ++c) {
        cs.push_back(shapeOf(map->getSubElementReferenceGeometry(c)->getGeometryType()));
        cn.push_back(map->getSubElementLocalNodeIndices(c));
        if (!expect((int)cn[c].size() == shapeInfo(cs[c]).corners, K + "child-nodes", c)) return;
        std::set<std::size_t> s(cn[c].begin(), cn[c].end());
        if (!expect(s.size() == cn[c].size() && *s.rbegin() < pos.size(), K + "child-node-index", c)) return;
    }
    auto transform = [&](std::size_t c, const V3& x) { return toV3<D>(map->refinementTransform(c, refPoint<D>(x))); };
    // corners, Jacobians and inverses
    for (std::size_t c = 0; c < nc; ++c) {
        auto& ci = shapeInfo(cs[c]);
        for (int k = 0; k < ci.corners; ++k) {
            V3 y = transform(c, ci.pts[k]);
            expect(dist(y, pos[cn[c][k]]) < TOL, K + "child-corner", "child ", c, " corner ", k, " is mapped to ", y[0], ",", y[1],
                   ",", y[2]);
        }
        for (int t = 0; t < 12; ++t) {
            std::vector<double> xv = randomPoint(typeOf(cs[c]), rng);
            V3 x{0, 0, 0};
            for (std::size_t d = 0; d < D; ++d) x[d] = xv[d];
            V3 y = transform(c, x);
            // children are (multi)linear: position from the corners
            std::vector<double> w = cornerWeights(cs[c], x);
            V3 z{0, 0, 0};
            for (std::size_t k = 0; k < w.size(); ++k) z = add(z, pos[cn[c][k]], w[k]);
            if (cs[c] != PYR) expect(dist(y, z) < TOL, K + "child-interior", "child ", c, " at ", x[0], ",", x[1], ",", x[2]);
            std::vector<double> yv(y.begin(), y.begin() + D);
            expect(inside(typeOf(n.shape), yv, 1e-11), K + "child-outside-parent", "child ", c);
            auto L = map->getRefinementMappingMatrixL(c, refPoint<D>(x));
            auto R = map->getRefinementMappingMatrixR(c, refPoint<D>(x));
            const double h = 1e-3;
            for (std::size_t b = 0; b < D; ++b) {
                V3 p = x, q = x;
                p[b] += h, q[b] -= h;
                V3 dp = transform(c, p), dq = transform(c, q);
                for (std::size_t a = 0; a < D; ++a) {
                    expect(std::abs(L(a, b) - (dp[a] - dq[a]) / (2 * h)) < 1e-9, K + "jacobian", "child ", c, " ", a, b);
                    double s = 0;
                    for (std::size_t k = 0; k < D; ++k) s += L(a, k) * R(k, b);
                    expect(std::abs(s - (a == b)) < 1e-10, K + "inverse-jacobian", "child ", c, " ", a, b);
                }
            }
        }
    }
    // the children tile the parent: all moments agree, and no child is inside out
    forMonomials(D, 4, [&](const std::vector<int>& e) {
        double sum = 0;
        for (std::size_t c = 0; c < nc; ++c)
            for (auto& q : ownRule(cs[c], 8)) {
                V3 y = transform(c, q.x);
                auto L = map->getRefinementMappingMatrixL(c, refPoint<D>(q.x));
                M3 l{};
                for (std::size_t a = 0; a < D; ++a)
                    for (std::size_t b = 0; b < D; ++b) l[a][b] = L(a, b);
                double det = detOf<D>(l);
                expect(det > 1e-10, K + "child-inside-out", "child ", c, " determinant ", det);
                std::vector<double> yv(y.begin(), y.begin() + D);
                double f = 1;
                for (std::size_t d = 0; d < D; ++d) f *= std::pow(yv[d], e[d]);
                sum += q.w * std::abs(det) * f;
            }
        expect(std::abs(sum - exactMonomial(typeOf(n.shape), e)) < 1e-10, K + "tiling", "moment ", e[0], " sum ", sum);
        return;
    });
    count("templates");
    if (D == 1) {
        // faces are points
        for (std::size_t f = 0; f < 2; ++f) {
            auto ids = map->getCodim1LocalNodeIndices(f);
            expect(ids.size() == 1 && dist(pos[ids[0]], si.pts[f]) < TOL, K + "face-nodes", f);
            std::size_t c, lf;
            std::tie(c, lf) = map->getSubElementAndLocalFaceIndex(f, 0);
            expect(c < nc && lf < 2 && dist(pos[cn[c][lf]], si.pts[f]) < TOL, K + "subface", f);
        }
    }
    // faces
    auto fm = map->getCodim1RefinementMaps();
    if (!expect(fm.size() == si.faces.size(), K + "face-maps", fm.size())) return;
    std::map<std::set<std::size_t>, int> seen;   // face of a child -> how often
    for (std::size_t c = 0; c < nc; ++c)
        for (auto& f : shapeInfo(cs[c]).faces) {
            std::set<std::size_t> s;
            for (int k : f) s.insert(cn[c][k]);
            seen[s]++;
        }
    std::set<std::set<std::size_t>> outer;
    if constexpr (D > 1) {
        for (std::size_t f = 0; f < fm.size(); ++f) {
            MShape fs = D == 2 ? LINE : si.faces[f].size() == 3 ? TRI : QUAD;
            if (!expect(fm[f]->getBigElementReferenceGeometry()->getGeometryType() == typeOf(fs), K + "face-map-shape", f)) continue;
            std::vector<V3> fp = nodePositions<D - 1>(fm[f], fs);
            auto ids = map->getCodim1LocalNodeIndices(f);
            if (!expect(ids.size() == fp.size(), K + "face-nodes", "face ", f, " has ", ids.size(), " nodes, its template ", fp.size())) continue;
            bool ok = true;
            for (std::size_t k = 0; k < ids.size(); ++k) {
                V3 x, nn;
                facePoint(n.shape, f, fp[k], x, nn);
                ok &= expect(ids[k] < pos.size() && dist(pos[ids[k]], x) < TOL, K + "face-node", "face ", f, " node ", k);
            }
            if (!ok) continue;
            // every node on the face is in the list
            std::size_t on = 0;
            V3 x0, nn;
            facePoint(n.shape, f, V3{0.1, 0.1, 0}, x0, nn);
            for (auto& p : pos) on += std::abs(dot(sub(p, x0), nn)) < 1e-9;
            expect(on == ids.size(), K + "face-node-missing", "face ", f, ": ", on, " nodes on the face, ", ids.size(), " listed");
            for (std::size_t j = 0; j < fm[f]->getNumberOfSubElements(); ++j) {
                std::size_t c, lf;
                std::tie(c, lf) = map->getSubElementAndLocalFaceIndex(f, j);
                if (!expect(c < nc && lf < shapeInfo(cs[c]).faces.size(), K + "subface-index", "face ", f, " part ", j)) continue;
                std::set<std::size_t> a, b;
                std::vector<std::size_t> av, bv;
                for (std::size_t k : fm[f]->getSubElementLocalNodeIndices(j)) a.insert(ids[k]), av.push_back(ids[k]);
                for (int k : shapeInfo(cs[c]).faces[lf]) b.insert(cn[c][k]), bv.push_back(cn[c][k]);
                std::string right;
                for (std::size_t oc = 0; oc < nc; ++oc)
                    for (std::size_t of = 0; of < shapeInfo(cs[oc]).faces.size(); ++of) {
                        std::set<std::size_t> t;
                        for (int k : shapeInfo(cs[oc]).faces[of]) t.insert(cn[oc][k]);
                        if (t == a) right = str("; it is face ", of, " of child ", oc);
                    }
                expect(a == b, K + "subface", "face ", f, " part ", j, " child ", c, " face ", lf, right);
                if (a == b && av != bv) count("subface-order-differs:" + n.name);
                expect(outer.insert(a).second, K + "subface-twice", "face ", f, " part ", j);
                count("subfaces");
            }
        }
        for (auto& s : seen)
            expect(s.second == (outer.count(s.first) ? 1 : 2), K + "conforming", "a face of a child occurs ", s.second, " times, ",
                   outer.count(s.first) ? "outer" : "inner");
    } else {
        for (auto& s : seen) {
            bool o = *s.first.begin() < 2;
            expect(s.second == (o ? 1 : 2), K + "conforming", *s.first.begin());
        }
    }
    distinct("template " + n.name);
}

// ---------------------------------------------------------------- one step
template <std::size_t DIM>
static void checkStep(Rng& rng, std::size_t id) {
    bool structured = num("structured", 0);
    ZooOptions o = randomOptions(DIM, rng, num("size", 3));
    o.order = 1;
    o.nParts = 1;
    o.zones = 1 + below(rng, 2);
    if (structured) o.renumber = false, o.shuffle = false, o.style = 0;
    if (num("style", -1) >= 0) o.style = num("style", 0);
    if (num("noperiod", 0)) o.periodic = {false, false, false};
    MMesh model = makeMesh(o, rng);
    std::vector<Named> maps = allMaps();
    std::vector<Named> use;
    auto shapes = model.shapes();
    for (auto& m : maps)
        if (shapes.count(m.shape)) use.push_back(m);
    Named n = use[below(rng, use.size())];
    double frac = below(rng, 2) ? 1 : uni(rng);
    std::set<int> chosen;
    for (std::size_t e = 0; e < model.el.size(); ++e)
        if (model.el[e].shape == n.shape && uni(rng) < frac) chosen.insert(e);
    // neighbouring elements are refined together only on a line: the driver is a
    // placeholder that matches the parts of a shared face by number only
    if (DIM > 1)
        for (auto& f : model.faces) {
            if (f.el.size() < 2) continue;
            int a = f.el[0].first, b = f.el[1].first;
            if (chosen.count(a) && chosen.count(b)) chosen.erase(below(rng, 2) ? a : b);
        }
    begin(str("refine ", n.name, " ", chosen.size(), " of ", model.el.size(), " elements of ", model.name, " case ", id));
    std::string K = str("step:", n.name, ":");
    Loaded<DIM> L(model);
    if (!L.match()) return;
    L.mesh->useDefaultDGBasisFunctions(1);
    std::vector<Geometry::FaceType> oldType;
    std::map<const Base::Face*, Geometry::FaceType> typeBefore;
    for (Base::Face* f : L.mesh->getFacesList(Base::IteratorType::GLOBAL)) typeBefore[f] = f->getFaceType();
    std::size_t nodesBefore = L.mesh->getNodesList(Base::IteratorType::GLOBAL).size();
    bool full = below(rng, 2) && frac == 1 && DIM == 1;
    if (full) L.mesh->refine(n.map);
    else L.mesh->refine(n.map, [&](const Base::Element* e) { return chosen.count(L.indexOf.at(e)) > 0; });
    (void)nodesBefore;
    std::vector<V3> pos = nodePositions<DIM>(n.map, n.shape);
    std::size_t nc = n.map->getNumberOfSubElements();
    auto near = [&](const V3& a, const V3& b) { return dist(a, b) < 1e-10 * L.size; };
    std::map<const Base::Element*, std::pair<int, int>> childOf;
    for (std::size_t e = 0; e < model.el.size(); ++e) {
        auto* entry = L.el[e]->getPositionInTree();
        bool r = chosen.count(e);
        if (!expect(entry->getNumberOfChildren() == (r ? nc : 0), K + "children", "element ", e, " has ", entry->getNumberOfChildren())) return;
        expect(L.el[e]->getPositionInTree()->getLevel() == 0, K + "level-of-parent", e);
        for (std::size_t c = 0; c < entry->getNumberOfChildren(); ++c) {
            const Base::Element* ch = entry->getChild(c)->getData();
            childOf[ch] = {(int)e, (int)c};
            expect(ch->getPositionInTree()->getParent() == entry && ch->getPositionInTree()->getLevel() == 1, K + "tree", e);
            if (!expect(ch->getReferenceGeometry() == n.map->getSubElementReferenceGeometry(c), K + "child-shape", e)) return;
            expect(&ch->getZone() == &L.el[e]->getZone(), K + "zone", e);
            auto idx = n.map->getSubElementLocalNodeIndices(c);
            for (std::size_t k = 0; k < idx.size(); ++k) {
                const Geometry::PointPhysical<DIM>& p = ch->getPhysicalGeometry()->getLocalNodeCoordinates(k);
                expect(near(toV3<DIM>(p), model.map(e, pos[idx[k]])), K + "child-node-position", "element ", e, " child ", c, " node ", k);
            }
            count("children");
        }
    }
    // all elements are there, once
    std::size_t cnt = 0;
    {
        auto& list = L.mesh->getElementsList(Base::IteratorType::GLOBAL);
        list.setPreOrderTraversal();
        std::set<const Base::Element*> got;
        for (Base::Element* e : list) {
            expect(got.insert(e).second, K + "element-listed-twice", "");
            expect(L.indexOf.count(e) || childOf.count(e), K + "element-unknown", e->getID());
            ++cnt;
        }
        expect(cnt == model.el.size() + chosen.size() * nc, K + "element-count", cnt);
    }
    // nodes: the corners of one physical point are one node (up to the period)
    std::map<std::array<long, 3>, std::set<const Base::Node*>> at;
    // faces of the active elements
    std::size_t sides = 0;
    auto active = [&](const Base::Element* e) { return !e->getPositionInTree()->hasChild(); };
    for (Base::Element* e : L.mesh->getElementsList(Base::IteratorType::GLOBAL)) {
        bool child = childOf.count(e);
        if (!active(e)) continue;
        for (std::size_t lf = 0; lf < e->getNumberOfFaces(); ++lf) {
            const Base::Face* f = e->getFace(lf);
            if (!expect(f != nullptr, K + "face-missing", "")) continue;
            bool left = f->getPtrElementLeft() == e && f->localFaceNumberLeft() == lf;
            bool right = f->isInternal() && f->getPtrElementRight() == e && f->localFaceNumberRight() == lf;
            expect(left || right, K + "face-of-other-element", "");
            ++sides;
            if (!child) continue;
            // what should be on the other side
            auto ec = childOf[e];
            int pf = -1, part = -1;
            for (std::size_t a = 0; a < L.el[ec.first]->getNumberOfFaces(); ++a)
                for (std::size_t b = 0; b < n.map->getCodim1RefinementMaps()[a]->getNumberOfSubElements(); ++b)
                    if (n.map->getSubElementAndLocalFaceIndex(a, b) == std::make_tuple((std::size_t)ec.second, lf)) pf = a, part = b;
            if (pf < 0) {
                if (!expect(f->isInternal(), K + "inner-face-is-boundary", "child ", ec.second, " face ", lf)) continue;
                const Base::Element* other = left ? f->getPtrElementRight() : f->getPtrElementLeft();
                expect(childOf.count(other) && childOf[other].first == ec.first && other != e, K + "inner-face-neighbour", "");
                expect(f->getFaceType() == Geometry::FaceType::INTERNAL, K + "inner-face-type", "");
            } else {
                const Base::Face* parent = L.el[ec.first]->getFace(pf);
                expect(f->getPositionInTree()->getParent() == parent->getPositionInTree(), K + "subface-parent", "");
                if (!parent->isInternal()) {
                    expect(!f->isInternal() && f->getFaceType() == typeBefore[parent], K + "boundary-subface-type", "");
                } else {
                    const Base::Element* o2 = parent->getPtrElementLeft() == L.el[ec.first] && parent->localFaceNumberLeft() == (std::size_t)pf
                                                  ? parent->getPtrElementRight()
                                                  : parent->getPtrElementLeft();
                    bool both = o2->getPositionInTree()->hasChild();
                    if (!both) {
                        expect(f->getFaceType() == Geometry::FaceType::REFINEMENT_BOUNDARY && !f->isInternal(), K + "hanging-subface-type", "");
                    } else if (expect(f->isInternal(), K + "subface-one-sided", "")) {
                        const Base::Element* other = left ? f->getPtrElementRight() : f->getPtrElementLeft();
                        expect(childOf.count(other) && childOf[other].first == L.indexOf[o2], K + "subface-neighbour", "");
                        expect((f->getFaceType() == Geometry::FaceType::PERIODIC_BC) == (typeBefore[parent] == Geometry::FaceType::PERIODIC_BC),
                               K + "subface-type", "");
                    }
                }
            }
            if (f->isInternal()) {
                V3 shift{0, 0, 0};
                for (int t = 0; t < 3; ++t) {
                    auto p = randomPoint(f->getReferenceGeometry()->getGeometryType(), rng);
                    p.resize(3);
                    Geometry::PointReference<DIM - 1> q;
                    for (std::size_t d = 0; d + 1 < DIM; ++d) q[d] = p[d];
                    V3 a = toV3<DIM>(f->getPtrElementLeft()->referenceToPhysical(f->mapRefFaceToRefElemL(q)));
                    V3 b = toV3<DIM>(f->getPtrElementRight()->referenceToPhysical(f->mapRefFaceToRefElemR(q)));
                    V3 s = sub(b, a);
                    if (typeBefore.count(f) == 0 && f->getFaceType() == Geometry::FaceType::PERIODIC_BC) {
                        if (t == 0) shift = s;
                        expect(near(s, shift) && len(s) > 1e-6 * L.size, K + "periodic-sides-differ", "");
                    } else {
                        expect(len(s) < 1e-10 * L.size, K + "sides-differ", "distance ", len(s));
                    }
                    count("face-points");
                }
            }
        }
    }
    (void)sides;
    // measure of the active elements
    double vol = 0;
    for (Base::Element* e : L.mesh->getElementsList(Base::IteratorType::GLOBAL)) {
        if (!active(e)) continue;
        for (auto& q : ownRule(shapeOf(e->getReferenceGeometry()->getGeometryType()), 4)) {
            auto j = e->calcJacobian(refPoint<DIM>(q.x));
            vol += q.w * std::abs(j.determinant());
        }
    }
    if (!model.holes) expect(std::abs(vol - model.measure()) < 1e-9 * model.measure(), K + "measure", vol, " ", model.measure());
    count("steps");
    distinct(str("step ", n.name, " dim ", DIM, " style ", o.style, " ", chosen.size() == model.el.size() ? "all" : "some", " periodic ",
                 o.periodic[0], o.periodic[1], o.periodic[2]));
}

int main(int argc, char** argv) {
    startHpgem(argc, argv);
    Rng rng = vf::rng("refine" + arg("salt"));
    if (num("maps", 1)) {
        for (auto& n : allMaps())
            guard("map:" + n.name, [&] {
                if (shapeInfo(n.shape).dim == 1) checkMap<1>(n, rng);
                else if (shapeInfo(n.shape).dim == 2) checkMap<2>(n, rng);
                else checkMap<3>(n, rng);
            });
    }
    std::size_t cases = num("cases", 60);
    for (std::size_t c = 0; c < cases; ++c) {
        Rng r(rng());
        if (num("case", c) != (long)c) continue;
        int dim = num("dim", 0) ? num("dim", 0) : 1 + c % 3;
        guard("step", [&] {
            if (dim == 1) checkStep<1>(r, c);
            else if (dim == 2) checkStep<2>(r, c);
            else checkStep<3>(r, c);
        });
    }
    return finish();
}
