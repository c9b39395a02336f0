// P09: any choice of values for the degrees of freedom of a conforming basis
// gives one continuous function, the same one on every process.
#include "loadmesh.h"
using namespace vf;
using Base::IteratorType;

static double coefficient(std::uint64_t seed, int unknown, int kind, int index, int i) {
    std::uint64_t v[5] = {seed, (std::uint64_t)unknown, (std::uint64_t)kind, (std::uint64_t)index, (std::uint64_t)i};
    std::uint64_t h = fnv(v, sizeof v);
    h ^= h >> 29;
    h *= 0x9E3779B97F4A7C15ull;
    return (double)(h >> 11) / (double)(1ull << 52) - 1.0;
}

static const char* shapeName(const Base::Element* e) { return nameOf(e->getReferenceGeometry()->getGeometryType()); }

static long fullSize(MShape s, long p) {
    switch (shapeInfo(s).dim) {
        case 1: return p + 1;
        case 2: return typeOf(s) == RT::TRIANGLE ? (p + 1) * (p + 2) / 2 : (p + 1) * (p + 1);
    }
    switch (typeOf(s)) {
        case RT::TETRAHEDRON: return (p + 1) * (p + 2) * (p + 3) / 6;
        case RT::CUBE: return (p + 1) * (p + 1) * (p + 1);
        case RT::TRIANGULARPRISM: return (p + 1) * (p + 1) * (p + 2) / 2;
        default: return p == 1 ? 5 : -1;
    }
}

template <std::size_t DIM>
struct Field {
    Loaded<DIM>& L;
    std::vector<std::map<int, int>> faceOf, edgeOf;  // per element: local -> model entity
    std::map<int, std::vector<double>> c;
    std::map<int, std::vector<bool>> far;  // functions of a face that some process sees from one side only
    std::vector<bool> farFace;
    Field(Loaded<DIM>& l) : L(l), faceOf(l.m.el.size()), edgeOf(l.m.el.size()) {
        for (std::size_t f = 0; f < L.m.faces.size(); ++f)
            for (auto& p : L.m.faces[f].el) faceOf[p.first][p.second] = f;
        for (std::size_t f = 0; f < L.m.edges.size(); ++f)
            for (auto& p : L.m.edges[f].el) edgeOf[p.first][p.second] = f;
        for (auto& f : L.m.faces) {
            bool oneSided = false;
            for (int q = 0; q < rankCount() && f.el.size() == 2; ++q)
                if (L.present(f.el[0].first, q) != L.present(f.el[1].first, q)) oneSided = true;
            farFace.push_back(oneSided);
        }
    }
    void fill(std::uint64_t seed, std::size_t u, int order) {
        c.clear();
        for (std::size_t e = 0; e < L.el.size(); ++e) {
            Base::Element* p = L.el[e];
            if (!p) continue;
            std::size_t n = p->getNumberOfBasisFunctions(u);
            std::vector<double> v(n, 0);
            std::vector<int> hit(n, 0);
            far[e].assign(n, false);
            auto put = [&](std::size_t at, int kind, int index, int i) {
                if (!expect(at < n, "conform:slot-range", shapeName(p), " order ", order)) return;
                v[at] = coefficient(seed, u, kind, index, i);
                hit[at]++;
            };
            for (std::size_t i = 0; i < p->getLocalNumberOfBasisFunctions(u); ++i) put(i, 0, e, i);
            for (std::size_t lf = 0; lf < p->getNumberOfFaces(); ++lf) {
                const Base::Face* f = p->getFace(lf);
                if (!f) continue;
                std::size_t k = f->getLocalNumberOfBasisFunctions(u);
                if (k == 0) continue;
                std::size_t off = p->getBasisFunctionOffset(f, u);
                for (std::size_t i = 0; i < k; ++i) put(off + i, 1, faceOf[e][lf], i), far[e][off + i] = farFace[faceOf[e][lf]];
            }
            if (DIM == 3)
                for (std::size_t le = 0; le < p->getNumberOfEdges(); ++le) {
                    const Base::Edge* f = p->getEdge(le);
                    if (!f) continue;
                    std::size_t k = f->getLocalNumberOfBasisFunctions(u);
                    if (k == 0) continue;
                    std::size_t off = p->getBasisFunctionOffset(f, u);
                    for (std::size_t i = 0; i < k; ++i) put(off + i, 2, edgeOf[e][le], i);
                }
            if (DIM > 1)
                for (std::size_t ln = 0; ln < p->getNumberOfNodes(); ++ln) {
                    const Base::Node* f = p->getNode(ln);
                    if (!f) continue;
                    std::size_t k = f->getLocalNumberOfBasisFunctions(u);
                    if (k == 0) continue;
                    std::size_t off = p->getBasisFunctionOffset(f, u);
                    for (std::size_t i = 0; i < k; ++i) put(off + i, 3, L.m.el[e].node[ln], i);
                }
            if (L.m.el[e].owner == rankId())
                for (std::size_t i = 0; i < n; ++i)
                    expect(hit[i] == 1, "conform:slots-not-bijective", shapeName(p), " order ", order, " function ", i, " times ", hit[i]);
            long want = fullSize(L.m.el[e].shape, order);
            if (want > 0) expect((long)n == want, str("conform:local-size:", shapeName(p), ":order", order), n, " vs ", want);
            c[e] = v;
        }
    }
    double value(int e, std::size_t u, const Geometry::PointReference<DIM>& x, bool withFar = true) {
        double s = 0;
        auto& v = c[e];
        for (std::size_t i = 0; i < v.size(); ++i)
            if (v[i] != 0 && (withFar || !far[e][i])) s += v[i] * L.el[e]->basisFunction(i, x, u);
        return s;
    }
};

template <std::size_t DIM>
void checkConforming(const MMesh& model, Rng& r) {
    std::size_t unknowns = 1 + below(r, 3);
    Loaded<DIM> L(model, unknowns);
    if (!L.match()) return;
    bool pyramid = model.shapes().count(PYR) > 0;
    int top = pyramid ? 1 : model.shapes().count(PRISM) ? 3 : DIM == 3 ? 4 : 5;  // what has quadrature rules
    std::vector<int> order(unknowns);
    for (std::size_t u = 0; u < unknowns; ++u) order[u] = 1 + below(r, top);
    L.mesh->useDefaultConformingBasisFunctions(order[0]);
    for (std::size_t u = 1; u < unknowns; ++u) L.mesh->useDefaultConformingBasisFunctions(order[u], u);
    Field<DIM> F(L);
    for (std::size_t u = 0; u < unknowns; ++u) {
        std::uint64_t seed = r();  // the same on every process
        Rng rp(seed);
        F.fill(seed, u, order[u]);
        std::string shapes;
        for (auto s : model.shapes()) shapes += str(shapeInfo(s).name, "+");
        distinct(str(shapes, " order ", order[u], " unknown ", u));
        auto side = [&](const Base::Element* e) { return L.indexOf.at(e); };
        for (Base::Face* f : L.mesh->getFacesList(IteratorType::GLOBAL)) {
            if (!f->isInternal()) continue;
            int el = side(f->getPtrElementLeft()), er = side(f->getPtrElementRight());
            RT ft = f->getReferenceGeometry()->getGeometryType();
            std::string what = str(DIM, "D:", f->getFaceType() == Geometry::FaceType::INTERNAL || f->getFaceType() == Geometry::FaceType::SUBDOMAIN_BOUNDARY ? "inner" : "periodic", ":", nameOf(ft), ":",
                                   shapeName(f->getPtrElementLeft()), "-", shapeName(f->getPtrElementRight()));
            for (int k = 0; k < 3; ++k) {
                auto pv = DIM > 1 ? randomPoint(ft, rp) : std::vector<double>{};
                Geometry::PointReference<DIM - 1> x;
                for (std::size_t d = 0; d + 1 < DIM; ++d) x[d] = pv[d];
                double a = F.value(el, u, f->mapRefFaceToRefElemL(x)), b = F.value(er, u, f->mapRefFaceToRefElemR(x));
                near(a, b, 1e-9 * (1 + std::abs(a)), str("conform:jump:", what, order[u] > 2 ? ":order>2" : ":order<=2"), "order ", order[u], " ", model.name, " code ", f->getFaceToFaceMapIndex());
            }
            distinct(str(what, " ", f->localFaceNumberLeft(), f->localFaceNumberRight(), " code ", f->getFaceToFaceMapIndex(), " order ", order[u]));
            count("internal-faces");
        }
        // the same function on every process that has the element
        for (bool withFar : {false, true}) {
            if (rankCount() == 1) break;
            std::vector<double> hi(2 * L.el.size(), -1e300), lo(2 * L.el.size(), 1e300);
            for (std::size_t e = 0; e < L.el.size(); ++e)
                for (int k = 0; k < 2; ++k) {
                    Rng q(seed ^ (e * 2 + k + 1));
                    auto pv = randomPoint(typeOf(L.m.el[e].shape), q);
                    Geometry::PointReference<DIM> x;
                    for (std::size_t d = 0; d < DIM; ++d) x[d] = pv[d];
                    if (L.el[e]) hi[2 * e + k] = lo[2 * e + k] = F.value(e, u, x, withFar);
                }
            MPI_Allreduce(MPI_IN_PLACE, hi.data(), hi.size(), MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
            MPI_Allreduce(MPI_IN_PLACE, lo.data(), lo.size(), MPI_DOUBLE, MPI_MIN, MPI_COMM_WORLD);
            bool same = true;
            for (std::size_t i = 0; i < hi.size(); ++i) {
                std::string key = "conform:differs-between-processes:" + (withFar ? std::string("one-sided-face-functions") : str(DIM, "D:", shapeInfo(L.m.el[i / 2].shape).name, order[u] > 2 ? ":order>2" : ":order<=2"));
                same &= near(hi[i], lo[i], 1e-9 * (1 + std::abs(lo[i])), key, model.name, " order ", order[u]);
            }
            count("compared-elements", L.el.size());
            if (!same) break;
        }
    }
}

int main(int argc, char** argv) {
    startHpgem(argc, argv);
    Rng r = rng("conform" + arg("salt"));
    int n = rankCount();
    int total = std::stoi(arg("cases", st().thorough ? "3000" : "400"));
    for (int k = 0; k < total; ++k) {
        int dim = k % 7 < 1 ? 1 : k % 7 < 3 ? 2 : 3;
        if (n > 1) dim = k % 3 ? 3 : 2;
        ZooOptions o = randomOptions(dim, r, 0);
        o.nParts = n;
        o.partStyle = below(r, 4);
        if (dim == 3 && o.style == 3 && below(r, 3)) o.style = 5 + below(r, 2);
        o.reflectAllowed = below(r, 6) == 0;
        MMesh m = makeMesh(o, r);
        Rng rc(r());
        begin(str("conform case ", k, " ", m.name));
        bool ok = guard("conform", [&]() {
            if (dim == 1) checkConforming<1>(m, rc);
            else if (dim == 2) checkConforming<2>(m, rc);
            else checkConforming<3>(m, rc);
        });
        if (!ok && n > 1) {
            writeReport();
            MPI_Abort(MPI_COMM_WORLD, 3);
        }
    }
    int rc = finish();
    if (n > 1) MPI_Barrier(MPI_COMM_WORLD);
    return rc;
}
