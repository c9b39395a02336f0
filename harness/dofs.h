// A loaded mesh with a mix of bases, and the identity of every degree of
// freedom as (unknown, kind of entity, entity of the model, number), which
// does not depend on the process or on any numbering of hpGEM.
#ifndef VF_DOFS_H
#define VF_DOFS_H
#include "loadmesh.h"

namespace vf {
struct DofKey {
    int u, kind, entity, i;  // kind 0 element 1 face 2 edge 3 node
    bool operator<(const DofKey& o) const { return std::tie(u, kind, entity, i) < std::tie(o.u, o.kind, o.entity, o.i); }
    bool operator==(const DofKey& o) const { return std::tie(u, kind, entity, i) == std::tie(o.u, o.kind, o.entity, o.i); }
};
inline std::string describe(const DofKey& k) {
    static const char* n[] = {"element", "face", "edge", "node"};
    return str("unknown ", k.u, " ", n[k.kind], " ", k.entity, " function ", k.i);
}
inline double hashValue(std::uint64_t a, std::uint64_t b, std::uint64_t c, std::uint64_t d = 0, std::uint64_t e = 0) {
    std::uint64_t v[5] = {a, b, c, d, e};
    std::uint64_t h = fnv(v, sizeof v);
    h ^= h >> 29;
    h *= 0x9E3779B97F4A7C15ull;
    h ^= h >> 32;
    double x = (double)(h >> 11) / (double)(1ull << 52) - 1.0;
    return std::abs(x) < 1e-3 ? 0.5 : x;  // never zero
}
// concatenate the vectors of all processes
template <class T>
std::vector<T> gatherAll(const std::vector<T>& mine, std::vector<int>* from = nullptr) {
    int n = rankCount(), bytes = mine.size() * sizeof(T);
    std::vector<int> size(n), at(n, 0);
    MPI_Allgather(&bytes, 1, MPI_INT, size.data(), 1, MPI_INT, MPI_COMM_WORLD);
    for (int i = 1; i < n; ++i) at[i] = at[i - 1] + size[i - 1];
    std::vector<T> all((at[n - 1] + size[n - 1]) / sizeof(T));
    MPI_Allgatherv(mine.data(), bytes, MPI_BYTE, all.data(), size.data(), at.data(), MPI_BYTE, MPI_COMM_WORLD);
    if (from) {
        from->clear();
        for (int i = 0; i < n; ++i) from->insert(from->end(), size[i] / sizeof(T), i);
    }
    return all;
}

template <std::size_t DIM>
struct Dofs {
    Loaded<DIM> L;
    std::size_t unknowns;
    std::vector<int> order;
    std::vector<bool> conforming;
    std::vector<std::map<int, int>> faceOf, edgeOf;
    bool ok = false;
    std::string name;
    Dofs(const MMesh& model, std::size_t nUnknowns, Rng& r, int matrices = 2)
        : L(model, nUnknowns, 2, matrices, matrices, matrices, matrices), unknowns(nUnknowns), faceOf(model.el.size()), edgeOf(model.el.size()) {
        if (!L.match()) return;
        bool pyramid = model.shapes().count(PYR) > 0;
        int top = pyramid ? 1 : DIM == 1 ? 4 : DIM == 2 ? 4 : 3;
        int mode = below(r, 3);  // all discontinuous, all conforming, mixed
        for (std::size_t u = 0; u < unknowns; ++u) {
            conforming.push_back(mode == 0 ? false : mode == 1 ? true : below(r, 2));
            order.push_back(conforming[u] ? 1 + below(r, top) : below(r, std::min(top, 3) + (pyramid ? 0 : 1)));
            if (!conforming[u] && pyramid) order[u] = 1;
            if (!conforming[u] && order[u] == 0 && !pyramid && below(r, 2)) order[u] = 1;
            if (u == 0 && conforming[u]) L.mesh->useDefaultConformingBasisFunctions(order[u]);
            else if (u == 0) L.mesh->useDefaultDGBasisFunctions(order[u]);
            else if (conforming[u]) L.mesh->useDefaultConformingBasisFunctions(order[u], u);
            else L.mesh->useDefaultDGBasisFunctions(order[u], u);
            name += str(conforming[u] ? "C" : "D", order[u]);
        }
        for (std::size_t f = 0; f < L.m.faces.size(); ++f)
            for (auto& p : L.m.faces[f].el) faceOf[p.first][p.second] = f;
        for (std::size_t f = 0; f < L.m.edges.size(); ++f)
            for (auto& p : L.m.edges[f].el) edgeOf[p.first][p.second] = f;
        ok = true;
    }
    // calls fn(kind, model entity, hpGEM object, number of functions, slot of the first)
    template <class F>
    void entities(int e, std::size_t u, F fn) {
        Base::Element* p = L.el[e];
        fn(0, e, p, p->getLocalNumberOfBasisFunctions(u), std::size_t(0));
        for (std::size_t lf = 0; lf < p->getNumberOfFaces(); ++lf) {
            const Base::Face* f = p->getFace(lf);
            std::size_t k = f->getLocalNumberOfBasisFunctions(u);
            fn(1, faceOf[e][lf], f, k, k ? p->getBasisFunctionOffset(f, u) : 0);
        }
        if (DIM == 3)
            for (std::size_t le = 0; le < p->getNumberOfEdges(); ++le) {
                const Base::Edge* f = p->getEdge(le);
                std::size_t k = f->getLocalNumberOfBasisFunctions(u);
                fn(2, edgeOf[e][le], f, k, k ? p->getBasisFunctionOffset(f, u) : 0);
            }
        if (DIM > 1)
            for (std::size_t ln = 0; ln < p->getNumberOfNodes(); ++ln) {
                const Base::Node* f = p->getNode(ln);
                std::size_t k = f->getLocalNumberOfBasisFunctions(u);
                fn(3, L.m.el[e].node[ln], f, k, k ? p->getBasisFunctionOffset(f, u) : 0);
            }
    }
    // the keys of the functions of an element for one unknown, in the order
    // in which the element numbers its functions
    std::vector<DofKey> keys(int e, std::size_t u) {
        std::vector<DofKey> r(L.el[e]->getNumberOfBasisFunctions(u), DofKey{-1, -1, -1, -1});
        entities(e, u, [&](int kind, int index, const auto*, std::size_t n, std::size_t at) {
            for (std::size_t i = 0; i < n; ++i)
                if (at + i < r.size()) r[at + i] = {(int)u, kind, index, (int)i};
        });
        return r;
    }
    std::vector<std::size_t> randomSubset(Rng& r, bool& all) {
        all = below(r, 2);
        std::vector<std::size_t> s;
        if (!all)
            for (std::size_t u = 0; u < unknowns; ++u)
                if (below(r, 2)) s.push_back(u);
        if (s.empty()) {
            all = true;
            for (std::size_t u = 0; u < unknowns; ++u) s.push_back(u);
        }
        return s;
    }
};
}  // namespace vf
#endif
