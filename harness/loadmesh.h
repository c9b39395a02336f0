// Loads a model mesh into hpGEM and matches the loaded objects to the model.
#ifndef VF_LOADMESH_H
#define VF_LOADMESH_H
#include "meshmodel.h"
#include "refgeo.h"
#include "Base/MeshManipulator.h"
#include "Base/ConfigurationData.h"
#include "Base/Element.h"
#include "Base/Face.h"
#include "Base/Edge.h"
#include "Base/Node.h"
#include "Base/MpiContainer.h"
#include "Base/CommandLineOptions.h"
#include "Geometry/PhysicalGeometry.h"
#include "Geometry/PointPhysical.h"
#include "Geometry/PointReference.h"
#include <memory>
#include <mpi.h>

namespace vf {
// Start hpGEM the way an application does, with our arguments taken out.
inline void startHpgem(int& argc, char**& argv) {
    init(argc, argv);
    static std::vector<char*> keep(argv, argv + argc + 1);
    Base::parse_options(argc, keep.data());
    // the output of errors must survive whatever start-up did
}
inline int rankId() { return Base::MPIContainer::Instance().getProcessorID(); }
inline int rankCount() { return Base::MPIContainer::Instance().getNumberOfProcessors(); }

template <std::size_t DIM>
V3 toV3(const Geometry::PointPhysical<DIM>& p) {
    V3 r{0, 0, 0};
    for (std::size_t i = 0; i < DIM; ++i) r[i] = p[i];
    return r;
}
template <std::size_t DIM>
V3 toV3(const LinearAlgebra::SmallVector<DIM>& p) {
    V3 r{0, 0, 0};
    for (std::size_t i = 0; i < DIM; ++i) r[i] = p[i];
    return r;
}
template <std::size_t DIM>
V3 toV3(const Geometry::PointReference<DIM>& p) {
    V3 r{0, 0, 0};
    for (std::size_t i = 0; i < DIM; ++i) r[i] = p[i];
    return r;
}
template <std::size_t DIM>
Geometry::PointReference<DIM> refPoint(const V3& x) {
    Geometry::PointReference<DIM> p;
    for (std::size_t i = 0; i < DIM; ++i) p[i] = x[i];
    return p;
}
template <std::size_t DIM>
Geometry::PointPhysical<DIM> physPoint(const V3& x) {
    Geometry::PointPhysical<DIM> p;
    for (std::size_t i = 0; i < DIM; ++i) p[i] = x[i];
    return p;
}
inline RT typeOf(MShape s) {
    static const RT t[] = {RT::LINE, RT::TRIANGLE, RT::SQUARE, RT::TETRAHEDRON, RT::PYRAMID, RT::TRIANGULARPRISM, RT::CUBE};
    return t[s];
}

template <std::size_t DIM>
struct Loaded {
    MMesh m;
    Base::ConfigurationData config;
    std::unique_ptr<Base::MeshManipulator<DIM>> mesh;
    std::vector<Base::Element*> el;                // by model index, null when absent here
    std::map<const Base::Element*, int> indexOf;
    std::string file;
    double size = 1;  // characteristic length for tolerances

    Loaded(const MMesh& model, std::size_t unknowns = 1, std::size_t timeLevels = 1, std::size_t eM = 2,
           std::size_t eV = 2, std::size_t fM = 2, std::size_t fV = 2, int version = 2, bool hex = true)
        : m(model), config(unknowns, timeLevels) {
        static int counter = 0;
        file = str(st().scratch.empty() ? "/tmp" : st().scratch, "/m", counter++, ".", getpid() , ".hpgem");
        writeMesh(m, file, version, hex);
        mesh.reset(new Base::MeshManipulator<DIM>(&config, eM, eV, fM, fV));
        mesh->readMesh(file);
        unlink(file.c_str());
        V3 lo{1e300, 1e300, 1e300}, hi{-1e300, -1e300, -1e300};
        for (auto& n : m.nodes)
            for (auto& x : n.x)
                for (std::size_t d = 0; d < DIM; ++d) lo[d] = std::min(lo[d], x[d]), hi[d] = std::max(hi[d], x[d]);
        size = 0;
        for (std::size_t d = 0; d < DIM; ++d) size = std::max({size, hi[d] - lo[d], std::abs(hi[d]), std::abs(lo[d])});
    }
    static std::vector<double> signature(const Base::Element* e) {
        std::vector<double> s;
        auto* g = e->getPhysicalGeometry();
        for (std::size_t i = 0; i < g->getNumberOfNodes(); ++i) {
            const Geometry::PointPhysical<DIM>& p = g->getLocalNodeCoordinates(i);
            for (std::size_t d = 0; d < DIM; ++d) s.push_back(p[d]);
        }
        return s;
    }
    // identify loaded elements by their coordinates (bit for bit)
    bool match() {
        el.assign(m.el.size(), nullptr);
        indexOf.clear();
        std::map<std::vector<double>, int> by;
        for (std::size_t e = 0; e < m.el.size(); ++e) {
            std::vector<double> s;
            for (std::size_t i = 0; i < m.el[e].node.size(); ++i) {
                V3 x = m.coord(e, i);
                for (std::size_t d = 0; d < DIM; ++d) s.push_back(x[d]);
            }
            by[s] = e;
        }
        bool ok = true;
        for (Base::Element* e : mesh->getElementsList(Base::IteratorType::GLOBAL)) {
            auto it = by.find(signature(e));
            if (!expect(it != by.end(), "load:element-not-in-file", m.name, " id ", e->getID())) {
                ok = false;
                continue;
            }
            if (!expect(el[it->second] == nullptr, "load:element-twice", m.name, " element ", it->second)) ok = false;
            el[it->second] = e;
            indexOf[e] = it->second;
        }
        return ok;
    }
    bool present(int e, int rank) const { return m.el[e].owner == rank || m.el[e].shadow.count(rank); }
};
}  // namespace vf
#endif
