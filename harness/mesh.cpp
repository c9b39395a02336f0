// P01 (one process) and P04 (several): the loaded mesh against the model.
#include "loadmesh.h"
#include "Base/MeshFileInformation.h"
#include "Base/Zone.h"
#include "LinearAlgebra/MiddleSizeVector.h"
#include "Geometry/Mappings/MappingReferenceToReference.h"
#include <unistd.h>
using namespace vf;
using FT = Geometry::FaceType;
using Base::IteratorType;

static bool dist() { return rankCount() > 1; }

static std::vector<double> allMax(std::vector<double> v) {
    MPI_Allreduce(MPI_IN_PLACE, v.data(), v.size(), MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
    return v;
}
static std::vector<double> allMin(std::vector<double> v) {
    MPI_Allreduce(MPI_IN_PLACE, v.data(), v.size(), MPI_DOUBLE, MPI_MIN, MPI_COMM_WORLD);
    return v;
}
static std::vector<double> allSum(std::vector<double> v) {
    MPI_Allreduce(MPI_IN_PLACE, v.data(), v.size(), MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
    return v;
}
static void sameIds(const std::string& what, const std::vector<double>& id, std::size_t n) {
    // -1: unknown here
    std::vector<double> hi = allMax(id), lo(id);
    for (auto& x : lo)
        if (x < 0) x = 1e300;
    lo = allMin(lo);
    for (std::size_t i = 0; i < n; ++i)
        if (hi[i] >= 0) expect(hi[i] == lo[i], "dist:id-differs:" + what, what, " ", i, " ids ", lo[i], " ", hi[i]);
}

template <std::size_t DIM>
void checkMesh(const MMesh& model, Rng& r, int version, bool hex, bool firstIn1D) {
    const int rank = rankId();
    Loaded<DIM> L(model, 1 + below(r, 3), 1, 1, 1, 1, 1, version, hex);
    const MMesh& m = L.m;
    auto& mesh = *L.mesh;
    L.match();

    // ---- elements
    std::set<int> here, own;
    for (std::size_t e = 0; e < m.el.size(); ++e) {
        if (L.present(e, rank)) here.insert(e);
        if (m.el[e].owner == rank) own.insert(e);
        expect((L.el[e] != nullptr) == (here.count(e) > 0), "load:element-presence", m.name, " element ", e, " rank ", rank);
    }
    expect(mesh.getNumberOfElements(IteratorType::GLOBAL) == here.size(), "load:element-count-global");
    expect(mesh.getNumberOfElements(IteratorType::LOCAL) == own.size(), "load:element-count-local", m.name, " ",
           mesh.getNumberOfElements(IteratorType::LOCAL), " vs ", own.size());
    std::set<int> seen;
    for (Base::Element* e : mesh.getElementsList()) {
        auto it = L.indexOf.find(e);
        if (!expect(it != L.indexOf.end(), "load:local-element-unknown")) continue;
        expect(seen.insert(it->second).second, "load:local-element-twice");
        expect(own.count(it->second) > 0, "load:local-element-not-owned", m.name);
    }
    expect(seen.size() == own.size(), "load:owned-element-missing", m.name);
    std::set<std::size_t> ids;
    std::vector<double> elId(m.el.size(), -1);
    for (int e : here) {
        Base::Element* p = L.el[e];
        if (!p) continue;
        const MElement& q = m.el[e];
        const ShapeInfo& si = shapeInfo(q.shape);
        expect(ids.insert(p->getID()).second, "load:element-id-not-unique");
        elId[e] = p->getID();
        expect(p->getReferenceGeometry()->getGeometryType() == typeOf(q.shape), "load:element-shape", m.name);
        expect(p->getReferenceGeometry()->getNumberOfNodes() == q.node.size(), "load:element-node-count", m.name);
        expect(p->isOwnedByCurrentProcessor() == (q.owner == rank), "load:element-owned-flag");
        expect((int)p->getOwner() == q.owner, "load:element-owner", m.name);
        std::string zone = version == 1 ? "Main" : m.zones[q.zone];
        expect(p->getZone().getName() == zone, "load:element-zone", m.name, " got '", p->getZone().getName(), "' want '", zone, "'");
        expect(p->getNumberOfFaces() == si.faces.size(), "load:element-face-count");
        expect(p->getNumberOfNodes() == q.node.size(), "load:element-node-list");
        if (DIM == 3) expect(p->getNumberOfEdges() == si.edges.size(), "load:element-edge-count", m.name);
        for (int k = 0; k < 3; ++k) {
            auto pv = randomPoint(typeOf(q.shape), r);
            V3 x{0, 0, 0};
            for (std::size_t d = 0; d < DIM; ++d) x[d] = pv[d];
            V3 got = toV3<DIM>(p->referenceToPhysical(refPoint<DIM>(x)));
            near(dist(got, m.map(e, x)), 0.0, 1e-12 * L.size, "load:element-geometry", m.name, " ", si.name, " order ", q.order);
        }
        count("elements");
    }
    // ---- zones
    {
        std::vector<std::string> want = version == 1 ? std::vector<std::string>{"Main"} : m.zones;
        auto& z = mesh.getZones();
        if (expect(z.size() == want.size(), "load:zone-count"))
            for (std::size_t i = 0; i < z.size(); ++i) {
                expect(z[i]->getName() == want[i], "load:zone-name", z[i]->getName());
                expect(z[i]->getZoneId() == i, "load:zone-id");
            }
    }
    // ---- nodes
    std::map<std::pair<int, int>, int> nodeAt;  // (element, local) -> model node
    std::vector<std::set<std::pair<int, int>>> at(m.nodes.size());
    for (int e : here)
        for (std::size_t i = 0; i < m.el[e].node.size(); ++i) {
            nodeAt[{e, (int)i}] = m.el[e].node[i];
            at[m.el[e].node[i]].insert({e, (int)i});
        }
    std::size_t nodesHere = 0;
    for (auto& n : m.nodes) nodesHere += n.parts.count(rank);
    expect(mesh.getNumberOfNodes(IteratorType::GLOBAL) == nodesHere, "load:node-count", m.name, " ",
           mesh.getNumberOfNodes(IteratorType::GLOBAL), " vs ", nodesHere);
    std::vector<double> nodeId(m.nodes.size(), -1), nodeOwn(m.nodes.size(), 0);
    std::map<const Base::Node*, int> nodeIndex;
    std::set<std::size_t> nids;
    for (Base::Node* n : mesh.getNodesList(IteratorType::GLOBAL)) {
        std::set<std::pair<int, int>> a;
        for (std::size_t i = 0; i < n->getNumberOfElements(); ++i) {
            auto it = L.indexOf.find(n->getElement(i));
            if (!expect(it != L.indexOf.end(), "load:node-unknown-element")) continue;
            expect(a.insert({it->second, (int)n->getNodeNumber(i)}).second, "load:node-element-twice");
            expect(n->getElement(i)->getNode(n->getNodeNumber(i)) == n, "load:node-backlink", m.name);
            // topological number: position of the corner, or -1
            auto& q = m.el[it->second];
            auto c = std::find(q.corner.begin(), q.corner.end(), (int)n->getNodeNumber(i));
            long long want = c == q.corner.end() ? -1 : c - q.corner.begin();
            expect(n->getTopologicalNodeNumber(i) == want, "load:node-topological-number", m.name);
        }
        if (!expect(!a.empty(), "load:node-without-elements", m.name)) continue;
        int id = nodeAt[*a.begin()];
        expect(at[id] == a, "load:node-adjacency", m.name, " node ", id, " has ", a.size(), " of ", at[id].size());
        expect(nodeId[id] < 0, "load:node-twice");
        expect(nids.insert(n->getID()).second, "load:node-id-not-unique");
        nodeId[id] = n->getID();
        nodeIndex[n] = id;
        nodeOwn[id] = n->isOwnedByCurrentProcessor();
        // all elements of the node are here when one of them is owned here
        bool touches = false;
        for (auto& p : a) touches |= own.count(p.first) > 0;
        if (touches) {
            auto* oe = n->getOwningElement();
            expect(oe && oe->isOwnedByCurrentProcessor() == n->isOwnedByCurrentProcessor(), "load:node-owner");
        }
        count("nodes");
    }
    // ---- faces
    std::map<std::pair<int, int>, int> faceOf;
    for (std::size_t f = 0; f < m.faces.size(); ++f)
        for (auto& p : m.faces[f].el) faceOf[p] = f;
    std::vector<double> faceId(m.faces.size(), -1), faceOwn(m.faces.size(), 0);
    std::map<const Base::Face*, int> faceIndex;
    std::set<std::size_t> fids;
    std::size_t facesHere = 0;
    for (auto& f : m.faces) {
        bool any = false;
        for (auto& p : f.el) any |= here.count(p.first) > 0;
        if (any) ++facesHere;
        if (DIM > 1) expect(any == (f.parts.count(rank) > 0), "model:face-parts");
    }
    expect(mesh.getNumberOfFaces(IteratorType::GLOBAL) == facesHere, "load:face-count", m.name, " ",
           mesh.getNumberOfFaces(IteratorType::GLOBAL), " vs ", facesHere);
    for (Base::Face* f : mesh.getFacesList(IteratorType::GLOBAL)) {
        auto* l = f->getPtrElementLeft();
        auto il = L.indexOf.find(l);
        if (!expect(il != L.indexOf.end(), "load:face-unknown-element")) continue;
        std::pair<int, int> pl{il->second, (int)f->localFaceNumberLeft()};
        auto fi = faceOf.find(pl);
        if (!expect(fi != faceOf.end(), "load:face-not-in-file", m.name)) continue;
        const MEntity& q = m.faces[fi->second];
        expect(faceId[fi->second] < 0, "load:face-twice", m.name);
        expect(fids.insert(f->getID()).second, "load:face-id-not-unique");
        faceId[fi->second] = f->getID();
        faceIndex[f] = fi->second;
        faceOwn[fi->second] = f->isOwnedByCurrentProcessor();
        expect(l->getFace(pl.second) == f, "load:face-backlink-left", m.name);
        int nHere = 0;
        for (auto& p : q.el) nHere += here.count(p.first);
        bool wantInternal = nHere == 2;
        expect(f->isInternal() == wantInternal, "load:face-internal", m.name, " type ", f->getFaceType());
        std::set<std::pair<int, int>> a{pl}, want;
        for (auto& p : q.el)
            if (here.count(p.first)) want.insert(p);
        FT type = FT::WALL_BC;
        if (f->isInternal()) {
            auto* rr = f->getPtrElementRight();
            auto ir = L.indexOf.find(rr);
            if (!expect(ir != L.indexOf.end(), "load:face-unknown-element")) continue;
            std::pair<int, int> pr{ir->second, (int)f->localFaceNumberRight()};
            a.insert(pr);
            expect(rr->getFace(pr.second) == f, "load:face-backlink-right", m.name);
            expect(f->getPtrOtherElement(l) == rr && f->getPtrOtherElement(rr) == l, "load:face-other-element");
            // does it join the same physical points?
            auto fc = [&](const std::pair<int, int>& p) {
                std::set<Key> s;
                for (int c : m.faceCorners(p.first, p.second)) s.insert(m.el[p.first].key[c]);
                return s;
            };
            bool periodic = fc(pl) != fc(pr);
            bool ghost = !own.count(pl.first) || !own.count(pr.first);
            type = periodic ? (ghost ? FT::PERIODIC_SUBDOMAIN_BC : FT::PERIODIC_BC)
                            : (ghost ? FT::SUBDOMAIN_BOUNDARY : FT::INTERNAL);
            count(periodic ? "periodic-faces" : "internal-faces");
            // geometry from both sides
            if (a == want) {
                V3 shift{0, 0, 0};
                bool first = true;
                RT ft = f->getReferenceGeometry()->getGeometryType();
                // the second side sees a quadrilateral turned by 90 degrees
                bool turned = false;
                if (ft == RT::SQUARE) {
                    auto A = m.faceCorners(pl.first, pl.second), B = m.faceCorners(pr.first, pr.second);
                    auto n = [&](int e, int c) { return m.el[e].node[c]; };
                    int p0 = -1, p1 = -1;
                    for (int i = 0; i < 4; ++i) {
                        if (n(pr.first, B[i]) == n(pl.first, A[0])) p0 = i;
                        if (n(pr.first, B[i]) == n(pl.first, A[1])) p1 = i;
                    }
                    turned = (p0 == 1 && p1 == 3) || (p0 == 2 && p1 == 0);
                    if (turned) count("quarter-turn-faces");
                }
                for (int k = 0; k < 4; ++k) {
                    auto pv = randomPoint(ft, r);
                    auto pf = toPoint<DIM - 1>(pv);
                    V3 xl = toV3<DIM>(l->template referenceToPhysical<DIM>(f->mapRefFaceToRefElemL(pf)));
                    V3 xr = toV3<DIM>(rr->template referenceToPhysical<DIM>(f->mapRefFaceToRefElemR(pf)));
                    V3 d = sub(xr, xl);
                    std::string how;
                    if (turned) {
                        // known finding: the inverse turn is used, which looks
                        // like the opposite point of the face
                        auto po = pf;
                        for (std::size_t i = 0; i + 1 < DIM; ++i) po[i] = -pf[i];
                        V3 xo = toV3<DIM>(l->template referenceToPhysical<DIM>(f->mapRefFaceToRefElemL(po)));
                        V3 c = toV3<DIM>(l->template referenceToPhysical<DIM>(f->mapRefFaceToRefElemL(refPoint<DIM - 1>(V3{0, 0, 0}))));
                        V3 cr = toV3<DIM>(rr->template referenceToPhysical<DIM>(f->mapRefFaceToRefElemR(refPoint<DIM - 1>(V3{0, 0, 0}))));
                        V3 mid = sub(cr, c);
                        how = dist(sub(xr, xo), mid) < 1e-11 * L.size ? ":quarter-turn-reversed" : ":quarter-turn";
                        near(dist(d, mid), 0.0, 1e-11 * L.size, "load:face-points-differ" + how, m.name);
                        continue;
                    }
                    if (first) {
                        shift = d;
                        first = false;
                        // the shift must be a lattice translation
                        V3 want{0, 0, 0};
                        if (periodic) {
                            // average corner of both sides
                            V3 cl{0, 0, 0}, cr{0, 0, 0};
                            auto A = m.faceCorners(pl.first, pl.second), B = m.faceCorners(pr.first, pr.second);
                            for (int c : A) cl = add(cl, m.coord(pl.first, c), 1. / A.size());
                            for (int c : B) cr = add(cr, m.coord(pr.first, c), 1. / B.size());
                            want = sub(cr, cl);
                        }
                        near(dist(d, want), 0.0, 1e-11 * L.size, str("load:face-translation:", nameOf(ft), f->getFaceToFaceMapIndex()), m.name);
                    } else {
                        near(dist(d, shift), 0.0, 1e-11 * L.size, str("load:face-points-differ:", nameOf(ft), f->getFaceToFaceMapIndex()), m.name, " face of ",
                             shapeInfo(m.el[pl.first].shape).name, " ", shapeInfo(m.el[pr.first].shape).name);
                    }
                    if (DIM == 1) break;
                }
                distinct(str(shapeInfo(m.el[pl.first].shape).name, pl.second, "-", shapeInfo(m.el[pr.first].shape).name, pr.second,
                             " code ", f->getFaceToFaceMapIndex(), periodic ? " periodic" : "", " order ", m.el[pl.first].order));
            }
        } else {
            if (q.el.size() == 2) type = DIM == 1 ? FT::WALL_BC : FT::PARTIAL_FACE;
            count("boundary-faces");
        }
        expect(a == want, "load:face-elements", m.name, " face ", fi->second, " joins ", a.size(), " want ", want.size());
        if (!(DIM == 1 && q.el.size() == 2 && nHere == 1))
            expect(f->getFaceType() == type, "load:face-type", m.name, " got ", f->getFaceType(), " want ", type, " rank ", rank);
        // the owner is the first element named in the file
        bool known = nHere == 2;
        for (auto& p : q.el)
            if (here.count(p.first))
                for (int c : m.faceCorners(p.first, p.second))
                    for (auto& at1 : at[m.el[p.first].node[c]]) known |= own.count(at1.first) > 0;
        if (nHere == (int)q.el.size() && known) {
            bool owns = own.count(L.indexOf[f->getOwningElement()]) > 0;
            expect(owns == f->isOwnedByCurrentProcessor(), "load:face-owner-flag");
        }
        // nodes of the face
        if (nHere == 2 && f->isInternal() && DIM > 1) {
            auto ll = l->getPhysicalGeometry()->getLocalFaceNodeIndices(f->localFaceNumberLeft());
            auto lr = f->getPtrElementRight()->getPhysicalGeometry()->getLocalFaceNodeIndices(f->localFaceNumberRight());
            std::set<const Base::Node*> A, B;
            for (auto i : ll) A.insert(l->getNode(i));
            for (auto i : lr) B.insert(f->getPtrElementRight()->getNode(i));
            expect(A == B, "load:face-nodes-differ", m.name);
        }
        count("faces");
    }
    // faces of a node
    {
        int k = 0;
        for (auto& p : nodeIndex) {
            if (++k > 12) break;
            std::set<int> want, got;
            for (auto& a : at[p.second]) {
                const ShapeInfo& si = shapeInfo(m.el[a.first].shape);
                for (std::size_t f = 0; f < si.faces.size(); ++f) {
                    auto fn = L.el[a.first]->getPhysicalGeometry()->getLocalFaceNodeIndices(f);
                    if (std::find(fn.begin(), fn.end(), (std::size_t)a.second) != fn.end()) want.insert(faceOf[{a.first, (int)f}]);
                }
            }
            std::size_t n = 0;
            for (auto* f : p.first->getFaces()) got.insert(faceIndex.count(f) ? faceIndex[f] : -1), ++n;
            expect(got == want && n == want.size(), "load:node-faces", m.name, " ", n, " of ", want.size());
        }
    }
    // ---- edges
    std::vector<double> edgeId(m.edges.size(), -1), edgeOwn(m.edges.size(), 0);
    if (DIM == 3) {
        std::map<std::pair<int, int>, int> edgeOf;
        std::size_t edgesHere = 0;
        for (std::size_t f = 0; f < m.edges.size(); ++f) {
            bool any = false;
            for (auto& p : m.edges[f].el) edgeOf[p] = f, any |= here.count(p.first) > 0;
            edgesHere += any;
        }
        expect(mesh.getNumberOfEdges(IteratorType::GLOBAL) == edgesHere, "load:edge-count", m.name);
        for (Base::Edge* g : mesh.getEdgesList(IteratorType::GLOBAL)) {
            std::set<std::pair<int, int>> a, want;
            for (std::size_t i = 0; i < g->getNumberOfElements(); ++i) {
                auto it = L.indexOf.find(g->getElement(i));
                if (!expect(it != L.indexOf.end(), "load:edge-unknown-element")) continue;
                expect(a.insert({it->second, (int)g->getEdgeNumber(i)}).second, "load:edge-element-twice");
                expect(g->getElement(i)->getEdge(g->getEdgeNumber(i)) == g, "load:edge-backlink");
            }
            if (!expect(!a.empty(), "load:edge-without-elements")) continue;
            int id = edgeOf[*a.begin()];
            for (auto& p : m.edges[id].el)
                if (here.count(p.first)) want.insert(p);
            expect(a == want, "load:edge-adjacency", m.name);
            expect(edgeId[id] < 0, "load:edge-twice");
            edgeId[id] = g->getID();
            edgeOwn[id] = g->isOwnedByCurrentProcessor();
            count("edges");
        }
    }
    // every element reaches all of its parts
    for (int e : here) {
        if (!L.el[e]) continue;
        for (auto* f : L.el[e]->getFacesList()) expect(f != nullptr && faceIndex.count(f), "load:element-face-missing", m.name);
        for (auto* n : L.el[e]->getNodesList()) expect(n != nullptr && nodeIndex.count(n), "load:element-node-missing");
        if (DIM == 3)
            for (auto* g : L.el[e]->getEdgesList()) expect(g != nullptr, "load:element-edge-missing");
    }
    if (dist()) {
        sameIds("element", elId, m.el.size());
        sameIds("node", nodeId, m.nodes.size());
        if (DIM > 1 || firstIn1D) sameIds("face", faceId, m.faces.size());
        if (DIM == 3) sameIds("edge", edgeId, m.edges.size());
        auto once = [&](const std::string& w, std::vector<double> v) {
            v = allSum(v);
            for (std::size_t i = 0; i < v.size(); ++i) expect(v[i] == 1, "dist:owners:" + w, w, " ", i, " owned by ", v[i], " processes ", m.name);
        };
        once("node", nodeOwn);
        once("face", faceOwn);
        if (DIM == 3) once("edge", edgeOwn);
        // push / pull
        auto ids = [&](const std::vector<Base::Element*>& v) {
            std::vector<int> r;
            for (auto* e : v) r.push_back(L.indexOf.count(e) ? L.indexOf[e] : -1);
            return r;
        };
        int n = rankCount();
        const auto& push = mesh.getPushElements();
        const auto& pull = mesh.getPullElements();
        for (int q = 0; q < n; ++q) {
            std::set<int> wantPush, wantPull;
            if (q != rank) {
                for (int e : own)
                    if (m.el[e].shadow.count(q)) wantPush.insert(e);
                for (int e : here)
                    if (m.el[e].owner == q) wantPull.insert(e);
            }
            std::vector<int> a = push.count(q) ? ids(push.at(q)) : std::vector<int>();
            std::vector<int> b = pull.count(q) ? ids(pull.at(q)) : std::vector<int>();
            expect(std::set<int>(a.begin(), a.end()) == wantPush && a.size() == wantPush.size(), "dist:push-set", m.name);
            expect(std::set<int>(b.begin(), b.end()) == wantPull && b.size() == wantPull.size(), "dist:pull-set", m.name);
            // order: what I push to q is what q pulls from me
            for (int s = 0; s < n; ++s) {
                // rank s sends its push list for q to q
                if (s == q) continue;
                if (rank == s) {
                    int len = a.size();
                    MPI_Send(&len, 1, MPI_INT, q, 7, MPI_COMM_WORLD);
                    MPI_Send(a.data(), len, MPI_INT, q, 8, MPI_COMM_WORLD);
                }
                if (rank == q) {
                    int len = 0;
                    MPI_Recv(&len, 1, MPI_INT, s, 7, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
                    std::vector<int> got(len);
                    MPI_Recv(got.data(), len, MPI_INT, s, 8, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
                    std::vector<int> mine = pull.count(s) ? ids(pull.at(s)) : std::vector<int>();
                    expect(got == mine, "dist:push-pull-order", m.name, " ", s, "->", q);
                    count("push-pull-lists");
                }
            }
        }
        // exchange through hpGEM's own message layer, with delays
        auto& C = Base::MPIContainer::Instance();
        for (int round = 0; round < 2; ++round) {
            std::map<int, LinearAlgebra::MiddleSizeVector> data;
            for (int e : here) {
                std::size_t len = 1 + (e * 7 + round) % 5;
                data[e].resize(len);
                for (std::size_t i = 0; i < len; ++i) data[e][i] = own.count(e) ? e * 10. + i + round * 1000. : -1.;
            }
            if (below(r, 2)) usleep(below(r, 400) * (1 + rank));
            auto sends = [&]() {
                for (auto& p : push)
                    for (auto* e : p.second) C.send(data[L.indexOf[e]], p.first, 2 * e->getID() + 1);
            };
            auto recvs = [&]() {
                for (auto& p : pull)
                    for (auto* e : p.second) C.receive(data[L.indexOf[e]], p.first, 2 * e->getID() + 1);
            };
            if (below(r, 2)) {
                sends();
                recvs();
            } else {
                recvs();
                sends();
            }
            C.sync();
            for (int e : here)
                for (std::size_t i = 0; i < data[e].size(); ++i)
                    expect(std::abs(data[e][i] - (e * 10. + i + round * 1000.)) == 0, "dist:exchange", "element ", e, " rank ", rank, " ", m.name);
            count("exchanged-elements", here.size() - own.size());
        }
        distinct(str("rank ", rank, " of ", n, " own ", own.size(), " ghosts ", here.size() - own.size(), " ", m.name));
    } else {
        distinct(m.name);
        // where is this point?
        for (int k = 0; k < 6; ++k) {
            int e = below(r, m.el.size());
            if (m.el[e].order > 1) continue;
            auto pv = randomPoint(typeOf(m.el[e].shape), r);
            V3 x{0, 0, 0}, c{0, 0, 0};
            for (std::size_t d = 0; d < DIM; ++d) x[d] = pv[d];
            for (auto& p : shapeInfo(m.el[e].shape).pts) c = add(c, p, 1. / shapeInfo(m.el[e].shape).pts.size());
            x = add(c, sub(x, c), 0.9);
            V3 X = m.map(e, x);
            bool affine = true;
            for (auto& q : m.el) affine &= (q.shape == LINE || q.shape == TRI || q.shape == TET || m.affineElements) && q.order == 1;
            if (!affine) continue;
            auto res = mesh.physicalToReference(physPoint<DIM>(X));
            expect(L.indexOf.count(std::get<0>(res)) && L.indexOf[std::get<0>(res)] == e, "load:locate-element", m.name);
            near(dist(toV3<DIM>(std::get<1>(res)), x), 0.0, 1e-8, "load:locate-point", m.name);
            count("located-points");
        }
    }
    // ---- header information
    {
        std::string f = str(st().scratch, "/hdr.", rank, ".hpgem");
        writeMesh(m, f, version, hex);
        auto info = Base::MeshFileInformation::readInformation(f);
        expect(info.version == (std::size_t)version && info.dimension == DIM, "header:version");
        expect(info.entityCount[0] == m.nodes.size() && info.entityCount[DIM] == m.el.size(), "header:counts");
        if (DIM > 1) expect(info.entityCount[DIM - 1] == m.faces.size(), "header:faces");
        if (DIM > 2) expect(info.entityCount[1] == m.edges.size(), "header:edges");
        expect(info.getProcessorCount() == m.nParts, "header:partitions");
        expect(info.zoneNames == (version == 1 ? std::vector<std::string>{"Main"} : m.zones), "header:zones");
        unlink(f.c_str());
    }
}

static void runAll() {
    int n = rankCount();
    // the same stream on every process: all see the same meshes
    Rng r = rng("mesh" + arg("salt"));
    int total = std::stoi(arg("cases", st().thorough ? "12000" : "1500"));
    bool first1D = true;
    for (int c = 0; c < total; ++c) {
        // in parallel runs the ids of faces are only meaningful as long as no
        // line mesh was loaded before: lines have their own runs there
        int dim = 1 + (c % 7 < 1 ? 0 : c % 7 < 3 ? 1 : 2);
        if (n > 1) dim = arg("dims") == "1" ? 1 : c % 3 ? 3 : 2;
        ZooOptions o = randomOptions(dim, r, st().thorough ? 2 : n > 1 ? 1 : 0);
        if (dim == 1 && n > 1) o.n[0] = std::max<int>(o.n[0], 2 + below(r, 12));
        if (n > 1 && dim > 1)
            for (int d = 0; d < dim; ++d) o.n[d] = std::max(o.n[d], o.periodic[d] ? 2 : 1);
        o.nParts = n;
        o.partStyle = below(r, 4);
        o.reflectAllowed = below(r, 6) == 0;
        o.quarterTurns = n == 1 && below(r, 6) == 0;
        if (c == 6 && n == 1) {
            // always some hexahedra with all relative orientations
            o.style = 0;
            o.n = {3, 3, 3};
            o.holes = 0;
            o.quarterTurns = true;
        }
        int version = below(r, 4) == 0 ? 1 : 2;
        bool hex = below(r, 2);
        MMesh m = makeMesh(o, r);
        Rng rc(r());
        begin(str("mesh case ", c, " v", version, " ", m.name));
        auto body = [&]() {
            if (dim == 1)
                checkMesh<1>(m, rc, version, hex, first1D);
            else if (dim == 2)
                checkMesh<2>(m, rc, version, hex, false);
            else
                checkMesh<3>(m, rc, version, hex, false);
        };
        if (!guard("mesh", body) && n > 1) {
            writeReport();
            MPI_Abort(MPI_COMM_WORLD, 3);
        }
        if (dim == 1) first1D = false;
    }
}

int main(int argc, char** argv) {
    startHpgem(argc, argv);
    runAll();
    int rc = finish();
    if (rankCount() > 1) MPI_Barrier(MPI_COMM_WORLD);
    return rc;
}
