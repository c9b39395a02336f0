// P06: global matrices and vectors equal the sum of the local contributions;
// exchange with time integration vectors is lossless; the sparsity estimate
// is exact.
#include "dofs.h"
#include "Base/FaceMatrix.h"
#include "Utilities/GlobalIndexing.h"
#include "Utilities/SparsityEstimator.h"
#include "Utilities/GlobalMatrix.h"
#include "Utilities/GlobalVector.h"
#include <algorithm>
using namespace vf;
using Utilities::GlobalIndexing;
using Base::IteratorType;
using S = LinearAlgebra::MiddleSizeMatrix::type;
static const char* layoutName[] = {"sequential", "blocked-processor", "blocked-global"};

static S value(std::uint64_t seed, int kind, int entity, int i, int j) {
#ifdef HPGEM_USE_COMPLEX_PETSC
    return S(hashValue(seed, kind, entity, i, j), hashValue(seed + 77, kind, entity, i, j));
#else
    return hashValue(seed, kind, entity, i, j);
#endif
}
static S keyValue(std::uint64_t seed, const DofKey& k) { return value(seed, k.u, k.kind * 1000003 + k.entity, k.i, 0); }

struct Triplet {
    int i, j;
    S v;
    int columnOwner;  // process that owns the column
};
struct Single {
    int i;
    S v;
};

template <std::size_t DIM>
struct Case {
    Dofs<DIM>& D;
    Loaded<DIM>& L;
    Rng& r;
    std::string what;
    std::map<const Base::Face*, int> modelFace;
    Case(Dofs<DIM>& d, Rng& rr) : D(d), L(d.L), r(rr) {
        what = str(L.m.name, " ", D.name);
        for (std::size_t e = 0; e < L.el.size(); ++e)
            if (L.el[e])
                for (auto& p : D.faceOf[e]) modelFace[L.el[e]->getFace(p.first)] = p.second;
    }
    // the keys of an element matrix, in its order
    std::vector<DofKey> elementKeys(int e, const std::vector<std::size_t>& in) {
        std::vector<DofKey> k;
        for (auto u : in)
            for (auto& x : D.keys(e, u)) k.push_back(x);
        return k;
    }
    std::vector<DofKey> faceKeys(const Base::Face* f, const std::vector<std::size_t>& in) {
        auto k = elementKeys(L.indexOf.at(f->getPtrElementLeft()), in);
        if (f->isInternal())
            for (auto& x : elementKeys(L.indexOf.at(f->getPtrElementRight()), in)) k.push_back(x);
        return k;
    }
    // fill the local matrices; also on ghosts, which must not contribute twice
    void fillMatrices(std::uint64_t seed, const std::vector<std::size_t>& rows, const std::vector<std::size_t>& cols, bool faces, const Utilities::Table2D<bool>& couple, int id) {
        for (std::size_t e = 0; e < L.el.size(); ++e) {
            if (!L.el[e]) continue;
            auto a = elementKeys(e, rows), b = elementKeys(e, cols);
            LinearAlgebra::MiddleSizeMatrix m(a.size(), b.size());
            for (std::size_t i = 0; i < a.size(); ++i)
                for (std::size_t j = 0; j < b.size(); ++j) m(i, j) = value(seed, 11, e, i, j);
            L.el[e]->setElementMatrix(m, id);
        }
        if (!faces) return;
        for (Base::Face* f : L.mesh->getFacesList(IteratorType::GLOBAL)) {
            auto a = faceKeys(f, rows), b = faceKeys(f, cols);
            std::size_t nl = elementKeys(L.indexOf.at(f->getPtrElementLeft()), rows).size();
            Base::FaceMatrix m(nl, a.size() - nl);
            for (std::size_t i = 0; i < a.size(); ++i)
                for (std::size_t j = 0; j < b.size(); ++j)
                    m(i, j) = coupled(couple, rows, cols, a[i].u, b[j].u) ? value(seed, 12, modelFace.at(f), i, j) : S(0);
            f->setFaceMatrix(m, id);
        }
    }
    static bool coupled(const Utilities::Table2D<bool>& t, const std::vector<std::size_t>& rows, const std::vector<std::size_t>& cols, int u, int v) {
        return t(std::find(rows.begin(), rows.end(), u) - rows.begin(), std::find(cols.begin(), cols.end(), v) - cols.begin());
    }
    // contributions of all processes; entries of the faces without coupling are left out
    std::vector<Triplet> contributions(std::uint64_t seed, const GlobalIndexing& I, const GlobalIndexing& J, bool faces, const Utilities::Table2D<bool>& couple) {
        auto rows = I.getIncludedUnknowns(), cols = J.getIncludedUnknowns();
        std::vector<Triplet> t;
        std::map<int, int> owner;
        for (auto& p : ownedIndices(J)) owner[p.first] = p.second;
        for (std::size_t e = 0; e < L.el.size(); ++e) {
            if (!L.el[e] || L.m.el[e].owner != rankId()) continue;
            auto a = I.getGlobalIndices(L.el[e]), b = J.getGlobalIndices(L.el[e]);
            for (std::size_t i = 0; i < a.size(); ++i)
                for (std::size_t j = 0; j < b.size(); ++j) t.push_back({a[i], b[j], value(seed, 11, e, i, j), owner[b[j]]});
        }
        if (faces)
            for (Base::Face* f : L.mesh->getFacesList(IteratorType::GLOBAL)) {
                int left = L.indexOf.at(f->getPtrElementLeft());
                if (L.m.el[left].owner != rankId()) continue;
                std::vector<int> a, b;
                I.getGlobalIndices(f, a);
                J.getGlobalIndices(f, b);
                auto ka = faceKeys(f, rows), kb = faceKeys(f, cols);
                for (std::size_t i = 0; i < a.size(); ++i)
                    for (std::size_t j = 0; j < b.size(); ++j)
                        if (coupled(couple, rows, cols, ka[i].u, kb[j].u)) t.push_back({a[i], b[j], value(seed, 12, modelFace.at(f), i, j), owner[b[j]]});
            }
        return gatherAll(t);
    }
    // every global index with the process that owns it
    std::vector<std::pair<int, int>> ownedIndices(const GlobalIndexing& I) {
        std::vector<int> mine;
        for (std::size_t e = 0; e < L.el.size(); ++e)
            if (L.el[e])
                for (auto u : I.getIncludedUnknowns())
                    D.entities(e, u, [&](int, int, const auto* g, std::size_t n, std::size_t) {
                        if (n && g->isOwnedByCurrentProcessor())
                            for (std::size_t i = 0; i < n; ++i) mine.push_back(I.getGlobalIndex(g, u) + i);
                    });
        std::sort(mine.begin(), mine.end());
        mine.erase(std::unique(mine.begin(), mine.end()), mine.end());
        std::vector<int> from;
        auto all = gatherAll(mine, &from);
        std::vector<std::pair<int, int>> r;
        for (std::size_t i = 0; i < all.size(); ++i) r.push_back({all[i], from[i]});
        return r;
    }
    void compareMatrix(Mat A, const std::vector<Triplet>& t, const std::string& key, const std::string& detail, const std::set<int>& cleared = {}, double diagonal = 0) {
        std::map<std::pair<int, int>, std::pair<S, double>> want;
        for (auto& x : t) {
            if (cleared.count(x.i)) continue;
            auto& w = want[{x.i, x.j}];
            w.first += x.v;
            w.second += std::abs(x.v);
        }
        for (int i : cleared) want[{i, i}] = {S(diagonal), 1};
        PetscInt lo, hi;
        MatGetOwnershipRange(A, &lo, &hi);
        std::set<std::pair<int, int>> found;
        bool right = true;
        std::string first;
        for (PetscInt i = lo; i < hi; ++i) {
            PetscInt n;
            const PetscInt* c;
            const PetscScalar* v;
            MatGetRow(A, i, &n, &c, &v);
            for (PetscInt k = 0; k < n; ++k) {
                auto w = want.find({i, c[k]});
                S e = w == want.end() ? S(0) : w->second.first;
                double tol = 1e-12 * (w == want.end() ? 0 : w->second.second);
                found.insert({i, c[k]});
                if (std::abs(S(v[k]) - e) > tol && right) right = false, first = str("row ", i, " column ", c[k], " is ", std::abs(v[k]), " vs ", std::abs(e));
            }
            MatRestoreRow(A, i, &n, &c, &v);
        }
        for (auto& w : want)
            if (w.first.first >= lo && w.first.first < hi) {
                count("matrix-entries");
                if (!found.count(w.first) && std::abs(w.second.first) > 1e-12 * w.second.second && right) right = false, first = str("row ", w.first.first, " column ", w.first.second, " is missing");
            }
        int all = right;
        MPI_Allreduce(MPI_IN_PLACE, &all, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
        expect(right, key, what, " ", detail, " ", first);
        count("matrices");
    }
    void checkSparsity(const GlobalIndexing& I, const GlobalIndexing& J, const std::vector<Triplet>& t, const std::pair<std::vector<int>, std::vector<int>>& got, const std::string& detail) {
        std::map<int, std::pair<std::set<int>, std::set<int>>> want;
        for (auto& x : t) {
            int l = I.globalToProcessorLocalIndex(x.i);
            if (l < 0) continue;
            (x.columnOwner == rankId() ? want[l].first : want[l].second).insert(x.j);
        }
        std::size_t n = I.getNumberOfLocalBasisFunctions();
        if (!expect(got.first.size() == n && got.second.size() == n, "sparsity:size", what, " ", detail)) return;
        for (std::size_t l = 0; l < n; ++l) {
            auto& w = want[l];
            expect(got.first[l] == (int)w.first.size(), got.first[l] < (int)w.first.size() ? "sparsity:owned:under" : "sparsity:owned:over", what, " ", detail, " row ", l, " ", got.first[l], " vs ", w.first.size());
            expect(got.second[l] == (int)w.second.size(), got.second[l] < (int)w.second.size() ? "sparsity:ghost:under" : "sparsity:ghost:over", what, " ", detail, " row ", l, " ", got.second[l], " vs ", w.second.size());
        }
        count("sparsity-rows", n);
    }
    std::vector<std::size_t> subset(bool& all) { return D.randomSubset(r, all); }
    Utilities::Table2D<bool> randomCoupling(const std::vector<std::size_t>& rows, const std::vector<std::size_t>& cols, bool full) {
        Utilities::Table2D<bool> t(rows.size(), cols.size(), false);
        for (std::size_t i = 0; i < rows.size(); ++i)
            for (std::size_t j = 0; j < cols.size(); ++j) {
                bool b = full || below(r, 3) > 0;
                // rows with functions on faces, edges or nodes are refused on several processes
                if (rankCount() > 1 && D.conforming[rows[i]]) b = false;
                t(i, j) = b;
            }
        return t;
    }
    // PETSc stores rows [start, start + local size) on a process, and that is
    // where the estimated sizes go, so those must be the rows it owns
    void rowPlacement() {
        for (int l = 0; l < 3; ++l) {
            GlobalIndexing I(L.mesh.get(), GlobalIndexing::Layout(l));
            long n = I.getNumberOfLocalBasisFunctions(), start = 0;
            MPI_Exscan(&n, &start, 1, MPI_LONG, MPI_SUM, MPI_COMM_WORLD);
            if (rankId() == 0) start = 0;
            bool here = true;
            for (long i = start; i < start + n; ++i) here &= I.globalToProcessorLocalIndex(i) == i - start;
            expect(here, str("assemble:matrix:rows-not-on-owner:", layoutName[l]), what);
        }
    }
    GlobalIndexing::Layout randomLayout() {
        // the globally blocked layout fails on several processes, see rowPlacement
        return GlobalIndexing::Layout(below(r, rankCount() > 1 && arg("globalblock").empty() ? 2 : 3));
    }

    // PETSc keeps explicit zeros on the diagonal: does an uncoupled entry of
    // a face matrix lie there, outside the estimated pattern?
    bool zeroOnDiagonal(const GlobalIndexing& I, const GlobalIndexing& J, const std::vector<Triplet>& t, const Utilities::Table2D<bool>& couple) {
        auto rows = I.getIncludedUnknowns(), cols = J.getIncludedUnknowns();
        std::set<int> pattern;
        for (auto& x : t)
            if (x.i == x.j) pattern.insert(x.i);
        int bad = 0;
        for (Base::Face* f : L.mesh->getFacesList(IteratorType::GLOBAL)) {
            std::vector<int> a, b;
            I.getGlobalIndices(f, a);
            J.getGlobalIndices(f, b);
            auto ka = faceKeys(f, rows), kb = faceKeys(f, cols);
            for (std::size_t i = 0; i < a.size(); ++i)
                for (std::size_t j = 0; j < b.size(); ++j)
                    if (a[i] == b[j] && !pattern.count(a[i]) && !coupled(couple, rows, cols, ka[i].u, kb[j].u)) bad = 1;
        }
        MPI_Allreduce(MPI_IN_PLACE, &bad, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
        return bad;
    }

    // face coupling that involves conforming rows is not supported on several
    // processes, but then it has to be refused
    void couplings(int times) {
        for (int k = 0; k < times; ++k) {
            bool all;
            auto rows = subset(all), cols = rows;
            if (below(r, 2)) cols = subset(all);
            GlobalIndexing I(L.mesh.get(), GlobalIndexing::Layout(below(r, 3)), &rows), J(L.mesh.get(), GlobalIndexing::Layout(below(r, 3)), &cols);
            Utilities::Table2D<bool> any(rows.size(), cols.size(), false);
            for (std::size_t i = 0; i < rows.size(); ++i)
                for (std::size_t j = 0; j < cols.size(); ++j) any(i, j) = below(r, 2);
            auto tt = contributions(1, I, J, true, any);
            std::pair<std::vector<int>, std::vector<int>> got;
            bool refused = false;
            Utilities::SparsityEstimator est(I, J);
            try {
                got = est.computeSparsityEstimate(any);
            } catch (HpgemError&) {
                refused = true;
            }
            bool reason = false;
            for (std::size_t i = 0; i < rows.size(); ++i)
                for (std::size_t j = 0; j < cols.size(); ++j) reason |= rankCount() > 1 && any(i, j) && D.conforming[rows[i]];
            std::string detail = str("unknowns ", rows.size(), "/", cols.size(), reason ? " with conforming rows" : "");
            if (refused) expect(reason, "sparsity:refused-legal-coupling", what, " ", detail);
            else checkSparsity(I, J, tt, got, detail);
            count(refused ? "coupling-refused" : "coupling-estimated");
        }
    }

    void matrices() {
        bool allR, allC;
        auto rows = subset(allR), cols = rows;
        bool same = below(r, 2), faces = below(r, 2);
        allC = allR;
        if (!same && !faces && below(r, 2)) cols = subset(allC);
        auto layoutR = randomLayout(), layoutC = same ? layoutR : randomLayout();
        GlobalIndexing I(L.mesh.get(), layoutR, allR ? nullptr : &rows), other;
        if (!same) other.reset(L.mesh.get(), layoutC, allC ? nullptr : &cols);
        const GlobalIndexing& J = same ? I : other;
        bool anyConformingRow = false;
        for (auto u : rows) anyConformingRow |= D.conforming[u];
        bool defaultCoupling = faces && !(rankCount() > 1 && anyConformingRow) && below(r, 2);
        auto couple = randomCoupling(rows, cols, defaultCoupling);
        std::uint64_t seed = r();
        int id = below(r, 2);
        std::string lay = rankCount() > 1 && (layoutR == 2 || layoutC == 2) ? "global-blocks" : "process-blocks";
        std::string detail = str(layoutName[layoutR], same ? "" : "/other", " rows ", rows.size(), " cols ", cols.size(), faces ? " faces" : "");
        distinct(str(D.name, " ", detail, " ", allR, allC, defaultCoupling, " ", shapeInfo(L.m.el[0].shape).name, " np ", rankCount()));
        begin(str("assemble ", what, " ", detail, " bases ", D.name));
        fillMatrices(seed, rows, cols, faces, couple, id);
        auto t = contributions(seed, I, J, faces, couple);
        Utilities::SparsityEstimator est(I, J);
        Utilities::Table2D<bool> none(rows.size(), cols.size(), false);
        checkSparsity(I, J, t, est.computeSparsityEstimate(faces ? couple : none), detail);
        if (!faces) checkSparsity(I, J, t, est.computeSparsityEstimate(false), detail + " flag");
        if (defaultCoupling) checkSparsity(I, J, t, est.computeSparsityEstimate(true), detail + " flag");
        int fid = faces ? id : -1;
        if (faces && !same && zeroOnDiagonal(I, J, t, couple)) {
            count("zero-on-diagonal");
            if (rankCount() == 1)
                guard("assemble:uncoupled-zero-on-diagonal", [&]() { Utilities::GlobalPetscMatrix bad(I, J, couple, id, fid); });
            return;
        }
        std::unique_ptr<Utilities::GlobalPetscMatrix> M;
        if (defaultCoupling || !faces) {
            if (same && below(r, 2)) M.reset(new Utilities::GlobalPetscMatrix(I, id, fid));
            else M.reset(new Utilities::GlobalPetscMatrix(I, J, id, fid));
        } else
            M.reset(new Utilities::GlobalPetscMatrix(I, J, couple, id, fid));
        compareMatrix(*M, t, str("assemble:matrix:first:", lay), detail);
        int steps = 1 + below(r, 4);
        for (int k = 0; k < steps; ++k) {
            int op = below(r, 5);
            if (op == 0) {  // same data
                M->assemble();
                compareMatrix(*M, t, str("assemble:matrix:again:", lay), detail);
            } else if (op == 1) {  // new data
                seed = r();
                fillMatrices(seed, rows, cols, faces, couple, id);
                t = contributions(seed, I, J, faces, couple);
                M->assemble();
                compareMatrix(*M, t, str("assemble:matrix:new-data:", lay), detail);
            } else if (op == 2) {  // new numbering
                layoutR = randomLayout();
                I.reset(L.mesh.get(), layoutR, allR ? nullptr : &rows);
                lay = rankCount() > 1 && (layoutR == 2 || layoutC == 2) ? "global-blocks" : "process-blocks";
                t = contributions(seed, I, J, faces, couple);
                if (faces && !same && zeroOnDiagonal(I, J, t, couple)) return;
                if (defaultCoupling || !faces) M->reinit();
                else M->reinit(false);
                compareMatrix(*M, t, str("assemble:matrix:reinit:", lay), detail + " to " + layoutName[layoutR]);
            } else if (op == 3 && faces) {  // other coupling
                couple = randomCoupling(rows, cols, false);
                defaultCoupling = false;
                fillMatrices(seed, rows, cols, faces, couple, id);
                t = contributions(seed, I, J, faces, couple);
                if (!same && zeroOnDiagonal(I, J, t, couple)) return;
                M->setFaceCoupling(couple);
                M->reinit(false);
                compareMatrix(*M, t, str("assemble:matrix:coupling:", lay), detail);
            } else if (op == 4 && same) {  // Dirichlet rows
                std::vector<int> entries;
                std::size_t n = 0;
                std::set<int> want;
                for (Base::Face* f : L.mesh->getFacesList()) {
                    if (f->isInternal() || !f->isOwnedByCurrentProcessor()) continue;
                    M->getMatrixBCEntries(f, n, entries);
                    closure(f, I, want);
                    count("boundary-faces");
                }
                std::set<int> got(entries.begin(), entries.end());
                expect(n == entries.size(), "assemble:bc:count", what, " ", n, " vs ", entries.size());
                expect(got == want, "assemble:bc:entries", what, " ", got.size(), " vs ", want.size());
                std::vector<int> wantHere(want.begin(), want.end());
                auto everywhere = gatherAll(wantHere);
                MatZeroRows(*M, entries.size(), entries.data(), 2.5, nullptr, nullptr);
                compareMatrix(*M, t, str("assemble:matrix:zero-rows:", lay), detail, std::set<int>(everywhere.begin(), everywhere.end()), 2.5);
                M->assemble();
                compareMatrix(*M, t, str("assemble:matrix:after-zero-rows:", lay), detail);
            }
            count(str("history-op", op));
        }
    }
    // global indices of the functions on a face, its edges and its nodes, from the model
    void closure(const Base::Face* f, const GlobalIndexing& I, std::set<int>& out) {
        int e = L.indexOf.at(f->getPtrElementLeft()), lf = f->localFaceNumberLeft();
        auto& si = shapeInfo(L.m.el[e].shape);
        std::set<int> corners(si.faces[lf].begin(), si.faces[lf].end());
        for (auto u : I.getIncludedUnknowns()) {
            auto keys = D.keys(e, u);
            auto base = I.getGlobalIndices(L.el[e]);
            std::size_t at = 0;
            for (auto v : I.getIncludedUnknowns()) {
                if (v == u) break;
                at += D.keys(e, v).size();
            }
            std::set<std::pair<int, int>> on;
            on.insert({1, D.faceOf[e][lf]});
            if (DIM > 1)
                for (int c : corners) on.insert({3, L.m.el[e].node[L.m.el[e].corner[c]]});
            if (DIM == 3)
                for (std::size_t le = 0; le < si.edges.size(); ++le)
                    if (corners.count(si.edges[le][0]) && corners.count(si.edges[le][1])) on.insert({2, D.edgeOf[e][le]});
            for (std::size_t i = 0; i < keys.size(); ++i)
                if (on.count({keys[i].kind, keys[i].entity})) out.insert(base[at + i]);
        }
    }

    std::vector<S> wholeVector(Vec v) {
        PetscInt lo, hi;
        VecGetOwnershipRange(v, &lo, &hi);
        const PetscScalar* a;
        VecGetArrayRead(v, &a);
        std::vector<S> mine(a, a + (hi - lo));
        VecRestoreArrayRead(v, &a);
        return gatherAll(mine);
    }
    void compareVector(Vec v, const std::vector<Single>& mine, const std::string& key, const std::string& detail, bool insert = false) {
        auto got = wholeVector(v);
        auto all = gatherAll(mine);
        std::vector<S> want(got.size(), S(0));
        std::vector<double> scale(got.size(), 0);
        for (auto& x : all) {
            if (!expect(x.i >= 0 && x.i < (int)want.size(), key + ":size", what, " ", detail, " ", x.i, " of ", want.size())) return;
            if (insert) want[x.i] = x.v, scale[x.i] = std::abs(x.v);
            else want[x.i] += x.v, scale[x.i] += std::abs(x.v);
        }
        for (std::size_t i = 0; i < got.size(); ++i)
            expect(std::abs(got[i] - want[i]) <= 1e-12 * scale[i], key, what, " ", detail, " entry ", i, " ", std::abs(got[i]), " vs ", std::abs(want[i]));
        count("vector-entries", got.size());
    }
    void fillVectors(std::uint64_t seed, const std::vector<std::size_t>& in, bool faces, int id) {
        for (std::size_t e = 0; e < L.el.size(); ++e) {
            if (!L.el[e]) continue;
            auto a = elementKeys(e, in);
            LinearAlgebra::MiddleSizeVector m(a.size());
            for (std::size_t i = 0; i < a.size(); ++i) m(i) = value(seed, 21, e, i, 0);
            L.el[e]->setElementVector(m, id);
        }
        if (!faces) return;
        for (Base::Face* f : L.mesh->getFacesList(IteratorType::GLOBAL)) {
            auto a = faceKeys(f, in);
            LinearAlgebra::MiddleSizeVector m(a.size());
            for (std::size_t i = 0; i < a.size(); ++i) m(i) = value(seed, 22, modelFace.at(f), i, 0);
            f->setFaceVector(m, id);
        }
    }
    std::vector<Single> vectorParts(std::uint64_t seed, const GlobalIndexing& I, bool faces) {
        std::vector<Single> t;
        for (std::size_t e = 0; e < L.el.size(); ++e) {
            if (!L.el[e] || L.m.el[e].owner != rankId()) continue;
            auto a = I.getGlobalIndices(L.el[e]);
            for (std::size_t i = 0; i < a.size(); ++i) t.push_back({a[i], value(seed, 21, e, i, 0)});
        }
        if (faces)
            for (Base::Face* f : L.mesh->getFacesList(IteratorType::GLOBAL)) {
                if (L.m.el[L.indexOf.at(f->getPtrElementLeft())].owner != rankId()) continue;
                std::vector<int> a;
                I.getGlobalIndices(f, a);
                for (std::size_t i = 0; i < a.size(); ++i) t.push_back({a[i], value(seed, 22, modelFace.at(f), i, 0)});
            }
        return t;
    }
    // store one value per degree of freedom in all elements
    void fillTime(std::uint64_t seed, int id, bool ghosts = true) {
        for (std::size_t e = 0; e < L.el.size(); ++e) {
            if (!L.el[e] || (!ghosts && L.m.el[e].owner != rankId())) continue;
            std::vector<S> v;
            for (std::size_t u = 0; u < D.unknowns; ++u)
                for (auto& k : D.keys(e, u)) v.push_back(keyValue(seed, k));
            LinearAlgebra::MiddleSizeVector m(v.size());
            for (std::size_t i = 0; i < v.size(); ++i) m(i) = v[i];
            L.el[e]->setTimeIntegrationVector(id, m);
        }
    }
    // values per unknown: seeds[u]
    void compareTime(int id, const std::vector<std::uint64_t>& seeds, const std::string& key, const std::string& detail) {
        for (std::size_t e = 0; e < L.el.size(); ++e) {
            if (!L.el[e]) continue;
            const auto& v = L.el[e]->getTimeIntegrationVector(id);
            std::size_t at = 0;
            for (std::size_t u = 0; u < D.unknowns; ++u)
                for (auto& k : D.keys(e, u)) {
                    if (!expect(at < v.size(), key + ":size", what, " ", detail)) return;
                    expect(v[at] == keyValue(seeds[u], k), key, what, " ", detail, " ", describe(k), L.m.el[e].owner == rankId() ? "" : " on a ghost");
                    ++at;
                }
            count("time-vectors");
        }
    }
    std::vector<Single> timeParts(const std::vector<std::uint64_t>& seeds, const GlobalIndexing& I, int only = -1) {
        std::vector<Single> t;
        for (std::size_t e = 0; e < L.el.size(); ++e) {
            if (!L.el[e] || L.m.el[e].owner != rankId()) continue;
            auto a = I.getGlobalIndices(L.el[e]);
            std::size_t at = 0;
            for (auto u : I.getIncludedUnknowns())
                for (auto& k : D.keys(e, u)) {
                    if (only < 0 || only == (int)u) t.push_back({a[at], keyValue(seeds[u], k)});
                    ++at;
                }
        }
        return t;
    }

    void vectors() {
        bool all;
        auto in = subset(all);
        auto layout = GlobalIndexing::Layout(below(r, 3));
        GlobalIndexing I(L.mesh.get(), layout, all ? nullptr : &in);
        bool faces = below(r, 2), elements = !faces || below(r, 4);
        std::uint64_t seed = r();
        int id = below(r, 2);
        std::string detail = str(layoutName[layout], " unknowns ", in.size(), faces ? " faces" : "");
        std::string part = all ? "all" : "subset";
        distinct(str("vector ", D.name, " ", detail, " ", all, " ", shapeInfo(L.m.el[0].shape).name, " np ", rankCount()));
        fillVectors(seed, in, faces, id);
        auto parts = [&](std::uint64_t s) {
            auto p = vectorParts(s, I, faces);
            if (!elements) {
                std::vector<Single> q;
                for (Base::Face* f : L.mesh->getFacesList(IteratorType::GLOBAL)) {
                    if (L.m.el[L.indexOf.at(f->getPtrElementLeft())].owner != rankId()) continue;
                    std::vector<int> a;
                    I.getGlobalIndices(f, a);
                    for (std::size_t i = 0; i < a.size(); ++i) q.push_back({a[i], value(s, 22, modelFace.at(f), i, 0)});
                }
                return q;
            }
            return p;
        };
        Utilities::GlobalPetscVector b(I, elements ? id : -1, faces ? id : -1);
        compareVector(b, parts(seed), "assemble:vector:first", detail);
        std::vector<std::uint64_t> held(D.unknowns, r());  // what the time integration vectors hold
        int tid = below(r, 2);
        // both time integration vectors exist from the start
        for (std::size_t e = 0; e < L.el.size(); ++e)
            if (L.el[e]) L.el[e]->setNumberOfTimeIntegrationVectors(2);
        fillTime(held[0], tid);
        int steps = 2 + below(r, 5);
        for (int k = 0; k < steps; ++k) {
            int op = below(r, 8);
            if (op == 0) {
                b.assemble();
                compareVector(b, parts(seed), "assemble:vector:again", detail);
            } else if (op == 1) {
                seed = r();
                fillVectors(seed, in, faces, id);
                b.assemble();
                compareVector(b, parts(seed), "assemble:vector:new-data", detail);
            } else if (op == 2) {
                layout = GlobalIndexing::Layout(below(r, 3));
                I.reset(L.mesh.get(), layout, all ? nullptr : &in);
                b.reinit();
                compareVector(b, parts(seed), "assemble:vector:reinit", detail);
            } else if (op == 3) {
                VecScale(b, 3.);
                b.assemble();
                compareVector(b, parts(seed), "assemble:vector:after-use", detail);
            } else if (op == 4) {
                b.constructFromTimeIntegrationVector(tid);
                compareVector(b, timeParts(held, I), "assemble:vector:from-time:" + part, detail, true);
            } else if (op == 5) {
                int u = in[below(r, in.size())];
                b.constructFromTimeIntegrationVector(tid, u);
                compareVector(b, timeParts(held, I, u), "assemble:vector:from-time-unknown:" + part, str(detail, " unknown ", u), true);
            } else {
                // put values into the vector and write them to the elements
                std::uint64_t s = r();
                std::vector<std::uint64_t> seeds(D.unknowns, s);
                for (auto& x : timeParts(seeds, I)) {
                    PetscInt at = x.i;
                    PetscScalar v = x.v;
                    VecSetValues(b, 1, &at, &v, INSERT_VALUES);
                }
                VecAssemblyBegin(b);
                VecAssemblyEnd(b);
                if (op == 6) {
                    b.writeTimeIntegrationVector(tid);
                    for (auto u : in) held[u] = s;
                    compareTime(tid, held, "assemble:vector:to-time:" + part, detail);
                } else {
                    int u = in[below(r, in.size())];
                    b.writeTimeIntegrationVector(tid, u);
                    held[u] = s;
                    compareTime(tid, held, "assemble:vector:to-time-unknown:" + part, str(detail, " unknown ", u));
                }
            }
            count(str("vector-op", op));
        }
    }
};

template <std::size_t DIM>
void run(const MMesh& m, Rng& r) {
    bool only = arg("mode") == "couplings";
    Dofs<DIM> D(m, only ? 2 + below(r, 2) : 1 + below(r, 3), r);
    if (!D.ok) return;
    begin(str("assemble ", m.name, " bases ", D.name));
    Case<DIM> c(D, r);
    c.rowPlacement();
    c.couplings(only ? 6 : 3);
    if (only) return;
    c.matrices();
    c.vectors();
    if (below(r, 2)) c.matrices();
}

int main(int argc, char** argv) {
    startHpgem(argc, argv);
    Rng r = rng("assemble" + arg("salt"));
    int n = rankCount();
    int total = std::stoi(arg("cases", st().thorough ? "600" : "80"));
    bool lines = arg("dims") == "1";
    for (int k = 0; k < total; ++k) {
        int dim = k % 7 < 1 ? 1 : k % 7 < 4 ? 2 : 3;
        if (n > 1) dim = k % 3 ? 2 : 3;
        if (lines) dim = 1;
        ZooOptions o = randomOptions(dim, r, 0);
        o.nParts = n;
        o.partStyle = below(r, 4);
        o.reflectAllowed = below(r, 6) == 0;
        MMesh m = makeMesh(o, r);
        Rng rc(r());
        begin(str("assemble case ", k, " ", m.name));
        bool ok = guard("assemble", [&]() {
            if (dim == 1) run<1>(m, rc);
            else if (dim == 2) run<2>(m, rc);
            else run<3>(m, rc);
        });
        if (!ok && n > 1) {
            writeReport();
            MPI_Abort(MPI_COMM_WORLD, 3);
        }
    }
    int rc = finish();
    if (n > 1) MPI_Barrier(MPI_COMM_WORLD);
    return rc;
}
