// P05: the global numbering of degrees of freedom is a bijection that all
// processes agree on.
#include "dofs.h"
#include "Utilities/GlobalIndexing.h"
#include <algorithm>
using namespace vf;
using Utilities::GlobalIndexing;
using Base::IteratorType;

static Rng junk;
struct Record {
    DofKey k;
    int index, owned, local;
};

template <std::size_t DIM>
void checkIndex(Dofs<DIM>& D, const GlobalIndexing& I, GlobalIndexing::Layout layout, const std::vector<std::size_t>& in) {
    static const char* names[] = {"sequential", "blocked-processor", "blocked-global"};
    const char* ln = names[layout];
    auto& L = D.L;
    std::string what = str(L.m.name, " ", D.name, " ", ln);
    std::vector<bool> included(D.unknowns, false);
    for (auto u : in) included[u] = true;
    expect(I.getTotalNumberOfUnknowns() == D.unknowns, "index:total-unknowns", what);
    expect(I.getNumberOfIncludedUnknowns() == in.size(), "index:included-unknowns", what);
    expect(I.getIncludedUnknowns() == in, "index:included-list", what);
    for (std::size_t u = 0; u < D.unknowns; ++u) expect(I.isIncludedInIndex(u) == included[u], "index:is-included", what);
    expect(I.getMesh() == L.mesh.get(), "index:mesh", what);
    I.verifyCompleteIndex();
    // what this process says about everything it knows
    std::vector<Record> mine;
    std::vector<int> owned;
    for (std::size_t e = 0; e < L.el.size(); ++e) {
        if (!L.el[e]) continue;
        std::vector<int> list = I.getGlobalIndices(L.el[e]), again{7, 7, 7};
        I.getGlobalIndices(L.el[e], again);
        expect(list == again, "index:list-differs-between-calls", what);
        std::size_t base = 0;
        for (std::size_t u : in) {
            auto keys = D.keys(e, u);
            if (!expect(base + keys.size() <= list.size(), str("index:list-too-short:", ln), what)) break;
            std::vector<int> byEntity(keys.size(), -1);
            D.entities(e, u, [&](int kind, int, const auto* g, std::size_t n, std::size_t at) {
                if (n == 0) return;
                int first = I.getGlobalIndex(g, u);
                bool own = g->isOwnedByCurrentProcessor();
                int local = own ? I.getProcessorLocalIndex(g, u) : -1;
                for (std::size_t i = 0; i < n; ++i) {
                    byEntity[at + i] = first + i;
                    mine.push_back({keys[at + i], first + (int)i, own, own ? local + (int)i : -1});
                    if (own) owned.push_back(first + i);
                }
                count(str("entities-kind", kind));
            });
            for (std::size_t i = 0; i < keys.size(); ++i) {
                expect(keys[i].u >= 0, "index:function-without-entity", what, " slot ", i);
                expect(list[base + i] == byEntity[i], str("index:element-list:", ln), what, " ", describe(keys[i]), " listed ", list[base + i], " vs ", byEntity[i]);
            }
            base += keys.size();
        }
        expect(base == list.size(), str("index:list-length:", ln), what, " ", base, " vs ", list.size());
    }
    for (Base::Face* f : L.mesh->getFacesList(IteratorType::GLOBAL)) {
        std::vector<int> list, want = I.getGlobalIndices(f->getPtrElementLeft());
        if (f->isInternal()) {
            auto right = I.getGlobalIndices(f->getPtrElementRight());
            want.insert(want.end(), right.begin(), right.end());
        }
        list.assign(below(junk, 400), -5);
        I.getGlobalIndices(f, list);
        expect(list == want, str("index:face-list:", ln), what);
        count("face-lists");
    }
    std::sort(owned.begin(), owned.end());
    owned.erase(std::unique(owned.begin(), owned.end()), owned.end());
    expect(owned.size() == I.getNumberOfLocalBasisFunctions(), str("index:local-count:", ln), what, " ", owned.size(), " vs ", I.getNumberOfLocalBasisFunctions());
    for (auto& m : mine) {
        auto at = std::lower_bound(owned.begin(), owned.end(), m.index);
        int want = at != owned.end() && *at == m.index ? int(at - owned.begin()) : -1;
        expect(I.globalToProcessorLocalIndex(m.index) == want, str("index:global-to-local:", ln), what, " ", describe(m.k), " index ", m.index, " gives ", I.globalToProcessorLocalIndex(m.index), " vs ", want);
        if (m.owned) expect(m.local == want, str("index:local:", ln), what, " ", describe(m.k), " ", m.local, " vs ", want);
    }
    // all processes together
    std::vector<int> from;
    auto all = gatherAll(mine, &from);
    std::map<DofKey, int> index, owner;
    std::map<int, DofKey> back;
    for (std::size_t i = 0; i < all.size(); ++i) {
        auto& a = all[i];
        auto p = index.emplace(a.k, a.index);
        expect(p.first->second == a.index, str("index:processes-disagree:", ln), what, " ", describe(a.k), " ", p.first->second, " and ", a.index, " on ", from[i]);
        auto q = back.emplace(a.index, a.k);
        expect(q.first->second == a.k, str("index:used-twice:", ln), what, " index ", a.index, " ", describe(a.k), " and ", describe(q.first->second));
        if (a.owned) {
            auto o = owner.emplace(a.k, from[i]);
            expect(o.first->second == from[i], "index:two-owners", what, " ", describe(a.k));
        }
    }
    int n = index.size();
    for (int i : {n, n + 3, -1, -7}) expect(I.globalToProcessorLocalIndex(i) == -1, str("index:outside:", ln), what, " ", i, " of ", n);
    if (!expect(!back.empty() && back.begin()->first == 0 && back.rbegin()->first == n - 1, str("index:range:", ln), what, " ", n)) return;
    if (!expect(owner.size() == index.size(), "index:without-owner", what)) return;
    // the layout: position of (process, unknown) blocks
    int last = -1, lastU = -1, lastP = -1;
    DofKey prev{-1, -1, -1, -1};
    std::set<std::tuple<int, int, int>> seen;
    for (auto& b : back) {
        int p = owner[b.second], u = b.second.u;
        if (layout == GlobalIndexing::BLOCKED_GLOBAL)
            expect(std::make_pair(u, p) >= std::make_pair(lastU, lastP), "index:layout:blocked-global", what, " index ", b.first);
        else if (layout == GlobalIndexing::BLOCKED_PROCESSOR)
            expect(std::make_pair(p, u) >= std::make_pair(lastP, lastU), "index:layout:blocked-processor", what, " index ", b.first);
        else
            expect(p >= lastP, "index:layout:sequential", what, " index ", b.first);
        // functions of an entity are consecutive, for sequential layout over the unknowns as well
        std::tuple<int, int, int> id(b.second.kind, b.second.entity, layout == GlobalIndexing::SEQUENTIAL ? 0 : u);
        std::tuple<int, int, int> was(prev.kind, prev.entity, layout == GlobalIndexing::SEQUENTIAL ? 0 : prev.u);
        if (id != was) expect(seen.insert(id).second, str("index:entity-split:", ln), what, " ", describe(b.second));
        if (prev.u == u && id == was) expect(b.second.i == prev.i + 1, str("index:function-order:", ln), what, " ", describe(b.second));
        lastU = u, lastP = p, prev = b.second, last = b.first;
    }
    (void)last;
    count("indices", n);
    count(str("layout-", ln));
}

template <std::size_t DIM>
void run(const MMesh& m, Rng& r) {
    Dofs<DIM> D(m, 1 + below(r, 3), r);
    if (!D.ok) return;
    begin(str("index ", m.name, " bases ", D.name));
    GlobalIndexing kept;
    expect(kept.getNumberOfLocalBasisFunctions() == 0 && kept.globalToProcessorLocalIndex(0) == -1, "index:empty", "");
    int n = 4;
    for (int k = 0; k < n; ++k) {
        auto layout = GlobalIndexing::Layout(k < 3 ? k : below(r, 3));
        bool all;
        auto in = D.randomSubset(r, all);
        distinct(str(D.name, " ", layout, " ", in.size(), all, " ", shapeInfo(m.el[0].shape).name, " np ", rankCount()));
        auto given = in;
        for (std::size_t i = given.size(); i > 1; --i) std::swap(given[i - 1], given[below(r, i)]);
        if (below(r, 2)) {
            GlobalIndexing fresh(D.L.mesh.get(), layout, all ? nullptr : &given);
            checkIndex(D, fresh, layout, in);
        } else {
            if (below(r, 4) == 0) {
                kept.reset(nullptr, layout);
                expect(kept.getNumberOfLocalBasisFunctions() == 0 && kept.globalToProcessorLocalIndex(0) == -1, "index:cleared", "");
            }
            kept.reset(D.L.mesh.get(), layout, all ? nullptr : &given);
            checkIndex(D, kept, layout, in);
        }
    }
    // an index that lived through other meshes
    kept.reset(nullptr, GlobalIndexing::SEQUENTIAL);
}

int main(int argc, char** argv) {
    startHpgem(argc, argv);
    Rng r = rng("index" + arg("salt"));
    int n = rankCount();
    int total = std::stoi(arg("cases", st().thorough ? "1500" : "200"));
    bool lines = arg("dims") == "1";
    for (int k = 0; k < total; ++k) {
        int dim = k % 7 < 1 ? 1 : k % 7 < 3 ? 2 : 3;
        if (n > 1) dim = k % 3 ? 3 : 2;
        if (lines) dim = 1;
        ZooOptions o = randomOptions(dim, r, 0);
        o.nParts = n;
        o.partStyle = below(r, 4);
        o.reflectAllowed = below(r, 6) == 0;
        MMesh m = makeMesh(o, r);
        Rng rc(r());
        junk.seed(r());
        begin(str("index case ", k, " ", m.name));
        bool ok = guard("index", [&]() {
            if (dim == 1) run<1>(m, rc);
            else if (dim == 2) run<2>(m, rc);
            else run<3>(m, rc);
        });
        if (!ok && n > 1) {
            writeReport();
            MPI_Abort(MPI_COMM_WORLD, 3);
        }
    }
    int rc = finish();
    if (n > 1) MPI_Barrier(MPI_COMM_WORLD);
    return rc;
}
