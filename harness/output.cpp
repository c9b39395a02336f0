// P18: output files show exactly the mesh and the field that were written.
#include "vtkfile.h"
#include "physgeo.h"
#include "dofs.h"
#include "Output/VTKSpecificTimeWriter.h"
#include "Output/VTKTimeDependentWriter.h"
#include "Output/TecplotDiscontinuousSolutionWriter.h"
#include "Output/TecplotSingleElementWriter.h"
#include "Output/GNUPlotDiscontinuousSolutionWriter.h"
#include <sys/stat.h>
#include <limits>
using namespace vf;
using namespace hpgem;

static long num(const char* n, long d) { return std::stol(vf::arg(n, std::to_string(d))); }

// the fields: smooth in an element, different between elements and time levels
struct Fields {
    std::uint64_t key = 0;
    double scale = 1;
    double operator()(int field, int comp, int e, const V3& x, std::size_t level) const {
        auto c = [&](int i) { return hashValue(key, field * 64 + comp, e, i, level); };
        return scale * (c(0) + c(1) * x[0] + c(2) * x[1] + c(3) * x[2] + c(4) * x[0] * x[1] + c(5) * x[1] * x[2] * x[0] + c(6) * std::sin(3 * x[0] + x[1] - 2 * x[2]));
    }
    // bit patterns that only survive exact storage
    double special(int field, int e) const {
        switch ((fnv(&key, 8) + 31 * e + field) % 8) {
            case 0: return std::numeric_limits<double>::denorm_min();
            case 1: return -0.0;
            case 2: return std::numeric_limits<double>::infinity();
            case 3: return -std::numeric_limits<double>::max();
            case 4: return 0.1;
            case 5: return -1e-300;
            case 6: return 1 + std::numeric_limits<double>::epsilon();
            default: return hashValue(key, 77, e);
        }
    }
};
enum Kind { IDS, SCALAR, VECTOR, TENSOR, SPECIAL };
struct Written {
    Kind kind;
    std::string name;
    int field;
    std::size_t level;
    bool operator<(const Written& o) const { return name < o.name; }
};
static int components(Kind k) { return k == VECTOR ? 3 : k == TENSOR ? 9 : 1; }
static double valueOf(const Fields& F, const Written& w, int c, int e, const V3& x, int dim) {
    switch (w.kind) {
        case IDS: return e;
        case SCALAR: return F(w.field, 0, e, x, w.level);
        case VECTOR: return c < dim ? F(w.field, c, e, x, w.level) : 0;
        case TENSOR: return c / 3 < dim && c % 3 < dim ? F(w.field, c, e, x, w.level) : c / 3 == c % 3 ? 1 : 0;
        case SPECIAL: return F.special(w.field, e);
    }
    return 0;
}
static std::string hasName(const std::vector<Written>& w, const std::string& base) {
    std::string n = base;
    for (int i = 1;; ++i) {
        bool used = false;
        for (auto& a : w) used |= a.name == n;
        if (!used) return n;
        n = base + std::to_string(i);
    }
}
static std::string stemName() {
    static int counter = 0;
    std::string dir = st().scratch.empty() ? "/tmp" : st().scratch;
    if (counter % 3 == 1) {
        dir += "/sub.dir";
        mkdir(dir.c_str(), 0777);
    }
    return str(dir, "/vis", counter++, "_");
}
static std::string dirOf(const std::string& f) { return f.substr(0, f.rfind('/') + 1); }

// ----------------------------------------------------- reading a pvtu (rank 0)
static void checkGrid(const MMesh& m, const std::string& file, int parts, int order, const std::vector<Written>& w, const Fields& F, double size, const std::string& what) {
    std::string err;
    Pvtu top;
    if (!expect(readPvtu(file, top, err), "vtk:pvtu", err, " ", what)) return;
    std::map<std::string, int> want;
    for (auto& a : w) want[a.name] = components(a.kind);
    for (auto& a : want) {
        if (!expect(top.arrays.count(a.first), "vtk:pvtu-array-missing", a.first, " ", what)) continue;
        expect(top.arrays[a.first] == a.second, "vtk:pvtu-components", a.first, " has ", top.arrays[a.first], " for ", a.second, " ", what);
    }
    expect(top.arrays.size() == want.size(), "vtk:pvtu-arrays", top.arrays.size(), " for ", want.size(), " ", what);
    if (!expect((int)top.pieces.size() == parts, "vtk:pieces", top.pieces.size(), " for ", parts)) return;
    std::vector<int> seen(m.el.size(), 0);
    std::vector<V3> ref;
    std::set<std::string> files(top.pieces.begin(), top.pieces.end());
    expect((int)files.size() == parts, "vtk:piece-twice", what);
    for (int q = 0; q < parts; ++q) {
        Vtu g;
        bool read = readVtu(dirOf(file) + top.pieces[q], g, err);
        if (!expect(read, err.compare(0, 10, "array-size") ? "vtk:vtu" : "vtk:array-size", err, " ", what)) return;
        for (auto& a : want)
            if (!expect(g.data.count(a.first) && g.data[a.first].components == a.second, "vtk:array", a.first, " ", what)) return;
        expect(g.data.size() == want.size(), "vtk:arrays", g.data.size(), " for ", want.size(), " ", what);
        const DataArray& id = g.data["id"];
        bool oldHex = g.version.empty() || std::stod(g.version) < 2.05;
        for (std::size_t c = 0; c < g.cells.size(); ++c) {
            if (!expect(!g.cells[c].empty(), "vtk:empty-cell", what)) continue;
            double v = id.v[g.cells[c][0]];
            if (!expect(v >= 0 && v < m.el.size() && v == std::floor(v), "vtk:id", v, " ", what)) continue;
            int e = v;
            ++seen[e];
            expect(m.el[e].owner == q, "vtk:element-of-other-process", "element ", e, " of ", m.el[e].owner, " in piece ", q, " ", what);
            int type = vtkCell(m.el[e].shape, order, ref, oldHex);
            if (!expect(g.types[c] == type, "vtk:cell-type", g.types[c], " for ", type, " ", shapeInfo(m.el[e].shape).name, " ", what)) continue;
            if (!expect(g.cells[c].size() == ref.size(), "vtk:cell-size", g.cells[c].size(), " for ", ref.size(), " ", what)) continue;
            for (std::size_t i = 0; i < ref.size(); ++i) {
                int p = g.cells[c][i];
                V3 x = m.map(e, ref[i]);
                double d = 0;
                for (int k = 0; k < 3; ++k) d = std::max(d, std::abs(x[k] - g.points[p][k]));
                expect(d < 1e-11 * (1 + size), "vtk:position", shapeInfo(m.el[e].shape).name, " order ", order, " point ", i, " off by ", d, " ", what);
                for (auto& a : w)
                    for (int k = 0; k < components(a.kind); ++k) {
                        double got = g.data[a.name].v[p * components(a.kind) + k], exp = valueOf(F, a, k, e, ref[i], m.dim);
                        bool ok = a.kind == IDS || a.kind == SPECIAL ? std::memcmp(&got, &exp, 8) == 0 : std::abs(got - exp) <= 1e-11 * F.scale;
                        static const char* names[] = {"id", "scalar", "vector", "tensor", "special"};
                        expect(ok, str("vtk:value:", names[a.kind]), a.name, " component ", k, " is ", got, " for ", exp, " ", what);
                    }
            }
            count("vtk-cells");
            distinct(str("vtk ", shapeInfo(m.el[e].shape).name, " order ", order, " geometry ", m.el[e].order));
        }
    }
    for (std::size_t e = 0; e < seen.size(); ++e) expect(seen[e] == 1, "vtk:element-count", "element ", e, " written ", seen[e], " times ", what);
    count("vtk-grids");
}

template <std::size_t DIM>
struct Make {
    Loaded<DIM>& L;
    const Fields& F;
    using Ref = Geometry::PointReference<DIM>;
    using SV = LinearAlgebra::SmallVector<DIM>;
    using SM = LinearAlgebra::SmallMatrix<DIM, DIM>;
    int id(const Base::Element* e) const {
        auto i = L.indexOf.find(e);
        return i == L.indexOf.end() ? -1 : i->second;
    }
    double scalar(const Written& w, Base::Element* e, const Ref& p, std::size_t level) const {
        Written v = w;
        v.level = level;
        return valueOf(F, v, 0, id(e), toV3<DIM>(p), DIM);
    }
    SV vector(const Written& w, Base::Element* e, const Ref& p, std::size_t level) const {
        SV r;
        for (std::size_t i = 0; i < DIM; ++i) r[i] = F(w.field, i, id(e), toV3<DIM>(p), level);
        return r;
    }
    SM tensor(const Written& w, Base::Element* e, const Ref& p, std::size_t level) const {
        SM r;
        for (std::size_t i = 0; i < DIM; ++i)
            for (std::size_t j = 0; j < DIM; ++j) r(i, j) = F(w.field, 3 * i + j, id(e), toV3<DIM>(p), level);
        return r;
    }
    template <class Writer, class... A>
    void write(Writer& out, const Written& w, A... a) {
        if (w.kind == VECTOR)
            out.write(std::function<SV(Base::Element*, const Ref&, std::size_t)>([=](Base::Element* e, const Ref& p, std::size_t l) { return vector(w, e, p, l); }), w.name, a...);
        else if (w.kind == TENSOR)
            out.write(std::function<SM(Base::Element*, const Ref&, std::size_t)>([=](Base::Element* e, const Ref& p, std::size_t l) { return tensor(w, e, p, l); }), w.name, a...);
        else
            out.write(std::function<double(Base::Element*, const Ref&, std::size_t)>([=](Base::Element* e, const Ref& p, std::size_t l) { return scalar(w, e, p, l); }), w.name, a...);
    }
};
static int randomOrder(const MMesh& m, Rng& r) {
    if (m.shapes().count(PRISM) || m.shapes().count(PYR)) return below(r, 2);
    return below(r, m.dim == 1 ? 10 : m.dim == 2 ? 9 : m.el.size() > 60 ? 5 : 10);
}

template <std::size_t DIM>
static void specific(Loaded<DIM>& L, Fields& F, Rng& r) {
    Make<DIM> M{L, F};
    int order = randomOrder(L.m, r);
    std::size_t level = below(r, 4);
    std::string stem = stemName();
    std::vector<Written> w;
    {
        Output::VTKSpecificTimeWriter<DIM> out(stem, L.mesh.get(), level, order);
        int n = 1 + below(r, 5);
        int idAt = below(r, n);
        for (int i = 0; i < n; ++i) {
            if (i == idAt) {
                w.push_back({IDS, "id", 0, level});
                M.write(out, w.back());
                continue;
            }
            static const char* stemNames[] = {"u", "E_x", "field-2", "A", "zz"};
            if (below(r, 3)) {
                Kind k = std::vector<Kind>{SCALAR, VECTOR, TENSOR, SPECIAL}[below(r, 4)];
                w.push_back({k, hasName(w, stemNames[below(r, 5)]), (int)w.size(), level});
                M.write(out, w.back());
            } else {
                using T = std::pair<Base::Element*, Geometry::PointReference<DIM>>;
                std::map<std::string, std::function<double(T&)>> s;
                std::map<std::string, std::function<LinearAlgebra::SmallVector<DIM>(T&)>> v;
                std::map<std::string, std::function<LinearAlgebra::SmallMatrix<DIM, DIM>(T&)>> t;
                int k = 1 + below(r, 4);
                for (int j = 0; j < k; ++j) {
                    Written a{std::vector<Kind>{SCALAR, VECTOR, TENSOR, SPECIAL}[below(r, 4)], hasName(w, stemNames[below(r, 5)]), (int)w.size(), level};
                    w.push_back(a);
                    if (a.kind == VECTOR) v[a.name] = [=](T& x) { return M.vector(a, x.first, x.second, level); };
                    else if (a.kind == TENSOR) t[a.name] = [=](T& x) { return M.tensor(a, x.first, x.second, level); };
                    else s[a.name] = [=](T& x) { return M.scalar(a, x.first, x.second, level); };
                }
                out.template writeMultiple<T>([=](Base::Element* e, const Geometry::PointReference<DIM>& p, std::size_t l) {
                    expect(l == level, "vtk:time-level", l, " for ", level);
                    return T(e, p);
                }, s, v, t);
                count("vtk-multiple");
            }
        }
    }
    MPI_Barrier(MPI_COMM_WORLD);
    if (rankId() == 0) checkGrid(L.m, stem + ".pvtu", rankCount(), order, w, F, L.size, str("specific ", L.m.name));
    MPI_Barrier(MPI_COMM_WORLD);
}
template <std::size_t DIM>
static void series(Loaded<DIM>& L, Fields& F, Rng& r) {
    Make<DIM> M{L, F};
    int order = randomOrder(L.m, r);
    if (order > 4) order = 2;
    std::string stem = stemName();
    struct Frame {
        double time;
        std::vector<Written> w;
    };
    std::vector<Frame> frames;
    double t = below(r, 3) ? 0 : uni(r, -5, 5);
    if (below(r, 5) == 0) t = 12345.678;
    {
        Output::VTKTimeDependentWriter<DIM> out(stem, L.mesh.get(), order);
        int n = 1 + below(r, 5);
        for (int i = 0; i < n; ++i) {
            if (i) {
                int how = below(r, 5);
                double before = t;
                if (how == 0) t += 1e-7 * std::max(1., std::abs(t));
                else if (how == 1) t = frames[below(r, frames.size())].time;
                else t += uni(r, 0.01, 1);
                if (t == before) t = before + 0.5;
            }
            std::size_t level = below(r, 3);
            frames.push_back({t, {}});
            auto& w = frames.back().w;
            w.push_back({IDS, "id", 0, level});
            M.write(out, w.back(), t, level);
            int extra = below(r, 3);
            for (int j = 0; j < extra; ++j) {
                w.push_back({std::vector<Kind>{SCALAR, VECTOR, SPECIAL}[below(r, 3)], hasName(w, "u"), 10 * i + j, level});
                M.write(out, w.back(), t, level);
            }
        }
    }
    MPI_Barrier(MPI_COMM_WORLD);
    if (rankId() == 0) {
        std::string err, what = str("series ", L.m.name);
        std::vector<std::pair<double, std::string>> sets;
        if (expect(readPvd(stem + ".pvd", sets, err), "pvd:file", err, " ", what) &&
            expect(sets.size() == frames.size(), "pvd:frames", sets.size(), " for ", frames.size(), " ", what)) {
            std::set<std::string> used;
            for (std::size_t i = 0; i < sets.size(); ++i) {
                expect(std::abs(sets[i].first - frames[i].time) <= 1e-13 * std::abs(frames[i].time), "pvd:time", sets[i].first, " for ", frames[i].time, " ", what);
                expect(used.insert(sets[i].second).second, "pvd:file-reused", sets[i].second);
                checkGrid(L.m, dirOf(stem) + sets[i].second, rankCount(), order, frames[i].w, F, L.size, str("frame ", i, " of ", what));
            }
            distinct(str("series of ", sets.size()));
            count("series");
        }
    }
    MPI_Barrier(MPI_COMM_WORLD);
}

// --------------------------------------------------------------- text formats
// volume of the (bi/tri)linear cell spanned by 2^dim points in Tecplot order
static double cellVolume(const std::vector<V3>& c, int dim) {
    static const double g = 1 / std::sqrt(3.);
    static const int corner[8][3] = {{-1, -1, -1}, {1, -1, -1}, {1, 1, -1}, {-1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {1, 1, 1}, {-1, 1, 1}};
    double vol = 0;
    int n = 1 << dim;
    for (int q = 0; q < n; ++q) {
        double x[3] = {0, 0, 0};
        for (int d = 0; d < dim; ++d) x[d] = (q >> d & 1) ? g : -g;
        double J[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
        for (int i = 0; i < dim; ++i)
            for (int d = 0; d < dim; ++d) J[i][d] = 0;
        for (int k = 0; k < n; ++k) {
            int s[3];
            for (int d = 0; d < 3; ++d) s[d] = dim == 1 ? (k ? 1 : -1) : corner[k][d];
            for (int d = 0; d < dim; ++d) {
                double dw = s[d] * 0.5;
                for (int f = 0; f < dim; ++f)
                    if (f != d) dw *= 0.5 * (1 + s[f] * x[f]);
                for (int i = 0; i < dim; ++i) J[i][d] += dw * c[k][i];
            }
        }
        vol += J[0][0] * (J[1][1] * J[2][2] - J[1][2] * J[2][1]) - J[0][1] * (J[1][0] * J[2][2] - J[1][2] * J[2][0]) + J[0][2] * (J[1][0] * J[2][1] - J[1][1] * J[2][0]);
    }
    return vol;
}
template <std::size_t DIM>
static double elementVolume(const MMesh& m, int e) {
    double v = 0;
    for (auto& q : ownRule(m.el[e].shape, 5)) v += q.w * std::abs(detOf<DIM>(jacobian<DIM>(m, e, q.x)));
    return v;
}
template <std::size_t DIM>
struct Single : Output::TecplotSingleElementWriter<DIM>, Output::SingleElementWriter<DIM> {
    std::function<void(const Base::Element*, const Geometry::PointReference<DIM>&, std::ostream&)> f;
    void writeToTecplotFile(const Base::Element* e, const Geometry::PointReference<DIM>& p, std::ostream& o) override { f(e, p, o); }
    void writeOutput(const Base::Element* e, const Geometry::PointReference<DIM>& p, std::ostream& o) override { f(e, p, o); }
};
// rows of one element: reference corner of each row from the id and position
template <std::size_t DIM>
static bool checkRows(const Loaded<DIM>& L, const Fields& F, int e, const std::vector<V3>& pos, const std::vector<std::vector<double>>& values, int nv, std::size_t level, const std::string& key, const std::string& what) {
    const auto& pts = shapeInfo(L.m.el[e].shape).pts;
    std::set<int> used;
    for (std::size_t i = 0; i < pos.size(); ++i) {
        // rounded positions: take the corner whose values agree among the near ones
        int best = -1;
        double bv = 1e300;
        for (std::size_t c = 0; c < pts.size(); ++c) {
            V3 x = L.m.map(e, pts[c]);
            double d = 0;
            for (std::size_t k = 0; k < DIM; ++k) d = std::max(d, std::abs(x[k] - pos[i][k]));
            if (d > 2e-5 * L.size) continue;
            double worst = 0;
            for (int v = 0; v < nv; ++v) {
                double exp = F(v, 0, e, pts[c], level);
                worst = std::max(worst, std::abs(values[i][v] - exp) - 1e-7 * std::abs(exp));
            }
            if (worst < bv) bv = worst, best = c;
        }
        if (!expect(best >= 0, key + ":position", "row ", i, " of element ", e, " ", what)) return false;
        if (!expect(bv <= 1e-9 * F.scale, key + ":value", "row ", i, " of element ", e, " off by ", bv, " ", what)) return false;
        used.insert(best);
    }
    return expect(used.size() == pts.size(), key + ":corners", used.size(), " of ", pts.size(), " ", shapeInfo(L.m.el[e].shape).name, " ", what);
}
template <std::size_t DIM>
static void tecplot(Loaded<DIM>& L, Fields& F, Rng& r) {
    std::string file = stemName() + std::to_string(rankId()) + ".dat";
    std::string dims;
    std::vector<int> perm(DIM);
    for (std::size_t d = 0; d < DIM; ++d) perm[d] = d;
    if (below(r, 4) == 0) std::shuffle(perm.begin(), perm.end(), r);
    for (int d : perm) dims += std::to_string(d);
    int nv = 1 + below(r, 3), nz = 1 + below(r, 4);
    std::string vars = "id";
    for (int v = 0; v < nv; ++v) vars += str(",var", v);
    std::string title = str("title ", below(r, 1000));
    std::vector<bool> same;
    std::vector<double> times;
    std::size_t level = 0;
    Single<DIM> S;
    S.f = [&](const Base::Element* e, const Geometry::PointReference<DIM>& p, std::ostream& o) {
        int id = L.indexOf.at(e);
        o << id;
        for (int v = 0; v < nv; ++v) o << ' ' << F(v, 0, id, toV3<DIM>(p), level);
    };
    {
        std::ofstream o(file);
        Output::TecplotDiscontinuousSolutionWriter<DIM> out(o, title, dims, vars);
        for (int z = 0; z < nz; ++z) {
            level = z;
            same.push_back(z && below(r, 2));
            times.push_back(uni(r, -3, 100));
            if (below(r, 2)) out.write(L.mesh.get(), str("zone ", z), same[z], &S, times[z]);
            else out.write(L.mesh.get(), str("zone ", z), same[z], S.f, times[z]);
        }
    }
    bool ok;
    TecFile f;
    std::string err, what = str("tecplot ", L.m.name), text = slurp(file, ok);
    unlink(file.c_str());
    if (!expect(ok && readTecplot(text, f, err), "tecplot:file", err, " ", what)) return;
    expect(f.title == title, "tecplot:title", f.title);
    std::vector<std::string> names;
    for (int d : perm) names.push_back(str("x", d));
    names.push_back("id");
    for (int v = 0; v < nv; ++v) names.push_back(str("var", v));
    expect(f.variables == names, "tecplot:variables", f.variables.size(), " for ", names.size());
    if (!expect((int)f.zones.size() == nz, "tecplot:zones", f.zones.size(), " for ", nz)) return;
    int own = 0;
    for (auto& e : L.m.el) own += e.owner == rankId();
    std::vector<std::vector<V3>> place;   // of the rows of the last full zone
    std::vector<std::vector<int>> cells;
    for (int z = 0; z < nz; ++z) {
        auto& q = f.zones[z];
        expect(q.title == str("zone ", z), "tecplot:zone-title", q.title);
        expect(std::abs(q.time - times[z]) <= 1e-5 * std::abs(times[z]) + 1e-12, "tecplot:time", q.time, " for ", times[z]);
        expect(q.shared == same[z], "tecplot:shared", z);
        expect(q.type == (DIM == 1 ? "FELINESEG" : DIM == 2 ? "FEQUADRILATERAL" : "FEBRICK"), "tecplot:type", q.type);
        expect((int)q.e == own, "tecplot:elements", q.e, " for ", own, " ", what);
        if (!q.shared) cells = q.cells;
        std::size_t skip = q.shared ? 0 : DIM, at = 0;
        std::vector<int> seen(L.m.el.size(), 0);
        if (!expect(cells.size() == q.e, "tecplot:cells", what)) return;
        static std::vector<V3> xs;
        if (!q.shared) {
            xs.assign(q.n, V3{0, 0, 0});
            for (std::size_t i = 0; i < q.n; ++i)
                for (std::size_t d = 0; d < DIM && d < q.rows[i].size(); ++d) xs[i][perm[d]] = q.rows[i][d];
        }
        if (!expect(xs.size() == q.n, "tecplot:nodes", what)) return;
        for (auto& c : cells) {
            ++at;
            if (!expect(c.size() == (1u << DIM), "tecplot:cell-size", c.size(), " ", what)) return;
            std::vector<V3> pos;
            std::vector<std::vector<double>> val;
            int id = -1;
            for (int k : c) {
                if (!expect(k >= 1 && k <= (int)q.n, "tecplot:connectivity", k, " of ", q.n, " ", what)) return;
                auto& row = q.rows[k - 1];
                if (!expect(row.size() == skip + 1 + nv, "tecplot:row", row.size(), " for ", skip + 1 + nv, " ", what)) return;
                if (id < 0) id = row[skip];
                expect(id == row[skip], "tecplot:mixed-elements", what);
                pos.push_back(xs[k - 1]);
                val.emplace_back(row.begin() + skip + 1, row.end());
            }
            if (!expect(id >= 0 && id < (int)L.m.el.size() && L.m.el[id].owner == rankId(), "tecplot:id", id)) return;
            ++seen[id];
            if (!checkRows<DIM>(L, F, id, pos, val, nv, z, "tecplot", what)) return;
            double want = elementVolume<DIM>(L.m, id), got = std::abs(cellVolume(pos, DIM));
            expect(std::abs(want - got) < 1e-3 * want + 1e-4 * std::pow(L.size, DIM) * 1e-1, "tecplot:cell-shape", shapeInfo(L.m.el[id].shape).name, " volume ", got, " for ", want, " ", what);
            count("tecplot-cells");
            distinct(str("tecplot ", shapeInfo(L.m.el[id].shape).name, " shared ", q.shared));
        }
        for (std::size_t e = 0; e < seen.size(); ++e) expect(seen[e] == (L.m.el[e].owner == rankId()), "tecplot:element-count", "element ", e, " ", seen[e]);
    }
    count("tecplot-zones", nz);
}
template <std::size_t DIM>
static void gnuplot(Loaded<DIM>& L, Fields& F, Rng& r) {
    std::ostringstream o;
    Single<DIM> S;
    S.f = [&](const Base::Element* e, const Geometry::PointReference<DIM>& p, std::ostream& out) {
        int id = L.indexOf.at(e);
        out << id << ' ' << F(0, 0, id, toV3<DIM>(p), 0);
    };
    {
        Output::GNUPlotDiscontinuousSolutionWriter<DIM> out(o, "a title", std::string("012").substr(0, DIM), "u");
        out.write(L.mesh.get(), &S);
    }
    std::istringstream in(o.str());
    std::string line, what = str("gnuplot ", L.m.name);
    std::getline(in, line);
    expect(line == "TITLE = \"a title\"", "gnuplot:title", line);
    std::getline(in, line);
    auto v = quoted(line);
    expect(v.size() == DIM + 1 && v.back() == "u" && v[0] == "x0", "gnuplot:variables", line);
    std::getline(in, line);
    int own = 0;
    for (auto& e : L.m.el) own += e.owner == rankId();
    expect(line == str("Number of elements = ", own), "gnuplot:elements", line, " for ", own);
    std::map<int, std::pair<std::vector<V3>, std::vector<std::vector<double>>>> rows;
    while (std::getline(in, line)) {
        std::istringstream l(line);
        V3 x{0, 0, 0};
        for (std::size_t d = 0; d < DIM; ++d) l >> x[d];
        int id = -1;
        double u = 0;
        l >> id >> u;
        std::string rest;
        if (!expect(!l.fail() && !(l >> rest) && id >= 0 && id < (int)L.m.el.size(), "gnuplot:row", line)) return;
        rows[id].first.push_back(x), rows[id].second.push_back({u});
    }
    for (std::size_t e = 0; e < L.m.el.size(); ++e) {
        bool mine = L.m.el[e].owner == rankId();
        if (!expect((rows.count(e) > 0) == mine, "gnuplot:element-count", e) || !mine) continue;
        checkRows<DIM>(L, F, e, rows[e].first, rows[e].second, 1, 0, "gnuplot", what);
        count("gnuplot-elements");
    }
}

template <std::size_t DIM>
static void run(const MMesh& m, int mode, Rng& r) {
    Loaded<DIM> L(m);
    if (!L.match()) return;
    Fields F;
    F.key = r();
    F.scale = below(r, 4) ? 1 : std::pow(10., (double)below(r, 13) - 6);
    if (mode == 0) specific<DIM>(L, F, r);
    else if (mode == 1) series<DIM>(L, F, r);
    else if (mode == 2) tecplot<DIM>(L, F, r);
    else gnuplot<DIM>(L, F, r);
}
int main(int argc, char** argv) {
    startHpgem(argc, argv);
    Rng r = rng("output" + arg("salt"));
    int n = rankCount();
    int total = num("cases", st().thorough ? 800 : 120);
    bool lines = arg("dims") == "1";
    for (int k = 0; k < total; ++k) {
        int mode = k % 4;
        int dim = n > 1 ? 2 + below(r, 2) : 1 + below(r, 3);
        if (lines) dim = 1;
        ZooOptions o = randomOptions(dim, r, dim == 2 ? 0 : dim == 3 ? 1 : 0);
        o.nParts = n;
        o.partStyle = below(r, 4);
        if (mode >= 2) o.order = 1;   // the text formats refuse curved elements
        MMesh m = makeMesh(o, r);
        Rng rc(r());
        if (num("case", k) != k) continue;
        begin(str("output case ", k, " mode ", mode, " ", m.name));
        bool ok = guard(str("mode", mode), [&]() {
            if (dim == 1) run<1>(m, mode, rc);
            else if (dim == 2) run<2>(m, mode, rc);
            else run<3>(m, mode, rc);
        });
        if (!ok && n > 1) {
            writeReport();
            MPI_Abort(MPI_COMM_WORLD, 3);
        }
    }
    int rc = finish();
    if (n > 1) MPI_Barrier(MPI_COMM_WORLD);
    return rc;
}
