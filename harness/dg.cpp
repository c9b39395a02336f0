// P19: simulations through the solver interface give the solution defined by
// their element and face contributions, on any number of processes.
#include "physgeo.h"
#include "vtkfile.h"
#include "dofs.h"
#include "Base/HpgemAPISimplified.h"
#include "Base/HpgemAPILinear.h"
#include "Base/HpgemAPILinearSteadyState.h"
#include "Base/TimeIntegration/AllTimeIntegrators.h"
#include <sys/stat.h>
#include <dirent.h>
using namespace vf;
using namespace hpgem;
using Base::Side;
using MV = LinearAlgebra::MiddleSizeVector;
using MM = LinearAlgebra::MiddleSizeMatrix;
using T = MV::type;
using CVec = std::vector<T>;
using State1 = std::vector<CVec>;   // per model element

static long num(const char* n, long d) { return std::stol(vf::arg(n, std::to_string(d))); }
static double mag(const CVec& v) {
    double s = 0;
    for (auto& x : v) s = std::max(s, std::abs(x));
    return s;
}
// a number per index, complex when hpGEM is
[[maybe_unused]] static double turned(double r, double) { return r; }
[[maybe_unused]] static std::complex<double> turned(std::complex<double> r, double angle) {
    return r * std::exp(std::complex<double>(0, angle));
}
static T coef(std::uint64_t a, std::uint64_t b, std::uint64_t c, std::uint64_t d = 0, std::uint64_t e = 0) {
    double re = hashValue(a, b, c, d, e);
    return turned(T(re), hashValue(a + 1000, b, c, d, e));
}

// The semi-discrete system that every process agrees on:
//   M_e u_e' = d_e u_e + a_e (b_e . u_e) + nonlinear + time term + sum over faces
struct System {
    const MMesh* m = nullptr;
    std::uint64_t key = 0;
    std::vector<int> n;   // functions per element (all unknowns)
    bool nonlinear = false, source = true, boundarySource = true;
    double speed = 1;
    struct Opp {
        int e, lf;
    };
    std::vector<std::vector<Opp>> opp;
    struct FaceData {
        CVec a, b, c, s;
    };
    struct ElData {
        CVec d, a, b, s, mv;
        double md = 1;
    };
    std::vector<ElData> E;
    std::vector<std::vector<FaceData>> F;
    void build() {
        int ne = m->el.size();
        opp.assign(ne, {});
        E.resize(ne), F.resize(ne);
        for (int e = 0; e < ne; ++e) {
            int nf = shapeInfo(m->el[e].shape).faces.size();
            opp[e].assign(nf, {-1, -1});
            F[e].resize(nf);
            double w = 1 / std::sqrt((double)n[e]);
            auto fill = [&](CVec& v, int kind, int lf, double s) {
                v.resize(n[e]);
                for (int i = 0; i < n[e]; ++i) v[i] = s * coef(key, kind, e, lf, i);
            };
            fill(E[e].d, 1, 0, 0.6 * speed), fill(E[e].a, 2, 0, w * speed), fill(E[e].b, 3, 0, w), fill(E[e].s, 4, 0, 1), fill(E[e].mv, 5, 0, w);
            E[e].md = 1.5 + 0.5 * hashValue(key, 6, e);
            for (int lf = 0; lf < nf; ++lf) {
                fill(F[e][lf].a, 11, lf, w * speed), fill(F[e][lf].b, 12, lf, w);
                fill(F[e][lf].s, 14, lf, 0.7);
            }
        }
        for (auto& f : m->faces)
            if (f.el.size() == 2)
                for (int s = 0; s < 2; ++s) opp[f.el[s].first][f.el[s].second] = {f.el[1 - s].first, f.el[1 - s].second};
        for (int e = 0; e < ne; ++e)
            for (std::size_t lf = 0; lf < opp[e].size(); ++lf)
                if (opp[e][lf].e >= 0) {
                    int o = opp[e][lf].e;
                    F[e][lf].c.resize(n[o]);
                    for (int i = 0; i < n[o]; ++i) F[e][lf].c[i] = coef(key, 13, e, lf, i) / std::sqrt((double)n[o]);
                }
    }
    static T dot(const CVec& a, const CVec& b) {
        T s = 0;
        for (std::size_t i = 0; i < a.size(); ++i) s += a[i] * b[i];
        return s;
    }
    T timeTerm(int e, int lf, double t) const { return std::cos(t + 0.3 * e + 0.7 * lf); }
    CVec element(int e, const CVec& u, double t) const {
        CVec r(n[e]);
        T s = dot(E[e].b, u);
        for (int i = 0; i < n[e]; ++i) {
            r[i] = E[e].d[i] * u[i] + E[e].a[i] * s;
            if (nonlinear) r[i] += 0.4 * std::sin(std::real(u[i]) + i);
            if (source) r[i] += E[e].s[i] * timeTerm(e, 0, t);
        }
        return r;
    }
    CVec face(int e, int lf, const CVec& u, const CVec& o, double t) const {
        const FaceData& f = F[e][lf];
        CVec r(n[e]);
        T s = dot(f.b, u) + dot(f.c, o);
        for (int i = 0; i < n[e]; ++i) r[i] = f.a[i] * s;
        if (nonlinear)
            for (int i = 0; i < n[e]; ++i) r[i] += 0.2 * std::cos(std::real(u[i]) - std::real(o[i % o.size()]) + t);
        return r;
    }
    CVec boundary(int e, int lf, const CVec& u, double t) const {
        const FaceData& f = F[e][lf];
        CVec r(n[e]);
        T s = dot(f.b, u);
        for (int i = 0; i < n[e]; ++i) {
            r[i] = f.a[i] * s;
            if (boundarySource) r[i] += f.s[i] * timeTerm(e, lf + 1, t);
        }
        return r;
    }
    // mass matrix md I + mv mv^T (real part) -> solve
    CVec massSolve(int e, const CVec& r) const {
        CVec x(r);
        double vv = 0;
        T vr = 0;
        for (int i = 0; i < n[e]; ++i) vv += std::real(E[e].mv[i]) * std::real(E[e].mv[i]), vr += std::real(E[e].mv[i]) * r[i];
        for (int i = 0; i < n[e]; ++i) x[i] = (r[i] - std::real(E[e].mv[i]) * vr / (E[e].md + vv)) / E[e].md;
        return x;
    }
    State1 rhs(const State1& u, double t) const {
        State1 r(u.size());
        for (std::size_t e = 0; e < u.size(); ++e) {
            r[e] = element(e, u[e], t);
            for (std::size_t lf = 0; lf < opp[e].size(); ++lf) {
                CVec f = opp[e][lf].e >= 0 ? face(e, lf, u[e], u[opp[e][lf].e], t) : boundary(e, lf, u[e], t);
                for (int i = 0; i < n[e]; ++i) r[e][i] += f[i];
            }
        }
        return r;
    }
    State1 derivative(const State1& u, double t) const {
        State1 r = rhs(u, t);
        for (std::size_t e = 0; e < u.size(); ++e) r[e] = massSolve(e, r[e]);
        return r;
    }
    CVec initial(int e, double t) const {   // integrated against the functions
        CVec r(n[e]);
        for (int i = 0; i < n[e]; ++i) r[i] = coef(key, 21, e, i) * (1 + 0.1 * std::sin(t));
        return r;
    }
};
static void axpy(State1& y, T a, const State1& x) {
    for (std::size_t e = 0; e < y.size(); ++e)
        for (std::size_t i = 0; i < y[e].size(); ++i) y[e][i] += a * x[e][i];
}
static std::vector<State1> rkStep(const System& S, const Base::ButcherTableau& b, State1& u, double& t, double dt) {
    std::vector<State1> k;
    for (std::size_t i = 0; i < b.getNumberOfStages(); ++i) {
        State1 v = u;
        for (std::size_t j = 0; j < i; ++j) axpy(v, dt * b.getA(i, j), k[j]);
        k.push_back(S.derivative(v, t + b.getC(i) * dt));
    }
    for (std::size_t i = 0; i < k.size(); ++i) axpy(u, dt * b.getB(i), k[i]);
    t += dt;
    return k;
}
static CVec toVec(const MV& v) {
    CVec r(v.size());
    for (std::size_t i = 0; i < v.size(); ++i) r[i] = v[i];
    return r;
}
static MV toMV(const CVec& v) {
    MV r(v.size());
    for (std::size_t i = 0; i < v.size(); ++i) r[i] = v[i];
    return r;
}

// matches the elements of an application's mesh to the model
template <std::size_t DIM>
struct Match {
    std::vector<Base::Element*> el;
    std::map<const Base::Element*, int> indexOf;
    std::vector<int> owner;
    bool owned(int e) const { return owner[e] == rankId(); }
    bool run(const MMesh& m, Base::MeshManipulator<DIM>& mesh) {
        el.assign(m.el.size(), nullptr);
        owner.clear();
        for (auto& e : m.el) owner.push_back(e.owner);
        std::map<std::vector<double>, int> by;
        for (std::size_t e = 0; e < m.el.size(); ++e) {
            std::vector<double> s;
            for (std::size_t i = 0; i < m.el[e].node.size(); ++i) {
                V3 x = m.coord(e, i);
                for (std::size_t d = 0; d < DIM; ++d) s.push_back(x[d]);
            }
            by[s] = e;
        }
        bool ok = true;
        for (Base::Element* e : mesh.getElementsList(Base::IteratorType::GLOBAL)) {
            auto it = by.find(Loaded<DIM>::signature(e));
            if (!expect(it != by.end(), "dg:element-not-in-file", m.name)) {
                ok = false;
                continue;
            }
            el[it->second] = e;
            indexOf[e] = it->second;
        }
        return ok;
    }
};
static std::string scratchName(const std::string& what) {
    static int counter = 0;
    std::string dir = st().scratch.empty() ? "/tmp" : st().scratch;
    return str(dir, "/", what, counter++, ".", rankId());
}
static bool outputs() { return vf::arg("outputs") == "1"; }
static std::string sharedName() {
    static int counter = 0;
    std::string dir = st().scratch.empty() ? "/tmp" : st().scratch;
    return str(dir, "/out", counter++, "_");
}
static void removeOutput(const std::string& stem) {
    std::string dir = stem.substr(0, stem.rfind('/')), base = stem.substr(stem.rfind('/') + 1);
    MPI_Barrier(MPI_COMM_WORLD);
    if (rankId() == 0) {
        if (DIR* d = opendir(dir.c_str())) {
            std::vector<std::string> kill;
            while (dirent* en = readdir(d)) {
                std::string f = en->d_name;
                if (f.size() > base.size() && f.compare(0, base.size(), base) == 0 && f.find('.') != std::string::npos) kill.push_back(f);
            }
            closedir(d);
            for (auto& f : kill) unlink((dir + "/" + f).c_str());
        }
    }
    MPI_Barrier(MPI_COMM_WORLD);
}

// ------------------------------------------------- output of the applications
struct Shot {
    double t;
    std::map<int, CVec> u;   // coefficients of the elements of this process
};
template <std::size_t DIM, class App>
static Shot shotOf(App& app, double t, std::size_t v) {
    Shot s{t, {}};
    for (auto& i : app.match.indexOf)
        if (app.match.owned(i.second)) s.u[i.second] = toVec(i.first->getTimeIntegrationVector(v));
    return s;
}
template <std::size_t DIM, class App>
static double fieldValue(App& app, const Shot& s, int e, std::size_t v, const V3& x) {
    const Base::Element* el = app.match.el[e];
    std::size_t n = el->getNumberOfBasisFunctions(v);
    T r = 0;
    for (std::size_t j = 0; j < n; ++j) r += s.u.at(e)[v * n + j] * el->basisFunction(j, refPoint<DIM>(x), v);
    return std::real(r);
}
// this process's part of one frame
template <std::size_t DIM, class App>
static void checkVtkFrame(App& app, const MMesh& m, const Shot& s, const std::string& pvtu, std::size_t p, double size, const std::string& what) {
    std::string err;
    Pvtu top;
    if (!expect(readPvtu(pvtu, top, err), "frame:pvtu", err, " ", what)) return;
    if (!expect((int)top.pieces.size() == rankCount(), "frame:pieces", top.pieces.size(), " ", what)) return;
    Vtu g;
    if (!expect(readVtu(pvtu.substr(0, pvtu.rfind('/') + 1) + top.pieces[rankId()], g, err), "frame:vtu", err, " ", what)) return;
    expect(g.cells.size() == s.u.size(), "frame:cells", g.cells.size(), " for ", s.u.size(), " ", what);
    const auto& names = app.variableNames_;
    for (auto& n : names) {
        expect(top.arrays.count(n) && top.arrays[n] == 1, "frame:pvtu-array", n, " ", what);
        if (!expect(g.data.count(n) && g.data[n].components == 1, "frame:array", n, " ", what)) return;
    }
    std::vector<V3> ref;
    std::vector<char> used(g.cells.size(), 0);
    for (auto& i : s.u) {
        int e = i.first, type = vtkCell(m.el[e].shape, p, ref, g.version.empty() || std::stod(g.version) < 2.05);
        int cell = -1;
        for (std::size_t c = 0; c < g.cells.size() && cell < 0; ++c) {
            if (used[c] || g.types[c] != type || g.cells[c].size() != ref.size()) continue;
            bool same = true;
            for (std::size_t k = 0; k < ref.size() && same; ++k) {
                V3 x = m.map(e, ref[k]);
                for (std::size_t d = 0; d < DIM; ++d) same &= std::abs(x[d] - g.points[g.cells[c][k]][d]) < 1e-10 * (1 + size);
            }
            if (same) cell = c;
        }
        if (!expect(cell >= 0, "frame:element-missing", "element ", e, " ", what)) continue;
        used[cell] = 1;
        double scale = 1 + mag(i.second);
        for (std::size_t v = 0; v < names.size(); ++v)
            for (std::size_t k = 0; k < ref.size(); ++k) {
                double want = fieldValue<DIM>(app, s, e, v, ref[k]), got = g.data[names[v]].v[g.cells[cell][k]];
                expect(std::abs(want - got) < 1e-9 * scale, "frame:value", names[v], " is ", got, " for ", want, " element ", e, " ", what);
            }
        count("frame-elements");
    }
}
template <std::size_t DIM, class App>
static void checkTecZone(App& app, const MMesh& m, const Shot& s, const TecZone& z, double size, const std::string& what) {
    std::size_t nv = app.variableNames_.size(), nc = std::size_t(1) << DIM;
    if (!expect(z.e == s.u.size() && z.cells.size() == z.e, "zone:elements", z.e, " for ", s.u.size(), " ", what)) return;
    expect(std::abs(z.time - s.t) <= 1e-5 * std::abs(s.t) + 1e-12, "zone:time", z.time, " for ", s.t, " ", what);
    std::vector<char> used(z.cells.size(), 0);
    for (auto& i : s.u) {
        int e = i.first;
        const auto& pts = shapeInfo(m.el[e].shape).pts;
        double scale = 1 + mag(i.second);
        bool found = false;
        for (std::size_t c = 0; c < z.cells.size() && !found; ++c) {
            if (used[c] || z.cells[c].size() != nc) continue;
            std::set<int> corners;
            bool fit = true;
            for (int k : z.cells[c]) {
                if (k < 1 || k > (int)z.rows.size() || z.rows[k - 1].size() != DIM + nv) {
                    fit = false;
                    break;
                }
                auto& row = z.rows[k - 1];
                bool any = false;
                for (std::size_t q = 0; q < pts.size() && !any; ++q) {
                    V3 x = m.map(e, pts[q]);
                    bool same = true;
                    for (std::size_t d = 0; d < DIM; ++d) same &= std::abs(x[d] - row[d]) < 2e-5 * size;
                    for (std::size_t v = 0; v < nv && same; ++v) same &= std::abs(fieldValue<DIM>(app, s, e, v, pts[q]) - row[DIM + v]) < 1e-6 * scale;
                    if (same) any = true, corners.insert(q);
                }
                if (!any) {
                    fit = false;
                    break;
                }
            }
            if (fit && corners.size() == pts.size()) found = true, used[c] = 1;
        }
        expect(found, "zone:element-missing", "element ", e, " ", what);
        count("zone-elements");
    }
}
static double sizeOf(const MMesh& m) {
    double s = 0;
    for (auto& n : m.nodes)
        for (auto& x : n.x)
            for (double c : x) s = std::max(s, std::abs(c));
    return s;
}
template <std::size_t DIM, class App>
static void checkOutput(App& app, const MMesh& m, const std::string& stem, std::size_t p, bool vtk, bool tec, bool series, const std::string& what) {
    MPI_Barrier(MPI_COMM_WORLD);
    std::string err;
    double size = sizeOf(m);
    if (vtk && series) {
        std::vector<std::pair<double, std::string>> sets;
        if (expect(readPvd(stem + ".pvd", sets, err), "frame:pvd", err, " ", what) && expect(sets.size() == app.shots.size(), "frame:count", sets.size(), " for ", app.shots.size(), " ", what))
            for (std::size_t i = 0; i < sets.size(); ++i) {
                expect(std::abs(sets[i].first - app.shots[i].t) <= 1e-13 * std::abs(app.shots[i].t), "frame:time", sets[i].first, " for ", app.shots[i].t, " ", what);
                checkVtkFrame<DIM>(app, m, app.shots[i], stem.substr(0, stem.rfind('/') + 1) + sets[i].second, p, size, str("frame ", i, " ", what));
            }
    } else if (vtk && app.shots.size() == 1)
        checkVtkFrame<DIM>(app, m, app.shots[0], stem + ".pvtu", p, size, what);
    if (tec) {
        bool ok;
        std::string text = slurp(str(stem, ".", rankId(), ".dat"), ok);
        TecFile f;
        if (expect(ok && readTecplot(text, f, err), "zone:file", err, " ", what) && expect(f.zones.size() == app.shots.size(), "zone:count", f.zones.size(), " for ", app.shots.size(), " ", what))
            for (std::size_t i = 0; i < f.zones.size(); ++i) checkTecZone<DIM>(app, m, app.shots[i], f.zones[i], size, str("zone ", i, " ", what));
    }
    count("outputs");
}

// ------------------------------------------------- applications under test
template <std::size_t DIM>
struct Alg : Base::HpgemAPISimplified<DIM> {
    using P = Base::HpgemAPISimplified<DIM>;
    System* S;
    Match<DIM> match;
    std::vector<double> progress, written;
    std::vector<Shot> shots;
    using P::variableNames_;
    Alg(std::size_t u, std::size_t p, const Base::ButcherTableau* b, bool both, System* s) : P(u, p, b, 2, both), S(s) {}
    Base::MeshManipulator<DIM>& mesh() { return *this->meshes_[0]; }
    int id(const Base::Element* e) { return match.indexOf.at(e); }
    MM computeMassMatrixAtElement(Base::Element* e) override {
        auto& d = S->E[id(e)];
        int n = S->n[id(e)];
        MM r(n, n);
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j) r(i, j) = std::real(d.mv[i]) * std::real(d.mv[j]) + (i == j ? d.md : 0);
        return r;
    }
    MV integrateInitialSolutionAtElement(Base::Element* e, const double t, const std::size_t) override { return toMV(S->initial(id(e), t)); }
    MV computeRightHandSideAtElement(Base::Element* e, const MV& u, const double t) override { return toMV(S->element(id(e), toVec(u), t)); }
    MV computeRightHandSideAtFace(Base::Face* f, MV& u, const double t) override {
        return toMV(S->boundary(id(f->getPtrElementLeft()), f->localFaceNumberLeft(), toVec(u), t));
    }
    MV computeRightHandSideAtFace(Base::Face* f, const Side s, MV& l, MV& r, const double t) override {
        if (s == Side::LEFT) return toMV(S->face(id(f->getPtrElementLeft()), f->localFaceNumberLeft(), toVec(l), toVec(r), t));
        return toMV(S->face(id(f->getPtrElementRight()), f->localFaceNumberRight(), toVec(r), toVec(l), t));
    }
    std::pair<MV, MV> computeBothRightHandSidesAtFace(Base::Face* f, MV& l, MV& r, const double t) override {
        return {computeRightHandSideAtFace(f, Side::LEFT, l, r, t), computeRightHandSideAtFace(f, Side::RIGHT, l, r, t)};
    }
    void showProgress(const double t, const std::size_t) override { progress.push_back(t); }
    void VTKWrite(Output::VTKTimeDependentWriter<DIM>& out, double t, std::size_t v) override {
        written.push_back(t);
        shots.push_back(shotOf<DIM>(*this, t, v));
        P::VTKWrite(out, t, v);
    }
    using P::auxiliaryVectorIds_;
    using P::solutionVectorId_;
};
template <std::size_t DIM, class P>
struct AlgLinear : P {
    System* S;
    Match<DIM> match;
    std::vector<double> progress, written;
    std::vector<Shot> shots;
    using P::variableNames_;
    template <class... A>
    AlgLinear(System* s, A... a) : P(a...), S(s) {}
    Base::MeshManipulator<DIM>& mesh() { return *this->meshes_[0]; }
    int id(const Base::Element* e) { return match.indexOf.at(e); }
    MM computeMassMatrixAtElement(Base::Element* e) override {
        auto& d = S->E[id(e)];
        int n = S->n[id(e)];
        MM r(n, n);
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j) r(i, j) = std::real(d.mv[i]) * std::real(d.mv[j]) + (i == j ? d.md : 0);
        return r;
    }
    MV integrateInitialSolutionAtElement(Base::Element* e, const double t, const std::size_t) override { return toMV(S->initial(id(e), t)); }
    MM computeStiffnessMatrixAtElement(Base::Element* e) override {
        auto& d = S->E[id(e)];
        int n = S->n[id(e)];
        MM r(n, n);
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j) r(i, j) = d.a[i] * d.b[j] + (i == j ? d.d[i] : T(0));
        return r;
    }
    Base::FaceMatrix computeStiffnessMatrixAtFace(Base::Face* f) override {
        int el[2], lf[2], k = f->isInternal() ? 2 : 1;
        el[0] = id(f->getPtrElementLeft()), lf[0] = f->localFaceNumberLeft();
        if (k == 2) el[1] = id(f->getPtrElementRight()), lf[1] = f->localFaceNumberRight();
        Base::FaceMatrix r(S->n[el[0]], k == 2 ? S->n[el[1]] : 0);
        for (int a = 0; a < k; ++a)
            for (int b = 0; b < k; ++b) {
                MM q(S->n[el[a]], S->n[el[b]]);
                auto& d = S->F[el[a]][lf[a]];
                const CVec& w = a == b ? d.b : d.c;
                for (int i = 0; i < S->n[el[a]]; ++i)
                    for (int j = 0; j < S->n[el[b]]; ++j) q(i, j) = d.a[i] * w[j];
                r.setElementMatrix(q, a ? Side::RIGHT : Side::LEFT, b ? Side::RIGHT : Side::LEFT);
            }
        return r;
    }
    MV integrateSourceTermAtElement(Base::Element* e, const double t, const std::size_t) override {
        CVec r(S->n[id(e)]);
        for (std::size_t i = 0; i < r.size(); ++i) r[i] = S->E[id(e)].s[i] * S->timeTerm(id(e), 0, t);
        return toMV(r);
    }
    MV integrateSourceTermAtFace(Base::Face* f, const double t, const std::size_t) override {
        int e = id(f->getPtrElementLeft()), lf = f->localFaceNumberLeft();
        if (f->isInternal()) return MV(S->n[e] + S->n[id(f->getPtrElementRight())]);
        CVec r(S->n[e]);
        for (std::size_t i = 0; i < r.size(); ++i) r[i] = S->F[e][lf].s[i] * S->timeTerm(e, lf + 1, t);
        return toMV(r);
    }
    void showProgress(const double t, const std::size_t) override { progress.push_back(t); }
    void VTKWrite(Output::VTKTimeDependentWriter<DIM>& out, double t, std::size_t v) override {
        written.push_back(t);
        shots.push_back(shotOf<DIM>(*this, t, v));
        P::VTKWrite(out, t, v);
    }
    void VTKWrite(Output::VTKSpecificTimeWriter<DIM>& out) override { P::VTKWrite(out); }
    using P::auxiliaryVectorIds_;
    using P::solutionVectorId_;
};

template <std::size_t DIM, class App>
static bool load(App& app, const MMesh& m, System* S, std::size_t unknowns) {
    std::string file = scratchName("mesh");
    writeMesh(m, file, 2, true);
    app.readMesh(file);
    unlink(file.c_str());
    if (!app.match.run(m, app.mesh())) return false;
    // functions per shape, agreed on by all processes
    int per[7] = {0, 0, 0, 0, 0, 0, 0}, all[7];
    for (std::size_t e = 0; e < m.el.size(); ++e)
        if (app.match.el[e]) per[m.el[e].shape] = app.match.el[e]->getNumberOfBasisFunctions();
    MPI_Allreduce(per, all, 7, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
    if (S) {
        S->m = &m;
        S->n.clear();
        for (auto& e : m.el) S->n.push_back(all[e.shape] * unknowns);
        S->build();
    }
    return true;
}
// compares one time integration vector; ghosts too when synchronised
template <class App>
static void compare(App& app, const MMesh& m, const State1& want, std::size_t id, bool ghosts, const std::string& key, double scale = 1) {
    for (std::size_t e = 0; e < m.el.size(); ++e) {
        Base::Element* p = app.match.el[e];
        if (!p) continue;
        bool own = m.el[e].owner == rankId();
        if (!own && !ghosts) continue;
        const MV& v = p->getTimeIntegrationVector(id);
        std::string k = key + (own ? "" : ":ghost");
        if (!expect(v.size() == want[e].size(), k + ":size", v.size(), " for ", want[e].size())) continue;
        double s = std::max({1.0, scale, mag(want[e])}), d = 0;
        for (std::size_t i = 0; i < v.size(); ++i) d = std::max(d, (double)std::abs(v[i] - want[e][i]));
        expect(d < 1e-9 * s, k, "element ", e, " off by ", d, " ", m.name);
        count(own ? "vectors" : "ghost-vectors");
    }
}
static double magAll(const State1& s) {
    double r = 0;
    for (auto& v : s) r = std::max(r, mag(v));
    return r;
}
static const Base::ButcherTableau& randomTableau(Rng& r) {
    static const std::pair<int, int> list[] = {{1, 1}, {2, 2}, {3, 3}, {4, 4}, {5, 7}, {3, 4}};
    auto p = list[below(r, 6)];
    return *Base::AllTimeIntegrators::Instance().getRule(p.first, p.second, below(r, 2));
}
// expected end of the snapshots of solve()
static void checkTimes(const std::vector<double>& progress, const std::vector<double>& written, double t0, double t1, double dt, std::size_t frames,
                       const std::string& what) {
    std::string K = "solve:";
    double tol = 1e-9;
    if (!expect(!progress.empty(), K + "no-steps", what)) return;
    expect(std::abs(progress.back() - t1) < tol, K + "final-time", "ended at ", progress.back(), " instead of ", t1, " ", what);
    double last = t0;
    for (double t : progress) {
        expect(t > last, K + "time-not-increasing", what);
        expect(t - last < dt * (1 + 1e-9) + 1e-12, K + "step-too-large", t - last, " of ", dt, " ", what);
        last = t;
    }
    if (!expect(written.size() == frames + 1, K + "number-of-frames", written.size(), " for ", frames + 1, " ", what)) return;
    for (std::size_t k = 0; k <= frames; ++k)
        expect(std::abs(written[k] - (frames ? t0 + k * (t1 - t0) / frames : t0)) < tol, K + "frame-time", "frame ", k, " at ", written[k], " ", what);
    count("solves");
}

template <std::size_t DIM, class App>
static void history(App& app, const MMesh& m, System& S, const Base::ButcherTableau& b, std::size_t nVec, Rng& r, const std::string& what) {
    // random sequence of the operations an application composes
    std::size_t ne = m.el.size();
    std::vector<State1> V(nVec, State1(ne));
    std::vector<bool> known(nVec, false);
    std::vector<State1> level(2, State1(ne));
    std::vector<bool> knownLevel(2, false);
    double t = uni(r, -1, 1);
    app.setInitialSolution(0, t, 0);
    for (std::size_t e = 0; e < ne; ++e) V[0][e] = S.massSolve(e, S.initial(e, t));
    known[0] = true;
    compare(app, m, V[0], 0, true, "initial");
    int steps = 4 + below(r, 6);
    for (int s = 0; s < steps; ++s) {
        std::vector<std::size_t> have;
        for (std::size_t i = 0; i < nVec; ++i)
            if (known[i] && magAll(V[i]) < 1e6) have.push_back(i);
        std::size_t in = have[below(r, have.size())], out = below(r, nVec);
        int op = below(r, 8);
        std::string k;
        if (op == 0 && out != in) {
            app.computeRightHandSide(in, out, t);
            V[out] = S.rhs(V[in], t), known[out] = true, k = "right-hand-side";
        } else if (op == 1 && out != in) {
            app.computeTimeDerivative(in, out, t);
            V[out] = S.derivative(V[in], t), known[out] = true, k = "time-derivative";
        } else if (op == 2 || op == 3) {
            std::vector<std::size_t> ids;
            std::vector<double> c;
            State1 w;
            for (std::size_t i : have)
                if (i != out && (ids.empty() || below(r, 2))) {
                    ids.push_back(i), c.push_back(uni(r, -1, 1));
                    if (w.empty()) {
                        w = V[i];
                        for (auto& x : w)
                            for (auto& y : x) y *= c.back();
                    } else axpy(w, c.back(), V[i]);
                }
            if (ids.empty()) continue;
            if (op == 2) app.computeRightHandSide(ids, c, out, t), V[out] = S.rhs(w, t);
            else app.computeTimeDerivative(ids, c, out, t), V[out] = S.derivative(w, t);
            known[out] = true, k = op == 2 ? "right-hand-side-combination" : "time-derivative-combination";
        } else if (op == 4) {
            double c = uni(r, -2, 2);
            app.scaleVector(in, c);
            for (auto& x : V[in])
                for (auto& y : x) y *= c;
            out = in, k = "scale";
        } else if (op == 5 && known[out]) {
            double c = uni(r, -1, 1);
            app.scaleAndAddVector(out, in, c);
            axpy(V[out], c, State1(V[in])), k = "scale-and-add";
        } else if (op == 6) {
            double dt = uni(r, 0.01, 0.2), t2 = t;
            std::vector<State1> st = rkStep(S, b, V[0], t2, dt);
            app.computeOneTimeStep(t, dt);
            expect(std::abs(t - t2) < 1e-14 * (1 + std::abs(t)), "step:time", t, " ", t2);
            for (std::size_t i = 0; i < st.size(); ++i) V[1 + i] = st[i], known[1 + i] = true, compare(app, m, V[1 + i], 1 + i, true, "step:stage", magAll(V[0]));
            out = 0, k = "step";
        } else if (op == 7) {
            std::size_t l = below(r, 2);
            if (!knownLevel[l] || below(r, 2)) {
                app.copyTimeIntegrationToTimeLevelData(in, l, 0);
                level[l] = V[in], knownLevel[l] = true;
                for (std::size_t e = 0; e < ne; ++e)
                    if (app.match.el[e] && m.el[e].owner == rankId()) {
                        const MV& v = app.match.el[e]->getTimeLevelDataVector(l);
                        double d = v.size() == level[l][e].size() ? 0 : 1;
                        for (std::size_t i = 0; i < v.size() && !d; ++i) d = std::max(d, (double)std::abs(v[i] - level[l][e][i]));
                        expect(d < 1e-9 * std::max(1., mag(level[l][e])), "copy-to-time-level", e, " ", d);
                    }
                continue;
            }
            app.copyTimeLevelToTimeIntegrationData(l, out, 0);
            app.synchronize(out);
            V[out] = level[l], known[out] = true, k = "copy-from-time-level";
        }
        if (k.empty()) continue;
        count("op:" + k);
        compare(app, m, V[out], out, true, k);
        distinct(str(what, " ", k));
    }
}
// solve() always writes: Tecplot refuses curved elements, VTK refuses prisms and
// pyramids beyond linear
static bool writable(const MMesh& m, std::size_t p) {
    for (auto& e : m.el)
        if (e.order > 1) return false;
    return p <= 1 || !(m.shapes().count(PRISM) || m.shapes().count(PYR));
}
template <std::size_t DIM, class App>
static void solveRun(App& app, const MMesh& m, System& S, const Base::ButcherTableau& b, std::size_t p, Rng& r, const std::string& what) {
    double t0 = below(r, 2) ? 0 : uni(r, -2, 2), len = uni(r, 0.05, 0.6), dt = len / uni(r, 0.7, 12);
    std::size_t frames = below(r, 5);
    if (below(r, 4) == 0) dt = len / (1 + below(r, 10));
    std::string stem = sharedName();
    app.setOutputFileName(stem);
    app.progress.clear(), app.written.clear();
    app.shots.clear();
    app.solve(t0, t0 + len, dt, frames, false);
    if (outputs()) {
        checkOutput<DIM>(app, m, stem, p, true, true, true, what);
        distinct(str("output ", what, " ", frames));
    }
    removeOutput(stem);
    if (outputs()) return;
    std::string w = str(what, " from ", t0, " length ", len, " dt ", dt, " frames ", frames);
    checkTimes(app.progress, app.written, t0, t0 + len, dt, frames, w);
    State1 u(m.el.size());
    for (std::size_t e = 0; e < u.size(); ++e) u[e] = S.massSolve(e, S.initial(e, t0));
    double t = t0;
    for (double p : app.progress) rkStep(S, b, u, t, p - t);
    compare(app, m, u, app.solutionVectorId_, true, "solve:solution");
    distinct(str("solve ", what, " ", frames, " ", b.getNumberOfStages()));
}

// ------------------------------------------------------------- steady state
template <std::size_t DIM>
static void steady(const MMesh& m, std::size_t unknowns, std::size_t p, Rng& r, std::uint64_t key) {
    System S;
    S.key = key;
    S.speed = 0.15;
    using App = AlgLinear<DIM, Base::HpgemAPILinearSteadyState<DIM>>;
    App app(&S, unknowns, p, true, true);
    if (!load<DIM>(app, m, &S, unknowns)) return;
    for (auto& e : S.E)
        for (auto& d : e.d) d = -1.0 - std::abs(d);
    std::string stem = sharedName();
    app.setOutputFileName(stem);
    bool tec = below(r, 2) && writable(m, p), vtk = below(r, 2) && writable(m, p);
    app.setWriteTecOutput(tec);
    app.setWriteVTK(vtk);
    app.solveSteadyStateWithPetsc(false);
    if (outputs()) {
        app.shots = {shotOf<DIM>(app, 0, app.solutionVectorId_)};
        checkOutput<DIM>(app, m, stem, p, vtk, tec, false, str("steady p", p));
        distinct(str("output steady ", DIM, " p", p, " u", unknowns, " ", vtk, tec));
    }
    removeOutput(stem);
    if (outputs()) return;
    // -S x = f : the residual of the computed solution, gathered
    std::size_t ne = m.el.size();
    State1 x(ne);
    for (std::size_t e = 0; e < ne; ++e) {
        x[e].assign(S.n[e], T(0));
        if (app.match.el[e] && m.el[e].owner == rankId()) {
            const MV& v = app.match.el[e]->getTimeIntegrationVector(app.solutionVectorId_);
            if (!expect((int)v.size() == S.n[e], "steady:size", e)) continue;
            x[e] = toVec(v);
        }
    }
    for (auto& v : x) MPI_Allreduce(MPI_IN_PLACE, v.data(), v.size() * sizeof(T) / sizeof(double), MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
    State1 res = S.rhs(x, 0);
    double f = 0, worst = 0;
    State1 zero(ne);
    for (std::size_t e = 0; e < ne; ++e) zero[e].assign(S.n[e], T(0));
    f = magAll(S.rhs(zero, 0));
    worst = magAll(res);
    expect(worst < 1e-7 * std::max(1., f), "steady:residual", worst, " with source ", f, " ", m.name);
    compare(app, m, x, app.solutionVectorId_, true, "steady:solution");
    count("steady");
    distinct(str("steady dim ", DIM, " p ", p, " unknowns ", unknowns));
}

// ---------------------------------------------------- real integrals
struct Poly {
    struct Term {
        double c;
        int a[3];
    };
    std::vector<Term> t;
    V3 o{0, 0, 0};
    double h = 1;
    double operator()(const V3& x) const {
        double s = 0;
        for (auto& m : t) {
            double v = m.c;
            for (int d = 0; d < 3; ++d)
                for (int k = 0; k < m.a[d]; ++k) v *= (x[d] - o[d]) / h;
            s += v;
        }
        return s;
    }
    double deriv(const V3& x, int dir) const {
        double s = 0;
        for (auto& m : t) {
            if (!m.a[dir]) continue;
            double v = m.c * m.a[dir] / h;
            for (int d = 0; d < 3; ++d)
                for (int k = 0; k < m.a[d] - (d == dir); ++k) v *= (x[d] - o[d]) / h;
            s += v;
        }
        return s;
    }
};
static Poly randomPoly(int dim, int degree, const V3& o, double h, Rng& r) {
    Poly p;
    p.o = o, p.h = h;
    for (int a = 0; a <= degree; ++a)
        for (int b = 0; b <= (dim > 1 ? degree - a : 0); ++b)
            for (int c = 0; c <= (dim > 2 ? degree - a - b : 0); ++c) p.t.push_back({uni(r, -1, 1), {a, b, c}});
    return p;
}
struct Problem {
    std::size_t unknowns;
    std::vector<V3> a;         // velocity per unknown
    std::vector<Poly> init, exact, inflow;
    double alpha = 1;          // 1 upwind, 0 central
};
template <std::size_t DIM, class P>
struct Adv : P {
    Problem* Q;
    Match<DIM> match;
    template <class... A>
    Adv(Problem* q, A... a) : P(a...), Q(q) {}
    Base::MeshManipulator<DIM>& mesh() { return *this->meshes_[0]; }
    MV values(const std::vector<Poly>& f, const Geometry::PointPhysical<DIM>& x) {
        MV r(Q->unknowns);
        for (std::size_t v = 0; v < Q->unknowns; ++v) r[v] = f[v](toV3<DIM>(x));
        return r;
    }
    MV getExactSolution(const Geometry::PointPhysical<DIM>& x, const double&, const std::size_t) override { return values(Q->exact, x); }
    MV getInitialSolution(const Geometry::PointPhysical<DIM>& x, const double&, const std::size_t) override { return values(Q->init, x); }
    static double adot(const V3& a, const LinearAlgebra::SmallVector<DIM>& n) {
        double s = 0;
        for (std::size_t d = 0; d < DIM; ++d) s += a[d] * n[d];
        return s;
    }
    using P::solutionVectorId_;
    using P::elementIntegrator_;
    using P::faceIntegrator_;
};
template <std::size_t DIM>
struct AdvSimple : Adv<DIM, Base::HpgemAPISimplified<DIM>> {
    using A = Adv<DIM, Base::HpgemAPISimplified<DIM>>;
    using A::A;
    using A::Q;
    MV computeRightHandSideAtElement(Base::Element* e, const MV& u, const double) override {
        return this->elementIntegrator_.integrate(e, std::function<MV(Base::PhysicalElement<DIM>&)>([&](Base::PhysicalElement<DIM>& el) {
            MV& r = el.getResultVector();
            std::size_t nb = el.getNumberOfBasisFunctions();
            for (std::size_t v = 0; v < Q->unknowns; ++v) {
                T val = 0;
                for (std::size_t j = 0; j < nb; ++j) val += u[el.convertToSingleIndex(j, v)] * el.basisFunction(j);
                for (std::size_t i = 0; i < nb; ++i) r[el.convertToSingleIndex(i, v)] = val * A::adot(Q->a[v], el.basisFunctionDeriv(i));
            }
            return r;
        }));
    }
    MV computeRightHandSideAtFace(Base::Face* f, MV& u, const double) override {
        return this->faceIntegrator_.integrate(f, std::function<MV(Base::PhysicalFace<DIM>&)>([&](Base::PhysicalFace<DIM>& fa) {
            MV& r = fa.getResultVector();
            std::size_t nb = fa.getPhysicalElement(Side::LEFT).getNumberOfBasisFunctions();
            V3 x = toV3<DIM>(fa.getPointPhysical());
            for (std::size_t v = 0; v < Q->unknowns; ++v) {
                T val = 0;
                for (std::size_t j = 0; j < nb; ++j) val += u[f->getPtrElementLeft()->convertToSingleIndex(j, v)] * fa.basisFunction(Side::LEFT, j);
                double an = A::adot(Q->a[v], fa.getUnitNormalVector());
                T flux = an > 0 ? an * val : an * T(Q->inflow[v](x));
                for (std::size_t i = 0; i < nb; ++i) r[f->getPtrElementLeft()->convertToSingleIndex(i, v)] = -flux * fa.basisFunction(Side::LEFT, i);
            }
            return r;
        }));
    }
    MV computeRightHandSideAtFace(Base::Face* f, const Side s, MV& l, MV& rr, const double) override {
        return this->faceIntegrator_.integrate(f, std::function<MV(Base::PhysicalFace<DIM>&)>([&](Base::PhysicalFace<DIM>& fa) {
            MV& r = fa.getResultVector(s);
            for (std::size_t v = 0; v < Q->unknowns; ++v) {
                T val[2] = {0, 0};
                for (int k = 0; k < 2; ++k) {
                    Side sd = k ? Side::RIGHT : Side::LEFT;
                    Base::Element* e = k ? f->getPtrElementRight() : f->getPtrElementLeft();
                    for (std::size_t j = 0; j < e->getNumberOfBasisFunctions(); ++j)
                        val[k] += (k ? rr : l)[e->convertToSingleIndex(j, v)] * fa.basisFunction(sd, j);
                }
                double an = A::adot(Q->a[v], fa.getUnitNormalVector());
                T flux = 0.5 * an * (val[0] + val[1]) + 0.5 * Q->alpha * std::abs(an) * (val[0] - val[1]);
                Base::Element* e = s == Side::RIGHT ? f->getPtrElementRight() : f->getPtrElementLeft();
                for (std::size_t i = 0; i < e->getNumberOfBasisFunctions(); ++i)
                    r[e->convertToSingleIndex(i, v)] = (s == Side::LEFT ? -flux : flux) * fa.basisFunction(s, i);
            }
            return r;
        }));
    }
};
template <std::size_t DIM>
struct AdvLinear : Adv<DIM, Base::HpgemAPILinear<DIM>> {
    using A = Adv<DIM, Base::HpgemAPILinear<DIM>>;
    using A::A;
    using A::Q;
    MM computeIntegrandStiffnessMatrixAtElement(Base::PhysicalElement<DIM>& el) override {
        MM& r = el.getResultMatrix();
        r *= 0;
        std::size_t nb = el.getNumberOfBasisFunctions();
        for (std::size_t v = 0; v < Q->unknowns; ++v)
            for (std::size_t i = 0; i < nb; ++i)
                for (std::size_t j = 0; j < nb; ++j)
                    r(el.convertToSingleIndex(i, v), el.convertToSingleIndex(j, v)) = el.basisFunction(j) * A::adot(Q->a[v], el.basisFunctionDeriv(i));
        return r;
    }
    Base::FaceMatrix computeIntegrandStiffnessMatrixAtFace(Base::PhysicalFace<DIM>& fa) override {
        Base::FaceMatrix& r = fa.getResultMatrix();
        int k = fa.isInternal() ? 2 : 1;
        const Side sd[2] = {Side::LEFT, Side::RIGHT};
        for (int a = 0; a < k; ++a)
            for (int b = 0; b < k; ++b) {
                const Base::Element* ea = a ? fa.getFace()->getPtrElementRight() : fa.getFace()->getPtrElementLeft();
                const Base::Element* eb = b ? fa.getFace()->getPtrElementRight() : fa.getFace()->getPtrElementLeft();
                MM q(ea->getNumberOfBasisFunctions() * Q->unknowns, eb->getNumberOfBasisFunctions() * Q->unknowns);
                for (std::size_t v = 0; v < Q->unknowns; ++v) {
                    double an = A::adot(Q->a[v], fa.getUnitNormalVector());
                    double w = k == 1 ? std::max(an, 0.) : 0.5 * an + (b == 0 ? 0.5 : -0.5) * Q->alpha * std::abs(an);
                    for (std::size_t i = 0; i < ea->getNumberOfBasisFunctions(); ++i)
                        for (std::size_t j = 0; j < eb->getNumberOfBasisFunctions(); ++j)
                            q(ea->convertToSingleIndex(i, v), eb->convertToSingleIndex(j, v)) =
                                (a == 0 ? -1. : 1.) * w * fa.basisFunction(sd[a], i) * fa.basisFunction(sd[b], j);
                }
                r.setElementMatrix(q, sd[a], sd[b]);
            }
        return r;
    }
    MV computeIntegrandSourceTermAtFace(Base::PhysicalFace<DIM>& fa, const double, const std::size_t) override {
        MV& r = fa.getResultVector();
        const Base::Element* e = fa.getFace()->getPtrElementLeft();
        V3 x = toV3<DIM>(fa.getPointPhysical());
        for (std::size_t v = 0; v < Q->unknowns; ++v) {
            double an = A::adot(Q->a[v], fa.getUnitNormalVector());
            for (std::size_t i = 0; i < e->getNumberOfBasisFunctions(); ++i)
                r[e->convertToSingleIndex(i, v)] = an < 0 ? -an * Q->inflow[v](x) * fa.basisFunction(Side::LEFT, i) : 0.;
        }
        return r;
    }
};

template <std::size_t DIM, class App>
static void physics(App& app, const MMesh& m, Problem& Q, std::size_t p, bool affine, bool allPeriodic, Rng& r, const std::string& what, bool linear) {
    if (!load<DIM>(app, m, nullptr, Q.unknowns)) return;
    if constexpr (std::is_base_of<Base::HpgemAPILinear<DIM>, App>::value) app.tasksBeforeSolving();
    (void)linear;
    app.setInitialSolution(0, 0, 0);
    double scale = 1;
    auto eval = [&](int e, std::size_t vec, const V3& x, std::size_t v) {
        const MV& c = app.match.el[e]->getTimeIntegrationVector(vec);
        T s = 0;
        for (std::size_t j = 0; j < app.match.el[e]->getNumberOfBasisFunctions(); ++j)
            s += c[app.match.el[e]->convertToSingleIndex(j, v)] * T(app.match.el[e]->basisFunction(j, refPoint<DIM>(x)));
        return s;
    };
    auto points = [&](auto fn) {
        for (std::size_t e = 0; e < m.el.size(); ++e) {
            if (!app.match.el[e]) continue;
            for (int t = 0; t < 3; ++t) {
                std::vector<double> xv = randomPoint(typeOf(m.el[e].shape), r);
                V3 x{0, 0, 0};
                for (std::size_t d = 0; d < DIM; ++d) x[d] = xv[d];
                for (std::size_t v = 0; v < Q.unknowns; ++v) fn(e, x, v);
            }
        }
    };
    if (affine) {
        points([&](int e, const V3& x, std::size_t v) {
            double w = Q.init[v](m.map(e, x));
            scale = std::max(scale, std::abs(w));
            expect(std::abs(eval(e, 0, x, v) - w) < 1e-8 * scale, "physics:projection", "unknown ", v, " ", what);
            count("projection-points");
        });
        // reported errors
        double sum = 0, mx[4] = {0, 0, 0, 0};
        for (std::size_t e = 0; e < m.el.size(); ++e) {
            if (m.el[e].owner != rankId()) continue;
            for (auto& q : ownRule(m.el[e].shape, p + 3)) {
                V3 x = m.map(e, q.x);
                double det = std::abs(detOf<DIM>(jacobian<DIM>(m, e, q.x)));
                for (std::size_t v = 0; v < Q.unknowns; ++v) {
                    double d = Q.init[v](x) - Q.exact[v](x);
                    sum += q.w * det * d * d;
                }
            }
            auto* rule = app.match.el[e]->getGaussQuadratureRule();
            for (std::size_t k = 0; k < rule->getNumberOfPoints(); ++k) {
                const Geometry::PointReference<DIM>& pr = rule->getPoint(k);
                V3 x = m.map(e, toV3<DIM>(pr));
                for (std::size_t v = 0; v < Q.unknowns; ++v) mx[v] = std::max(mx[v], std::abs(Q.init[v](x) - Q.exact[v](x)));
            }
        }
        MPI_Allreduce(MPI_IN_PLACE, &sum, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
        MPI_Allreduce(MPI_IN_PLACE, mx, 4, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
        double err = std::real(app.computeTotalError(0, 0.3));
        expect(std::abs(err - std::sqrt(sum)) < 1e-7 * (1e-1 * scale + std::sqrt(sum)), "physics:total-error", err, " instead of ", std::sqrt(sum), " ", what);
        MV me = app.computeMaxError(0, 0.3);
        for (std::size_t v = 0; v < Q.unknowns; ++v)
            expect(std::abs(me[v] - mx[v]) < 1e-7 * (scale + mx[v]), "physics:max-error", "unknown ", v, " ", std::real(me[v]), " instead of ", mx[v], " ", what);
        count("error-norms");
        // the time derivative of a solution in the space
        if (!(m.periodic[0] || m.periodic[1] || m.periodic[2])) {
            app.computeTimeDerivative(0, 1, 0.1);
            double size = 1e300;
            for (std::size_t e = 0; e < m.el.size(); ++e) {
                double v = std::abs(detOf<DIM>(jacobian<DIM>(m, e, V3{0.2, 0.2, 0.2})));
                size = std::min(size, std::pow(v, 1. / DIM));
            }
            points([&](int e, const V3& x, std::size_t v) {
                V3 y = m.map(e, x);
                double w = 0;
                for (std::size_t d = 0; d < DIM; ++d) w -= Q.a[v][d] * Q.init[v].deriv(y, d);
                expect(std::abs(eval(e, 1, x, v) - w) < 1e-7 * scale / std::min(1., size), "physics:derivative", "unknown ", v, " ", std::real(eval(e, 1, x, v)), " instead of ", w, " ", what);
                count("derivative-points");
            });
        }
    }
    // conservation, also on curved meshes: the total of the derivative is the
    // flux through the boundary
    if (allPeriodic) {
        double t = 0;
        auto total = [&](std::size_t v) {
            T s = 0;
            for (std::size_t e = 0; e < m.el.size(); ++e)
                if (m.el[e].owner == rankId()) {
                    const MV& c = app.match.el[e]->getTimeIntegrationVector(0);
                    s += app.elementIntegrator_.integrate(app.match.el[e], std::function<T(Base::PhysicalElement<DIM>&)>([&](Base::PhysicalElement<DIM>& el) {
                        T z = 0;
                        for (std::size_t j = 0; j < el.getNumberOfBasisFunctions(); ++j) z += c[el.convertToSingleIndex(j, v)] * el.basisFunction(j);
                        return z;
                    }));
                }
            double q[2] = {std::real(s), std::imag(s)};
            MPI_Allreduce(MPI_IN_PLACE, q, 2, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
            return q[0];
        };
        std::vector<double> before;
        for (std::size_t v = 0; v < Q.unknowns; ++v) before.push_back(total(v));
        double h = 0.02 / (p + 1) / (p + 1);
        for (int s = 0; s < 3; ++s) app.computeOneTimeStep(t, h);
        double top = 0;
        for (std::size_t e = 0; e < m.el.size(); ++e)
            if (app.match.el[e]) top = std::max(top, mag(toVec(app.match.el[e]->getTimeIntegrationVector(0))));
        for (std::size_t v = 0; v < Q.unknowns; ++v) {
            double after = total(v);
            expect(std::abs(after - before[v]) < 1e-9 * std::max(1., top) * m.measure(), "physics:conservation", "unknown ", v, " from ", before[v], " to ", after, " ", what);
            count("conservation");
        }
    }
    distinct(str("physics ", what));
}

template <std::size_t DIM>
static void run(Rng& r, const MMesh& m, int mode, bool affine, std::size_t p) {
    std::uint64_t key = r();
    std::size_t unknowns = 1 + below(r, 3);
    const Base::ButcherTableau& b = randomTableau(r);
    std::string what = str("dim ", DIM, " p", p, " u", unknowns, " rk", b.getOrder(), "/", b.getNumberOfStages());
    if (mode == 0) {
        System S;
        S.key = key, S.nonlinear = true;
        Alg<DIM> app(unknowns, p, &b, below(r, 2), &S);
        if (!load<DIM>(app, m, &S, unknowns)) return;
        if (!outputs()) history<DIM>(app, m, S, b, 1 + b.getNumberOfStages(), r, "simple " + what);
        if (writable(m, p)) solveRun<DIM>(app, m, S, b, p, r, "simple " + what);
    } else if (mode == 1) {
        System S;
        S.key = key;
        S.source = below(r, 2), S.boundarySource = below(r, 2);
        AlgLinear<DIM, Base::HpgemAPILinear<DIM>> app(&S, unknowns, p, &b, std::size_t(2), S.source, S.boundarySource);
        if (!load<DIM>(app, m, &S, unknowns)) return;
        app.tasksBeforeSolving();
        if (!outputs()) history<DIM>(app, m, S, b, 1 + b.getNumberOfStages(), r, "linear " + what);
        if (writable(m, p)) solveRun<DIM>(app, m, S, b, p, r, "linear " + what);
    } else if (mode == 2) {
        steady<DIM>(m, unknowns, p, r, key);
    } else {
        Problem Q;
        Q.unknowns = unknowns;
        Q.alpha = below(r, 3) ? 1 : uni(r);
        V3 o = m.origin;
        double h = m.measure() > 0 ? std::pow(m.measure(), 1. / DIM) : 1;
        for (std::size_t v = 0; v < unknowns; ++v) {
            V3 a{0, 0, 0};
            for (std::size_t d = 0; d < DIM; ++d) a[d] = uni(r, -1, 1);
            Q.a.push_back(a);
            Q.init.push_back(randomPoly(DIM, p, o, h, r));
            Q.exact.push_back(randomPoly(DIM, p, o, h, r));
        }
        Q.inflow = Q.init;
        bool per = !m.holes;
        for (std::size_t d = 0; d < DIM; ++d) per &= m.periodic[d];
        if (mode == 3) {
            AdvSimple<DIM> app(&Q, unknowns, p, &b);
            physics<DIM>(app, m, Q, p, affine, per, r, "simple " + what, false);
        } else {
            AdvLinear<DIM> app(&Q, unknowns, p, &b, std::size_t(0), false, true);
            physics<DIM>(app, m, Q, p, affine, per, r, "linear " + what, true);
        }
    }
}

int main(int argc, char** argv) {
    startHpgem(argc, argv);
    Rng r = rng("dg" + arg("salt"));
    int n = rankCount();
    int total = num("cases", st().thorough ? 400 : 60);
    bool lines = arg("dims") == "1";
    for (int k = 0; k < total; ++k) {
        int mode = k % (outputs() ? 3 : 5);
        int dim = n > 1 ? 2 + below(r, 2) : 1 + below(r, 3);
        if (lines) dim = 1;
        ZooOptions o = randomOptions(dim, r, dim == 2 ? 0 : dim == 3 ? 1 : 0);
        o.nParts = n;
        o.partStyle = below(r, 4);
        bool affine = false;
        if (mode >= 3) {
            if (dim == 3 && o.style == 3) o.style = below(r, 2) ? 5 : 6;
            if (below(r, 3)) {
                affine = true;
                o.order = 1;
                bool simplex = dim == 1 || (dim == 2 && o.style == 1) || (dim == 3 && (o.style == 1 || o.style == 4));
                if (!simplex) o.perturb = 0;
                if (below(r, 2)) o.periodic = {false, false, false};
            } else if (below(r, 2)) {
                o.holes = 0;
                for (int d = 0; d < dim; ++d) o.periodic[d] = true, o.n[d] = std::max(2, o.n[d]);
            }
        }
        MMesh m = makeMesh(o, r);
        bool pyr = m.shapes().count(PYR) > 0;
        int top = dim == 1 ? 4 : dim == 2 ? 3 : 2;
        std::size_t p = pyr ? 1 : mode >= 3 ? 1 + below(r, top) : below(r, top + 1);
        Rng rc(r());
        if (num("case", k) != k) continue;
        begin(str("dg case ", k, " mode ", mode, " p ", p, " ", m.name));
        bool ok = guard(str("mode", mode), [&]() {
            if (dim == 1) run<1>(rc, m, mode, affine, p);
            else if (dim == 2) run<2>(rc, m, mode, affine, p);
            else run<3>(rc, m, mode, affine, p);
        });
        if (!ok && n > 1) {
            writeReport();
            MPI_Abort(MPI_COMM_WORLD, 3);
        }
    }
    int rc = finish();
    if (n > 1) MPI_Barrier(MPI_COMM_WORLD);
    return rc;
}
