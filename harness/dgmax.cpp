// P20: the Maxwell discretisations of DG-Max against their weak forms, written
// out here with our own geometry, quadrature and linear algebra.
#include "physgeo.h"
#include "Algorithms/DGMaxDiscretization.h"
#include "Algorithms/DivDGMaxDiscretization.h"
#include "Algorithms/DGMaxEigenvalue.h"
#include "Algorithms/DivDGMaxEigenvalue.h"
#include "Algorithms/HarmonicSolver.h"
#include "ElementInfos.h"
#include "PMLElementInfos.h"
#include "Utils/FluxFacets.h"
#include <petsc.h>
using namespace vf;
using C = std::complex<double>;
using CV = std::array<C, 3>;
using Disc = DivDGMaxDiscretizationBase;
using BCT = DGMax::BoundaryConditionType;

struct Dense {
    std::size_t n = 0, m = 0;
    std::vector<C> v;
    Dense(std::size_t n_ = 0, std::size_t m_ = 0) : n(n_), m(m_), v(n_ * m_) {}
    C& operator()(std::size_t i, std::size_t j) { return v[i * m + j]; }
    C operator()(std::size_t i, std::size_t j) const { return v[i * m + j]; }
    double max() const {
        double r = 0;
        for (auto& x : v) r = std::max(r, std::abs(x));
        return r;
    }
    Dense adj() const {
        Dense r(m, n);
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < m; ++j) r(j, i) = std::conj((*this)(i, j));
        return r;
    }
    Dense operator*(const Dense& o) const {
        Dense r(n, o.m);
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t k = 0; k < m; ++k)
                for (std::size_t j = 0; j < o.m; ++j) r(i, j) += (*this)(i, k) * o(k, j);
        return r;
    }
};
static Dense solve(Dense a, Dense b) {
    for (std::size_t c = 0; c < a.n; ++c) {
        std::size_t p = c;
        for (std::size_t i = c; i < a.n; ++i)
            if (std::abs(a(i, c)) > std::abs(a(p, c))) p = i;
        for (std::size_t j = 0; j < a.n; ++j) std::swap(a(p, j), a(c, j));
        for (std::size_t j = 0; j < b.m; ++j) std::swap(b(p, j), b(c, j));
        for (std::size_t i = 0; i < a.n; ++i)
            if (i != c && a(i, c) != 0.0) {
                C f = a(i, c) / a(c, c);
                for (std::size_t j = c; j < a.n; ++j) a(i, j) -= f * a(c, j);
                for (std::size_t j = 0; j < b.m; ++j) b(i, j) -= f * b(c, j);
            }
    }
    for (std::size_t i = 0; i < a.n; ++i)
        for (std::size_t j = 0; j < b.m; ++j) b(i, j) /= a(i, i);
    return b;
}
static Dense dense(const LinearAlgebra::MiddleSizeMatrix& a) {
    Dense r(a.getNumberOfRows(), a.getNumberOfColumns());
    for (std::size_t i = 0; i < r.n; ++i)
        for (std::size_t j = 0; j < r.m; ++j) r(i, j) = a(i, j);
    return r;
}
static bool same(const Dense& got, const Dense& want, double tol, const std::string& key, const std::string& info) {
    if (!expect(got.n == want.n && got.m == want.m, key + ":size", got.n, "x", got.m, " want ", want.n, "x", want.m, " ", info)) return false;
    double scale = want.max(), err = 0;
    std::size_t wi = 0, wj = 0;
    for (std::size_t i = 0; i < got.n; ++i)
        for (std::size_t j = 0; j < got.m; ++j) {
            double e = std::abs(got(i, j) - want(i, j));
            if (!(e <= err)) err = e, wi = i, wj = j;
        }
    return expect(err <= tol * (scale + 1e-300), key, "entry ", wi, ",", wj, " off by ", err, " scale ", scale, " ", info);
}

// relative tolerance when coefficients vary: what two rules, one of them of the
// degree hpGEM uses, differ by
static double slack(const Dense& fine, const Dense& coarse) {
    double d = 0;
    for (std::size_t i = 0; i < fine.v.size(); ++i) d = std::max(d, std::abs(fine.v[i] - coarse.v[i]));
    return 1e-8 + 6 * d / (fine.max() + 1e-300);
}

template <std::size_t D>
V3 crs(const V3& a, const V3& b) {
    return D == 2 ? V3{a[0] * b[1] - a[1] * b[0], 0, 0} : cross(a, b);
}
template <std::size_t D>
CV crsc(const V3& a, const CV& b) {
    if (D == 2) return {a[0] * b[1] - a[1] * b[0], 0, 0};
    return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
}

// materials, as data of ours
struct Stuff {
    double eps = 1, mu = 1;
    bool pml = false;
    V3 offset{0, 0, 0}, dir{0, 0, 0}, depth{1, 1, 1}, strength{0, 0, 0};
    std::array<C, 3> stretch(const V3& x, double omega, std::size_t D) const {
        std::array<C, 3> s{1, 1, 1};
        for (std::size_t d = 0; d < D && pml; ++d) {
            double t = (x[d] - offset[d]) * dir[d];
            if (t > 0) s[d] += C(0, 1) / omega * strength[d] / (depth[d] * depth[d] * depth[d]) * t * t;
        }
        return s;
    }
    // the permittivity as diagonal tensor and the inverse permeability for curls
    std::array<C, 3> div(const V3& x, double omega, std::size_t D) const {
        auto s = stretch(x, omega, D);
        C p = s[0] * s[1] * s[2];
        return {eps * p / (s[0] * s[0]), eps * p / (s[1] * s[1]), eps * p / (s[2] * s[2])};
    }
    std::array<C, 3> curl(const V3& x, double omega, std::size_t D) const {
        auto s = stretch(x, omega, D);
        C p = s[0] * s[1] * s[2];
        std::array<C, 3> r{s[0] * s[0] / p / mu, s[1] * s[1] / p / mu, s[2] * s[2] / p / mu};
        if (D == 2) r[0] = r[2];  // the curl is the z component
        return r;
    }
};
static CV operator*(const std::array<C, 3>& t, const V3& v) { return {t[0] * v[0], t[1] * v[1], t[2] * v[2]}; }
static C dotc(const CV& a, const V3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }

template <std::size_t D>
struct World {
    Loaded<D> L;
    std::vector<Stuff> mat;
    std::vector<std::shared_ptr<ElementInfos>> infos;
    double omega = 1;  // for dispersive materials
    World(const MMesh& m, std::size_t unknowns, std::size_t eM = 3) : L(m, unknowns, 2, eM, 3, 2, 1) {
        L.match();
        for (auto* e : L.el)
            if (e) e->setNumberOfTimeIntegrationVectors(2);
        mat.resize(L.el.size());
    }
    void install() {
        infos.clear();
        for (std::size_t e = 0; e < L.el.size(); ++e) {
            const Stuff& a = mat[e];
            if (a.pml) {
                LinearAlgebra::SmallVector<D> o, d, h, s;
                for (std::size_t i = 0; i < D; ++i) o[i] = a.offset[i], d[i] = a.dir[i], h[i] = a.depth[i], s[i] = a.strength[i];
                infos.push_back(std::make_shared<PMLElementInfos<D>>(DGMax::Material(a.eps, a.mu), o, d, h, s));
            } else
                infos.push_back(std::make_shared<ElementInfos>(a.eps, a.mu));
            if (L.el[e]) L.el[e]->setUserData(infos[e].get());
        }
        wave(omega);
    }
    void wave(double o) {
        omega = o;
        for (auto& i : infos)
            if (auto* d = dynamic_cast<DGMax::Dispersive*>(i.get())) d->setDispersionWavenumber(o);
    }
    ~World() {
        // the mesh owns user data only where it was asked to; ours are shared
        for (auto* e : L.el)
            if (e) e->setUserData(nullptr);
    }
};

template <std::size_t D>
struct Point {
    V3 x;  // physical
    double det;
    std::vector<V3> u, cu, gp;
    std::vector<double> p;
    std::array<C, 3> eps, mui;
    Point(World<D>& w, int e, const V3& ref, bool potential) {
        const Base::Element* el = w.L.el[e];
        auto q = refPoint<D>(ref);
        M3 J = jacobian<D>(w.L.m, e, ref), I = inverse<D>(J);
        det = detOf<D>(J);
        x = w.L.m.map(e, ref);
        for (std::size_t i = 0; i < el->getNumberOfBasisFunctions(0); ++i) {
            LinearAlgebra::SmallVector<D> v;
            el->basisFunction(i, q, v, 0);
            u.push_back(mul<D>(I, toV3(v), true));
            V3 c = toV3(el->basisFunctionCurl(i, q, 0));
            cu.push_back(D == 2 ? scale(c, 1 / det) : scale(mul<D>(J, c), 1 / det));
        }
        if (potential)
            for (std::size_t i = 0; i < el->getNumberOfBasisFunctions(1); ++i) {
                p.push_back(el->basisFunction(i, q, 1));
                gp.push_back(mul<D>(I, toV3(el->basisFunctionDeriv(i, q, 1)), true));
            }
        eps = w.mat[e].div(x, w.omega, D);
        mui = w.mat[e].curl(x, w.omega, D);
    }
};

// a face of the mesh as we see it: pairs of points with a common normal
template <std::size_t D>
struct FaceView {
    int e[2] = {-1, -1};
    double diameter = 0;
    struct Q {
        V3 ref[2], n;
        double w;  // physical weight
    };
    std::vector<Q> q;
    FaceView(World<D>& w, const Base::Face* f, int order) {
        e[0] = w.L.indexOf.at(f->getPtrElementLeft());
        if (f->isInternal()) e[1] = w.L.indexOf.at(f->getPtrElementRight());
        const MMesh& m = w.L.m;
        MShape s = m.el[e[0]].shape;
        int lf = f->localFaceNumberLeft();
        MShape fs = D == 2 ? LINE : TRI;
        for (auto& k : ownRule(fs, order)) {
            Q z;
            V3 nr;
            facePoint(s, lf, k.x, z.ref[0], nr);
            M3 J = jacobian<D>(m, e[0], z.ref[0]);
            V3 n = scale(mul<D>(inverse<D>(J), nr, true), std::abs(detOf<D>(J)));
            z.w = k.w * len(n);
            z.n = scale(n, 1 / len(n));
            q.push_back(z);
        }
        auto& c = shapeInfo(s).faces[lf];
        for (int a : c)
            for (int b : c) diameter = std::max(diameter, len(sub(m.coord(e[0], a), m.coord(e[0], b))));
        if (e[1] < 0) return;
        // the same points from the right, through the nodes both sides share
        int rf = f->localFaceNumberRight();
        MShape t = m.el[e[1]].shape;
        auto lc = m.faceCorners(e[0], lf), rc = m.faceCorners(e[1], rf);
        for (auto& z : q) {
            // barycentric coordinates in the left face by corner positions
            auto& lp = shapeInfo(s).faces[lf];
            auto& rp = shapeInfo(t).faces[rf];
            std::vector<double> b = bary(s, lp, z.ref[0]);
            z.ref[1] = {0, 0, 0};
            for (std::size_t i = 0; i < lp.size(); ++i) {
                int at = -1;
                for (std::size_t j = 0; j < rp.size(); ++j)
                    if (corner(m, e[1], rp[j]) == corner(m, e[0], lp[i])) at = j;
                if (at < 0) throw std::runtime_error("faces do not share their corners");
                z.ref[1] = add(z.ref[1], shapeInfo(t).pts[rp[at]], b[i]);
            }
        }
    }
    static int corner(const MMesh& m, int e, int k) { return m.el[e].node[k]; }
    static std::vector<double> bary(MShape s, const std::vector<int>& f, const V3& x) {
        auto P = [&](int k) { return shapeInfo(s).pts[f[k]]; };
        std::vector<double> b(f.size());
        if (f.size() == 2) {
            V3 t = sub(P(1), P(0));
            b[1] = dot(sub(x, P(0)), t) / dot(t, t);
            b[0] = 1 - b[1];
            return b;
        }
        V3 t1 = sub(P(1), P(0)), t2 = sub(P(2), P(0)), r = sub(x, P(0));
        double a11 = dot(t1, t1), a12 = dot(t1, t2), a22 = dot(t2, t2), r1 = dot(r, t1), r2 = dot(r, t2), d = a11 * a22 - a12 * a12;
        b[1] = (r1 * a22 - r2 * a12) / d, b[2] = (a11 * r2 - a12 * r1) / d, b[0] = 1 - b[1] - b[2];
        return b;
    }
};

// the functions living on a face, left then right, one row per function
template <std::size_t D>
struct FaceFns {
    std::vector<V3> u, cu, nu;  // n x u with the outward normal of its side
    std::vector<std::array<C, 3>> eps, mui;
    std::vector<double> su;     // sign of the side
    std::vector<double> p, sp;
    FaceFns(World<D>& w, const FaceView<D>& f, const typename FaceView<D>::Q& q, bool potential) {
        for (int s = 0; s < 2; ++s) {
            if (f.e[s] < 0) continue;
            Point<D> P(w, f.e[s], q.ref[s], potential);
            double sg = s ? -1 : 1;
            for (std::size_t i = 0; i < P.u.size(); ++i) {
                u.push_back(P.u[i]), cu.push_back(P.cu[i]), su.push_back(sg);
                nu.push_back(scale(crs<D>(q.n, P.u[i]), sg));
                eps.push_back(P.eps), mui.push_back(P.mui);
            }
            for (double v : P.p) p.push_back(v), sp.push_back(sg);
        }
    }
};

template <std::size_t D>
static MMesh smallMesh(Rng& r, bool periodicAllowed, int nParts, ZooOptions* out = nullptr, int size = 0, bool allPeriodic = false) {
    ZooOptions o;
    o.dim = D;
    o.style = D == 2 ? 1 : below(r, 2) ? 1 : 4;
    for (int d = 0; d < 3; ++d) {
        o.n[d] = 1 + below(r, (D == 2 ? 3 : o.style == 4 ? 1 : 2) + size);
        o.periodic[d] = periodicAllowed && d < (int)D && (below(r, 2) || allPeriodic);
        // two cells in a periodic direction leave pairs of elements with two common faces: three keep it simple
        if (o.periodic[d]) o.n[d] = D == 2 ? 3 : 2 + below(r, 2);
    }
    if (D == 3 && o.n[0] * o.n[1] * o.n[2] > 8) o.n[below(r, 3)] = 2;
    o.zones = 1 + below(r, 3);
    o.order = 1;
    o.perturb = below(r, 3) ? 0.12 : 0;
    o.nParts = nParts;
    o.partStyle = below(r, 4);
    if (out) *out = o;
    return makeMesh(o, r);
}

template <std::size_t D>
static void randomMaterials(World<D>& w, Rng& r, bool pml) {
    bool byZone = below(r, 2);
    w.omega = uni(r, 0.5, 3);
    std::map<int, Stuff> z;
    for (std::size_t e = 0; e < w.mat.size(); ++e) {
        Stuff a;
        a.eps = uni(r, 0.5, 6), a.mu = below(r, 2) ? 1.0 : uni(r, 0.5, 3);
        if (pml && below(r, 2)) {
            // smooth over the element(s), so that quadrature error stays small
            a.pml = true;
            for (std::size_t d = 0; d < D; ++d) {
                double lo = 1e300, hi = -1e300;
                for (std::size_t o = 0; o < w.mat.size(); ++o)
                    if (o == e || byZone)
                        for (std::size_t k = 0; k <= D; ++k) {
                            double x = w.L.m.map(o, shapeInfo(w.L.m.el[o].shape).pts[k])[d];
                            lo = std::min(lo, x), hi = std::max(hi, x);
                        }
                a.dir[d] = (double)below(r, 3) - 1.0;
                a.offset[d] = a.dir[d] > 0 ? lo - uni(r, 0, 0.5) * (hi - lo) : hi + uni(r, 0, 0.5) * (hi - lo);
                a.depth[d] = uni(r, 0.5, 2);
                double t = a.dir[d] > 0 ? hi - a.offset[d] : a.offset[d] - lo;
                a.strength[d] = uni(r, 0.1, 0.3) * w.omega * std::pow(a.depth[d], 3) / (t * t);
            }
        }
        if (byZone) z.emplace(w.L.m.el[e].zone, a);
        w.mat[e] = byZone ? z[w.L.m.el[e].zone] : a;
    }
    w.install();
}

static Dense faceMatrix(const Base::FaceMatrix& a) { return dense(const_cast<Base::FaceMatrix&>(a).getEntireMatrix()); }

// boundary conditions by face, chosen by its model entity
struct Bc {
    std::map<const Base::Face*, BCT> t;
    BCT operator()(const Base::Face& f) const { return t.at(&f); }
};
template <std::size_t D>
static Bc randomBc(World<D>& w, Rng& r, int kinds = 3) {
    Bc b;
    static const BCT k[] = {BCT::DIRICHLET, BCT::NEUMANN, BCT::SILVER_MULLER};
    int style = below(r, 4);
    auto seed = r();  // the same for a face on all processes
    for (auto* f : w.L.mesh->getFacesList(Base::IteratorType::GLOBAL)) {
        Rng q(seed + 97 * w.L.indexOf.at(f->getPtrElementLeft()) + f->localFaceNumberLeft());
        b.t[f] = k[style < 3 ? std::min(style, kinds - 1) : below(q, kinds)];
    }
    return b;
}

template <std::size_t D>
Disc::Stab randomStab(Rng& r) {
    Disc::Stab s;
    s.stab1 = uni(r, 1, 120), s.stab2 = below(r, 3) ? uni(r, 0.1, 3) : 0.0, s.stab3 = uni(r, 0.5, 20);
    auto t = [&]() { return below(r, 2) ? Disc::FluxType::IP : Disc::FluxType::BREZZI; };
    s.fluxType1 = t(), s.fluxType2 = t(), s.fluxType3 = t();
    if (below(r, 3) == 0) s.setAllFluxeTypes(Disc::FluxType::IP);
    return s;
}
static std::string stabName(const Disc::Stab& s) {
    std::stringstream o;
    o << s;
    return o.str();
}
// where the functions of a face are in the face matrix: u left, p left, u right, p right
static void layout(std::size_t ul, std::size_t pl, std::size_t ur, std::size_t pr, std::vector<std::size_t>& u, std::vector<std::size_t>& p) {
    for (std::size_t i = 0; i < ul; ++i) u.push_back(i);
    for (std::size_t i = 0; i < pl; ++i) p.push_back(ul + i);
    for (std::size_t i = 0; i < ur; ++i) u.push_back(ul + pl + i);
    for (std::size_t i = 0; i < pr; ++i) p.push_back(ul + pl + ur + i);
}

// polynomial data of degree two
struct Poly {
    std::array<std::array<C, 10>, 3> a{};
    static Poly random(Rng& r, std::size_t D, bool scalar = false, int degree = 2) {
        Poly p;
        for (std::size_t d = 0; d < (scalar ? 1 : D); ++d)
            for (int k = 0; k < (degree == 0 ? 1 : degree == 1 ? 4 : 10); ++k) p.a[d][k] = C(uni(r, -1, 1), uni(r, -1, 1));
        return p;
    }
    static std::array<double, 10> mono(const V3& x) { return {1, x[0], x[1], x[2], x[0] * x[0], x[0] * x[1], x[0] * x[2], x[1] * x[1], x[1] * x[2], x[2] * x[2]}; }
    CV operator()(const V3& x) const {
        auto m = mono(x);
        CV r{0, 0, 0};
        for (int d = 0; d < 3; ++d)
            for (int k = 0; k < 10; ++k) r[d] += a[d][k] * m[k];
        return r;
    }
    // d a_i / d x_j
    C deriv(int i, int j, const V3& x) const {
        static const int first[3] = {1, 2, 3}, second[3][3] = {{4, 5, 6}, {5, 7, 8}, {6, 8, 9}};
        C r = a[i][first[j]];
        for (int k = 0; k < 3; ++k) r += a[i][second[j][k]] * x[k] * (j == k ? 2.0 : 1.0);
        return r;
    }
    CV curl(const V3& x, std::size_t D) const {
        if (D == 2) return {deriv(1, 0, x) - deriv(0, 1, x), 0, 0};
        return {deriv(2, 1, x) - deriv(1, 2, x), deriv(0, 2, x) - deriv(2, 0, x), deriv(1, 0, x) - deriv(0, 1, x)};
    }
};
template <std::size_t D>
LinearAlgebra::SmallVectorC<D> toC(const CV& v) {
    LinearAlgebra::SmallVectorC<D> r;
    for (std::size_t d = 0; d < D; ++d) r[d] = v[d];
    return r;
}

// one discretisation on one mesh, with what it has to have computed
template <std::size_t D>
struct Setup {
    World<D>& w;
    const MMesh& m;
    bool mixed, projector = false, pml;
    std::size_t order;
    Disc::Stab st;
    std::string info, key;
    int n, coarse;  // sizes of our rules; hpGEM's need not be exact for varying coefficients
    double tol;
    std::shared_ptr<DGMax::AbstractDiscretization<D>> disc;
    DGMaxDiscretization<D>* pd = nullptr;
    Setup(World<D>& w_, Rng& r, bool mixed_, bool proj, bool pml_, int maxOrder, bool stable = false) : w(w_), m(w_.L.m), mixed(mixed_), projector(proj), pml(pml_) {
        order = 1 + below(r, maxOrder);
        st = randomStab<D>(r);
        if (stable) st.stab1 = uni(r, 120, 200);  // coercive, so that no eigenvalue is negative
        if (pml) st.setAllFluxeTypes(Disc::FluxType::IP);
        if (mixed)
            disc = std::make_shared<DivDGMaxDiscretization<D>>(order, st);
        else {
            st.fluxType1 = Disc::FluxType::IP;
            auto p = std::make_shared<DGMaxDiscretization<D>>(order, st.stab1, projector);
            pd = p.get();
            disc = p;
        }
        info = str(m.name, " order ", order, " ", stabName(st), pml ? " pml" : "", projector ? " projector" : "");
        key = str(mixed ? "mixed:" : "plain:", D, "D:");
        n = order + 2 + (pml ? 3 : 0);
        tol = mixed ? 1e-8 : 1e-9;
        coarse = order + 1;
    }
    bool known(int e) const { return w.L.el[e] != nullptr; }
    bool owned(int e) const { return known(e) && w.L.el[e]->isOwnedByCurrentProcessor(); }
    std::size_t nu(int e) const { return w.L.el[e]->getNumberOfBasisFunctions(0); }
    std::size_t np(int e) const { return mixed || projector ? w.L.el[e]->getNumberOfBasisFunctions(1) : 0; }
    // unweighted mass matrices of either unknown
    std::map<std::pair<int, int>, Dense> cache;
    const Dense& plain(int e, int which) {
        auto it = cache.find({e, which});
        if (it != cache.end()) return it->second;
        std::size_t N = which ? np(e) : nu(e);
        Dense a(N, N);
        for (auto& k : ownRule(m.el[e].shape, n)) {
            Point<D> P(w, e, k.x, mixed);
            double W = k.w * std::abs(P.det);
            for (std::size_t i = 0; i < N; ++i)
                for (std::size_t j = 0; j < N; ++j) a(i, j) += W * (which ? P.p[i] * P.p[j] : dot(P.u[i], P.u[j]));
        }
        return cache[{e, which}] = a;
    }
    std::vector<Dense> M, S, B;
    std::map<const Base::Face*, Dense> F;
    void elements() {
        M.resize(w.L.el.size()), S.resize(M.size()), B.resize(M.size());
        for (std::size_t e = 0; e < w.L.el.size(); ++e) {
            if (!owned(e)) continue;
            auto* el = w.L.el[e];
            std::size_t a = nu(e), b = np(e), N = mixed ? a + b : a;
            Dense mass(N, N), stiff(N, N), proj(b, a), cm(N, N), cs(N, N), cp(b, a);
            auto sum = [&](int rule, Dense& mass, Dense& stiff, Dense& proj) {
            for (auto& k : ownRule(m.el[e].shape, rule)) {
                Point<D> P(w, e, k.x, b > 0);
                double W = k.w * std::abs(P.det);
                for (std::size_t i = 0; i < a; ++i) {
                    for (std::size_t j = 0; j < a; ++j) {
                        mass(i, j) += W * dotc(P.eps * P.u[j], P.u[i]);
                        stiff(i, j) += W * dotc(P.mui * P.cu[j], P.cu[i]);
                    }
                    for (std::size_t j = 0; j < b; ++j) {
                        C t = W * dotc(P.eps * P.u[i], P.gp[j]);
                        proj(j, i) += t;
                        if (mixed) stiff(a + j, i) -= t, stiff(i, a + j) -= std::conj(t);
                    }
                }
            }
            };
            sum(n, mass, stiff, proj);
            if (pml) sum(coarse, cm, cs, cp);
            M[e] = dense(el->getElementMatrix(0)), S[e] = dense(el->getElementMatrix(1));
            same(M[e], mass, pml ? slack(mass, cm) : tol, key + "mass", info);
            same(S[e], stiff, pml ? slack(stiff, cs) : tol, key + "stiffness", info);
            if (projector) B[e] = dense(el->getElementMatrix(2)), same(B[e], proj, pml ? slack(proj, cp) : tol, key + "projector", info);
            count("element-matrices");
        }
    }
    std::string nameOf(const Base::Face* f, BCT t) const {
        if (f->isInternal()) {
            auto y = f->getFaceType();
            return y == Geometry::FaceType::PERIODIC_BC || y == Geometry::FaceType::PERIODIC_SUBDOMAIN_BC ? "periodic" : "internal";
        }
        return t == BCT::DIRICHLET ? "dirichlet" : t == BCT::NEUMANN ? "neumann" : "silver-muller";
    }
    bool relevant(const Base::Face* f) const {
        return owned(w.L.indexOf.at(f->getPtrElementLeft())) || (f->isInternal() && owned(w.L.indexOf.at(f->getPtrElementRight())));
    }
    void faces(const Bc& bc) {
        for (auto* f : w.L.mesh->getFacesList())
            if (relevant(f)) face(f, bc);
    }
    void face(Base::Face* f, const Bc& bc) {
        FaceView<D> v(w, f, n);
        bool internal = f->isInternal();
        BCT t = internal ? BCT::INTERNAL : bc(*f);
        bool essential = internal || t == BCT::DIRICHLET;
        auto *L = f->getPtrElementLeft();
        std::size_t ul = nu(v.e[0]), pl = mixed ? np(v.e[0]) : 0, ur = internal ? nu(v.e[1]) : 0, pr = internal && mixed ? np(v.e[1]) : 0;
        std::vector<std::size_t> U, P;
        layout(ul, pl, ur, pr, U, P);
        std::size_t N = U.size() + P.size();
        Dense want(N, N), imp(N, N), liftT(U.size(), U.size()), liftN(P.size(), U.size()), liftP(U.size(), P.size());
        double avg = internal ? 0.5 : 1;
        Dense cw(N, N), ci(N, N);
        auto sum = [&](const FaceView<D>& v, Dense& want, Dense& imp) {
        for (auto& q : v.q) {
            FaceFns<D> b(w, v, q, mixed);
            for (std::size_t i = 0; i < U.size(); ++i) {
                for (std::size_t j = 0; j < U.size(); ++j) {
                    C s = 0;
                    if (essential) {
                        s = -avg * (dotc(b.mui[j] * b.cu[j], b.nu[i]) + dotc(b.mui[i] * b.cu[i], b.nu[j]));
                        if (st.fluxType1 == Disc::FluxType::IP) s += st.stab1 / v.diameter * dot(b.nu[i], b.nu[j]);
                    }
                    if (mixed && internal && st.fluxType2 == Disc::FluxType::IP)
                        s += st.stab2 * v.diameter * b.su[i] * b.su[j] * dotc(b.eps[j] * b.u[j], q.n) * std::conj(dotc(b.eps[i] * b.u[i], q.n));
                    want(U[i], U[j]) += q.w * s;
                    if (t == BCT::SILVER_MULLER) imp(U[i], U[j]) += q.w * C(0, -std::sqrt(w.mat[v.e[0]].eps / w.mat[v.e[0]].mu)) * dot(b.nu[i], b.nu[j]);
                    liftT(i, j) += q.w * avg * dot(b.u[i], D == 2 ? V3{0, 0, 0} : b.nu[j]);
                    if (D == 2) liftT(i, j) += q.w * avg * b.u[i][0] * b.nu[j][0];  // see below
                }
                for (std::size_t j = 0; j < P.size(); ++j) {
                    C s = q.w * avg * dotc(b.eps[i] * b.u[i], q.n) * b.p[j] * b.sp[j];
                    want(P[j], U[i]) += s, want(U[i], P[j]) += std::conj(s);
                    liftP(i, j) += q.w * avg * b.p[j] * b.sp[j] * dot(q.n, b.u[i]);
                    liftN(j, i) += q.w * avg * b.su[i] * dotc(b.eps[i] * b.u[i], q.n) * b.p[j];
                }
            }
            if (mixed && st.fluxType3 == Disc::FluxType::IP)
                for (std::size_t i = 0; i < P.size(); ++i)
                    for (std::size_t j = 0; j < P.size(); ++j) want(P[i], P[j]) -= q.w * st.stab3 / v.diameter * b.p[i] * b.sp[i] * b.p[j] * b.sp[j];
        }
        };
        sum(v, want, imp);
        if (pml) sum(FaceView<D>(w, f, coarse), cw, ci);  // no lifting then
        Dense MU(U.size(), U.size()), MP(P.size(), P.size());
        for (int s = 0; s < (internal ? 2 : 1) && mixed; ++s) {
            auto &a = plain(v.e[s], 0), &c = plain(v.e[s], 1);
            std::size_t ou = s ? ul : 0, op = s ? pl : 0;
            for (std::size_t i = 0; i < a.n; ++i)
                for (std::size_t j = 0; j < a.n; ++j) MU(ou + i, ou + j) = a(i, j);
            for (std::size_t i = 0; i < c.n; ++i)
                for (std::size_t j = 0; j < c.n; ++j) MP(op + i, op + j) = c(i, j);
        }
        auto put = [&](const Dense& s, const std::vector<std::size_t>& at, double by) {
            for (std::size_t i = 0; i < s.n; ++i)
                for (std::size_t j = 0; j < s.n; ++j) want(at[i], at[j]) += by * s(i, j);
        };
        if (essential && st.fluxType1 == Disc::FluxType::BREZZI) put(liftT.adj() * solve(MU, liftT), U, st.stab1 + L->getNumberOfFaces());
        if (mixed && internal && st.fluxType2 == Disc::FluxType::BREZZI) put(liftN.adj() * solve(MP, liftN), U, st.stab2);
        if (mixed && st.fluxType3 == Disc::FluxType::BREZZI) put(liftP.adj() * solve(MU, liftP), P, -st.stab3);
        std::string k = nameOf(f, t), fl;
        if (mixed) fl = str(":", st.fluxType1 == Disc::FluxType::IP ? "ip" : "brezzi", st.fluxType2 == Disc::FluxType::IP ? st.stab2 != 0 ? "-ip" : "-none" : "-brezzi", st.fluxType3 == Disc::FluxType::IP ? "-ip" : "-brezzi");
        F[f] = faceMatrix(f->getFaceMatrix(0));
        same(F[f], want, pml ? slack(want, cw) : tol, key + "face:" + k + fl, info);
        same(faceMatrix(f->getFaceMatrix(1)), imp, pml ? slack(imp, ci) : tol, key + "impedance:" + k, info);
        count("face-matrices");
        distinct(str(key, order, k, fl, projector, pml));
    }
    // load vectors for polynomial data
    void vectors(const std::function<CV(int, const V3&)>& source, const std::function<CV(BCT, const V3&)>& g, const Bc& bc) {
        for (std::size_t e = 0; e < w.L.el.size(); ++e) {
            if (!owned(e)) continue;
            Dense want(nu(e) + (mixed ? np(e) : 0), 1);
            for (auto& k : ownRule(m.el[e].shape, n + 1)) {
                Point<D> P(w, e, k.x, false);
                CV s = source(e, P.x);
                for (std::size_t i = 0; i < P.u.size(); ++i) want(i, 0) += k.w * std::abs(P.det) * dotc(s, P.u[i]);
            }
            same(column(w.L.el[e]->getElementVector(0)), want, tol, key + "source", info);
            count("element-vectors");
        }
        for (auto* f : w.L.mesh->getFacesList()) {
            if (!relevant(f)) continue;
            FaceView<D> v(w, f, n + 1);
            bool internal = f->isInternal();
            BCT t = internal ? BCT::INTERNAL : bc(*f);
            std::size_t a = nu(v.e[0]), N = a + (mixed ? np(v.e[0]) : 0);
            if (internal) N += nu(v.e[1]) + (mixed ? np(v.e[1]) : 0);
            Dense want(N, 1), cw(N, 1), rv(a, 1), lift(a, a);
            bool lifted = mixed && st.fluxType1 == Disc::FluxType::BREZZI;
            auto sum = [&](const FaceView<D>& v, Dense& want) {
                for (auto& q : v.q) {
                    FaceFns<D> b(w, v, q, false);
                    CV s = g(t, m.map(v.e[0], q.ref[0]));
                    for (std::size_t i = 0; i < a; ++i) {
                        if (t == BCT::DIRICHLET) {
                            want(i, 0) -= q.w * (b.mui[i][0] * b.cu[i][0] * s[0] + b.mui[i][1] * b.cu[i][1] * s[1] + b.mui[i][2] * b.cu[i][2] * s[2]);
                            if (!lifted) want(i, 0) += q.w * st.stab1 / v.diameter * dotc(s, b.nu[i]);
                            rv(i, 0) += q.w * dotc(s, b.u[i]);
                            for (std::size_t j = 0; j < a; ++j) lift(i, j) += q.w * (D == 2 ? b.u[i][0] * b.nu[j][0] : dot(b.u[i], b.nu[j]));
                        } else
                            want(i, 0) += q.w * dotc(s, b.nu[i]);
                    }
                }
            };
            if (!internal) sum(v, want);
            if (!internal && pml) sum(FaceView<D>(w, f, coarse), cw);
            if (lifted && t == BCT::DIRICHLET) {
                Dense x = lift.adj() * solve(plain(v.e[0], 0), rv);
                for (std::size_t i = 0; i < a; ++i) want(i, 0) += (st.stab1 + w.L.el[v.e[0]]->getNumberOfFaces()) * x(i, 0);
            }
            Dense got = column(f->getFaceVector(0));
            std::string k = key + "boundary-vector:" + nameOf(f, t);
            if (mixed) k += st.fluxType1 == Disc::FluxType::IP ? ":ip" : ":brezzi";
            if (mixed && st.fluxType1 == Disc::FluxType::IP && (st.fluxType2 != Disc::FluxType::IP || st.fluxType3 != Disc::FluxType::IP)) k += "-with-brezzi";
            if (want.max() == 0)
                expect(got.n == want.n && got.max() == 0, k, "size ", got.n, " want ", want.n, " largest ", got.max(), " want 0, ", info);
            else
                same(got, want, pml ? slack(want, cw) : tol, k, info);
            count("face-vectors");
        }
    }
    static Dense column(const LinearAlgebra::MiddleSizeVector& v) {
        Dense r(v.size(), 1);
        for (std::size_t i = 0; i < r.n; ++i) r(i, 0) = v[i];
        return r;
    }

    // ---- what is computed from coefficients ----
    // the stored coefficients of an element
    std::vector<C> coef(int e, std::size_t id) const {
        auto& v = w.L.el[e]->getTimeIntegrationVector(id);
        std::vector<C> r(v.size());
        for (std::size_t i = 0; i < r.size(); ++i) r[i] = v[i];
        return r;
    }
    void field(int e, const V3& ref, const std::vector<C>& c, CV& E, CV& cE, bool rescale) const {
        Point<D> P(w, e, ref, false);
        E = cE = CV{0, 0, 0};
        for (std::size_t i = 0; i < P.u.size(); ++i)
            for (std::size_t d = 0; d < 3; ++d) E[d] += c[i] * P.u[i][d], cE[d] += c[i] * P.cu[i][d];
        if (!rescale) return;
        auto s = w.mat[e].stretch(P.x, w.omega, D);
        C p = s[0] * s[1] * s[2];
        for (std::size_t d = 0; d < D; ++d) E[d] /= s[d];
        if (D == 2)
            cE[0] *= 1.0 / p;
        else
            for (std::size_t d = 0; d < 3; ++d) cE[d] *= s[d] / p;
    }
    static C herm(const CV& a, const CV& b) { return a[0] * std::conj(b[0]) + a[1] * std::conj(b[1]) + a[2] * std::conj(b[2]); }
};

// background field
template <std::size_t D>
struct PolyField : DGMax::FieldPattern<D> {
    using typename DGMax::FieldPattern<D>::VecC;
    using typename DGMax::FieldPattern<D>::PPhys;
    Poly p;
    VecC field(const PPhys& x) const override { return toC<D>(p(toV3(x))); }
    VecC fieldCurl(const PPhys& x) const override { return toC<D>(p.curl(toV3(x), D)); }
    VecC fieldDoubleCurl(const PPhys&, const DGMax::MaterialTensor&) const override { return {}; }
};

// everything that can be asked about a solution, through Q so that a
// discretisation and a result can be asked the same way
template <std::size_t D, typename Q>
void questions(Setup<D>& s, Rng& r, Q& ask, std::size_t id) {
    World<D>& w = s.w;
    auto differ = [](const CV& a, const CV& b) {
        double e = 0;
        for (int d = 0; d < 3; ++d) e = std::max(e, std::abs(a[d] - b[d]));
        return e;
    };
    auto from = [](const LinearAlgebra::SmallVectorC<D>& v) {
        CV c{0, 0, 0};
        for (std::size_t d = 0; d < D; ++d) c[d] = v[d];
        return c;
    };
    double scale = 0;
    Rng local(r());  // the number of points differs between processes
    for (std::size_t e = 0; e < w.L.el.size(); ++e)
        if (s.owned(e)) {
            auto c = s.coef(e, id);
            for (int k = 0; k < 2; ++k) {
                auto rp = randomPoint(typeOf(s.m.el[e].shape), local);
                V3 x{0, 0, 0};
                for (std::size_t d = 0; d < D; ++d) x[d] = rp[d];
                CV E, cE;
                s.field(e, x, c, E, cE, true);
                CV gE = from(ask.field(w.L.el[e], refPoint<D>(x))), gC = from(ask.curl(w.L.el[e], refPoint<D>(x)));
                double a = std::abs(E[0]) + std::abs(E[1]) + std::abs(E[2]) + 1, b = std::abs(cE[0]) + std::abs(cE[1]) + std::abs(cE[2]) + 1;
                expect(differ(E, gE) <= 1e-9 * a, s.key + "field", "off by ", differ(E, gE), " of ", a, " ", s.info);
                expect(differ(cE, gC) <= 1e-9 * b, s.key + "curl-of-field", "off by ", differ(cE, gC), " of ", b, " ", s.info);
                scale = std::max(scale, a);
                count("field-points");
            }
        }
    // the error in L2
    Poly g = Poly::random(r, D, false, std::min<int>(2, s.order));
    if (!s.pml) {
        double sum = 0, all = 0;
        for (std::size_t e = 0; e < w.L.el.size(); ++e)
            if (s.owned(e)) {
                auto c = s.coef(e, id);
                for (auto& k : ownRule(s.m.el[e].shape, s.n + 1)) {
                    Point<D> P(w, e, k.x, s.mixed);
                    CV E, cE, G = g(P.x);
                    s.field(e, k.x, c, E, cE, false);
                    C p = 0;
                    for (std::size_t i = 0; i < P.p.size(); ++i) p += c[P.u.size() + i] * P.p[i];
                    double z = std::norm(p);
                    for (std::size_t d = 0; d < D; ++d) z += std::norm(E[d] - G[d]);
                    sum += k.w * std::abs(P.det) * z;
                }
            }
        MPI_Allreduce(&sum, &all, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
        double got = ask.error(g);
        expect(std::abs(got - std::sqrt(all)) <= 1e-8 * (1 + std::sqrt(all)), s.key + (rankCount() > 1 ? "error:parallel" : "error"), "got ", got, " want ", std::sqrt(all), " local part ", std::sqrt(sum), " ", s.info);
        count("errors");
    }
    // fluxes and integrals over faces
    PolyField<D> back;
    back.p = Poly::random(r, D, false, 1);
    double k = uni(r, 0.5, 4);
    std::map<std::pair<int, int>, std::array<double, 4>> facet;
    for (auto* f : w.L.mesh->getFacesList()) {
        if (!s.relevant(f)) continue;
        FaceView<D> v(w, f, s.n + 1);
        std::vector<C> c[2];
        for (int i = 0; i < 2; ++i)
            if (v.e[i] >= 0) c[i] = s.coef(v.e[i], id);
        std::array<double, 4> flux{}, mag{};
        double l2[2] = {0, 0};
        for (auto& q : v.q) {
            CV E{0, 0, 0}, cE{0, 0, 0};
            for (int i = 0; i < 2; ++i) {
                if (v.e[i] < 0) continue;
                CV a, b;
                s.field(v.e[i], q.ref[i], c[i], a, b, false);
                double h = v.e[1] < 0 ? 1 : 0.5;
                for (int d = 0; d < 3; ++d) E[d] += h * a[d], cE[d] += h * b[d];
                s.field(v.e[i], q.ref[i], c[i], a, b, true);
                l2[i] += q.w * (std::norm(a[0]) + std::norm(a[1]) + std::norm(a[2]));
            }
            // hpGEM evaluates the background at the point seen from the left
            V3 x = s.m.map(v.e[0], q.ref[0]);
            CV bE = crsc<D>(q.n, back.p(x)), bC = back.p.curl(x, D), nE = crsc<D>(q.n, E), tE, tC;
            for (int d = 0; d < 3; ++d) tE[d] = nE[d] + bE[d], tC[d] = cE[d] + bC[d];
            auto H = [](const CV& a, const CV& b) { return Setup<D>::herm(a, b); };
            C z[4] = {H(nE, cE), H(bE, bC), H(bE, cE) + H(nE, bC), H(tE, tC)};
            for (int i = 0; i < 4; ++i) flux[i] += q.w * z[i].imag(), mag[i] += q.w * std::abs(z[i]);
            mag[2] += q.w * (std::abs(H(bE, cE)) + std::abs(H(nE, bC))), mag[3] += mag[0] + mag[1] + mag[2];
        }
        std::string kind = s.key + (f->isInternal() ? "internal" : "boundary");
        for (int side = 0; side < 2; ++side) {
            if (v.e[side] < 0) continue;
            auto S = side ? Base::Side::RIGHT : Base::Side::LEFT;
            double f0 = (side ? -1 : 1) / (k * w.mat[v.e[side]].mu);
            if (!s.pml) {
                auto got = ask.flux(*f, S, k, &back);
                for (int i = 0; i < 4; ++i) expect(std::abs(got[i] - f0 * flux[i]) <= 1e-8 * (std::abs(f0) * mag[i] + 1e-12), kind + ":flux", "part ", i, " side ", side, " got ", got[i], " want ", f0 * flux[i], " ", s.info);
                auto lone = ask.flux(*f, S, k, nullptr);
                expect(std::abs(lone[0] - f0 * flux[0]) <= 1e-8 * (std::abs(f0) * mag[0] + 1e-12) && lone[1] == 0 && lone[2] == 0 && lone[3] == 0, kind + ":flux-without-background", "got ", lone[0], " want ", f0 * flux[0], " ", s.info);
                count("fluxes");
            }
            double got = ask.square(*f, S);
            expect(std::abs(got - l2[side]) <= (s.pml ? 5e-2 : 1e-8) * (l2[side] + 1e-12), kind + (side ? ":square:right" : ":square:left"), "got ", got, " want ", l2[side], " ", s.info);
            count("squares");
        }
        if (s.owned(v.e[0]) && f->isOwnedByCurrentProcessor()) {
            int a = w.L.el[v.e[0]]->getZone().getZoneId(), b = v.e[1] < 0 ? -1 : (int)w.L.el[v.e[1]]->getZone().getZoneId();
            if (a == b) continue;
            int side = b >= 0 && b < a;
            auto& t = facet[b < 0 || a < b ? std::make_pair(a, b) : std::make_pair(b, a)];
            for (int i = 0; i < 4; ++i) t[i] += (side ? -1 : 1) / (k * w.mat[v.e[side]].mu) * flux[i];
        }
    }
    if (!s.pml) ask.facets(facet, k, back, s);
    distinct(str("ask ", s.key, s.order, s.pml, rankCount()));
}

template <std::size_t D>
struct PolyExact : ExactHarmonicProblem<D> {
    Poly p;
    double k = 1;
    double omega() const override { return k; }
    LinearAlgebra::SmallVectorC<D> sourceTerm(const Base::Element&, const Geometry::PointPhysical<D>&) const override { return {}; }
    BCT getBoundaryConditionType(const Base::Face&) const override { return BCT::DIRICHLET; }
    LinearAlgebra::SmallVectorC<D> exactSolution(const Geometry::PointPhysical<D>& x) const override { return toC<D>(p(toV3(x))); }
    LinearAlgebra::SmallVectorC<D> exactSolutionCurl(const Geometry::PointPhysical<D>& x) const override { return toC<D>(p.curl(toV3(x), D)); }
};
// a discretisation asked like a result
template <std::size_t D>
struct Direct : DGMax::AbstractHarmonicResult<D> {
    Setup<D>& s;
    std::size_t id;
    PolyExact<D> dummy;
    Direct(Setup<D>& s_, std::size_t i) : s(s_), id(i) {}
    const HarmonicProblem<D>& solvedProblem() override { return dummy; }
    Base::MeshManipulator<D>& getMesh() override { return *s.w.L.mesh; }
    void writeVTK(hpgem::Output::VTKSpecificTimeWriter<D>&) override {}
    LinearAlgebra::SmallVectorC<D> computeField(const Base::Element* e, const Geometry::PointReference<D>& p) override { return s.disc->computeField(e, p, e->getTimeIntegrationVector(id)); }
    LinearAlgebra::SmallVectorC<D> computeFieldCurl(const Base::Element* e, const Geometry::PointReference<D>& p) override { return s.disc->computeCurlField(e, p, e->getTimeIntegrationVector(id)); }
    double computeL2Error(const ExactHarmonicProblem<D>& g) override {
        return s.disc->computeL2Error(*s.w.L.mesh, id, [&](const Base::Element&, const Geometry::PointPhysical<D>& p) { return g.exactSolution(p); });
    }
    LinearAlgebra::SmallVector<4> computeEnergyFlux(Base::Face& f, Base::Side side, double k, const DGMax::FieldPattern<D>* b) override { return s.disc->computeEnergyFluxes(f, side, k, id, b); }
    double computeFieldL2Integral(Base::Face& f, Base::Side side) override { return s.disc->computeFieldL2Integral(f, side, id); }
};
template <std::size_t D>
struct Ask {
    DGMax::AbstractHarmonicResult<D>& r;
    auto field(const Base::Element* e, const Geometry::PointReference<D>& p) { return r.computeField(e, p); }
    auto curl(const Base::Element* e, const Geometry::PointReference<D>& p) { return r.computeFieldCurl(e, p); }
    double error(const Poly& g) {
        PolyExact<D> x;
        x.p = g;
        return r.computeL2Error(x);
    }
    auto flux(Base::Face& f, Base::Side s, double k, const PolyField<D>* b) { return r.computeEnergyFlux(f, s, k, b); }
    double square(Base::Face& f, Base::Side s) { return r.computeFieldL2Integral(f, s); }
    void facets(const std::map<std::pair<int, int>, std::array<double, 4>>& local, double k, PolyField<D>& back, Setup<D>& s) {
        auto& zones = s.w.L.mesh->getZones();
        int Z = zones.size(), N = Z * (Z + 1);
        std::vector<double> v(5 * N, 0.0);
        for (auto& p : local) {
            int at = p.first.first * (Z + 1) + p.first.second + 1;
            for (int i = 0; i < 4; ++i) v[5 * at + i] += p.second[i];
            v[5 * at + 4] = 1;
        }
        MPI_Allreduce(MPI_IN_PLACE, v.data(), v.size(), MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
        DGMax::FluxFacets facets(*s.w.L.mesh);
        auto got = facets.computeFluxes(r, k, &back);
        auto& names = facets.getFacetNames();
        std::size_t at = 0;
        for (int i = 0; i < N; ++i) {
            if (v[5 * i + 4] == 0) continue;
            std::string name = "flux-" + zones[i / (Z + 1)]->getName();
            if (i % (Z + 1)) name += "--" + zones[i % (Z + 1) - 1]->getName();
            if (!expect(at < names.size() && at < got.size() && names[at] == name, s.key + "facet-names", "facet ", at, " want ", name, " ", s.info)) return;
            for (int j = 0; j < 4; ++j) expect(std::abs(got[at][j] - v[5 * i + j]) <= 1e-7 * (1 + std::abs(v[5 * i]) + std::abs(v[5 * i + 1]) + std::abs(v[5 * i + 2]) + std::abs(v[5 * i + 3])), s.key + "facet-flux", name, " part ", j, " got ", got[at][j], " want ", v[5 * i + j], " ", s.info);
            ++at;
            count("facets");
        }
        expect(at == names.size() && at == got.size(), s.key + "facet-names", "too many facets ", names.size(), " want ", at, " ", s.info);
    }
};

// ---- questions about given coefficients ------------------------------------
template <std::size_t D>
void given(Rng& r, bool mixed) {
    bool pml = below(r, 3) == 0;
    MMesh m = smallMesh<D>(r, !pml, rankCount());
    World<D> w(m, mixed ? 2 : 1);
    randomMaterials(w, r, pml);
    Setup<D> s(w, r, mixed, false, pml, D == 2 ? 3 : 2);
    s.disc->initializeBasisFunctions(*w.L.mesh);
    std::size_t id = below(r, 2);
    bool orthogonal = !mixed && !pml && below(r, 3) == 0;
    auto seed = r();
    auto fill = [&](std::size_t which, std::uint64_t salt) {
        for (std::size_t e = 0; e < w.L.el.size(); ++e)
            if (s.known(e)) {
                Rng q(seed + e * 7919 + salt);
                LinearAlgebra::MiddleSizeVector v(s.nu(e) + (mixed ? s.np(e) : 0));
                for (std::size_t i = 0; i < v.size(); ++i) v[i] = C(uni(q, -1, 1), uni(q, -1, 1));
                w.L.el[e]->setTimeIntegrationVector(which, v);
            }
    };
    fill(0, 1), fill(1, 2);
    Direct<D> d(s, id);
    Ask<D> ask{d};
    if (!orthogonal) {
        questions(s, r, ask, id);
        return;
    }
    // rescaled unknowns: the fluxes have to be those of the coefficients behind them
    s.pd->setMatrixHandling(DGMaxDiscretizationBase::ORTHOGONALIZE);
    s.disc->computeElementIntegrals(*w.L.mesh, {});
    double k = uni(r, 0.5, 3);
    for (auto* f : w.L.mesh->getFacesList()) {
        if (!s.relevant(f)) continue;
        FaceView<D> v(w, f, s.n + 1);
        std::vector<C> c[2];
        for (int i = 0; i < 2; ++i)
            if (v.e[i] >= 0) {
                Dense l = dense(w.L.el[v.e[i]]->getElementMatrix(0)), x(l.n, 1);
                for (std::size_t a = 0; a < l.n; ++a)
                    for (std::size_t b = a + 1; b < l.n; ++b) l(a, b) = 0;
                auto y = s.coef(v.e[i], id);
                for (std::size_t a = 0; a < l.n; ++a) x(a, 0) = y[a];
                x = solve(l.adj(), x);
                c[i] = x.v;
            }
        double flux = 0, mag = 0;
        for (auto& q : v.q) {
            CV E{0, 0, 0}, cE{0, 0, 0};
            for (int i = 0; i < 2; ++i)
                if (v.e[i] >= 0) {
                    CV a, b;
                    s.field(v.e[i], q.ref[i], c[i], a, b, false);
                    double h = v.e[1] < 0 ? 1 : 0.5;
                    for (int d = 0; d < 3; ++d) E[d] += h * a[d], cE[d] += h * b[d];
                }
            C z = Setup<D>::herm(crsc<D>(q.n, E), cE);
            flux += q.w * z.imag(), mag += q.w * std::abs(z);
        }
        auto got = ask.flux(*f, Base::Side::LEFT, k, nullptr);
        double f0 = 1 / (k * w.mat[v.e[0]].mu);
        expect(std::abs(got[0] - f0 * flux) <= 1e-7 * f0 * mag + 1e-10, s.key + (f->isInternal() ? "internal" : "boundary") + ":flux:orthogonal", "got ", got[0], " want ", f0 * flux, " ", s.info);
        count("orthogonal-fluxes");
    }
}

// ---- the harmonic solver ---------------------------------------------------
template <std::size_t D>
struct Problem : HarmonicProblem<D> {
    double k = 1;
    Poly src[2], g[3];
    const Bc* bc = nullptr;
    World<D>* w = nullptr;
    double omega() const override { return k; }
    const Poly& source(int e) const { return src[e % 2]; }
    const Poly& value(BCT t) const { return g[t == BCT::DIRICHLET ? 0 : t == BCT::NEUMANN ? 1 : 2]; }
    LinearAlgebra::SmallVectorC<D> sourceTerm(const Base::Element& e, const Geometry::PointPhysical<D>& x) const override { return toC<D>(source(w->L.indexOf.at(&e))(toV3(x))); }
    BCT getBoundaryConditionType(const Base::Face& f) const override { return (*bc)(f); }
    LinearAlgebra::SmallVectorC<D> boundaryCondition(Base::PhysicalFace<D>& f) const override { return toC<D>(value((*bc)(*f.getFace()))(toV3(f.getPointPhysical()))); }
};
template <std::size_t D>
struct History : DGMax::AbstractHarmonicSolverDriver<D> {
    Setup<D>& s;
    Rng& r;
    Problem<D> p;
    std::vector<Bc> bcs;
    int left, done = 0;
    unsigned changed = 0xf;
    History(Setup<D>& s_, Rng& r_, int steps) : s(s_), r(r_), left(steps) {
        for (int i = 0; i < 3; ++i) bcs.push_back(randomBc(s.w, r));
        p.w = &s.w;
    }
    bool stop() const override { return left == 0; }
    void nextProblem() override {
        --left;
        unsigned c = done++ == 0 ? 0xf : below(r, 16);
        if (c & 1) p.k = uni(r, 0.4, 4);
        if (c & 2)
            for (auto& q : p.src) q = Poly::random(r, D);
        if (c & 4) p.bc = &bcs[below(r, bcs.size())];
        if (c & 8)
            for (auto& q : p.g) q = Poly::random(r, D, D == 2);
        changed = c | (below(r, 4) ? 0 : below(r, 16));  // may claim more than did change
        distinct(str("history ", s.key, s.pml, changed));
    }
    const HarmonicProblem<D>& currentProblem() const override { return p; }
    bool hasChanged(HarmonicProblemChanges c) const override { return changed & (unsigned)c; }
    void handleResult(DGMax::AbstractHarmonicResult<D>& res) override {
        expect(&res.solvedProblem() == &p, s.key + "solved-problem");
        expect(&res.getMesh() == s.w.L.mesh.get(), s.key + "mesh-of-result");
        s.w.omega = p.k;  // what dispersive materials must have been told
        s.elements();
        s.faces(*p.bc);
        s.vectors([&](int e, const V3& x) { return p.source(e)(x); }, [&](BCT t, const V3& x) { return p.value(t)(x); }, *p.bc);
        residual();
        Ask<D> ask{res};
        questions(s, r, ask, 0);
        count("solves");
    }
    // the equations of our own elements, from the local matrices just checked
    void residual() {
        auto& w = s.w;
        double worst = 0;
        int at = -1;
        std::vector<std::vector<C>> res(w.L.el.size());
        std::vector<double> size(w.L.el.size(), 0);
        auto add = [&](int e, std::size_t i, C a, C x) { res[e][i] += a * x, size[e] += std::abs(a * x); };
        std::vector<std::vector<C>> c(w.L.el.size());
        for (std::size_t e = 0; e < c.size(); ++e)
            if (s.known(e)) c[e] = s.coef(e, 0), res[e].assign(c[e].size(), 0);
        for (std::size_t e = 0; e < c.size(); ++e) {
            if (!s.owned(e)) continue;
            Dense M = dense(w.L.el[e]->getElementMatrix(0)), S = dense(w.L.el[e]->getElementMatrix(1));
            auto v = w.L.el[e]->getElementVector(0);
            for (std::size_t i = 0; i < S.n; ++i) {
                for (std::size_t j = 0; j < S.m; ++j) add(e, i, S(i, j) - p.k * p.k * M(i, j), c[e][j]);
                add(e, i, -1, v[i]);
            }
        }
        for (auto* f : w.L.mesh->getFacesList()) {
            if (!s.relevant(f)) continue;
            int e[2] = {w.L.indexOf.at(f->getPtrElementLeft()), f->isInternal() ? w.L.indexOf.at(f->getPtrElementRight()) : -1};
            Dense F = faceMatrix(f->getFaceMatrix(0)), I = faceMatrix(f->getFaceMatrix(1));
            auto v = f->getFaceVector(0);
            std::size_t n0 = c[e[0]].size();
            for (std::size_t i = 0; i < F.n; ++i) {
                int side = i >= n0;
                if (!s.owned(e[side])) continue;
                std::size_t row = side ? i - n0 : i;
                for (std::size_t j = 0; j < F.m; ++j) add(e[side], row, F(i, j) + p.k * I(i, j), c[e[j >= n0]][j >= n0 ? j - n0 : j]);
                add(e[side], row, -1, v[i]);
            }
        }
        for (std::size_t e = 0; e < c.size(); ++e)
            if (s.owned(e)) {
                double a = 0;
                for (auto& x : res[e]) a = std::max(a, std::abs(x));
                a /= size[e] + 1e-300;
                if (!(a <= worst)) worst = a, at = e;
            }
        expect(worst <= 1e-9, s.key + "solution", "residual ", worst, " in element ", at, " ", s.info);
    }
};
template <std::size_t D>
void harmonic(Rng& r, bool mixed) {
    bool pml = below(r, 3) == 0;
    MMesh m = smallMesh<D>(r, !pml, rankCount());
    World<D> w(m, mixed ? 2 : 1);
    randomMaterials(w, r, pml);
    Setup<D> s(w, r, mixed, false, pml, D == 2 ? 3 : 1 + below(r, 2));
    DGMax::HarmonicSolver<D> solver(s.disc);
    for (auto& i : w.infos)
        if (auto d = std::dynamic_pointer_cast<DGMax::Dispersive>(i)) solver.addDispersive(d);
    History<D> h(s, r, 1 + below(r, 4));
    solver.solve(*w.L.mesh, h);
    expect(h.left == 0, s.key + "all-problems-handled");
}

// ---- the eigenvalue solvers -------------------------------------------------
extern "C" void zheev_(const char*, const char*, const int*, C*, const int*, double*, C*, const int*, double*, int*);
// how many eigenvalues of a Hermitian matrix are negative
static int negative(Dense a) {
    int n = a.n, lw = 8 * n + 8, info = 0;
    std::vector<double> w(n), rw(3 * n + 3);
    std::vector<C> work(lw);
    zheev_("N", "L", &n, a.v.data(), &n, w.data(), work.data(), &lw, rw.data(), &info);
    if (info) throw std::runtime_error("zheev");
    return std::count_if(w.begin(), w.end(), [](double x) { return x < 0; });
}
static Dense cholesky(const Dense& a) {
    Dense l(a.n, a.n);
    for (std::size_t j = 0; j < a.n; ++j)
        for (std::size_t i = j; i < a.n; ++i) {
            C t = a(i, j);
            for (std::size_t k = 0; k < j; ++k) t -= l(i, k) * std::conj(l(j, k));
            l(i, j) = i == j ? C(std::sqrt(t.real())) : t / l(j, j);
        }
    return l;
}
template <std::size_t D>
struct Modes : AbstractEigenvalueSolverDriver<D> {
    using Coef = std::vector<std::vector<C>>;
    Setup<D>& s;
    DGMaxEigenvalueBase::SolverConfig cfg;
    std::vector<LinearAlgebra::SmallVector<D>> ks;
    std::vector<std::size_t> wanted;
    std::size_t at = 0, handled = 0;
    std::string name;
    std::vector<Dense> mass, low;
    std::vector<Coef> previous;
    Modes(Setup<D>& s_) : s(s_), mass(s.w.L.el.size()), low(mass.size()) {
        for (std::size_t e = 0; e < mass.size(); ++e) {
            if (!s.known(e)) continue;
            Dense a(s.nu(e), s.nu(e));
            for (auto& q : ownRule(s.m.el[e].shape, s.n)) {
                Point<D> P(s.w, e, q.x, false);
                for (std::size_t i = 0; i < a.n; ++i)
                    for (std::size_t j = 0; j < a.n; ++j) a(i, j) += q.w * std::abs(P.det) * dotc(P.eps * P.u[j], P.u[i]);
            }
            mass[e] = a, low[e] = cholesky(a);
        }
    }
    bool stop() const override { return at == ks.size(); }
    void nextKPoint() override { ++at; }
    LinearAlgebra::SmallVector<D> getCurrentKPoint() const override { return ks[at]; }
    std::size_t getNumberOfKPoints() const override { return ks.size(); }
    std::size_t getTargetNumberOfEigenvalues() const override { return wanted[at]; }
    V3 jump(const Base::Face* f, int l, int r) const {
        auto& lp = shapeInfo(s.m.el[l].shape).faces[f->localFaceNumberLeft()];
        auto& rp = shapeInfo(s.m.el[r].shape).faces[f->localFaceNumberRight()];
        for (int a : lp)
            for (int b : rp)
                if (s.m.el[l].node[a] == s.m.el[r].node[b]) return sub(s.m.coord(l, a), s.m.coord(r, b));
        throw std::runtime_error("no common corner");
    }
    C phase(const Base::Face* f, int l, int r) const {
        V3 x = jump(f, l, r);
        double t = 0;
        for (std::size_t d = 0; d < D; ++d) t += ks[at][d] * x[d];
        return std::exp(C(0, t));
    }
    // visits every entry of the operator in rows of our own
    void operatorEntries(const std::function<void(int, std::size_t, int, std::size_t, C)>& put) {
        for (std::size_t e = 0; e < mass.size(); ++e)
            if (s.owned(e))
                for (std::size_t i = 0; i < s.S[e].n; ++i)
                    for (std::size_t j = 0; j < s.S[e].m; ++j) put(e, i, e, j, s.S[e](i, j));
        for (auto* f : s.w.L.mesh->getFacesList()) {
            if (!s.relevant(f)) continue;
            const Dense& F = s.F.at(f);
            int e[2] = {s.w.L.indexOf.at(f->getPtrElementLeft()), f->isInternal() ? s.w.L.indexOf.at(f->getPtrElementRight()) : -1};
            C ph = e[1] < 0 ? 1.0 : phase(f, e[0], e[1]);
            std::size_t n0 = s.nu(e[0]) + (s.mixed ? s.np(e[0]) : 0);
            for (std::size_t i = 0; i < F.n; ++i) {
                int a = i >= n0;
                if (!s.owned(e[a])) continue;
                for (std::size_t j = 0; j < F.m; ++j) {
                    int b = j >= n0;
                    put(e[a], a ? i - n0 : i, e[b], b ? j - n0 : j, F(i, j) * (a == b ? C(1) : a == 0 ? ph : std::conj(ph)));
                }
            }
        }
    }
    void handleResult(AbstractEigenvalueResult<D>& res) override {
        ++handled;
        double dk = 0;
        for (std::size_t d = 0; d < D; ++d) dk += std::abs(res.getKPoint()[d] - ks[at][d]);
        expect(dk == 0, name + "k-point");
        expect(res.getMesh() == s.w.L.mesh.get(), name + "mesh-of-result");
        auto freq = res.getFrequencies();
        count("eigenvalues", freq.size());
        if (freq.size() < wanted[at]) count("unconverged");
        std::vector<Coef> now;
        for (std::size_t i = 0; i < freq.size(); ++i) {
            if (!s.mixed) expect(i == 0 || freq[i - 1] <= freq[i] * (1 + 1e-12) + 1e-4, name + "order", freq[i], " after ", i ? freq[i - 1] : 0, " ", s.info);
            {
                Output::VTKSpecificTimeWriter<D> writer(str("mode", i), s.w.L.mesh.get(), 0, 1);
                res.writeField(i, writer);
            }
            Coef x = coefficients(0);
            bool good = residual(freq[i], x, false);
            if (!s.mixed && cfg.shiftFactor_ != 0 && !good) {
                // a mode of functions with an extra factor, while what is written is a field without it
                x = coefficients(cfg.shiftFactor_);
                if (residual(freq[i], x, true)) expect(false, "plain:eigen:shifted-field", "the written field lacks the factors of its functions ", s.info);
            } else
                residual(freq[i], x, true);
            now.push_back(x);
        }
        if (handled > 1) overlap(res.computeFieldOverlap(), now);
        if (s.mixed && rankCount() == 1 && !freq.empty()) complete(freq);
        previous = now;
        count("k-points");
    }
    Coef coefficients(double shift) {
        Coef x(mass.size());
        for (std::size_t e = 0; e < mass.size(); ++e) {
            if (!s.known(e)) continue;
            x[e] = s.coef(e, 0);
            x[e].resize(s.nu(e) + (s.mixed ? s.np(e) : 0));
            if (shift != 0) {
                // y = exp(i a k c) x in the element with centre c
                V3 c{0, 0, 0};
                for (std::size_t k = 0; k <= D; ++k) c = add(c, s.m.coord(e, k), 1.0 / (D + 1));
                double t = 0;
                for (std::size_t d = 0; d < D; ++d) t += ks[at][d] * c[d] * shift;
                for (auto& v : x[e]) v *= std::exp(C(0, -t));
            }
            if (s.mixed || !cfg.useHermitian_) continue;
            // y = L^H x
            const Dense& l = low[e];
            for (std::size_t k = l.n; k-- > 0;) {
                for (std::size_t j = k + 1; j < l.n; ++j) x[e][k] -= std::conj(l(j, k)) * x[e][j];
                x[e][k] /= std::conj(l(k, k));
            }
        }
        return x;
    }
    double inner(const Coef& a, const Coef& b, C& r) const {  // a^H M b, and the product of the norms
        double na = 0, nb = 0;
        C t = 0;
        for (std::size_t e = 0; e < mass.size(); ++e) {
            if (!s.owned(e)) continue;
            for (std::size_t i = 0; i < mass[e].n; ++i)
                for (std::size_t j = 0; j < mass[e].n; ++j) {
                    t += std::conj(a[e][i]) * mass[e](i, j) * b[e][j];
                    na += (std::conj(a[e][i]) * mass[e](i, j) * a[e][j]).real();
                    nb += (std::conj(b[e][i]) * mass[e](i, j) * b[e][j]).real();
                }
        }
        double v[4] = {t.real(), t.imag(), na, nb}, g[4];
        MPI_Allreduce(v, g, 4, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
        r = C(g[0], g[1]);
        return std::sqrt(g[2] * g[3]);
    }
    bool residual(double f, const Coef& x, bool report) {
        double lambda = f * f;
        Coef r(mass.size()), big(mass.size());
        for (std::size_t e = 0; e < mass.size(); ++e)
            if (s.owned(e)) {
                r[e].assign(x[e].size(), 0), big[e].assign(x[e].size(), 0);
                for (std::size_t i = 0; i < mass[e].n; ++i)
                    for (std::size_t j = 0; j < mass[e].n; ++j) r[e][i] -= lambda * mass[e](i, j) * x[e][j];
            }
        operatorEntries([&](int a, std::size_t i, int b, std::size_t j, C v) { r[a][i] += v * x[b][j], big[a][i] += std::abs(v * x[b][j]); });
        double v[4] = {0, 0, 0, 0}, g[4];
        for (std::size_t e = 0; e < mass.size(); ++e)
            if (s.owned(e)) {
                std::vector<C> t(r[e].begin(), r[e].begin() + mass[e].n);
                for (std::size_t i = 0; i < t.size(); ++i) {
                    for (std::size_t j = 0; j < i; ++j) t[i] -= low[e](i, j) * t[j];
                    t[i] /= low[e](i, i);
                    v[0] += std::norm(t[i]);
                }
                for (std::size_t i = 0; i < mass[e].n; ++i) v[3] += std::norm(big[e][i]) / mass[e](i, i).real();
                for (std::size_t i = mass[e].n; i < r[e].size(); ++i) v[1] += std::norm(r[e][i]), v[2] += std::norm(big[e][i]);
            }
        MPI_Allreduce(v, g, 4, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
        C t;
        double norm = inner(x, x, t);
        // modes of frequency zero are known to rounding in the operator only
        bool good = norm > 0 && lambda >= 0 && std::sqrt(g[0]) <= 1e-4 * lambda * std::sqrt(norm) + 1e-10 * std::sqrt(g[3]);
        if (!report) return good && g[1] <= 1e-12 * (g[2] + 1e-300);
        expect(good, name + "eigenpair", "frequency ", f, " residual ", std::sqrt(g[0] / norm), " of ", lambda, " k ", ks[at], " point ", at, " ", s.info);
        expect(g[1] <= 1e-12 * (g[2] + 1e-300), name + "divergence", "residual ", std::sqrt(g[1]), " of ", std::sqrt(g[2]), " ", s.info);
        return good;
    }
    void overlap(const LinearAlgebra::MiddleSizeMatrix& got, const std::vector<Coef>& now) {
        if (!expect(got.getNumberOfRows() == now.size() && got.getNumberOfColumns() == previous.size(), name + "overlap:size", got.getNumberOfRows(), "x", got.getNumberOfColumns())) return;
        double worst = 0;
        for (std::size_t i = 0; i < now.size(); ++i)
            for (std::size_t j = 0; j < previous.size(); ++j) {
                C want;
                double n = inner(previous[j], now[i], want);
                worst = std::max(worst, std::abs(want - got(i, j)) / n);
            }
        expect(worst <= 1e-8, (s.mixed ? name : std::string("plain:eigen:")) + "overlap", "off by ", worst, " ", s.info);
        count("overlaps", now.size() * previous.size());
    }
    // the solver promises those nearest to zero, each as often as it occurs
    void complete(const std::vector<double>& freq) {
        std::vector<std::size_t> off(mass.size() + 1, 0);
        for (std::size_t e = 0; e < mass.size(); ++e) off[e + 1] = off[e] + s.nu(e) + s.np(e);
        std::size_t N = off.back();
        if (N > 800) return;
        Dense A(N, N);
        operatorEntries([&](int a, std::size_t i, int b, std::size_t j, C v) { A(off[a] + i, off[b] + j) += v; });
        double f = *std::max_element(freq.begin(), freq.end());
        auto below_ = [&](double l) {
            Dense a = A;
            for (std::size_t e = 0; e < mass.size(); ++e)
                for (std::size_t i = 0; i < mass[e].n; ++i)
                    for (std::size_t j = 0; j < mass[e].n; ++j) a(off[e] + i, off[e] + j) -= l * mass[e](i, j);
            return negative(a);
        };
        double l = f * f, d = 1e-4;
        int inner_ = below_(l * (1 - d)) - below_(-l * (1 - d)), outer = below_(l * (1 + d)) - below_(-l * (1 + d)), n = freq.size();
        expect(inner_ <= n, name + "missed", inner_, " eigenvalues closer than the largest of ", n, " given ", s.info);
        expect(outer >= n, name + "repeated", outer, " eigenvalues up to the largest of ", n, " given ", s.info);
        count("spectra");
    }
};
template <std::size_t D>
void eigen(Rng& r, bool mixed) {
    int proj = mixed ? 0 : below(r, 3);
    bool hermitian = below(r, 2);
    double shift = !mixed && below(r, 2) ? uni(r, -1.5, 1.5) : 0;
    ZooOptions o;
    MMesh m = smallMesh<D>(r, true, rankCount(), &o, mixed && D == 2 ? 2 : 0, proj && below(r, 3));
    bool periodic = o.periodic[0] || o.periodic[1] || (D == 3 && o.periodic[2]);
    // the projector has no boundary conditions: it is for fully periodic domains, off the origin
    if (!o.periodic[0] || !o.periodic[1] || (D == 3 && !o.periodic[2])) proj = 0;
    World<D> w(m, mixed || proj ? 2 : 1);
    randomMaterials(w, r, false);
    Setup<D> s(w, r, mixed, proj, false, D == 2 ? 2 : 1, true);
    s.disc->initializeBasisFunctions(*w.L.mesh);
    if (!mixed) s.pd->setMatrixHandling(DGMaxDiscretizationBase::NORMAL);
    s.disc->computeElementIntegrals(*w.L.mesh, {});
    s.disc->computeFaceIntegrals(*w.L.mesh, {});
    Bc bc;
    for (auto* f : w.L.mesh->getFacesList(Base::IteratorType::GLOBAL)) bc.t[f] = BCT::DIRICHLET;
    s.elements();
    s.faces(bc);
    Modes<D> h(s);
    int n = 1 + below(r, 4);
    LinearAlgebra::SmallVector<D> k;
    for (int i = 0; i < n; ++i) {
        int how = below(r, 4);
        for (std::size_t d = 0; d < D; ++d)
            if (how || i == 0) k[d] = how == 1 && i ? k[d] + uni(r, -0.3, 0.3) : uni(r, -4, 4);
        if (!periodic && below(r, 3) == 0) k *= 0;
        h.ks.push_back(k);
        h.wanted.push_back(1 + below(r, 6));
    }
    // on fewer unknowns the Krylov space covers all finite eigenvalues and runs into the infinite ones
    double finite = 0, all = 0;
    for (std::size_t e = 0; e < w.L.el.size(); ++e)
        if (s.owned(e)) finite += (double)s.nu(e) - (mixed ? s.np(e) : 0);
    MPI_Allreduce(&finite, &all, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
    if (mixed && all < 45) return;
    h.cfg.useHermitian_ = hermitian, h.cfg.shiftFactor_ = shift, h.cfg.stab_ = s.st.stab1;
    h.cfg.useProjector_ = proj == 0 ? DGMaxEigenvalueBase::NONE : proj == 1 ? DGMaxEigenvalueBase::INITIAL : DGMaxEigenvalueBase::ALL;
    h.name = s.key + "eigen:" + (mixed ? "" : str(hermitian ? "hermitian:" : "general:", shift != 0 ? "shifted:" : "", proj == 0 ? "" : proj == 1 ? "initial:" : "projected:"));
    vf::begin(std::string(h.name + s.info));
    distinct(h.name + str(o.periodic[0], o.periodic[1], o.periodic[2], n));
    if (mixed) {
        DivDGMaxEigenvalue<D> solver(*w.L.mesh, s.order, s.st);
        solver.solve(h);
    } else {
        DGMaxEigenvalue<D> solver(*w.L.mesh, s.order, h.cfg);
        solver.solve(h);
    }
    expect(h.handled == h.ks.size(), h.name + "all-points-handled", h.handled, " of ", h.ks.size());
}

// ---- the local matrices --------------------------------------------------
template <std::size_t D>
void matrices(Rng& r, bool mixed) {
    bool projector = !mixed && below(r, 2), pml = below(r, 3) == 0;
    MMesh m = smallMesh<D>(r, !pml, 1);
    World<D> w(m, mixed || projector ? 2 : 1);
    randomMaterials(w, r, pml);
    Setup<D> s(w, r, mixed, projector, pml, D == 2 ? 3 : 2);
    auto& disc = *s.disc;
    disc.initializeBasisFunctions(*w.L.mesh);
    Bc bc = randomBc(w, r);
    bool handled = !mixed && below(r, 2) && !pml;
    if (!mixed) s.pd->setMatrixHandling(DGMaxDiscretizationBase::NORMAL);
    disc.computeElementIntegrals(*w.L.mesh, {});
    disc.computeFaceIntegrals(*w.L.mesh, {}, [&](const Base::Face& f) { return bc(f); });
    s.elements();
    s.faces(bc);
    if (!handled) return;
    auto &M = s.M, &S = s.S, &B = s.B;
    auto& F = s.F;
    auto &key = s.key, &info = s.info;
    // the other ways to hand over the same operators
    s.pd->setMatrixHandling(DGMaxDiscretizationBase::INVERT);
    disc.computeElementIntegrals(*w.L.mesh, {});
    for (std::size_t e = 0; e < w.L.el.size(); ++e) {
        Dense id(M[e].n, M[e].n);
        for (std::size_t i = 0; i < id.n; ++i) id(i, i) = 1;
        same(dense(w.L.el[e]->getElementMatrix(0)) * M[e], id, 1e-7, key + "inverse-mass", info);
    }
    s.pd->setMatrixHandling(DGMaxDiscretizationBase::ORTHOGONALIZE);
    disc.computeElementIntegrals(*w.L.mesh, {});
    disc.computeFaceIntegrals(*w.L.mesh, {}, [&](const Base::Face& f) { return bc(f); });
    std::vector<Dense> low(M.size());
    for (std::size_t e = 0; e < w.L.el.size(); ++e) {
        Dense f = dense(w.L.el[e]->getElementMatrix(0));
        for (std::size_t i = 0; i < f.n; ++i)
            for (std::size_t j = i + 1; j < f.n; ++j) f(i, j) = 0;  // only the lower triangle counts
        low[e] = f;
        same(f * f.adj(), M[e], 1e-9, key + "orthogonal:factor", info);
        Dense s = dense(w.L.el[e]->getElementMatrix(1));
        same(f * s * f.adj(), S[e], 1e-8, key + "orthogonal:stiffness", info);
        if (projector) same(dense(w.L.el[e]->getElementMatrix(2)) * f.adj(), B[e], 1e-8, key + "orthogonal:projector", info);
    }
    for (auto* f : w.L.mesh->getFacesList()) {
        Dense s = faceMatrix(f->getFaceMatrix(0)), l(s.n, s.n);
        std::size_t off = 0;
        for (int side = 0; side < (f->isInternal() ? 2 : 1); ++side) {
            auto& b = low[w.L.indexOf.at(side ? f->getPtrElementRight() : f->getPtrElementLeft())];
            for (std::size_t i = 0; i < b.n; ++i)
                for (std::size_t j = 0; j < b.n; ++j) l(off + i, off + j) = b(i, j);
            off += b.n;
        }
        Dense back = l * s * l.adj();
        double scale = F[f].max();
        if (scale > 0) same(back, F[f], 1e-8, key + "orthogonal:face", info);
        else expect(back.max() == 0, key + "orthogonal:face", info);
    }
    count("handled");
}


int main(int argc, char** argv) {
    startHpgem(argc, argv);
    PetscOptionsSetValue(nullptr, "-ksp_type", "preonly");
    PetscOptionsSetValue(nullptr, "-pc_type", "lu");
    PetscOptionsSetValue(nullptr, "-pc_factor_mat_solver_type", rankCount() > 1 ? "mumps" : "umfpack");
    PetscOptionsSetValue(nullptr, "-eps_max_it", "4000");
    PetscOptionsSetValue(nullptr, "-st_pc_factor_mat_solver_type", rankCount() > 1 ? "mumps" : "umfpack");
    Rng r = vf::rng("dgmax" + arg("salt", ""));
    int cases = std::stoi(arg("cases", "10"));
    std::string mode = arg("mode", "matrices");
    for (int k = 0; k < cases; ++k) {
        Rng q(r());
        auto run = [&](const std::string& what, std::function<void()> f) {
            vf::begin(std::string(str("case ", k, " ", what)));
            guard(what, f);
        };
        if (mode == "given") {
            run("plain:2D", [&] { given<2>(q, false); });
            run("mixed:2D", [&] { given<2>(q, true); });
            if (k % 3 == 0) {
                run("plain:3D", [&] { given<3>(q, false); });
                run("mixed:3D", [&] { given<3>(q, true); });
            }
        }
        if (mode == "harmonic") {
            run("plain:2D", [&] { harmonic<2>(q, false); });
            run("mixed:2D", [&] { harmonic<2>(q, true); });
            if (k % 3 == 0) {
                run("plain:3D", [&] { harmonic<3>(q, false); });
                run("mixed:3D", [&] { harmonic<3>(q, true); });
            }
        }
        if (mode == "eigen") {
            run("plain:2D", [&] { eigen<2>(q, false); });
            run("mixed:2D", [&] { eigen<2>(q, true); });
            if (k % 3 == 0) {
                run("plain:3D", [&] { eigen<3>(q, false); });
                run("mixed:3D", [&] { eigen<3>(q, true); });
            }
        }
        if (mode == "matrices") {
            run("plain:2D", [&] { matrices<2>(q, false); });
            run("mixed:2D", [&] { matrices<2>(q, true); });
            if (k % 3 == 0) {
                run("plain:3D", [&] { matrices<3>(q, false); });
                run("mixed:3D", [&] { matrices<3>(q, true); });
            }
        }
    }
    return vf::finish();
}
