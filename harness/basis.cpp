// P08: basis functions against numerical differentiation, completeness, and
// cached evaluation through quadrature rules over histories of set lifetimes.
#include "vf.h"
#include "refgeo.h"
#include "userfn.h"
#include "FE/BasisFunctionSet.h"
#include "FE/OrientedBasisFunctionSet.h"
#include "FE/BaseBasisFunction.h"
#include "FE/BasisFunctions1DH1ConformingLine.h"
#include "FE/BasisFunctions2DH1ConformingSquare.h"
#include "FE/BasisFunctions2DH1ConformingTriangle.h"
#include "FE/BasisFunctions2DNedelec.h"
#include "FE/BasisFunctions3DAinsworthCoyle.h"
#include "FE/BasisFunctions3DH1ConformingCube.h"
#include "FE/BasisFunctions3DH1ConformingPrism.h"
#include "FE/BasisFunctions3DH1ConformingPyramid.h"
#include "FE/BasisFunctions3DH1ConformingTetrahedron.h"
#include "FE/BasisFunctions3DNedelec.h"
#include "FE/BasisFunctionsMonomials.h"
#include "FE/BasisFunctionsPiecewiseConstant.h"
#include "Integration/QuadratureRules/GaussQuadratureRule.h"
#include "Geometry/Mappings/ConcatenatedMapping.h"
#include "Geometry/Mappings/MappingReferenceToReference.h"
using namespace vf;
using FE::BasisFunctionSet;

static Geometry::ReferenceGeometry* geoOf(RT t) {
    for (auto& s : allShapes(false))
        if (s.type == t) return s.geo;
    return nullptr;
}
struct Fam {
    std::string name;
    RT type;
    int lo, hi;  // orders
    bool vec;
    bool full;   // the set is a complete basis by itself
    std::function<std::vector<const BasisFunctionSet*>(std::size_t)> make;
};
template <typename F>
static std::function<std::vector<const BasisFunctionSet*>(std::size_t)> one(F f) {
    return [f](std::size_t o) { return std::vector<const BasisFunctionSet*>{f(o)}; };
}
template <typename F>
static std::function<std::vector<const BasisFunctionSet*>(std::size_t)> many(F f) {
    return [f](std::size_t o) {
        std::vector<const BasisFunctionSet*> r;
        for (auto* s : f(o)) r.push_back(s);
        return r;
    };
}
static std::vector<Fam> families() {
    using namespace FE;
    std::vector<Fam> f;
    int d1 = 5, d2 = 5, d3 = 5;  // higher Lobatto polynomials are not offered
    f.push_back({"line", RT::LINE, 0, d1, false, true, one(createDGBasisFunctionSet1DH1Line)});
    f.push_back({"triangle", RT::TRIANGLE, 0, d2, false, true, one(createDGBasisFunctionSet2DH1Triangle)});
    f.push_back({"square", RT::SQUARE, 0, d2, false, true, one(createDGBasisFunctionSet2DH1Square)});
    f.push_back({"cube", RT::CUBE, 0, d3, false, true, one(createDGBasisFunctionSet3DH1Cube)});
    f.push_back({"tetrahedron", RT::TETRAHEDRON, 0, d3, false, true, one(createDGBasisFunctionSet3DH1Tetrahedron)});
    f.push_back({"prism", RT::TRIANGULARPRISM, 0, d3, false, true, one(createDGBasisFunctionSet3DH1ConformingPrism)});
    f.push_back({"pyramid", RT::PYRAMID, 0, 1, false, true, one(createDGBasisFunctionSet3DH1ConformingPyramid)});
    f.push_back({"nedelec2d", RT::TRIANGLE, 1, 5, true, true, one(createDGBasisFunctionSet2DNedelec)});
    f.push_back({"nedelec3d", RT::TETRAHEDRON, 1, 5, true, true, one(createDGBasisFunctionSet3DNedelec)});
    f.push_back({"ainsworth-coyle", RT::TETRAHEDRON, 1, 5, true, true, one(createDGBasisFunctionSet3DAinsworthCoyle)});
    auto mono = [](void (*g)(BasisFunctionSet&, std::size_t)) {
        return one([g](std::size_t o) {
            auto* s = new BasisFunctionSet(o);
            g(*s, o);
            return s;
        });
    };
    f.push_back({"monomial1", RT::LINE, 0, 8, false, true, mono(assembleMonomialBasisFunctions1D)});
    f.push_back({"monomial2", RT::SQUARE, 0, 7, false, true, mono(assembleMonomialBasisFunctions2D)});
    f.push_back({"monomial2t", RT::TRIANGLE, 0, 5, false, true, mono(assembleMonomialBasisFunctions2D)});
    f.push_back({"monomial3", RT::CUBE, 0, 5, false, true, mono(assembleMonomialBasisFunctions3D)});
    f.push_back({"monomial4", RT::HYPERCUBE, 0, 3, false, true, mono(assembleMonomialBasisFunctions4D)});
    // functions of an application, with a divergence
    auto user2 = one([](std::size_t o) { auto* s = new BasisFunctionSet(o); Rng r(o); for (int k = 0; k < 4; ++k) s->addBasisFunction(new Quadratic<2>(r)); return s; });
    auto user3 = one([](std::size_t o) { auto* s = new BasisFunctionSet(o); Rng r(o); for (int k = 0; k < 4; ++k) s->addBasisFunction(new Quadratic<3>(r)); return s; });
    f.push_back({"user-triangle", RT::TRIANGLE, 1, 3, true, false, user2});
    f.push_back({"user-square", RT::SQUARE, 1, 3, true, false, user2});
    f.push_back({"user-tetrahedron", RT::TETRAHEDRON, 1, 3, true, false, user3});
    f.push_back({"user-prism", RT::TRIANGULARPRISM, 1, 3, true, false, user3});
    f.push_back({"user-cube", RT::CUBE, 1, 3, true, false, user3});
    // the parts of the conforming bases
    f.push_back({"line-interior", RT::LINE, 1, d1, false, false, one(createInteriorBasisFunctionSet1DH1Line)});
    f.push_back({"line-vertex", RT::LINE, 1, d1, false, false, many(createVertexBasisFunctionSet1DH1Line)});
    f.push_back({"triangle-interior", RT::TRIANGLE, 1, d2, false, false, one(createInteriorBasisFunctionSet2DH1Triangle)});
    f.push_back({"triangle-vertex", RT::TRIANGLE, 1, d2, false, false, many(createVertexBasisFunctionSet2DH1Triangle)});
    f.push_back({"triangle-face", RT::TRIANGLE, 1, d2, false, false, many(createFaceBasisFunctionSet2DH1Triangle)});
    f.push_back({"square-interior", RT::SQUARE, 1, d2, false, false, one(createInteriorBasisFunctionSet2DH1Square)});
    f.push_back({"square-vertex", RT::SQUARE, 1, d2, false, false, many(createVertexBasisFunctionSet2DH1Square)});
    f.push_back({"square-face", RT::SQUARE, 1, d2, false, false, many(createFaceBasisFunctionSet2DH1Square)});
    f.push_back({"cube-interior", RT::CUBE, 1, 4, false, false, one(createInteriorBasisFunctionSet3DH1Cube)});
    f.push_back({"cube-vertex", RT::CUBE, 1, 4, false, false, many(createVertexBasisFunctionSet3DH1Cube)});
    f.push_back({"cube-edge", RT::CUBE, 1, 4, false, false, many(createEdgeBasisFunctionSet3DH1Cube)});
    f.push_back({"cube-face", RT::CUBE, 1, 4, false, false, many(createFaceBasisFunctionSet3DH1Cube)});
    f.push_back({"tetrahedron-interior", RT::TETRAHEDRON, 1, d3, false, false, one(createInteriorBasisFunctionSet3DH1Tetrahedron)});
    f.push_back({"tetrahedron-vertex", RT::TETRAHEDRON, 1, d3, false, false, many(createVertexBasisFunctionSet3DH1Tetrahedron)});
    f.push_back({"tetrahedron-edge", RT::TETRAHEDRON, 1, d3, false, false, many(createEdgeBasisFunctionSet3DH1Tetrahedron)});
    f.push_back({"tetrahedron-face", RT::TETRAHEDRON, 1, d3, false, false, many(createFaceBasisFunctionSet3DH1Tetrahedron)});
    f.push_back({"prism-interior", RT::TRIANGULARPRISM, 1, 4, false, false, one(createInteriorBasisFunctionSet3DH1ConformingPrism)});
    f.push_back({"prism-vertex", RT::TRIANGULARPRISM, 1, 4, false, false, many(createVertexBasisFunctionSet3DH1ConformingPrism)});
    f.push_back({"prism-edge", RT::TRIANGULARPRISM, 1, 4, false, false, many(createEdgeBasisFunctionSet3DH1ConformingPrism)});
    f.push_back({"prism-face", RT::TRIANGULARPRISM, 1, 4, false, false, many(createFaceBasisFunctionSet3DH1ConformingPrism)});
    f.push_back({"pyramid-vertex", RT::PYRAMID, 1, 1, false, false, many(createVertexBasisFunctionSet3DH1ConformingPyramid)});
    return f;
}
// expected number of functions of a complete set, or -1
static long sizeOf(const Fam& f, long p) {
    if (f.name.substr(0, 8) == "monomial") {
        long d = f.name[8] - '0', n = 1;
        for (long i = 1; i <= d; ++i) n = n * (p + i) / i;
        return n;
    }
    if (f.name == "nedelec2d") return p * (p + 2);
    if (f.name == "nedelec3d") return p * (p + 2) * (p + 3) / 2;
    if (f.name == "ainsworth-coyle") return (p + 1) * (p + 2) * (p + 3) / 2;
    switch (f.type) {
        case RT::LINE: return p + 1;
        case RT::TRIANGLE: return (p + 1) * (p + 2) / 2;
        case RT::TETRAHEDRON: return (p + 1) * (p + 2) * (p + 3) / 6;
        case RT::SQUARE: return (p + 1) * (p + 1);
        case RT::CUBE: return (p + 1) * (p + 1) * (p + 1);
        case RT::TRIANGULARPRISM: return p == 0 ? 1 : (p + 1) * (p + 1) * (p + 2) / 2;
        case RT::PYRAMID: return p == 0 ? 1 : 5;
        default: return -1;
    }
}

// coefficients for the derivative at 0 from points -m..m (exact to degree 2m)
static const std::vector<long double>& stencil(int m) {
    static std::map<int, std::vector<long double>> c;
    auto& w = c[m];
    if (w.empty()) {
        w.assign(m + 1, 0);
        for (int k = 1; k <= m; ++k) {
            // 2 * (-1)^{k+1} (m!)^2 / (2k (m-k)! (m+k)!) * 1/2
            long double v = 1;
            for (int i = 1; i <= k; ++i) v *= (long double)(m - k + i) / (m + i);
            w[k] = (k % 2 ? 1 : -1) * v / k;
        }
    }
    return w;
}
template <std::size_t D>
static double diff(const std::function<double(const Geometry::PointReference<D>&)>& f, Geometry::PointReference<D> p, std::size_t dir, double h, int m) {
    auto& w = stencil(m);
    long double s = 0;
    double x = p[dir];
    for (int k = 1; k <= m; ++k) {
        Geometry::PointReference<D> a = p, b = p;
        a[dir] = x + k * h;
        b[dir] = x - k * h;
        s += w[k] * ((long double)f(a) - f(b));
    }
    return (double)(s / h);
}
// modified Gram-Schmidt on columns; returns the rank
static std::size_t orthonormalise(std::vector<std::vector<double>>& q) {
    std::size_t k = 0;
    for (std::size_t i = 0; i < q.size(); ++i) {
        auto v = q[i];
        double n0 = 0;
        for (double x : v) n0 += x * x;
        n0 = std::sqrt(n0);
        if (n0 == 0) continue;
        for (int rep = 0; rep < 2; ++rep)
            for (std::size_t j = 0; j < k; ++j) {
                double d = 0;
                for (std::size_t l = 0; l < v.size(); ++l) d += v[l] * q[j][l];
                for (std::size_t l = 0; l < v.size(); ++l) v[l] -= d * q[j][l];
            }
        double n = 0;
        for (double x : v) n += x * x;
        n = std::sqrt(n);
        if (n < 1e-9 * n0) continue;
        for (auto& x : v) x /= n;
        q[k++] = v;
    }
    q.resize(k);
    return k;
}

template <std::size_t D>
static void checkSet(const Fam& f, int order, const BasisFunctionSet& s, Rng& r, int points) {
    std::string id = f.name;
    expect(s.getOrder() == (std::size_t)order, "basis:order:" + id);
    double h = f.type == RT::PYRAMID ? 0.004 : 0.03;
    int m = f.type == RT::PYRAMID ? 3 : 6;
    for (int k = 0; k < points; ++k) {
        auto x = randomPoint(f.type, r);
        if (f.type == RT::PYRAMID && x[2] > 0.85) x[2] *= 0.8;
        auto p = toPoint<D>(x);
        for (std::size_t i = 0; i < s.size(); ++i) {
            if constexpr (D == 2 || D == 3) {
                if (f.vec) {
                    auto comp = [&](std::size_t c) {
                        return std::function<double(const Geometry::PointReference<D>&)>([&s, i, c](const Geometry::PointReference<D>& q) {
                            LinearAlgebra::SmallVector<D> v;
                            s.eval(i, q, v);
                            return v[c];
                        });
                    };
                    auto curl = s.evalCurl(i, p);
                    if (D == 2) {
                        double want = diff<D>(comp(1), p, 0, h, m) - diff<D>(comp(0), p, 1, h, m);
                        near(curl[0], want, 1e-9 * (1 + std::abs(want)) * std::pow(10, std::max(0, order - 3)), "basis:curl:" + id, "order ", order, " function ", i);
                        expect(curl[1] == 0, "basis:curl-second:" + id);
                    } else {
                        for (std::size_t c = 0; c < 3; ++c) {
                            std::size_t a = (c + 1) % 3, b = (c + 2) % 3;
                            double want = diff<D>(comp(b), p, a, h, m) - diff<D>(comp(a), p, b, h, m);
                            near(curl[c % D], want, 1e-9 * (1 + std::abs(want)) * std::pow(10, std::max(0, order - 3)), "basis:curl:" + id, "order ", order, " function ", i);
                        }
                    }
                    continue;
                }
            }
            std::function<double(const Geometry::PointReference<D>&)> g = [&s, i](const Geometry::PointReference<D>& q) { return s.eval(i, q); };
            auto grad = s.evalDeriv(i, p);
            for (std::size_t d = 0; d < D; ++d) {
                double want = diff<D>(g, p, d, h, m);
                double got = s.evalDeriv(i, d, p);
                near(got, want, 1e-8 * (1 + std::abs(want)), "basis:derivative:" + id, "order ", order, " function ", i, " direction ", d);
                expect(grad[d] == got, "basis:gradient-vs-derivative:" + id);
            }
        }
    }
}
template <std::size_t D>
static void complete(const Fam& f, int order, const BasisFunctionSet& s, Rng& r) {
    std::string id = f.name;
    long want = sizeOf(f, order);
    if (want >= 0) expect((long)s.size() == want, str("basis:size:", id, ":order", order), "order ", order, " has ", s.size(), " want ", want);
    std::size_t comps = f.vec ? D : 1, n = s.size() * 2 / comps + 40;
    std::vector<std::vector<double>> P(n);
    for (auto& x : P) x = randomPoint(f.type, r);
    std::vector<std::vector<double>> cols;
    for (std::size_t i = 0; i < s.size(); ++i) {
        std::vector<double> c;
        for (auto& x : P) {
            auto p = toPoint<D>(x);
            bool done = false;
            if constexpr (D == 2 || D == 3)
                if (f.vec) {
                    LinearAlgebra::SmallVector<D> v;
                    s.eval(i, p, v);
                    for (std::size_t k = 0; k < D; ++k) c.push_back(v[k]);
                    done = true;
                }
            if (!done) c.push_back(s.eval(i, p));
        }
        cols.push_back(c);
    }
    std::size_t rank = orthonormalise(cols);
    expect(rank == s.size(), str("basis:dependent:", id, ":order", order), "order ", order, " rank ", rank, " of ", s.size());
    int deg = f.name.substr(0, 7) == "nedelec" ? order - 1 : order;
    forMonomials(D, deg, [&](const std::vector<int>& e) {
        for (std::size_t k = 0; k < comps; ++k) {
            std::vector<double> v;
            double n0 = 0;
            for (auto& x : P)
                for (std::size_t c = 0; c < comps; ++c) v.push_back(c == k ? monomial(e, x) : 0.0);
            for (double x : v) n0 += x * x;
            for (int rep = 0; rep < 2; ++rep)
                for (auto& q : cols) {
                    double d = 0;
                    for (std::size_t l = 0; l < v.size(); ++l) d += v[l] * q[l];
                    for (std::size_t l = 0; l < v.size(); ++l) v[l] -= d * q[l];
                }
            double nn = 0;
            for (double x : v) nn += x * x;
            near(std::sqrt(nn), 0.0, 1e-8 * (1 + std::sqrt(n0)), str("basis:span:", id, ":order", order), "order ", order);
        }
    });
}

// A conforming basis is put together from the interior set, the vertex sets
// and for every face and edge the set of whatever orientation the mesh gives
// it. Every selection of orientations has to be a basis of the promised space.
template <std::size_t D>
static void conforming(const std::vector<Fam>& fams, const std::string& shape, int order, Rng& r, int selections) {
    std::vector<std::shared_ptr<const BasisFunctionSet>> fixed;
    // (codimension, local index) -> orientation -> set
    std::map<std::pair<int, std::size_t>, std::map<std::size_t, std::shared_ptr<const BasisFunctionSet>>> choice;
    const Fam* dg = nullptr;
    RT type = RT::LINE;
    for (auto& f : fams) {
        if (f.name == shape) dg = &f;
        if (f.full || f.name.substr(0, shape.size() + 1) != shape + "-") continue;
        if (order > f.hi) return;
        type = f.type;
        int codim = f.name == shape + "-face" ? 1 : f.name == shape + "-edge" ? 2 : 0;
        for (auto* s : f.make(order)) {
            std::shared_ptr<const BasisFunctionSet> p(s);
            auto* o = dynamic_cast<const FE::OrientedBasisFunctionSet*>(s);
            if (!codim) {
                fixed.push_back(p);
                continue;
            }
            expect(o != nullptr, "conforming:set-without-orientation:" + f.name);
            if (!o) continue;
            std::size_t found = 0;
            for (std::size_t c = 0; c < 24; ++c)
                for (std::size_t e = 0; e < 24; ++e)
                    if (o->checkOrientation(c, e)) {
                        ++found;
                        expect(!choice[{codim, e}].count(c), "conforming:orientation-twice:" + f.name, "entity ", e, " orientation ", c);
                        choice[{codim, e}][c] = p;
                    }
            expect(found == 1, "conforming:orientation-unknown:" + f.name);
        }
    }
    auto* geo = geoOf(type);
    for (auto& kv : choice) {
        bool face = kv.first.first == 1;
        std::size_t e = kv.first.second;
        expect(e < (face ? geo->getNumberOfCodim1Entities() : geo->getNumberOfCodim2Entities()), "conforming:no-such-entity:" + shape);
        std::size_t n0 = kv.second.begin()->second->size();
        for (auto& os : kv.second) expect(os.second->size() == n0, "conforming:size-depends-on-orientation:" + shape, face ? "face " : "edge ", e, " order ", order, ": ", n0, " and ", os.second->size());
        // an edge is seen in two directions, a face in all its symmetries
        std::size_t corners = face ? geo->getCodim1EntityLocalIndices(e).size() : 2;
        std::size_t want = D == 2 || !face ? 2 : corners == 3 ? 6 : 8;
        if (n0) expect(kv.second.size() == want, "conforming:orientations-missing:" + shape, face ? "face " : "edge ", e, " order ", order, " has ", kv.second.size());
    }
    std::size_t rounds = 0;
    for (auto& kv : choice) rounds = std::max(rounds, kv.second.size());
    rounds = std::max<std::size_t>(1, rounds) + selections;
    long want = sizeOf(*dg, order);
    for (std::size_t k = 0; k < rounds; ++k) {
        std::vector<const BasisFunctionSet*> use;
        for (auto& s : fixed) use.push_back(s.get());
        std::string sel;
        for (auto& kv : choice) {
            std::size_t n = kv.second.size(), j = k + selections < rounds ? (k + kv.first.second) % n : below(r, n);
            auto it = kv.second.begin();
            std::advance(it, j);
            use.push_back(it->second.get());
            sel += str(it->first);
        }
        std::size_t n = 0;
        for (auto* s : use) n += s->size();
        expect((long)n == want, str("conforming:size:", shape, ":order", order), "order ", order, " has ", n, " want ", want, " orientations ", sel);
        std::vector<std::vector<double>> P(2 * n + 40), cols;
        for (auto& x : P) x = randomPoint(type, r);
        for (auto* s : use)
            for (std::size_t i = 0; i < s->size(); ++i) {
                std::vector<double> c;
                for (auto& x : P) c.push_back(s->eval(i, toPoint<D>(x)));
                cols.push_back(c);
            }
        std::size_t rank = orthonormalise(cols);
        expect(rank == n, str("conforming:dependent:", shape, ":order", order), "rank ", rank, " of ", n, " orientations ", sel);
        forMonomials(D, order, [&](const std::vector<int>& e) {
            std::vector<double> v;
            double n0 = 0, nn = 0;
            for (auto& x : P) v.push_back(monomial(e, x));
            for (double x : v) n0 += x * x;
            for (int rep = 0; rep < 2; ++rep)
                for (auto& q : cols) {
                    double d = 0;
                    for (std::size_t l = 0; l < v.size(); ++l) d += v[l] * q[l];
                    for (std::size_t l = 0; l < v.size(); ++l) v[l] -= d * q[l];
                }
            for (double x : v) nn += x * x;
            near(std::sqrt(nn), 0.0, 1e-8 * (1 + std::sqrt(n0)), str("conforming:span:", shape, ":order", order), "orientations ", sel);
        });
        count("conforming-selections");
        distinct(str("conforming ", shape, " ", order, " ", sel));
    }
}

// ---------------------------------------------------------------- caches
struct Live {
    const Fam* f;
    int order;
    std::shared_ptr<const BasisFunctionSet> s;
};
template <std::size_t D>
static void cached(RT type, const std::vector<Fam>& fams, Rng& r, int steps) {
    auto* geo = geoOf(type);
    std::vector<const Fam*> use;
    for (auto& f : fams)
        if (f.type == type) use.push_back(&f);
    std::vector<Live> live;
    std::string sh = nameOf(type);
    auto create = [&]() {
        const Fam* f = use[below(r, use.size())];
        int o = f->lo + below(r, std::min(f->hi, D == 3 ? 3 : 5) - f->lo + 1);
        auto sets = f->make(o);
        std::size_t k = below(r, sets.size());
        for (std::size_t i = 0; i < sets.size(); ++i)
            if (i != k) delete sets[i];
        if (sets[k]->size() == 0) {
            delete sets[k];
            return;
        }
        live.push_back({f, o, std::shared_ptr<const BasisFunctionSet>(sets[k])});
    };
    while (live.size() < 3) create();
    for (int step = 0; step < steps; ++step) {
        if (below(r, 5) == 0) {
            live.erase(live.begin() + below(r, live.size()));
            count("sets-destroyed");
            while (live.size() < 3) create();
        }
        Live& L = live[below(r, live.size())];
        auto& s = *L.s;
        std::string id = L.f->name;
        bool face = D > 1 && D < 4 && below(r, 2);
        if (!face) {
            auto* rule = geo->getGaussQuadratureRule(1 + below(r, D >= 3 ? 5 : 9));
            for (int rep = 0; rep < 4; ++rep) {
                std::size_t q = below(r, rule->getNumberOfPoints()), i = below(r, s.size());
                const Geometry::PointReference<D>& p = rule->getPoint(q);
                if (L.f->vec) {
                    if constexpr (D == 2 || D == 3) {
                        LinearAlgebra::SmallVector<D> a, b;
                        if (id.substr(0, 5) == "user-" && below(r, 2)) {
                            expect(rule->evalDiv(&s, i, q) == s.evalDiv(i, p), "cache:element-divergence:" + id, "step ", step);
                            count("cached-divergence");
                            continue;
                        }
                        if (below(r, 2)) {
                            rule->eval(&s, i, q, a);
                            s.eval(i, p, b);
                        } else {
                            a = rule->template evalCurl<D>(&s, i, q);
                            b = s.evalCurl(i, p);
                        }
                        for (std::size_t d = 0; d < D; ++d) expect(a[d] == b[d], "cache:element-vector:" + id, "step ", step);
                    }
                } else {
                    expect(rule->eval(&s, i, q) == s.eval(i, p), "cache:element-value:" + id, "step ", step, " order ", L.order, " ", sh);
                    LinearAlgebra::SmallVector<D> g = rule->evalGrad(&s, i, q), w = s.evalDeriv(i, p);
                    for (std::size_t d = 0; d < D; ++d) expect(g[d] == w[d], "cache:element-gradient:" + id, "step ", step);
                }
                count("cached-element");
            }
        } else if constexpr (D == 2 || D == 3) {
            std::size_t lf = below(r, geo->getNumberOfCodim1Entities());
            auto* fg = geo->getCodim1ReferenceGeometry(lf);
            auto* m1 = geo->getCodim1MappingPtr(lf);
            auto* rule = fg->getGaussQuadratureRule(1 + below(r, D >= 3 ? 5 : 9));
            std::size_t codes = D == 2 ? 2 : fg->getGeometryType() == RT::TRIANGLE ? 6 : 8;
            std::size_t code = below(r, codes);
            bool concat = below(r, 2);
            auto* m0 = fg->getCodim0MappingPtr(code);
            // mapping objects are made and dropped again as faces do
            std::unique_ptr<Geometry::ConcatenatedMapping> cm;
            const Geometry::MappingReferenceToReference<1>* map = m1;
            if (concat) {
                cm.reset(new Geometry::ConcatenatedMapping(*m0, *m1));
                map = cm.get();
            }
            for (int rep = 0; rep < 4; ++rep) {
                std::size_t q = below(r, rule->getNumberOfPoints()), i = below(r, s.size());
                const Geometry::PointReference<D - 1>& pf = rule->getPoint(q);
                Geometry::PointReference<D> p = concat ? m1->transform(m0->transform(pf)) : m1->transform(pf);
                if (L.f->vec) {
                    LinearAlgebra::SmallVector<D> a, b;
                    if (id.substr(0, 5) == "user-" && below(r, 2)) {
                        near(rule->evalDiv(&s, i, q, map), s.evalDiv(i, p), 1e-13 * (1 + std::abs(s.evalDiv(i, p))), "cache:face-divergence:" + id, "step ", step, " face ", lf, " code ", code);
                        count("cached-divergence");
                        continue;
                    }
                    if (below(r, 2)) {
                        rule->eval(&s, i, q, map, a);
                        s.eval(i, p, b);
                    } else {
                        a = rule->template evalCurl<D>(&s, i, q, map);
                        b = s.evalCurl(i, p);
                    }
                    for (std::size_t d = 0; d < D; ++d) near(a[d], b[d], 1e-13 * (1 + std::abs(b[d])), "cache:face-vector:" + id, "step ", step);
                } else {
                    double w0 = s.eval(i, p);
                    near(rule->eval(&s, i, q, map), w0, 1e-13 * (1 + std::abs(w0)), "cache:face-value:" + id, "step ", step, " face ", lf, " code ", code);
                    LinearAlgebra::SmallVector<D> g = rule->evalGrad(&s, i, q, map), w = s.evalDeriv(i, p);
                    for (std::size_t d = 0; d < D; ++d) near(g[d], w[d], 1e-13 * (1 + std::abs(w[d])), "cache:face-gradient:" + id, "step ", step);
                }
                count("cached-face");
            }
            distinct(str("cache ", sh, " face ", lf, " code ", concat ? (int)code : -1, " ", id));
        }
    }
}

int main(int argc, char** argv) {
    init(argc, argv);
    auto fams = families();
    bool th = st().thorough;
    for (auto& f : fams)
        for (int o = f.lo; o <= f.hi; ++o) {
            begin(str("basis ", f.name, " order ", o));
            Rng r = rng(str("basis", f.name, o));
            guard("basis:" + f.name, [&]() {
                auto sets = f.make(o);
                int pts = f.full ? (th ? 40 : 6) : (th ? 12 : 2);
                for (auto* s : sets) {
                    switch (dimOf(f.type)) {
                        case 1: checkSet<1>(f, o, *s, r, 3 * pts); if (f.full) complete<1>(f, o, *s, r); break;
                        case 2: checkSet<2>(f, o, *s, r, 2 * pts); if (f.full) complete<2>(f, o, *s, r); break;
                        case 3: checkSet<3>(f, o, *s, r, pts); if (f.full) complete<3>(f, o, *s, r); break;
                        case 4: checkSet<4>(f, o, *s, r, pts); if (f.full) complete<4>(f, o, *s, r); break;
                    }
                    distinct(str(f.name, " ", o));
                    count("sets");
                    delete s;
                }
            });
        }
    for (std::string sh : {"line", "triangle", "square", "tetrahedron", "prism", "cube", "pyramid"})
        for (int o = 1; o <= 5; ++o) {
            begin(str("conforming ", sh, " order ", o));
            Rng r = rng(str("conforming", sh, o));
            guard("conforming:" + sh, [&]() {
                int n = th ? 12 : 2;
                if (sh == "line") conforming<1>(fams, sh, o, r, n);
                else if (sh == "triangle" || sh == "square") conforming<2>(fams, sh, o, r, n);
                else conforming<3>(fams, sh, o, r, n);
            });
        }
    for (RT t : {RT::LINE, RT::TRIANGLE, RT::SQUARE, RT::TETRAHEDRON, RT::TRIANGULARPRISM, RT::CUBE, RT::PYRAMID}) {
        begin(str("cache ", nameOf(t)));
        Rng r = rng(str("cache", nameOf(t)));
        int steps = th ? 20000 : 1500;
        guard("cache", [&]() {
            if (dimOf(t) == 1) cached<1>(t, fams, r, steps);
            if (dimOf(t) == 2) cached<2>(t, fams, r, steps);
            if (dimOf(t) == 3) cached<3>(t, fams, r, steps);
        });
    }
    return finish();
}
