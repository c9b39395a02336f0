// Quadrature monitor: every rule a user can obtain, for every order request.
#include "refgeo.h"
#include "Integration/QuadratureRules/AllGaussQuadratureRules.h"
#include "Integration/QuadratureRules/GaussQuadratureRule.h"
using namespace vf;
using Rule = QuadratureRules::GaussQuadratureRule;

template <std::size_t D>
std::vector<double> coords(const Geometry::PointReferenceBase& b) {
    const Geometry::PointReference<D>& p = b;
    std::vector<double> x(D);
    for (std::size_t i = 0; i < D; ++i) x[i] = p[i];
    return x;
}
static std::vector<double> pointOf(const Rule& r, std::size_t i) {
    switch (r.dimension()) {
        case 0:
            return {};
        case 1:
            return coords<1>(r.getPoint(i));
        case 2:
            return coords<2>(r.getPoint(i));
        case 3:
            return coords<3>(r.getPoint(i));
        default:
            return coords<4>(r.getPoint(i));
    }
}

static void judge(const Shape& s, Rule& r, std::size_t order,
                  const std::string& key) {
    std::size_t n = r.getNumberOfPoints();
    expect(n > 0, key + ":no-points", r.getName());
    std::vector<std::vector<double>> p;
    std::vector<double> w;
    double sumAbs = 0;
    for (std::size_t i = 0; i < n; ++i) {
        p.push_back(pointOf(r, i));
        w.push_back(r.weight(i));
        sumAbs += std::abs(w.back());
        expect(inside(s.type, p.back(), 1e-12), key + ":point-outside",
               r.getName(), " point ", i);
        expect(std::isfinite(w.back()), key + ":weight-not-finite",
               r.getName(), " point ", i);
    }
    count("quadrature points", n);
    forMonomials(dimOf(s.type), (int)order, [&](const std::vector<int>& e) {
        double v = 0;
        for (std::size_t i = 0; i < n; ++i) v += w[i] * monomial(e, p[i]);
        std::string es;
        for (int k : e) es += std::to_string(k);
        // the prism and pyramid tables carry ten significant digits
        double tol = s.type == RT::PYRAMID || s.type == RT::TRIANGULARPRISM
                         ? 1e-9
                         : 2e-12;
        int deg = 0;
        for (int k : e) deg += k;
        double ex = exactMonomial(s.type, e);
        // name the failing input: the rule's claim, the polynomial degree and
        // whether this is a gross or a slight error
        std::string k = str(nameOf(s.type), ":claim", r.order(), ":degree", deg,
                            std::abs(v - ex) <= 1e-6 ? ":slight" : ":gross");
        near(v, ex, tol * std::max(1.0, sumAbs), k, r.getName(),
             " exponents ", es, " requested through ", key);
        distinct(key + "/" + r.getName() + "/" + es);
    });
}

int main(int argc, char** argv) {
    vf::init(argc, argv);
    guard("quadrature", [] {
        for (auto& s : allShapes(true, 3)) {
            std::size_t highest = 0;
            for (std::size_t o = 0; o < 40; ++o) {
                begin(str("rule for ", s.name, " order ", o));
                Rule* r = nullptr;
                try {
                    r = s.geo->getGaussQuadratureRule(o);
                } catch (HpgemError&) {
                    r = nullptr;  // an explicit refusal
                }
                // A refusal is allowed only above the orders that are offered
                // today; once refused, higher orders are refused as well.
                std::size_t offered;
                switch (s.type) {
                    case RT::POINT:
                        offered = 39;
                        break;
                    case RT::LINE:
                    case RT::SQUARE:
                    case RT::TRIANGLE:
                    case RT::CUBE:
                        offered = 11;
                        break;
                    case RT::TETRAHEDRON:
                        offered = 10;
                        break;
                    case RT::HYPERCUBE:
                        offered = 3;
                        break;
                    default:
                        offered = 7;
                }
                if (r == nullptr) {
                    count("refused");
                    expect(o > offered, s.name + ":order-refused", "order ", o);
                    continue;
                }
                highest = o;
                std::string key = str(s.name, ":order", o);
                expect(r->order() >= o, key + ":insufficient-order",
                       r->getName(), " has order ", r->order());
                expect(r->dimension() == dimOf(s.type), key + ":dimension",
                       r->getName());
                auto* g = r->forReferenceGeometry();
                expect(g->getGeometryType() == s.type, key + ":geometry",
                       r->getName());
                near(g->measure(), exactMonomial(s.type, std::vector<int>(dimOf(s.type), 0)),
                     1e-14, s.name + ":measure");
                near(s.geo->measure(), g->measure(), 1e-14, s.name + ":measure");
                // the rule must honour its own claim, not just the request
                std::size_t claim = std::min<std::size_t>(r->order(), 30);
                judge(s, *r, claim, key);
                // asking again gives the same rule
                expect(s.geo->getGaussQuadratureRule(o) == r, key + ":unstable",
                       r->getName());
                count("rules judged");
            }
            (void)highest;
        }
    });
    return vf::finish();
}
