// P16: time integration. Coefficients of every offered scheme against the
// order conditions (all rooted trees up to order 5), total variation
// diminishing claims, embedded estimators; then the real stepping code of
// HpgemAPISimplified on random systems of differential equations, compared
// step by step with an independent Runge-Kutta step and with exact solutions.
#include "loadmesh.h"
#include "Base/HpgemAPISimplified.h"
#include "Base/TimeIntegration/AllTimeIntegrators.h"
#include <algorithm>
#include <fstream>

using namespace vf;
using namespace hpgem;
using LinearAlgebra::MiddleSizeVector;
using Tableau = TimeIntegration::ButcherTableau;
using LD = long double;

namespace hpgem {
namespace Base {
extern CommandLineOption<double>& dt;
}
}  // namespace hpgem

struct Rk {
    std::size_t s;
    std::vector<std::vector<LD>> a;
    std::vector<LD> b, c, e;
};
static Rk read(const Tableau& t) {
    Rk k;
    k.s = t.getNumberOfStages();
    for (std::size_t i = 0; i < k.s; ++i) {
        k.a.emplace_back(k.s, LD(0));
        for (std::size_t j = 0; j < i; ++j) k.a[i][j] = t.getA(i, j);
        k.b.push_back(t.getB(i));
        k.c.push_back(t.getC(i));
        if (t.hasErrorEstimate()) k.e.push_back(t.getErrorCoefficient(i));
    }
    return k;
}

// rooted trees: a tree is a list of subtrees; elementary weights
struct RTree {
    std::vector<int> sub;  // indices of smaller trees
    int order;
    LD density;
    std::string name;
};
static std::vector<RTree> trees(int maxOrder) {
    std::vector<RTree> t;
    t.push_back({{}, 1, 1, "."});
    for (int o = 2; o <= maxOrder; ++o) {
        std::vector<RTree> fresh;
        std::vector<int> pick;
        std::function<void(int, int)> rec = [&](int left, int from) {
            if (left == 0) {
                RTree n;
                n.sub = pick;
                n.order = o;
                n.density = o;
                n.name = "[";
                for (int i : pick) n.density *= t[i].density, n.name += t[i].name;
                n.name += "]";
                fresh.push_back(n);
                return;
            }
            for (int i = from; i < (int)t.size(); ++i)
                if (t[i].order <= left) {
                    pick.push_back(i);
                    rec(left - t[i].order, i);
                    pick.pop_back();
                }
        };
        rec(o - 1, 0);
        t.insert(t.end(), fresh.begin(), fresh.end());
    }
    return t;
}
static std::vector<LD> stageWeights(const Rk& k, const std::vector<RTree>& all, int tree) {
    std::vector<LD> w(k.s, 1);
    for (int sub : all[tree].sub) {
        std::vector<LD> in = stageWeights(k, all, sub);
        for (std::size_t i = 0; i < k.s; ++i) {
            LD x = 0;
            for (std::size_t j = 0; j < k.s; ++j) x += k.a[i][j] * in[j];
            w[i] *= x;
        }
    }
    return w;
}

static void coefficients(const Tableau& t, const std::string& key) {
    Rk k = read(t);
    auto all = trees(6);
    for (std::size_t i = 0; i < k.s; ++i) {
        LD sum = 0;
        for (std::size_t j = 0; j < i; ++j) sum += k.a[i][j];
        near(double(k.c[i]), double(sum), 1e-14, key + ":stage-time", "stage ", i);
    }
    std::size_t p = t.getOrder();
    bool higher = false;
    for (std::size_t n = 0; n < all.size(); ++n) {
        auto w = stageWeights(k, all, n);
        LD lhs = 0;
        for (std::size_t i = 0; i < k.s; ++i) lhs += k.b[i] * w[i];
        if (all[n].order <= (int)p) {
            near(double(lhs), double(1 / all[n].density), 1e-13, key + str(":order-condition:", all[n].order), all[n].name);
            count("order-conditions");
        }
        (void)higher;
    }
    if (t.hasErrorEstimate()) {
        LD largest = 0;
        for (std::size_t n = 0; n < all.size(); ++n) {
            auto w = stageWeights(k, all, n);
            LD lhs = 0;
            for (std::size_t i = 0; i < k.s; ++i) lhs += k.e[i] * w[i];
            if (all[n].order < (int)p) {
                near(double(lhs), 0., 1e-13, key + str(":estimate-condition:", all[n].order), all[n].name);
                count("estimate-conditions");
            } else if (all[n].order == (int)p) {
                largest = std::max(largest, std::abs(lhs));
            }
        }
        expect(largest > 1e-6, key + ":estimate-sees-nothing", double(largest));
    }
    if (t.getTotalVariationDiminishing()) {
        // Shu-Osher form with unit time step ratio: K (I + K)^-1 >= 0 and row
        // sums at most one; forward substitution, K is strictly lower
        // triangular
        std::size_t n = k.s + 1;
        std::vector<std::vector<LD>> K(n, std::vector<LD>(n, 0));
        for (std::size_t i = 0; i < k.s; ++i)
            for (std::size_t j = 0; j < i; ++j) K[i][j] = k.a[i][j];
        for (std::size_t j = 0; j < k.s; ++j) K[k.s][j] = k.b[j];
        // X (I + K) = K  =>  X[i][j] = K[i][j] - sum_{m>j} X[i][m] K[m][j]
        for (std::size_t i = 0; i < n; ++i) {
            std::vector<LD> X(n, 0);
            LD sum = 0;
            for (std::size_t j = n; j-- > 0;) {
                X[j] = K[i][j];
                for (std::size_t m = j + 1; m < n; ++m) X[j] -= X[m] * K[m][j];
                sum += X[j];
                expect(X[j] >= -1e-14, key + ":not-a-convex-combination", "stage ", i, " weight ", j, " is ", double(X[j]));
            }
            expect(sum <= 1 + 1e-14, key + ":not-a-convex-combination", "stage ", i, " sum ", double(sum));
        }
        count("tvd-schemes");
    }
}

// u' = f(t, u): coupled, nonlinear, explicit time dependence; exact solution g
struct Problem {
    std::size_t n;
    std::vector<LD> amp, freq, phase, off;
    std::vector<std::vector<LD>> A, B;
    LD stiff = 1;
    Problem(std::size_t n, Rng& r) : n(n) {
        for (std::size_t i = 0; i < n; ++i) {
            amp.push_back(uni(r, 0.5, 1.5)), freq.push_back(uni(r, 0.7, 2)), phase.push_back(uni(r, 0, 6)), off.push_back(uni(r, -1, 1));
            A.emplace_back(), B.emplace_back();
            for (std::size_t j = 0; j < n; ++j) A[i].push_back(uni(r, -1, 1)), B[i].push_back(uni(r, -0.5, 0.5));
        }
    }
    LD g(std::size_t i, LD t) const { return off[i] + amp[i] * std::sin(freq[i] * t + phase[i]); }
    LD dg(std::size_t i, LD t) const { return amp[i] * freq[i] * std::cos(freq[i] * t + phase[i]); }
    std::vector<LD> f(LD t, const std::vector<LD>& u) const {
        std::vector<LD> r(n);
        for (std::size_t i = 0; i < n; ++i) {
            r[i] = dg(i, t);
            for (std::size_t j = 0; j < n; ++j) {
                std::size_t k = (j + i + 1) % n;
                r[i] += stiff * A[i][j] * (u[j] - g(j, t)) + B[i][j] * std::cos(t) * (std::sin(u[j] * u[k]) - std::sin(g(j, t) * g(k, t)));
            }
        }
        return r;
    }
};

static std::vector<LD> step(const Problem& p, const Rk& k, LD t, LD dt, const std::vector<LD>& u, std::vector<LD>* err = nullptr) {
    std::vector<std::vector<LD>> st;
    for (std::size_t i = 0; i < k.s; ++i) {
        std::vector<LD> v = u;
        for (std::size_t j = 0; j < i; ++j)
            for (std::size_t x = 0; x < p.n; ++x) v[x] += dt * k.a[i][j] * st[j][x];
        st.push_back(p.f(t + k.c[i] * dt, v));
    }
    std::vector<LD> v = u;
    for (std::size_t i = 0; i < k.s; ++i)
        for (std::size_t x = 0; x < p.n; ++x) v[x] += dt * k.b[i] * st[i][x];
    if (err) {
        err->assign(p.n, 0);
        for (std::size_t i = 0; i < k.s; ++i)
            for (std::size_t x = 0; x < p.n; ++x) (*err)[x] += dt * k.e[i] * st[i][x];
    }
    return v;
}

// the real solver; the mass matrix is left at its default, so the right hand
// side is multiplied by it here
class Solver : public Base::HpgemAPISimplified<1> {
   public:
    std::map<std::size_t, std::size_t> slot;
    std::vector<Problem> problem;
    std::uint64_t rhs = 0;
    Solver(const Tableau* t, std::size_t unknowns, std::size_t order) : HpgemAPISimplified<1>(unknowns, order, t) {}
    MiddleSizeVector computeRightHandSideAtElement(Base::Element* e, const MiddleSizeVector& c, const double time) override {
        ++rhs;
        const Problem& p = problem[slot.at(e->getID())];
        std::vector<LD> u;
        for (std::size_t i = 0; i < c.size(); ++i) u.push_back(std::real(c[i]));
        auto f = p.f(time, u);
        MiddleSizeVector v(c.size());
        for (std::size_t i = 0; i < c.size(); ++i) v[i] = double(f[i]);
        return computeMassMatrixAtElement(e) * v;
    }
    MiddleSizeVector computeRightHandSideAtFace(Base::Face* f, MiddleSizeVector& c, const double) override { return MiddleSizeVector(c.size()) *= 0.; }
    MiddleSizeVector computeRightHandSideAtFace(Base::Face*, const Base::Side side, MiddleSizeVector& l, MiddleSizeVector& r, const double) override {
        return MiddleSizeVector(side == Base::Side::LEFT ? l.size() : r.size()) *= 0.;
    }
    Base::MeshManipulator<1>* mesh() { return meshes_[0]; }
    void start(Rng& r, bool exact, double t0) {
        problem.clear();
        slot.clear();
        for (Base::Element* e : meshes_[0]->getElementsList()) {
            std::size_t n = e->getTimeIntegrationVector(solutionVectorId_).size();
            slot[e->getID()] = problem.size();
            problem.emplace_back(n, r);
            for (std::size_t i = 0; i < n; ++i) e->getTimeIntegrationVector(solutionVectorId_)[i] = double(problem.back().g(i, t0)) + (exact ? 0. : uni(r, -0.3, 0.3));
        }
    }
    std::vector<std::vector<LD>> state() {
        std::vector<std::vector<LD>> s(problem.size());
        for (Base::Element* e : meshes_[0]->getElementsList())
            for (std::size_t i = 0; i < e->getTimeIntegrationVector(solutionVectorId_).size(); ++i) s[slot[e->getID()]].push_back(std::real(e->getTimeIntegrationVector(solutionVectorId_)[i]));
        return s;
    }
    using HpgemAPISimplified<1>::solutionVectorId_;
};

static std::string meshFile(Rng& r, int cells) {
    ZooOptions o;
    o.dim = 1;
    o.n = {cells, 1, 1};
    o.periodic[0] = below(r, 2);
    if (o.periodic[0]) o.n[0] = std::max(2, cells);
    MMesh m = makeMesh(o, r);
    static int k = 0;
    std::string f = str(st().scratch.empty() ? "/tmp" : st().scratch, "/ode", k++, ".", getpid(), ".hpgem");
    writeMesh(m, f, 2, true);
    return f;
}

static void stepping(const Tableau* t, const std::string& key, Rng& r) {
    Rk k = read(*t);
    std::string f = meshFile(r, 1 + below(r, 3));
    Solver s(t, 1 + below(r, 2), below(r, 3));
    s.readMesh(f);
    unlink(f.c_str());
    double t0 = uni(r, -2, 2);
    // single steps agree with an independent step
    for (int rep = 0; rep < 6; ++rep) {
        s.start(r, false, t0);
        double time = t0, dt = std::pow(10., uni(r, -3, -0.5));
        for (int n = 0; n < 3; ++n) {
            auto before = s.state();
            double tb = time;
            s.rhs = 0;
            s.computeOneTimeStep(time, dt);
            near(time, tb + dt, 1e-15 * (1 + std::abs(tb)), key + ":time-advance");
            auto after = s.state();
            for (std::size_t e = 0; e < before.size(); ++e) {
                auto want = step(s.problem[e], k, tb, dt, before[e]);
                for (std::size_t i = 0; i < want.size(); ++i) near(double(after[e][i]), double(want[i]), 1e-11 * (1 + std::abs(double(want[i]))), key + ":step", "dt ", dt);
            }
            count("steps");
        }
    }
    // observed order of convergence on the exact solution
    std::vector<double> orders;
    for (int rep = 0; rep < 5; ++rep) {
        s.start(r, true, t0);
        std::vector<std::vector<LD>> init = s.state();
        double err[2];
        int base = t->getOrder() >= 4 ? 12 : 40;
        double T = 1.5;
        for (int h = 0; h < 2; ++h) {
            for (Base::Element* e : s.mesh()->getElementsList())
                for (std::size_t i = 0; i < init[s.slot[e->getID()]].size(); ++i) e->getTimeIntegrationVector(s.solutionVectorId_)[i] = double(init[s.slot[e->getID()]][i]);
            int n = base << h;
            double time = t0;
            for (int i = 0; i < n; ++i) s.computeOneTimeStep(time, T / n);
            auto end = s.state();
            err[h] = 0;
            for (std::size_t e = 0; e < end.size(); ++e)
                for (std::size_t i = 0; i < end[e].size(); ++i) err[h] += std::pow(double(end[e][i] - s.problem[e].g(i, t0 + T)), 2);
            err[h] = std::sqrt(err[h]);
        }
        orders.push_back(std::log2(err[0] / err[1]));
    }
    std::sort(orders.begin(), orders.end());
    expect(orders[2] > t->getOrder() - 0.35, key + ":observed-order", "median ", orders[2], " claimed ", t->getOrder());
    count("convergence-studies");
    // a system at rest, woken up later
    if (t->hasErrorEstimate())
        for (int rep = 0; rep < 2; ++rep) {
            s.start(r, true, t0);
            auto keep = s.problem;
            for (auto& p : s.problem) std::fill(p.amp.begin(), p.amp.end(), 0), std::fill(p.off.begin(), p.off.end(), 0);
            for (Base::Element* e : s.mesh()->getElementsList()) e->getTimeIntegrationVector(s.solutionVectorId_) *= 0.;
            double time = t0;
            for (int n = 0; n < 6; ++n) {
                if (n == 3) s.problem = keep;
                double tb = time, dtMax = uni(r, 0.01, 0.1);
                s.computeOneTimeStep(time, 1e-4, dtMax);
                expect(time > tb && time <= tb + dtMax * (1 + 1e-12), key + ":adaptive-from-rest", "step ", n, " from ", tb, " to ", time);
                for (auto& x : s.state())
                    for (LD v : x) expect(std::isfinite(double(v)), key + ":adaptive-from-rest", "step ", n, " value ", double(v));
                count("steps-from-rest");
                if (!std::isfinite(time)) break;
            }
        }
    // adaptive steps
    if (t->hasErrorEstimate())
        for (int rep = 0; rep < 4; ++rep) {
            s.start(r, false, t0);
            for (auto& p : s.problem) p.stiff = std::pow(10., uni(r, -1, 1.5));
            double time = t0;
            double tol = std::pow(10., uni(r, -7, -2));
            for (int n = 0; n < 8; ++n) {
                double dtMax = std::pow(10., uni(r, -2.5, -0.3));
                // sudden changes of the problem make steps fail
                if (n == 4)
                    for (auto& p : s.problem) p.stiff *= 20;
                auto before = s.state();
                double tb = time;
                s.rhs = 0;
                s.computeOneTimeStep(time, tol, dtMax);
                std::uint64_t tries = s.rhs / (k.s * s.problem.size());
                count("adaptive-steps");
                if (tries > 1) count("rejected-tries", tries - 1);
                LD dt = LD(time) - LD(tb);
                expect(dt > 0 && dt <= dtMax * (1 + 1e-12), key + ":adaptive-step-size", double(dt), " of at most ", dtMax);
                auto after = s.state();
                LD e2 = 0, norm = 0, scale = 0;
                for (std::size_t e = 0; e < before.size(); ++e) {
                    std::vector<LD> err;
                    auto want = step(s.problem[e], k, tb, dt, before[e], &err);
                    LD nn = 0;
                    for (std::size_t i = 0; i < want.size(); ++i) {
                        scale = std::max(scale, std::abs(want[i]));
                        // rewinding a rejected step loses some digits, more
                        // so when the rejected step was large
                        near(double(after[e][i]), double(want[i]), 1e-9 * (1 + std::abs(double(want[i]))) * std::pow(10., double(std::min<std::uint64_t>(tries - 1, 4))), key + ":adaptive-step", "dt ", double(dt), " tries ", tries);
                        e2 += err[i] * err[i];
                        nn += want[i] * want[i];
                    }
                    norm += std::sqrt(nn);
                }
                expect(std::sqrt(e2) <= tol * norm * (1 + 1e-6), key + ":tolerance-exceeded", "estimate ", double(std::sqrt(e2)), " allowed ", double(tol * norm));
            }
        }
}

int main(int argc, char** argv) {
    startHpgem(argc, argv);
    auto& F = TimeIntegration::AllTimeIntegrators::Instance();
    std::set<const Tableau*> seen;
    std::map<std::string, bool> offered;
    for (std::size_t o = 0; o < 9; ++o)
        for (std::size_t s = 0; s < 12; ++s)
            for (int tvd = 0; tvd < 2; ++tvd) {
                begin(str("rule ", o, " ", s, " ", tvd));
                const Tableau* t = nullptr;
                try {
                    t = F.getRule(o, s, tvd);
                } catch (const HpgemError&) {
                }
                static const std::set<std::array<int, 3>> must = {{1, 1, 1}, {2, 2, 0}, {2, 2, 1}, {3, 3, 1}, {4, 4, 0}, {5, 7, 0}, {3, 4, 0}};
                bool exact = must.count({int(o), int(s), tvd});
                if (!expect(t != nullptr || !(exact || must.count({int(o), int(s), !tvd})), "ode:refused", o, " ", s, " ", tvd)) continue;
                if (!t) continue;
                expect(t->getOrder() == o && t->getNumberOfStages() == s, "ode:other-rule", o, " ", s, " gives ", t->getOrder(), " ", t->getNumberOfStages());
                if (exact) expect(t->getTotalVariationDiminishing() == bool(tvd), "ode:other-tvd", o, " ", s);
                if (!seen.insert(t).second) continue;
                std::string key = str("ode:order", o, "stages", s, t->getTotalVariationDiminishing() ? "tvd" : "");
                distinct(key);
                guard(key, [&]() { coefficients(*t, key); });
                int reps = st().thorough ? 40 : 4;
                for (int k = 0; k < reps; ++k) {
                    Rng r = rng(str(key, k, arg("salt")));
                    begin(str(key, " stepping ", k));
                    guard(key, [&]() { stepping(t, key, r); });
                    distinct(str(key, k));
                }
            }
    return finish();
}
