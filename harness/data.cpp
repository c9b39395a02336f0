// P17: data stored on elements and faces, and the local index conversions,
// against map models over random histories on real meshes.
#include "loadmesh.h"
#include "Base/FaceMatrix.h"
#include "Base/UserData.h"
#include "Utilities/ElementLocalIndexing.h"
#include "Utilities/FaceLocalIndexing.h"
using namespace vf;
using namespace hpgem;
using Base::IteratorType;
using Base::Side;
using LinearAlgebra::MiddleSizeMatrix;
using LinearAlgebra::MiddleSizeVector;
using T = MiddleSizeVector::type;

static T value(Rng& r) { return T(uni(r, -1, 1) * std::pow(10., uni(r, -3, 3))); }
static MiddleSizeVector vec(Rng& r, std::size_t n) {
    MiddleSizeVector v(n);
    for (std::size_t i = 0; i < n; ++i) v[i] = value(r);
    return v;
}
static MiddleSizeMatrix mat(Rng& r, std::size_t n, std::size_t m) {
    MiddleSizeMatrix a(n, m);
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t j = 0; j < m; ++j) a(i, j) = value(r);
    return a;
}
static std::vector<T> raw(const MiddleSizeVector& v) {
    std::vector<T> o;
    for (std::size_t i = 0; i < v.size(); ++i) o.push_back(v[i]);
    return o;
}
struct Mat {
    std::size_t n = 0, m = 0;
    std::vector<T> x;  // row by row
    T& operator()(std::size_t i, std::size_t j) { return x[i * m + j]; }
};
static Mat raw(const MiddleSizeMatrix& a) {
    Mat o{a.getNumberOfRows(), a.getNumberOfColumns(), {}};
    for (std::size_t i = 0; i < o.n; ++i)
        for (std::size_t j = 0; j < o.m; ++j) o.x.push_back(a(i, j));
    return o;
}
static bool operator==(const Mat& a, const Mat& b) { return a.n == b.n && a.m == b.m && a.x == b.x; }
static MiddleSizeVector toVec(const std::vector<T>& v) {
    MiddleSizeVector o(v.size());
    for (std::size_t i = 0; i < v.size(); ++i) o[i] = v[i];
    return o;
}

struct ElementModel {
    Base::Element* e;
    std::vector<std::size_t> n, start;  // per unknown
    std::size_t total;
    std::map<std::size_t, std::vector<T>> level, integration;
    std::map<std::size_t, Mat> matrix;
    std::map<std::size_t, std::vector<T>> vector;
    Base::UserData* user = nullptr;
};
struct FaceModel {
    Base::Face* f;
    std::size_t left, right;  // total number of functions on the sides
    std::map<std::size_t, Mat> matrix;
    std::map<std::size_t, std::vector<T>> vector;
    std::vector<T> residue;
    bool hasResidue = false;
    Base::UserData* user = nullptr;
};

template <std::size_t D>
struct World {
    Loaded<D>& L;
    Rng& r;
    std::size_t unknowns, levels, nIntegration;
    std::vector<ElementModel> el;
    std::map<const Base::Element*, std::size_t> where;
    std::vector<FaceModel> fa;
    std::vector<std::unique_ptr<Base::UserData>> users;

    void compareElement(const ElementModel& m, const std::string& k) {
        const Base::Element* e = m.e;
        std::size_t sum = 0;
        for (std::size_t u = 0; u < unknowns; ++u) {
            expect(e->getNumberOfBasisFunctions(u) == m.n[u], k + ":size");
            sum += m.n[u];
        }
        expect(e->getTotalNumberOfBasisFunctions() == sum, k + ":total-size");
        for (auto& l : m.level) {
            expect(raw(e->getTimeLevelDataVector(l.first)) == l.second, k + ":time-level", l.first);
        }
        for (auto& l : m.integration) expect(raw(e->getTimeIntegrationVector(l.first)) == l.second, k + ":time-integration", l.first);
        for (auto& l : m.matrix) expect(raw(e->getElementMatrix(l.first)) == l.second, k + ":matrix", l.first);
        for (auto& l : m.vector) expect(raw(e->getElementVector(l.first)) == l.second, k + ":vector", l.first);
        expect(e->getUserData() == m.user, k + ":user-data");
    }
    void compareFace(const FaceModel& m, const std::string& k) {
        const Base::Face* f = m.f;
        for (auto& l : m.matrix) {
            expect(raw(f->getFaceMatrixMatrix(l.first)) == l.second, k + ":matrix", l.first);
            const Base::FaceMatrix& a = f->getFaceMatrix(l.first);
            std::size_t nl = a.getNumberOfDegreesOfFreedom(Side::LEFT);
            expect(nl + a.getNumberOfDegreesOfFreedom(Side::RIGHT) == l.second.n, k + ":matrix-size");
        }
        for (auto& l : m.vector) expect(raw(f->getFaceVector(l.first)) == l.second, k + ":vector", l.first);
        if (m.hasResidue) expect(raw(f->getResidue()) == m.residue, k + ":residue");
        expect(f->getUserData() == m.user, k + ":user-data");
    }
    void compareAll(const std::string& k) {
        for (auto& m : el) compareElement(m, k);
        for (auto& m : fa) compareFace(m, "data:face" + k.substr(12));
        count("full-comparisons");
    }

    void start() {
        for (Base::Element* e : L.mesh->getElementsList(IteratorType::GLOBAL)) {
            ElementModel m;
            m.e = e;
            m.total = 0;
            for (std::size_t u = 0; u < unknowns; ++u) {
                m.start.push_back(m.total);
                m.n.push_back(e->getNumberOfBasisFunctions(u));
                m.total += m.n.back();
            }
            e->setNumberOfTimeIntegrationVectors(nIntegration);
            for (std::size_t i = 0; i < nIntegration; ++i) {
                MiddleSizeVector v = vec(r, m.total);
                m.integration[i] = raw(v);
                e->setTimeIntegrationVector(i, v);
            }
            where[e] = el.size();
            el.push_back(m);
        }
        for (Base::Face* f : L.mesh->getFacesList(IteratorType::GLOBAL)) {
            FaceModel m;
            m.f = f;
            m.left = el[where[f->getPtrElementLeft()]].total;
            m.right = f->isInternal() ? el[where[f->getPtrElementRight()]].total : 0;
            fa.push_back(m);
        }
    }

    void elementStep() {
        ElementModel& m = el[below(r, el.size())];
        Base::Element* e = m.e;
        const std::string k = "data:element";
        std::size_t u = below(r, unknowns), id = below(r, 4), lev = below(r, levels), tv = below(r, nIntegration);
        switch (below(r, 16)) {
            case 0: {
                MiddleSizeMatrix a = mat(r, below(r, 6), below(r, 6));
                m.matrix[id] = raw(a);
                e->setElementMatrix(a, id);
                break;
            }
            case 1: {
                if (!m.matrix.count(id) || m.matrix[id].x.empty()) return;
                Mat& a = m.matrix[id];
                std::size_t i = below(r, a.n), j = below(r, a.m);
                e->getElementMatrix(id)(i, j) = a(i, j) = value(r);
                break;
            }
            case 2: {
                MiddleSizeVector v = vec(r, below(r, 9));
                m.vector[id] = raw(v);
                e->setElementVector(v, id);
                break;
            }
            case 3: {
                MiddleSizeVector v = vec(r, m.total);
                m.level[lev] = raw(v);
                e->setTimeLevelDataVector(lev, v);
                break;
            }
            case 4: {
                // unknown by unknown
                std::vector<T> all(m.total);
                std::vector<std::size_t> order(unknowns);
                for (std::size_t i = 0; i < unknowns; ++i) order[i] = i;
                std::shuffle(order.begin(), order.end(), r);
                for (std::size_t w : order) {
                    MiddleSizeVector v = vec(r, m.n[w]);
                    e->setTimeLevelData(lev, w, v);
                    for (std::size_t i = 0; i < m.n[w]; ++i) all[m.start[w] + i] = v[i];
                }
                m.level[lev] = all;
                break;
            }
            case 5: {
                if (!m.level.count(lev)) return;
                MiddleSizeVector v = vec(r, m.n[u]);
                e->setTimeLevelData(lev, u, v);
                for (std::size_t i = 0; i < m.n[u]; ++i) m.level[lev][m.start[u] + i] = v[i];
                break;
            }
            case 6: {
                if (!m.level.count(lev) || !m.n[u]) return;
                std::size_t i = below(r, m.n[u]);
                T x = value(r);
                e->setData(lev, u, i, x);
                m.level[lev][m.start[u] + i] = x;
                break;
            }
            case 7: {
                if (!m.level.count(lev) || !m.total) return;
                std::size_t i = below(r, m.total);
                e->getTimeLevelDataVector(lev)[i] = m.level[lev][i] = value(r);
                break;
            }
            case 8: {
                MiddleSizeVector v = vec(r, m.total);
                m.integration[tv] = raw(v);
                e->setTimeIntegrationVector(tv, v);
                break;
            }
            case 9: {
                MiddleSizeVector v = vec(r, m.n[u]);
                e->setTimeIntegrationSubvector(tv, u, v);
                for (std::size_t i = 0; i < m.n[u]; ++i) m.integration[tv][m.start[u] + i] = v[i];
                break;
            }
            case 10: {
                if (!m.n[u]) return;
                std::size_t i = below(r, m.n[u]);
                T x = value(r);
                e->setTimeIntegrationData(tv, u, i, x);
                m.integration[tv][m.start[u] + i] = x;
                break;
            }
            case 11: {
                if (!m.total) return;
                std::size_t i = below(r, m.total);
                e->getTimeIntegrationVector(tv)[i] = m.integration[tv][i] = value(r);
                break;
            }
            case 12:
                users.emplace_back(new Base::UserData());
                m.user = below(r, 4) ? users.back().get() : nullptr;
                e->setUserData(m.user);
                break;
            case 13: {
                // more vectors; those that were there stay
                if (nIntegration > 6) return;
                ++nIntegration;
                for (auto& x : el) {
                    x.e->setNumberOfTimeIntegrationVectors(nIntegration);
                    MiddleSizeVector v = vec(r, x.total);
                    x.e->setTimeIntegrationVector(nIntegration - 1, v);
                    x.integration[nIntegration - 1] = raw(v);
                }
                expect(e->getNumberOfTimeIntegrationVectors() == nIntegration, k + ":number-of-vectors");
                break;
            }
            case 14: {
                std::unique_ptr<Base::Element> c(e->copyWithoutFacesEdgesNodes());
                ElementModel cm = m;
                cm.e = c.get();
                compareElement(cm, k + ":copy");
                // writing to the copy leaves the original alone
                MiddleSizeVector v = vec(r, m.total);
                c->setTimeIntegrationVector(tv, v);
                MiddleSizeMatrix a = mat(r, 2, 2);
                c->setElementMatrix(a, id);
                break;
            }
            default:
                if (unknowns == 1) {
                    MiddleSizeVector v = vec(r, m.total);
                    e->setTimeLevelData(lev, v);
                    m.level[lev] = raw(v);
                }
        }
        compareElement(m, k);
        count("element-writes");
        // narrow reads
        for (std::size_t w = 0; w < unknowns; ++w) {
            std::vector<T> part(m.integration[tv].begin() + m.start[w], m.integration[tv].begin() + m.start[w] + m.n[w]);
            expect(raw(static_cast<const Base::Element*>(e)->getTimeIntegrationSubvector(tv, w)) == part, k + ":subvector");
            for (std::size_t i = 0; i < m.n[w]; ++i) {
                expect(e->getTimeIntegrationData(tv, w, i) == part[i], k + ":time-integration-data");
                expect(e->convertToSingleIndex(i, w) == m.start[w] + i, k + ":single-index");
            }
            if (m.level.count(lev)) {
                std::vector<T> lp(m.level[lev].begin() + m.start[w], m.level[lev].begin() + m.start[w] + m.n[w]);
                expect(raw(e->getTimeLevelData(lev, w)) == lp, k + ":time-level-data");
                for (std::size_t i = 0; i < m.n[w]; ++i) expect(e->getData(lev, w, i) == lp[i], k + ":data");
            }
        }
        if (below(r, 4) == 0) solution(m, tv);
    }
    void solution(ElementModel& m, std::size_t tv) {
        int idx = L.indexOf.at(m.e);
        auto p = randomPoint<D>(idx);
        auto s = m.e->template getSolution<D>(tv, p);
        auto g = m.e->template getSolutionGradient<D>(tv, p);
        for (std::size_t u = 0; u < unknowns; ++u) {
            T want = 0;
            double scale = 1e-30;
            for (std::size_t i = 0; i < m.n[u]; ++i) {
                T x = m.integration[tv][m.start[u] + i];
                want += x * m.e->basisFunction(i, p, u);
                scale += std::abs(x);
            }
            near(std::abs(s[u] - want), 0., 1e-11 * scale * 10, "data:element:solution", "unknown ", u, " of ", unknowns);
            // J^T g is the reference gradient
            auto J = m.e->calcJacobian(p);
            double big = 0;
            LinearAlgebra::SmallVector<D> ref;
            for (std::size_t i = 0; i < m.n[u]; ++i) ref += std::real(m.integration[tv][m.start[u] + i]) * m.e->basisFunctionDeriv(i, p, u);
            for (std::size_t i = 0; i < D; ++i) {
                double back = 0;
                for (std::size_t j = 0; j < D; ++j) back += J(j, i) * g[u][j], big = std::max(big, std::abs(J(j, i) * g[u][j]));
                near(back, ref[i], 1e-9 * (scale + big) * 10, "data:element:solution-gradient", "unknown ", u);
            }
            count("solutions");
        }
    }
    template <std::size_t DD>
    Geometry::PointReference<DD> randomPoint(int idx) {
        return refPoint<DD>(pointIn(L.m.el[idx].shape));
    }
    V3 pointIn(MShape s) {
        std::vector<double> q = vf::randomPoint(typeOf(s), r);
        V3 x{0, 0, 0};
        for (std::size_t i = 0; i < q.size(); ++i) x[i] = q[i];
        return x;
    }

    void faceStep() {
        FaceModel& m = fa[below(r, fa.size())];
        Base::Face* f = m.f;
        const std::string k = "data:face";
        std::size_t id = below(r, 4), n = m.left + m.right;
        switch (below(r, 8)) {
            case 0: {
                Base::FaceMatrix a(m.left, m.right);
                MiddleSizeMatrix w = mat(r, n, n);
                if (n) a.setEntireMatrix(w);
                m.matrix[id] = raw(w);
                f->setFaceMatrix(a, id);
                break;
            }
            case 1: {
                Base::FaceMatrix a(m.left, m.right);
                Mat w{n, n, std::vector<T>(n * n)};
                for (Side s : {Side::LEFT, Side::RIGHT})
                    for (Side t : {Side::RIGHT, Side::LEFT}) {
                        std::size_t ns = s == Side::LEFT ? m.left : m.right, nt = t == Side::LEFT ? m.left : m.right;
                        MiddleSizeMatrix b = mat(r, ns, nt);
                        a.setElementMatrix(b, s, t);
                        for (std::size_t i = 0; i < ns; ++i)
                            for (std::size_t j = 0; j < nt; ++j) w(i + (s == Side::LEFT ? 0 : m.left), j + (t == Side::LEFT ? 0 : m.left)) = b(i, j);
                    }
                m.matrix[id] = w;
                f->setFaceMatrix(a, id);
                break;
            }
            case 2: {
                if (!m.matrix.count(id) || !n) return;
                Mat& w = m.matrix[id];
                std::size_t i = below(r, n), j = below(r, n);
                T x = value(r);
                w(i, j) = x;
                if (below(r, 2)) f->getFaceMatrix(id)(i, j) = x;
                else
                    f->getFaceMatrix(id)(i < m.left ? Side::LEFT : Side::RIGHT, j < m.left ? Side::LEFT : Side::RIGHT, i < m.left ? i : i - m.left, j < m.left ? j : j - m.left) = x;
                break;
            }
            case 3: {
                // arithmetic
                std::size_t other = below(r, 4);
                if (!m.matrix.count(id) || !m.matrix.count(other)) return;
                Base::FaceMatrix& a = f->getFaceMatrix(id);
                Base::FaceMatrix b = f->getFaceMatrix(other);
                Mat wb = m.matrix[other], wa = m.matrix[id];
                T c = value(r);
                int op = below(r, 3);
                if (op == 0) a += b;
                else if (op == 1) a *= c;
                else a.axpy(c, b);
                Mat got = raw(a.getEntireMatrix());
                expect(got.n == n && got.m == n, k + ":arithmetic-size");
                for (std::size_t i = 0; i < got.x.size(); ++i) {
                    T want = op == 0 ? wa.x[i] + wb.x[i] : op == 1 ? wa.x[i] * c : wa.x[i] + c * wb.x[i];
                    near(std::abs(got.x[i] - want), 0., 1e-14 * (std::abs(wa.x[i]) + std::abs(wb.x[i]) + std::abs(want)) * 4, k + ":arithmetic", op);
                }
                m.matrix[id] = got;
                break;
            }
            case 4: {
                MiddleSizeVector v = vec(r, below(r, 3) ? n : below(r, 7));
                m.vector[id] = raw(v);
                f->setFaceVector(v, id);
                break;
            }
            case 5: {
                MiddleSizeVector v = vec(r, n);
                m.residue = raw(v);
                m.hasResidue = true;
                f->setResidue(v);
                break;
            }
            case 6:
                users.emplace_back(new Base::UserData());
                m.user = below(r, 4) ? users.back().get() : nullptr;
                f->setUserData(m.user);
                break;
            default: indices(m);
        }
        compareFace(m, k);
        count("face-writes");
        // blocks
        if (m.matrix.count(id))
            for (Side s : {Side::LEFT, Side::RIGHT})
                for (Side t : {Side::LEFT, Side::RIGHT}) {
                    Mat b = raw(static_cast<const Base::Face*>(f)->getFaceMatrix(id).getElementMatrix(s, t));
                    bool ok = b.n == (s == Side::LEFT ? m.left : m.right) && b.m == (t == Side::LEFT ? m.left : m.right);
                    if (expect(ok, k + ":block-size"))
                        for (std::size_t i = 0; i < b.n; ++i)
                            for (std::size_t j = 0; j < b.m; ++j) expect(b(i, j) == m.matrix[id](i + (s == Side::LEFT ? 0 : m.left), j + (t == Side::LEFT ? 0 : m.left)), k + ":block");
                }
        // the coefficients seen from the face
        std::size_t tv = below(r, nIntegration);
        ElementModel& l = el[where[f->getPtrElementLeft()]];
        for (std::size_t u = 0; u < unknowns; ++u) {
            std::vector<T> want(l.integration[tv].begin() + l.start[u], l.integration[tv].begin() + l.start[u] + l.n[u]);
            if (f->isInternal()) {
                ElementModel& q = el[where[f->getPtrElementRight()]];
                want.insert(want.end(), q.integration[tv].begin() + q.start[u], q.integration[tv].begin() + q.start[u] + q.n[u]);
            }
            expect(f->getNumberOfBasisFunctions(u) == want.size(), k + ":number-of-functions");
            expect(raw(f->getTimeIntegrationVector(tv, u)) == want, k + ":time-integration", "unknown ", u);
        }
    }
    void indices(FaceModel& m) {
        std::size_t next = 0;
        for (Side s : {Side::LEFT, Side::RIGHT}) {
            if (s == Side::RIGHT && !m.f->isInternal()) break;
            ElementModel& x = el[where[s == Side::LEFT ? m.f->getPtrElementLeft() : m.f->getPtrElementRight()]];
            for (std::size_t u = 0; u < unknowns; ++u)
                for (std::size_t i = 0; i < x.n[u]; ++i, ++next) {
                    expect(m.f->convertToSingleIndex(s, i, u) == next, "data:face:single-index", "side ", int(s), " got ", m.f->convertToSingleIndex(s, i, u), " want ", next);
                    expect(m.f->getSide(next) == s, "data:face:side-of-index");
                    expect(m.f->getElementBasisFunctionId(next) == x.start[u] + i, "data:face:element-index");
                }
        }
        count("face-index-tables");
    }

    // the indexing helpers, kept and changed over the whole history
    Utilities::ElementLocalIndexing ei;
    Utilities::FaceLocalIndexing fi;
    std::vector<std::size_t> included;
    bool haveElement = false, haveFace = false;
    std::size_t curE = 0, curF = 0;
    void chooseUnknowns() {
        included.clear();
        for (std::size_t u = 0; u < unknowns; ++u)
            if (below(r, 2)) included.push_back(u);
        std::vector<std::size_t> given = included;
        std::shuffle(given.begin(), given.end(), r);
        int w = below(r, 4);
        if (w == 0) {
            curE = below(r, el.size());
            ei.reinit(el[curE].e, given);
            haveElement = true;
        } else
            ei.reinit(given);
        fi.reinit(given);
        expect(ei.getIncludedUnknowns() == included && fi.getIncludedUnknowns() == included, "data:indexing:included");
    }
    void indexingStep() {
        switch (below(r, 5)) {
            case 0: chooseUnknowns(); break;
            case 1:
                curE = below(r, el.size());
                haveElement = true;
                ei.reinit(el[curE].e);
                break;
            case 2:
                if (below(r, 3)) return;
                ei.reinit(static_cast<const Base::Element*>(nullptr));
                haveElement = false;
                break;
            default:
                curF = below(r, fa.size());
                haveFace = true;
                fi.reinit(fa[curF].f);
        }
        ei.validateInternalState();
        std::set<std::size_t> in(included.begin(), included.end());
        const std::size_t none = Utilities::ElementLocalIndexing::UNKNOWN_NOT_INCLUDED;
        std::string k = "data:indexing:element";
        std::size_t total = 0;
        for (std::size_t u = 0; u < unknowns + 2; ++u) {
            bool has = haveElement && in.count(u);
            std::size_t n = has ? el[curE].n[u] : 0;
            expect(ei.getDoFOffset(u) == (has ? total : none), k + ":offset", "unknown ", u);
            expect(ei.getNumberOfDoFs(u) == n, k + ":size", "unknown ", u);
            total += n;
        }
        expect(ei.getNumberOfDoFs() == total, k + ":total");
        expect(ei.getElement() == (haveElement ? el[curE].e : nullptr), k + ":element");
        count("indexing-steps");
        if (!haveFace) return;
        k = "data:indexing:face";
        FaceModel& f = fa[curF];
        std::size_t offset = 0, sides[2] = {0, 0};
        std::vector<std::vector<std::size_t>> mapping(unknowns + 2);
        for (int s = 0; s < (f.f->isInternal() ? 2 : 1); ++s) {
            ElementModel& x = el[where[s ? f.f->getPtrElementRight() : f.f->getPtrElementLeft()]];
            Side side = s ? Side::RIGHT : Side::LEFT;
            for (std::size_t u = 0; u < unknowns + 2; ++u) {
                std::size_t n = in.count(u) ? x.n[u] : 0;
                expect(fi.getDoFOffset(u, side) == (in.count(u) ? offset : none), k + ":offset", "side ", s, " unknown ", u, " included ", in.count(u));
                expect(fi.getNumberOfDoFs(u, side) == n, k + ":size");
                for (std::size_t i = 0; i < n; ++i) mapping[u].push_back(offset + i);
                offset += n;
                sides[s] += n;
            }
        }
        for (std::size_t u = 0; u < unknowns + 2; ++u) {
            std::vector<std::size_t> got(below(r, 5), 77);
            fi.getDoFMapping(u, got);
            expect(got == mapping[u], k + ":mapping", "unknown ", u);
        }
        expect(fi.getNumberOfDoFs() == offset, k + ":total");
        expect(fi.getNumberOfDoFs(Side::LEFT) == sides[0] && fi.getNumberOfDoFs(Side::RIGHT) == sides[1], k + ":side-total");
        expect(fi.getFace() == f.f, k + ":face");
    }
};

template <std::size_t D>
void runCase(const MMesh& model, Rng& r) {
    std::size_t unknowns = 1 + below(r, 4), levels = 1 + below(r, 3);
    Loaded<D> L(model, unknowns, levels, below(r, 3), below(r, 3), below(r, 3), below(r, 3));
    if (!L.match()) return;
    auto sh = model.shapes();
    int top = sh.count(PYR) ? 1 : sh.count(PRISM) ? 2 : 3;
    for (std::size_t u = 0; u < unknowns; ++u)
        if (below(r, 2)) u ? L.mesh->useDefaultDGBasisFunctions(below(r, 1 + top), u) : L.mesh->useDefaultDGBasisFunctions(below(r, 1 + top));
        else if (!u) L.mesh->useDefaultConformingBasisFunctions(1 + below(r, top));
        else L.mesh->useDefaultConformingBasisFunctions(1 + below(r, top), u);
    World<D> w{L, r, unknowns, levels, std::size_t(1 + below(r, 3))};
    w.start();
    w.chooseUnknowns();
    for (int s = 0; s < 200; ++s) {
        int k = below(r, 5);
        if (k < 2) w.elementStep();
        else if (k < 4) w.faceStep();
        else w.indexingStep();
        if (s % 40 == 39) w.compareAll("data:element:disturbed");
    }
}

int main(int argc, char** argv) {
    startHpgem(argc, argv);
    Rng r = rng("data" + arg("salt"));
    int total = std::stoi(arg("cases", st().thorough ? "4000" : "250"));
    for (int k = 0; k < total; ++k) {
        int dim = k % 5 < 1 ? 1 : k % 5 < 3 ? 2 : 3;
        ZooOptions o = randomOptions(dim, r, 0);
        MMesh m = makeMesh(o, r);
        Rng rc(r());
        begin(str("data case ", k, " ", m.name));
        distinct(m.name);
        guard("data", [&]() {
            if (dim == 1) runCase<1>(m, rc);
            else if (dim == 2) runCase<2>(m, rc);
            else runCase<3>(m, rc);
        });
    }
    return finish();
}
