// Independent model of meshes: built from lattices, knows its own topology and
// geometry, and can be written in hpGEM's mesh file format.
#ifndef VF_MESHMODEL_H
#define VF_MESHMODEL_H
#include "vf.h"
#include <algorithm>
#include <array>

namespace vf {

using V3 = std::array<double, 3>;
using Key = std::array<int, 3>;

enum MShape { LINE, TRI, QUAD, TET, PYR, PRISM, HEX };
struct ShapeInfo {
    const char* name;
    int dim, corners;
    std::vector<V3> pts;
    std::vector<std::vector<int>> faces, edges;
    double measure;
};
inline const ShapeInfo& shapeInfo(MShape s) {
    static const std::vector<ShapeInfo> T = {
        {"line", 1, 2, {{-1, 0, 0}, {1, 0, 0}}, {{0}, {1}}, {}, 2},
        {"triangle", 2, 3, {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}}, {{0, 1}, {0, 2}, {1, 2}}, {}, 0.5},
        {"square", 2, 4, {{-1, -1, 0}, {1, -1, 0}, {-1, 1, 0}, {1, 1, 0}},
         {{0, 1}, {0, 2}, {1, 3}, {2, 3}}, {}, 4},
        {"tetrahedron", 3, 4, {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}},
         {{0, 3, 2}, {0, 1, 3}, {0, 2, 1}, {1, 2, 3}},
         {{0, 1}, {0, 2}, {0, 3}, {2, 3}, {1, 3}, {1, 2}}, 1. / 6},
        {"pyramid", 3, 5, {{0, 0, 1}, {-1, -1, 0}, {1, -1, 0}, {-1, 1, 0}, {1, 1, 0}},
         {{3, 4, 1, 2}, {3, 1, 0}, {2, 4, 0}, {1, 2, 0}, {4, 3, 0}},
         {{0, 1}, {0, 2}, {0, 3}, {0, 4}, {1, 2}, {2, 4}, {4, 3}, {3, 1}}, 4. / 3},
        {"prism", 3, 6, {{0, 0, -1}, {1, 0, -1}, {0, 1, -1}, {0, 0, 1}, {1, 0, 1}, {0, 1, 1}},
         {{0, 2, 1}, {3, 4, 5}, {2, 0, 5, 3}, {0, 1, 3, 4}, {1, 2, 4, 5}},
         {{0, 1}, {0, 2}, {1, 2}, {3, 4}, {3, 5}, {4, 5}, {0, 3}, {1, 4}, {2, 5}}, 1},
        {"cube", 3, 8,
         {{-1, -1, -1}, {1, -1, -1}, {-1, 1, -1}, {1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {-1, 1, 1}, {1, 1, 1}},
         {{0, 1, 2, 3}, {0, 1, 4, 5}, {0, 2, 4, 6}, {1, 3, 5, 7}, {2, 3, 6, 7}, {4, 5, 6, 7}},
         {{0, 1}, {2, 3}, {4, 5}, {6, 7}, {0, 2}, {1, 3}, {4, 6}, {5, 7}, {0, 4}, {1, 5}, {2, 6}, {3, 7}}, 8}};
    return T[s];
}
// all renumberings of the corners that keep the shape's own edges
inline const std::vector<std::vector<int>>& automorphisms(MShape s) {
    static std::map<int, std::vector<std::vector<int>>> cache;
    auto it = cache.find(s);
    if (it != cache.end()) return it->second;
    const ShapeInfo& si = shapeInfo(s);
    std::set<std::pair<int, int>> adj;
    for (auto& e : si.dim == 3 ? si.edges : si.faces)
        if (e.size() == 2) adj.insert({e[0], e[1]}), adj.insert({e[1], e[0]});
    std::vector<std::vector<int>> r;
    std::vector<int> p;
    std::vector<bool> used(si.corners);
    std::function<void()> rec = [&]() {
        int k = p.size();
        if (k == si.corners) {
            r.push_back(p);
            return;
        }
        for (int c = 0; c < si.corners; ++c) {
            if (used[c]) continue;
            bool ok = true;
            for (int j = 0; j < k && ok; ++j)
                ok = (adj.count({j, k}) > 0) == (adj.count({p[j], c}) > 0);
            if (!ok) continue;
            used[c] = true;
            p.push_back(c);
            rec();
            p.pop_back();
            used[c] = false;
        }
    };
    rec();
    return cache[s] = r;
}
inline double det3(const V3& a, const V3& b, const V3& c) {
    return a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) +
           a[2] * (b[0] * c[1] - b[1] * c[0]);
}
inline V3 sub(const V3& a, const V3& b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
inline V3 add(const V3& a, const V3& b, double s = 1) {
    return {a[0] + s * b[0], a[1] + s * b[1], a[2] + s * b[2]};
}
inline double dist(const V3& a, const V3& b) {
    V3 d = sub(a, b);
    return std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]);
}

// multi-linear / Lagrange shape functions of the model: weights of the nodes
inline std::vector<double> cornerWeights(MShape s, const V3& x) {
    switch (s) {
        case LINE:
            return {(1 - x[0]) / 2, (1 + x[0]) / 2};
        case TRI:
            return {1 - x[0] - x[1], x[0], x[1]};
        case TET:
            return {1 - x[0] - x[1] - x[2], x[0], x[1], x[2]};
        case QUAD: {
            std::vector<double> w;
            for (int j = 0; j < 2; ++j)
                for (int i = 0; i < 2; ++i)
                    w.push_back((i ? 1 + x[0] : 1 - x[0]) * (j ? 1 + x[1] : 1 - x[1]) / 4);
            return w;
        }
        case HEX: {
            std::vector<double> w;
            for (int k = 0; k < 2; ++k)
                for (int j = 0; j < 2; ++j)
                    for (int i = 0; i < 2; ++i)
                        w.push_back((i ? 1 + x[0] : 1 - x[0]) * (j ? 1 + x[1] : 1 - x[1]) *
                                    (k ? 1 + x[2] : 1 - x[2]) / 8);
            return w;
        }
        case PRISM: {
            double b[3] = {1 - x[0] - x[1], x[0], x[1]};
            std::vector<double> w;
            for (int k = 0; k < 2; ++k)
                for (int i = 0; i < 3; ++i) w.push_back(b[i] * (k ? 1 + x[2] : 1 - x[2]) / 2);
            return w;
        }
        case PYR: {
            // rational: bilinear on the base, linear on the triangles
            double z = x[2], q = 1 - z;
            std::vector<double> w(5);
            w[0] = z;
            if (q < 1e-14) return w;
            for (int j = 0; j < 2; ++j)
                for (int i = 0; i < 2; ++i)
                    w[1 + i + 2 * j] = (i ? q + x[0] : q - x[0]) * (j ? q + x[1] : q - x[1]) / (4 * q);
            return w;
        }
    }
    return {};
}
// Lagrange points of curved simplices, x fastest
inline std::vector<Key> simplexLattice(int dim, int order) {
    std::vector<Key> r;
    if (dim == 1)
        for (int i = 0; i <= order; ++i) r.push_back({i, 0, 0});
    if (dim == 2)
        for (int j = 0; j <= order; ++j)
            for (int i = 0; i + j <= order; ++i) r.push_back({i, j, 0});
    if (dim == 3)
        for (int k = 0; k <= order; ++k)
            for (int j = 0; j + k <= order; ++j)
                for (int i = 0; i + j + k <= order; ++i) r.push_back({i, j, k});
    return r;
}
inline std::vector<double> lagrangeWeights(MShape s, int order, const V3& x) {
    int dim = shapeInfo(s).dim;
    std::vector<double> b;
    if (s == LINE)
        b = {(1 - x[0]) / 2, (1 + x[0]) / 2};
    else {
        b = {1, x[0], x[1]};
        if (dim == 3) b.push_back(x[2]);
        for (int i = 1; i <= dim; ++i) b[0] -= b[i];
    }
    auto one = [&](double l, int n) {  // prod_{m<n} (order*l - m)/(m+1)
        double r = 1;
        for (int m = 0; m < n; ++m) r *= (order * l - m) / (m + 1);
        return r;
    };
    std::vector<double> w;
    for (auto& k : simplexLattice(dim, order)) {
        double r = one(b[0], order - k[0] - k[1] - k[2]);
        for (int i = 0; i < dim; ++i) r *= one(b[i + 1], k[i]);
        w.push_back(r);
    }
    return w;
}

struct MElement {
    MShape shape;
    int order = 1;                 // geometric order (simplices only)
    std::vector<int> node, off;    // all geometry nodes, hpGEM local order
    std::vector<int> corner;       // local position of each corner in node
    int zone = 0, owner = 0;
    std::set<int> shadow;
    std::vector<Key> key;          // unwrapped lattice key per local node
};
struct MNode {
    std::vector<V3> x;
    std::vector<Key> key;
    std::set<int> parts;
    Key wrapped;
};
struct MEntity {
    std::vector<std::pair<int, int>> el;  // (element, local number)
    std::set<int> parts;
};
struct MMesh {
    int dim = 0;
    std::string name;
    std::vector<MNode> nodes;
    std::vector<MElement> el;
    std::vector<MEntity> faces, edges;
    std::vector<std::string> zones;
    int nParts = 1;
    Key n{1, 1, 1};
    std::array<bool, 3> periodic{false, false, false};
    std::array<V3, 3> A;  // columns: lattice unit vectors
    V3 origin;
    bool affineElements = false;
    bool holes = false;

    V3 coord(int e, int local) const { return nodes[el[e].node[local]].x[el[e].off[local]]; }
    V3 map(int e, const V3& x) const {
        const MElement& m = el[e];
        std::vector<double> w = m.order > 1 ? lagrangeWeights(m.shape, m.order, x) : cornerWeights(m.shape, x);
        V3 r{0, 0, 0};
        for (std::size_t i = 0; i < w.size(); ++i) r = add(r, coord(e, i), w[i]);
        return r;
    }
    double measure() const {
        double d = dim == 1 ? A[0][0] : dim == 2 ? A[0][0] * A[1][1] - A[0][1] * A[1][0] : det3(A[0], A[1], A[2]);
        for (int i = 0; i < dim; ++i) d *= n[i];
        return std::abs(d);
    }
    int curvedOrder() const {
        int o = 1;
        for (auto& e : el) o = std::max(o, e.order);
        return o;
    }
    std::set<MShape> shapes() const {
        std::set<MShape> s;
        for (auto& e : el) s.insert(e.shape);
        return s;
    }
    // corner node ids of a local face / edge
    std::vector<int> faceCorners(int e, int lf) const {
        std::vector<int> r;
        for (int c : shapeInfo(el[e].shape).faces[lf]) r.push_back(el[e].corner[c]);
        return r;
    }
};

struct ZooOptions {
    int dim = 2;
    Key n{3, 3, 3};
    std::array<bool, 3> periodic{false, false, false};
    int style = 0;       // dim2: 0 quad,1 tri,2 mixed ; dim3: 0 hex,1 Kuhn tets,2 prisms,3 random faces (all shapes), 4 centre split tets, 5 hex/prism columns, 6 tet/prism layers
    double perturb = 0.12;
    int order = 1;       // geometric order of simplices
    bool shear = true;   // random affine map
    bool renumber = true;
    bool reflectAllowed = false;  // local numberings with negative orientation
    bool quarterTurns = false;    // neighbours may see a shared quadrilateral turned by 90 degrees
    int zones = 1;
    int nParts = 1;
    int partStyle = 0;   // 0 random, 1 blobs, 2 slabs, 3 mostly one
    double holes = 0;    // fraction of cells removed
    bool shuffle = true;
    double scale = 1;
};

constexpr int MUL = 12;

inline void partition(MMesh& m, Rng& r, int nParts, int style) {
    m.nParts = nParts;
    int ne = m.el.size();
    std::vector<int> own(ne);
    std::vector<std::vector<int>> at(m.nodes.size());
    for (int e = 0; e < ne; ++e)
        for (int n : m.el[e].node) at[n].push_back(e);
    if (style == 0) {
        for (auto& o : own) o = below(r, nParts);
    } else if (style == 1) {
        std::fill(own.begin(), own.end(), -1);
        std::vector<std::vector<int>> front(nParts);
        for (int p = 0; p < nParts; ++p) {
            int e = below(r, ne);
            if (own[e] < 0) own[e] = p, front[p].push_back(e);
        }
        bool go = true;
        while (go) {
            go = false;
            for (int p = 0; p < nParts; ++p) {
                if (front[p].empty()) continue;
                std::size_t k = below(r, front[p].size());
                int e = front[p][k];
                bool grew = false;
                for (int n : m.el[e].node)
                    for (int f : at[n])
                        if (!grew && own[f] < 0) own[f] = p, front[p].push_back(f), grew = true;
                if (!grew) front[p][k] = front[p].back(), front[p].pop_back();
                go = true;
            }
        }
        for (auto& o : own)
            if (o < 0) o = below(r, nParts);
    } else if (style == 2) {
        for (int e = 0; e < ne; ++e) {
            double c = 0;
            for (auto& k : m.el[e].key) c += k[0];
            c /= m.el[e].key.size() * MUL * m.n[0];
            own[e] = std::min(nParts - 1, std::max(0, (int)(c * nParts)));
        }
    } else {
        int main = below(r, nParts);
        for (auto& o : own) o = uni(r) < 0.85 ? main : (int)below(r, nParts);
    }
    for (int e = 0; e < ne; ++e) m.el[e].owner = own[e];
    std::vector<std::set<int>> near(ne);
    for (int e = 0; e < ne; ++e)
        for (int n : m.el[e].node)
            for (int f : at[n]) near[e].insert(own[f]);
    for (int e = 0; e < ne; ++e) {
        m.el[e].shadow = near[e];
        m.el[e].shadow.erase(own[e]);
    }
    for (std::size_t n = 0; n < m.nodes.size(); ++n) {
        m.nodes[n].parts.clear();
        for (int e : at[n]) m.nodes[n].parts.insert(near[e].begin(), near[e].end());
    }
    for (auto* l : {&m.faces, &m.edges})
        for (auto& f : *l) {
            f.parts.clear();
            for (auto& p : f.el) f.parts.insert(near[p.first].begin(), near[p.first].end());
        }
}

struct RawCell {
    MShape s;
    std::vector<Key> k;
};

inline void cellElements(const ZooOptions& o, const Key& c, Rng& r, const std::function<bool(int, Key)>& split,
                         std::vector<RawCell>& out) {
    auto P = [&](int i, int j, int k) { return Key{(c[0] + i) * MUL, (c[1] + j) * MUL, (c[2] + k) * MUL}; };
    if (o.dim == 1) {
        out.push_back({LINE, {{c[0] * MUL, 0, 0}, {(c[0] + 1) * MUL, 0, 0}}});
        return;
    }
    if (o.dim == 2) {
        auto Q = [&](int i, int j) { return Key{(c[0] + i) * MUL, (c[1] + j) * MUL, 0}; };
        bool tri = o.style == 1 || (o.style == 2 && below(r, 2));
        if (!tri) {
            out.push_back({QUAD, {Q(0, 0), Q(1, 0), Q(0, 1), Q(1, 1)}});
            return;
        }
        int kind = below(r, 3);
        if (kind == 0) {
            out.push_back({TRI, {Q(0, 0), Q(1, 0), Q(1, 1)}});
            out.push_back({TRI, {Q(0, 0), Q(1, 1), Q(0, 1)}});
        } else if (kind == 1) {
            out.push_back({TRI, {Q(0, 0), Q(1, 0), Q(0, 1)}});
            out.push_back({TRI, {Q(1, 0), Q(1, 1), Q(0, 1)}});
        } else {
            Key m{c[0] * MUL + MUL / 2, c[1] * MUL + MUL / 2, 0};
            out.push_back({TRI, {Q(0, 0), Q(1, 0), m}});
            out.push_back({TRI, {Q(1, 0), Q(1, 1), m}});
            out.push_back({TRI, {Q(1, 1), Q(0, 1), m}});
            out.push_back({TRI, {Q(0, 1), Q(0, 0), m}});
        }
        return;
    }
    bool sp[3][2];
    int cnt = 0;
    for (int d = 0; d < 3; ++d)
        for (int s = 0; s < 2; ++s) {
            Key f = c;
            f[d] += s;
            sp[d][s] = split(d, f);
            cnt += sp[d][s];
        }
    auto corner = [&](int b) { return P(b & 1, (b >> 1) & 1, (b >> 2) & 1); };
    if (cnt == 0 && o.style != 4) {
        RawCell h{HEX, {}};
        for (int b = 0; b < 8; ++b) h.k.push_back(corner(b));
        out.push_back(h);
        return;
    }
    if (cnt == 6 && o.style != 4) {
        int perm[3] = {0, 1, 2};
        do {
            int a = 1 << perm[0], b = a | (1 << perm[1]);
            out.push_back({TET, {corner(0), corner(a), corner(b), corner(7)}});
        } while (std::next_permutation(perm, perm + 3));
        return;
    }
    for (int d = 0; d < 3; ++d)
        if (cnt == 2 && sp[d][0] && sp[d][1]) {
            int u = 1 << ((d + 1) % 3), v = 1 << ((d + 2) % 3), w = 1 << d;
            out.push_back({PRISM, {corner(0), corner(u), corner(u | v), corner(w), corner(u | w), corner(u | v | w)}});
            out.push_back({PRISM, {corner(0), corner(u | v), corner(v), corner(w), corner(u | v | w), corner(v | w)}});
            return;
        }
    Key m{c[0] * MUL + MUL / 2, c[1] * MUL + MUL / 2, c[2] * MUL + MUL / 2};
    for (int d = 0; d < 3; ++d)
        for (int s = 0; s < 2; ++s) {
            int u = 1 << ((d + 1) % 3), v = 1 << ((d + 2) % 3), w = s << d;
            if (sp[d][s]) {
                out.push_back({TET, {corner(w), corner(w | u), corner(w | u | v), m}});
                out.push_back({TET, {corner(w), corner(w | u | v), corner(w | v), m}});
            } else {
                out.push_back({PYR, {m, corner(w), corner(w | u), corner(w | v), corner(w | u | v)}});
            }
        }
}

inline MMesh makeMesh(const ZooOptions& o, Rng& r) {
    MMesh m;
    m.dim = o.dim;
    m.n = o.n;
    for (int d = o.dim; d < 3; ++d) m.n[d] = 1;
    m.periodic = o.periodic;
    for (int d = o.dim; d < 3; ++d) m.periodic[d] = false;
    m.origin = {0, 0, 0};
    for (int i = 0; i < 3; ++i) {
        m.A[i] = {0, 0, 0};
        m.A[i][i] = o.scale;
    }
    if (o.shear) {
        for (int i = 0; i < o.dim; ++i) {
            m.origin[i] = uni(r, -2, 2) * o.scale;
            for (int j = 0; j < o.dim; ++j)
                m.A[i][j] = o.scale * (i == j ? uni(r, 0.6, 1.5) : uni(r, -0.25, 0.25));
        }
    }
    double det = o.dim == 1 ? m.A[0][0] : o.dim == 2 ? m.A[0][0] * m.A[1][1] - m.A[0][1] * m.A[1][0] : det3(m.A[0], m.A[1], m.A[2]);
    (void)det;
    // split decisions on lattice faces (periodic copies share the decision)
    std::map<std::array<int, 4>, bool> dec;
    auto split = [&](int d, Key f) -> bool {
        if (o.style == 0) return false;
        if (o.style == 1) return true;
        if (o.style == 2) return d == 2;
        if (m.periodic[d]) f[d] %= m.n[d];
        std::array<int, 4> k{d, f[0], f[1], f[2]};
        if (o.style == 5 || o.style == 6) {
            // 5: columns of hexahedra or prisms, 6: layers of tetrahedra or prisms
            if ((d == 2) != (o.style == 5)) return o.style == 6;
            if (o.style == 5) k[3] = 0;
            else k[0] = k[1] = k[2] = 0;
        }
        auto it = dec.find(k);
        if (it == dec.end()) it = dec.insert({k, o.style == 4 || below(r, 2)}).first;
        return it->second;
    };
    std::vector<RawCell> raw;
    std::size_t total = 0, removed = 0;
    for (int k = 0; k < m.n[2]; ++k)
        for (int j = 0; j < m.n[1]; ++j)
            for (int i = 0; i < m.n[0]; ++i) {
                ++total;
                if (o.holes > 0 && uni(r) < o.holes && removed + 2 < total) {
                    ++removed;
                    continue;
                }
                cellElements(o, {i, j, k}, r, split, raw);
            }
    m.holes = removed > 0;
    if (o.shuffle) shuffle(raw, r);
    auto wrap = [&](Key k) {
        for (int d = 0; d < m.dim; ++d)
            if (m.periodic[d]) k[d] = ((k[d] % (MUL * m.n[d])) + MUL * m.n[d]) % (MUL * m.n[d]);
        return k;
    };
    std::map<Key, V3> pert;
    std::map<Key, int> nodeOf;
    auto shift = [&](const Key& wk, bool lattice) -> V3 {
        auto it = pert.find(wk);
        if (it != pert.end()) return it->second;
        V3 p{0, 0, 0};
        double amp = o.perturb * (lattice ? 1 : 0.35);
        for (int d = 0; d < m.dim; ++d) {
            double u = uni(r, -amp, amp);
            bool edge = !m.periodic[d] && (wk[d] == 0 || wk[d] == MUL * m.n[d]);
            if (!edge) p[d] = u;
        }
        return pert[wk] = p;
    };
    auto position = [&](const Key& k) -> V3 {
        Key w = wrap(k);
        bool lat = k[0] % MUL == 0 && k[1] % MUL == 0 && k[2] % MUL == 0;
        V3 p = shift(w, lat);
        V3 x = m.origin;
        for (int d = 0; d < m.dim; ++d) {
            double t = k[d] / double(MUL) + p[d];
            x = add(x, m.A[d], t);
        }
        return x;
    };
    // faces and edges by the lattice position modulo the period
    auto ordered = [&](std::vector<Key> ks) {
        std::array<long, 3> c{0, 0, 0};
        for (auto& k : ks)
            for (int d = 0; d < 3; ++d) c[d] += k[d];
        for (int d = 0; d < m.dim; ++d)
            if (m.periodic[d]) {
                long per = (long)MUL * m.n[d] * (long)ks.size();
                long q = c[d] / per;
                if (c[d] < 0 && c[d] % per) --q;
                for (auto& k : ks) k[d] -= q * MUL * m.n[d];
            }
        return ks;
    };
    auto entity = [&](std::vector<Key> ks) {
        ks = ordered(ks);
        std::sort(ks.begin(), ks.end());
        return ks;
    };
    auto orient = [&](MShape shape, const std::vector<Key>& q) {
        // sign of the orientation of the unperturbed cell
        auto x = [&](int i) { return V3{q[i][0] * 1., q[i][1] * 1., q[i][2] * 1.}; };
        double s = 0;
        switch (shape) {
            case LINE: s = q[1][0] - q[0][0]; break;
            case TRI:
            case QUAD: {
                V3 a = sub(x(1), x(0)), b = sub(x(2), x(0));
                s = a[0] * b[1] - a[1] * b[0];
                break;
            }
            case TET:
            case PRISM: s = det3(sub(x(1), x(0)), sub(x(2), x(0)), sub(x(3), x(0))); break;
            case HEX: s = det3(sub(x(1), x(0)), sub(x(2), x(0)), sub(x(4), x(0))); break;
            case PYR: s = det3(sub(x(2), x(1)), sub(x(3), x(1)), sub(x(0), x(1))); break;
        }
        double dd = m.dim == 1 ? m.A[0][0] : m.dim == 2 ? m.A[0][0] * m.A[1][1] - m.A[0][1] * m.A[1][0] : det3(m.A[0], m.A[1], m.A[2]);
        return s * dd;
    };
    // local numbering of every cell
    std::vector<int> perm(raw.size(), 0);
    {
        using FaceTable = std::map<std::vector<Key>, std::map<int, std::vector<Key>>>;
        FaceTable T;
        auto quads = [&](int i, int p) {
            std::vector<std::vector<Key>> res;
            const auto& au = automorphisms(raw[i].s)[p];
            for (auto& f : shapeInfo(raw[i].s).faces)
                if (f.size() == 4 && m.dim == 3) {
                    std::vector<Key> k;
                    for (int c : f) k.push_back(raw[i].k[au[c]]);
                    res.push_back(ordered(k));
                }
            return res;
        };
        auto turned = [](const std::vector<Key>& a, const std::vector<Key>& b) {
            return (a[0] == b[1] && a[1] == b[3]) || (a[0] == b[2] && a[1] == b[0]);
        };
        auto conflicts = [&](int i, int p) {
            int c = 0;
            if (!o.quarterTurns)
                for (auto& q : quads(i, p))
                    for (auto& other : T[entity(q)])
                        if (other.first != i && turned(q, other.second)) ++c;
            return c;
        };
        auto pick = [&](int i) {
            const auto& au = automorphisms(raw[i].s);
            int best = -1, bestC = 1 << 30;
            for (int tries = 0; tries < 4000; ++tries) {
                int p = (o.renumber || tries > 0) ? below(r, au.size()) : 0;
                std::vector<Key> q(raw[i].k.size());
                for (std::size_t j = 0; j < q.size(); ++j) q[j] = raw[i].k[au[p][j]];
                if (!o.reflectAllowed && orient(raw[i].s, q) <= 0) continue;
                int c = conflicts(i, p);
                if (c < bestC) best = p, bestC = c;
                if (bestC == 0 || tries > 150) break;
            }
            perm[i] = best < 0 ? 0 : best;
            for (auto& q : quads(i, perm[i])) T[entity(q)][i] = q;
        };
        for (std::size_t i = 0; i < raw.size(); ++i) pick(i);
        bool clean = o.quarterTurns;
        for (int sweep = 0; sweep < 60 && !clean; ++sweep) {
            clean = true;
            for (std::size_t i = 0; i < raw.size(); ++i)
                if (conflicts(i, perm[i])) clean = false, pick(i);
        }
        if (!clean) throw std::runtime_error("meshmodel: no numbering without quarter turns found");
    }
    // node ids in random order: first collect all keys
    std::vector<Key> wkeys;
    std::vector<MElement> els;
    for (auto& c : raw) {
        MElement e;
        e.shape = c.s;
        const ShapeInfo& si = shapeInfo(c.s);
        std::vector<Key> ck = c.k;
        {
            const auto& p = automorphisms(c.s)[perm[&c - raw.data()]];
            std::vector<Key> q(ck.size());
            for (std::size_t i = 0; i < q.size(); ++i) q[i] = ck[p[i]];
            ck = q;
        }
        e.order = (c.s == LINE || c.s == TRI || c.s == TET) ? o.order : 1;
        if (e.order > 1) {
            auto lat = simplexLattice(si.dim, e.order);
            for (auto& l : lat) {
                Key k{0, 0, 0};
                int b0 = e.order - l[0] - l[1] - l[2];
                for (int d = 0; d < 3; ++d) {
                    int v = b0 * ck[0][d];
                    for (int i = 0; i < si.dim; ++i) v += l[i] * ck[i + 1][d];
                    k[d] = v / e.order;
                }
                e.key.push_back(k);
            }
            for (int i = 0; i < si.corners; ++i)
                e.corner.push_back(std::find(e.key.begin(), e.key.end(), ck[i]) - e.key.begin());
        } else {
            e.key = ck;
            for (int i = 0; i < si.corners; ++i) e.corner.push_back(i);
        }
        for (auto& k : e.key) {
            Key w = wrap(k);
            if (nodeOf.insert({w, 0}).second) wkeys.push_back(w);
        }
        e.zone = below(r, o.zones);
        els.push_back(e);
    }
    if (o.shuffle) shuffle(wkeys, r);
    for (std::size_t i = 0; i < wkeys.size(); ++i) nodeOf[wkeys[i]] = i;
    m.nodes.resize(wkeys.size());
    for (std::size_t i = 0; i < wkeys.size(); ++i) m.nodes[i].wrapped = wkeys[i];
    for (auto& e : els)
        for (auto& k : e.key) {
            int id = nodeOf[wrap(k)];
            e.node.push_back(id);
            auto& nk = m.nodes[id].key;
            std::size_t off = std::find(nk.begin(), nk.end(), k) - nk.begin();
            if (off == nk.size()) {
                nk.push_back(k);
                m.nodes[id].x.push_back(position(k));
            }
            e.off.push_back(off);
        }
    m.el = els;
    std::map<std::vector<Key>, std::vector<std::pair<int, int>>> F, E;
    for (std::size_t e = 0; e < m.el.size(); ++e) {
        const ShapeInfo& si = shapeInfo(m.el[e].shape);
        for (std::size_t f = 0; f < si.faces.size(); ++f) {
            std::vector<Key> k;
            for (int c : si.faces[f]) k.push_back(m.el[e].key[m.el[e].corner[c]]);
            F[entity(k)].push_back({(int)e, (int)f});
        }
        for (std::size_t f = 0; f < si.edges.size(); ++f) {
            std::vector<Key> k;
            for (int c : si.edges[f]) k.push_back(m.el[e].key[m.el[e].corner[c]]);
            E[entity(k)].push_back({(int)e, (int)f});
        }
    }
    for (auto& f : F) {
        MEntity q;
        q.el = f.second;
        if (q.el.size() > 2) throw std::runtime_error("meshmodel: face with more than two elements");
        if (o.shuffle) shuffle(q.el, r);
        m.faces.push_back(q);
    }
    if (m.dim == 3)
        for (auto& f : E) {
            MEntity q;
            q.el = f.second;
            if (o.shuffle) shuffle(q.el, r);
            m.edges.push_back(q);
        }
    if (o.shuffle) {
        shuffle(m.faces, r);
        shuffle(m.edges, r);
    }
    m.zones.clear();
    for (int z = 0; z < o.zones; ++z) m.zones.push_back(z == 0 && o.zones == 1 ? "Main" : "zone " + std::to_string(z) + (z % 2 ? " of mesh" : ""));
    partition(m, r, o.nParts, o.partStyle);
    m.affineElements = true;
    if (o.perturb > 0) {
        for (auto& e : m.el)
            if (e.order > 1 || (e.shape != LINE && e.shape != TRI && e.shape != TET)) m.affineElements = false;
    }
    static const char* st3[] = {"hex", "kuhn", "prism", "mixed", "centre", "columns", "layers"};
    static const char* st2[] = {"quad", "tri", "mixed"};
    m.name = str(o.dim, "D ", o.dim == 1 ? "line" : o.dim == 2 ? st2[o.style] : st3[o.style], " n=", m.n[0], "x", m.n[1], "x", m.n[2],
                 " per=", m.periodic[0], m.periodic[1], m.periodic[2], " order=", o.order, " pert=", o.perturb,
                 " parts=", o.nParts, "/", o.partStyle, " zones=", o.zones, " holes=", removed, " refl=", o.reflectAllowed);
    return m;
}

inline void writeMesh(const MMesh& m, const std::string& file, int version = 2, bool hex = true) {
    FILE* f = fopen(file.c_str(), "w");
    if (!f) throw std::runtime_error("cannot write " + file);
    fprintf(f, "mesh %d\n%zu %zu %d", version, m.nodes.size(), m.el.size(), m.dim);
    if (m.dim > 1) fprintf(f, " %zu", m.faces.size());
    if (m.dim > 2) fprintf(f, " %zu", m.edges.size());
    fprintf(f, "\n%d ", m.nParts);
    for (int p = 0; p < m.nParts; ++p) {
        int c = 0;
        for (auto& n : m.nodes) c += n.parts.count(p);
        fprintf(f, "%d ", c);
    }
    fprintf(f, "\n");
    if (version > 1) {
        fprintf(f, "zones\n%zu\n", m.zones.size());
        for (auto& z : m.zones) fprintf(f, "%s\n", z.c_str());
        fprintf(f, "nodes\n");
    }
    for (auto& n : m.nodes) {
        fprintf(f, "%zu ", n.parts.size());
        for (int p : n.parts) fprintf(f, "%d ", p);
        fprintf(f, "\n%zu ", n.x.size());
        for (auto& x : n.x)
            for (int d = 0; d < m.dim; ++d) fprintf(f, hex ? "%a " : "%.17g ", x[d]);
        fprintf(f, "\n");
    }
    if (version > 1) fprintf(f, "elements\n");
    for (auto& e : m.el) {
        fprintf(f, "%zu ", e.node.size());
        for (std::size_t i = 0; i < e.node.size(); ++i) fprintf(f, "%d %d ", e.node[i], e.off[i]);
        fprintf(f, "%d %zu ", e.owner, e.shadow.size());
        for (int p : e.shadow) fprintf(f, "%d ", p);
        fprintf(f, "\n");
        if (version > 1) fprintf(f, "%d\n", e.zone);
    }
    auto ents = [&](const std::vector<MEntity>& l) {
        for (auto& q : l) {
            fprintf(f, "%zu ", q.el.size());
            for (auto& p : q.el) fprintf(f, "%d %d ", p.first, p.second);
            fprintf(f, "%zu ", q.parts.size());
            for (int p : q.parts) fprintf(f, "%d ", p);
            fprintf(f, "\n");
        }
    };
    if (m.dim > 1) {
        if (version > 1) fprintf(f, "codim1\n");
        ents(m.faces);
    }
    if (m.dim > 2) {
        if (version > 1) fprintf(f, "codim2\n");
        ents(m.edges);
    }
    fclose(f);
}

// a broad, seeded stream of mesh descriptions
inline ZooOptions randomOptions(int dim, Rng& r, int size = 0) {
    ZooOptions o;
    o.dim = dim;
    int hi = dim == 1 ? 9 : dim == 2 ? 4 + size : 2 + size;
    for (int d = 0; d < 3; ++d) {
        o.periodic[d] = d < dim && below(r, 3) == 0;
        o.n[d] = 1 + below(r, hi);
        if (o.periodic[d]) o.n[d] = std::max(2, o.n[d]);
    }
    o.style = dim == 2 ? below(r, 3) : dim == 3 ? below(r, 5) : 0;
    if (dim == 3) {
        static const int w[] = {0, 1, 2, 3, 3, 3, 4, 1, 5, 6};
        o.style = w[below(r, 10)];
    }
    o.perturb = below(r, 4) == 0 ? 0 : 0.12;
    o.zones = 1 + below(r, 3);
    if ((dim == 2 && o.style == 1) || (dim == 3 && (o.style == 1 || o.style == 4)) || dim == 1)
        if (dim > 1 && below(r, 3) == 0) o.order = 2;
    if (below(r, 4) == 0 && dim > 1) o.holes = 0.2;
    return o;
}
}  // namespace vf
#endif
