// The preprocessor as a whole (its real main, one process per mesh): structured
// generation (P02) and import of gmsh and native meshes (P03). The mesh file it
// writes is parsed here and compared with the mesh that was described.
#include "vf.h"
#include "meshmodel.h"
#include <mpi.h>
#include <csignal>
#include <sys/wait.h>
#define main preprocessor_main
#include "main.cpp"
#undef main
using namespace vf;

// ---------------------------------------------------------------- the written file
struct FNode { std::set<int> parts; std::vector<V3> x; };
struct FElement { std::vector<int> node, off; int owner = 0, zone = 0; std::set<int> shadow; };
struct FEntity { std::vector<std::pair<int, int>> el; std::set<int> parts; };
struct FMesh {
    int dim = 0, nParts = 0;
    std::vector<long> partCount;
    std::vector<std::string> zones;
    std::vector<FNode> nodes;
    std::vector<FElement> el;
    std::vector<std::vector<FEntity>> ent;  // codimension 1, 2
};
static void need(bool b, const std::string& m) {
    if (!b) throw std::runtime_error(m);
}
static FMesh parseFile(const std::string& name) {
    std::ifstream in(name);
    need((bool)in, "no file was written");
    FMesh f;
    std::string w;
    auto word = [&](const std::string& want) {
        need((bool)(in >> w) && w == want, "'" + want + "' expected, found '" + w + "'");
    };
    auto integer = [&]() {
        need((bool)(in >> w), "file ends early");
        char* e;
        long v = strtol(w.c_str(), &e, 10);
        need(!*e && v >= 0, "'" + w + "' is not a count");
        return v;
    };
    auto real = [&]() {
        need((bool)(in >> w), "file ends early");
        char* e;
        double v = strtod(w.c_str(), &e);
        need(!*e, "'" + w + "' is not a number");
        return v;
    };
    auto set = [&](std::set<int>& s) {
        long n = integer();
        for (long i = 0; i < n; ++i) need(s.insert(integer()).second, "partition listed twice");
    };
    word("mesh");
    need(integer() == 2, "version is not 2");
    long nn = integer(), ne = integer();
    f.dim = integer();
    need(f.dim >= 1 && f.dim <= 3, "dimension");
    std::vector<long> counts;
    for (int d = 1; d < f.dim; ++d) counts.push_back(integer());
    f.nParts = integer();
    for (int p = 0; p < f.nParts; ++p) f.partCount.push_back(integer());
    word("zones");
    long nz = integer();
    std::getline(in, w);
    for (long z = 0; z < nz; ++z) {
        need((bool)std::getline(in, w), "zone names");
        f.zones.push_back(w);
    }
    word("nodes");
    f.nodes.resize(nn);
    for (auto& n : f.nodes) {
        set(n.parts);
        n.x.assign(integer(), V3{0, 0, 0});
        for (auto& x : n.x)
            for (int d = 0; d < f.dim; ++d) x[d] = real();
    }
    word("elements");
    f.el.resize(ne);
    for (auto& e : f.el) {
        long n = integer();
        for (long i = 0; i < n; ++i) {
            e.node.push_back(integer());
            e.off.push_back(integer());
            need(e.node.back() < nn && e.off.back() < (int)f.nodes[e.node.back()].x.size(), "element refers to an unknown coordinate");
        }
        e.owner = integer();
        set(e.shadow);
        e.zone = integer();
        need(e.zone < nz, "unknown zone");
    }
    for (int c = 1; c < f.dim; ++c) {
        word("codim" + std::to_string(c));
        f.ent.emplace_back(counts[c - 1]);
        for (auto& q : f.ent.back()) {
            long n = integer();
            for (long i = 0; i < n; ++i) {
                long e = integer(), l = integer();
                need(e < ne, "unknown element in an entity");
                q.el.push_back({e, l});
            }
            set(q.parts);
        }
    }
    need(!(in >> w), "trailing '" + w + "'");
    return f;
}

// ---------------------------------------------------------------- what it should hold
struct WElement {
    MShape shape;
    int order = 1;
    std::vector<int> pt, corner;  // points per geometry node, corner positions
    std::string zone;
};
using Canon = std::vector<std::pair<int, std::vector<int>>>;  // (element, corner points), sorted
struct Want {
    int dim;
    std::vector<V3> pts;
    std::vector<int> nodeOf;                 // node of each point
    std::vector<WElement> el;
    std::vector<std::set<Canon>> ent;        // codimension 1, 2
};
static std::vector<int> cornersOf(const WElement& e, const std::vector<int>& local) {
    std::vector<int> r;
    for (int c : local) r.push_back(e.pt[e.corner[c]]);
    std::sort(r.begin(), r.end());
    return r;
}
static std::vector<int> cornerPositions(MShape s, int order) {
    std::vector<int> r;
    const ShapeInfo& si = shapeInfo(s);
    if (order == 1) {
        for (int i = 0; i < si.corners; ++i) r.push_back(i);
        return r;
    }
    auto lat = simplexLattice(si.dim, order);
    for (int i = 0; i < si.corners; ++i) {
        Key k{0, 0, 0};
        if (i > 0) k[i - 1] = order;
        r.push_back(std::find(lat.begin(), lat.end(), k) - lat.begin());
    }
    return r;
}
static Want wantOf(const MMesh& m) {
    Want w;
    w.dim = m.dim;
    std::vector<int> first;
    for (std::size_t n = 0; n < m.nodes.size(); ++n) {
        first.push_back(w.pts.size());
        for (auto& x : m.nodes[n].x) w.pts.push_back(x), w.nodeOf.push_back(n);
    }
    for (auto& e : m.el) {
        WElement q;
        q.shape = e.shape;
        q.order = e.order;
        q.corner = e.corner;
        q.zone = m.zones[e.zone];
        for (std::size_t i = 0; i < e.node.size(); ++i) q.pt.push_back(first[e.node[i]] + e.off[i]);
        w.el.push_back(q);
    }
    w.ent.resize(m.dim - 1);
    auto canon = [&](const std::vector<MEntity>& l, int codim) {
        for (auto& f : l) {
            Canon c;
            for (auto& p : f.el) {
                const ShapeInfo& si = shapeInfo(w.el[p.first].shape);
                c.push_back({p.first, cornersOf(w.el[p.first], (codim == 1 ? si.faces : si.edges)[p.second])});
            }
            std::sort(c.begin(), c.end());
            w.ent[codim - 1].insert(c);
        }
    };
    if (m.dim > 1) canon(m.faces, 1);
    if (m.dim > 2) canon(m.edges, 2);
    return w;
}
static bool shapeOf(int dim, int n, MShape& s, int& order) {
    order = 1;
    if (dim == 1 && n == 2) return s = LINE, true;
    if (dim == 2) {
        if (n == 3) return s = TRI, true;
        if (n == 4) return s = QUAD, true;
        if (n == 6) return s = TRI, order = 2, true;
    }
    if (dim == 3) {
        if (n == 4) return s = TET, true;
        if (n == 5) return s = PYR, true;
        if (n == 6) return s = PRISM, true;
        if (n == 8) return s = HEX, true;
        if (n == 10) return s = TET, order = 2, true;
    }
    return false;
}

// Compares a written mesh with what it should hold. tol 0: coordinates exactly.
static void compare(const FMesh& f, const Want& w, int nParts, double tol, const std::string& key) {
    std::string P = key + ":";
    if (!expect(f.dim == w.dim, P + "dimension", f.dim)) return;
    std::map<V3, int> exact;
    for (std::size_t i = 0; i < w.pts.size(); ++i) exact[w.pts[i]] = i;
    auto find = [&](const V3& x) -> int {
        if (tol == 0) {
            auto it = exact.find(x);
            return it == exact.end() ? -1 : it->second;
        }
        for (std::size_t i = 0; i < w.pts.size(); ++i)
            if (dist(x, w.pts[i]) <= tol) return i;
        return -1;
    };
    // nodes: every point once, grouped as the periodicity says
    std::map<int, std::set<int>> wantNode;
    for (std::size_t i = 0; i < w.pts.size(); ++i) wantNode[w.nodeOf[i]].insert(i);
    std::vector<std::vector<int>> pt(f.nodes.size());
    std::vector<int> nodeOfF(f.nodes.size(), -1);
    std::set<int> seenNodes;
    for (std::size_t n = 0; n < f.nodes.size(); ++n) {
        std::set<int> s;
        for (auto& x : f.nodes[n].x) {
            int p = find(x);
            expect(p >= 0, P + "coordinate", "node ", n, " has coordinate ", x[0], " ", x[1], " ", x[2], " which is not in the input");
            if (p < 0) return;
            expect(s.insert(p).second, P + "coordinate-twice", "node ", n);
            pt[n].push_back(p);
        }
        if (s.empty()) {
            count("unused-nodes");
            expect(f.nodes[n].parts.empty(), P + "unused-node-has-partitions", "node ", n);
            continue;
        }
        int want = w.nodeOf[*s.begin()];
        expect(s == wantNode[want], P + "node-coordinates", "node ", n, " has ", s.size(), " of ", wantNode[want].size(), " coordinates");
        expect(seenNodes.insert(want).second, P + "node-twice", "node ", n);
        nodeOfF[n] = want;
    }
    expect(seenNodes.size() == wantNode.size(), P + "node-count", seenNodes.size(), " want ", wantNode.size());
    // elements
    if (!expect(f.el.size() == w.el.size(), P + "element-count", f.el.size(), " want ", w.el.size())) return;
    std::map<std::vector<int>, int> byPoints;
    for (std::size_t e = 0; e < w.el.size(); ++e) {
        auto v = w.el[e].pt;
        std::sort(v.begin(), v.end());
        byPoints[v] = e;
    }
    std::vector<int> of(f.el.size());
    std::vector<WElement> fe(f.el.size());
    std::set<int> seen;
    for (std::size_t i = 0; i < f.el.size(); ++i) {
        WElement& q = fe[i];
        for (std::size_t k = 0; k < f.el[i].node.size(); ++k) q.pt.push_back(pt[f.el[i].node[k]][f.el[i].off[k]]);
        auto v = q.pt;
        std::sort(v.begin(), v.end());
        auto it = byPoints.find(v);
        if (!expect(it != byPoints.end(), P + "element", "element ", i, " is not one of the input")) return;
        of[i] = it->second;
        expect(seen.insert(of[i]).second, P + "element-twice", "element ", i);
        const WElement& m = w.el[of[i]];
        if (!expect(shapeOf(f.dim, q.pt.size(), q.shape, q.order) && q.shape == m.shape && q.order == m.order, P + "shape", "element ", i)) return;
        q.corner = cornerPositions(q.shape, q.order);
        // a legal renumbering of the same shape?
        std::vector<int> perm;
        for (int c = 0; c < shapeInfo(q.shape).corners; ++c) {
            int p = q.pt[q.corner[c]], at = -1;
            for (int d = 0; d < shapeInfo(q.shape).corners; ++d)
                if (m.pt[m.corner[d]] == p) at = d;
            perm.push_back(at);
        }
        const auto& A = automorphisms(q.shape);
        expect(std::find(A.begin(), A.end(), perm) != A.end(), P + "corner-order:" + shapeInfo(q.shape).name, "element ", i);
        if (q.order == 2 && std::count(perm.begin(), perm.end(), -1) == 0) {
            auto lat = simplexLattice(f.dim, 2);
            for (std::size_t k = 0; k < lat.size(); ++k) {
                // barycentric weights of the node, moved with the corners
                std::vector<int> b(f.dim + 1), c(f.dim + 1);
                b[0] = 2;
                for (int d = 0; d < f.dim; ++d) b[d + 1] = lat[k][d], b[0] -= lat[k][d];
                for (int d = 0; d <= f.dim; ++d) c[perm[d]] = b[d];
                Key kk{0, 0, 0};
                for (int d = 0; d < f.dim; ++d) kk[d] = c[d + 1];
                int at = std::find(lat.begin(), lat.end(), kk) - lat.begin();
                expect(q.pt[k] == m.pt[at], P + "curved-node-order:" + shapeInfo(q.shape).name, "element ", i, " node ", k);
            }
            count("curved-elements");
        }
        expect(f.zones[f.el[i].zone] == m.zone, P + "zone", "element ", i, " has zone '", f.zones[f.el[i].zone], "' want '", m.zone, "'");
        expect(f.el[i].owner < nParts, P + "owner", "element ", i);
        count(str("elements-", shapeInfo(q.shape).name));
    }
    // faces and edges
    std::vector<std::vector<std::set<int>>> members;
    for (int c = 0; c + 1 < f.dim; ++c) {
        std::set<Canon> got;
        const char* kind = c == 0 ? "face" : "edge";
        for (std::size_t i = 0; i < f.ent[c].size(); ++i) {
            Canon q;
            for (auto& p : f.ent[c][i].el) {
                const ShapeInfo& si = shapeInfo(fe[p.first].shape);
                const auto& tab = c == 0 ? si.faces : si.edges;
                if (!expect(p.second < (int)tab.size(), P + kind + ":local-number", kind, " ", i)) return;
                q.push_back({of[p.first], cornersOf(fe[p.first], tab[p.second])});
            }
            std::sort(q.begin(), q.end());
            expect(w.ent[c].count(q), P + kind, kind, " ", i, " joins ", q.size(), " elements, not as in the input");
            expect(got.insert(q).second, P + kind + ":twice", kind, " ", i);
        }
        expect(got.size() == w.ent[c].size(), P + kind + ":count", got.size(), " want ", w.ent[c].size());
        count(str(kind, "s"), got.size());
    }
    // partitions follow from the owners
    expect(f.nParts == nParts, P + "partition-count", f.nParts);
    std::vector<std::vector<int>> at(f.nodes.size());
    for (std::size_t e = 0; e < f.el.size(); ++e)
        for (int n : f.el[e].node) at[n].push_back(e);
    std::vector<std::set<int>> near(f.el.size());
    for (std::size_t e = 0; e < f.el.size(); ++e) {
        for (int n : f.el[e].node)
            for (int o : at[n]) near[e].insert(f.el[o].owner);
        auto s = near[e];
        s.erase(f.el[e].owner);
        expect(f.el[e].shadow == s, P + "partitions:element", "element ", e);
    }
    std::vector<long> per(nParts, 0);
    for (std::size_t n = 0; n < f.nodes.size(); ++n) {
        std::set<int> s;
        for (int e : at[n]) s.insert(near[e].begin(), near[e].end());
        expect(f.nodes[n].parts == s, P + "partitions:node", "node ", n);
        for (int p : s)
            if (p < nParts) per[p]++;
    }
    expect(f.partCount == per, P + "partitions:counts", "node counts per partition");
    for (auto& l : f.ent)
        for (auto& q : l) {
            std::set<int> s;
            for (auto& p : q.el) s.insert(near[p.first].begin(), near[p.first].end());
            expect(q.parts == s, P + "partitions:entity", "partitions of a face or edge");
        }
    if (nParts > 1) count("partitioned-meshes");
    count("meshes");
}

// ---------------------------------------------------------------- running it
// empty: fine; otherwise what went wrong
static int hangs = 0;
static std::string preprocess(std::vector<std::string> args) {
    int p[2];
    if (pipe(p)) throw std::runtime_error("pipe");
    pid_t child = fork();
    if (child == 0) {
        close(p[0]);
        alarm(30);
        std::string err = st().scratch + "/child.err";
        int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        int null = open("/dev/null", O_WRONLY);
        dup2(null, 1);
        dup2(fd, 2);
        std::string out;
        try {
            args.insert(args.begin(), "Preprocessor");
            std::vector<char*> v;
            for (auto& a : args) v.push_back(&a[0]);
            v.push_back(nullptr);
            int rc = preprocessor_main(args.size(), v.data());
            out = str("rc", rc);
        } catch (const HpgemError& e) {
            out = str("E", e.what());
        } catch (const std::exception& e) {
            out = str("X", e.what());
        }
        ssize_t w = write(p[1], out.data(), out.size());
        (void)w;
        _exit(0);
    }
    close(p[1]);
    std::string in;
    char buf[4096];
    ssize_t g;
    while ((g = read(p[0], buf, sizeof buf)) > 0) in.append(buf, g);
    close(p[0]);
    int status = 0;
    waitpid(child, &status, 0);
    if (in == "rc0") return "";
    if (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM) {
        ++hangs;
        return "still running after 30 s";
    }
    if (!WIFEXITED(status) || WEXITSTATUS(status) || in.empty()) {
        std::ifstream e(st().scratch + "/child.err");
        std::string s((std::istreambuf_iterator<char>(e)), {});
        std::size_t at = s.find("ERROR: AddressSanitizer");
        if (at == std::string::npos) at = s.find("runtime error");
        return "crash: " + s.substr(at == std::string::npos ? 0 : at, 700);
    }
    return in;
}
static bool process(const std::string& in, const std::string& out, int nParts, std::vector<std::string> more, const std::string& key, FMesh& f) {
    std::vector<std::string> a = {"--inFile", in, "--outFile", out};
    if (nParts > 1) a.insert(a.end(), {"-n", std::to_string(nParts)});
    a.insert(a.end(), more.begin(), more.end());
    unlink(out.c_str());
    std::string r = preprocess(a);
    if (!expect(r.empty(), key + (r[0] == 'E' ? ":refused" : ":failed"), r)) return false;
    try {
        f = parseFile(out);
    } catch (const std::exception& e) {
        violation(key + ":malformed-output", e.what());
        return false;
    }
    return true;
}

// ---------------------------------------------------------------- P02
static void structured(Rng& r, const std::string& dir) {
    int dim = 1 + below(r, 3);
    bool tri = dim > 1 && below(r, 2);
    Key n{1, 1, 1};
    std::array<bool, 3> per{false, false, false};
    V3 lo{0, 0, 0}, hi{0, 0, 0};
    int cells = 1;
    bool mayRefuse = false, narrow = false;
    for (int d = 0; d < dim; ++d) {
        n[d] = 1 + below(r, dim == 1 ? 12 : dim == 2 ? 7 : 4);
        per[d] = below(r, 3) == 0;
        if (per[d]) {
            // two cells: the nodes of a face do not identify it, refused
            n[d] = std::max(n[d], 2);
            if (tri) n[d] += n[d] % 2;  // documented
            if (below(r, 12) == 0) n[d] = 1, narrow = true;
            if (dim > 1 && n[d] == 2) mayRefuse = true;
        }
        lo[d] = below(r, 3) ? uni(r, -3, 3) : 0;
        hi[d] = lo[d] + (below(r, 3) ? std::pow(10., uni(r, -3, 3)) : 1);
        cells *= n[d];
    }
    int perCell = !tri ? 1 : dim == 2 ? 2 : 5;
    int nParts = below(r, 2) ? 1 : 1 + below(r, std::min(6, cells));
    std::string in = dir + "/box.hpgem", out = dir + "/out.hpgem";
    std::ostringstream t;
    t.precision(17);
    t << "structured 1 " << dim << "\n";
    for (int d = 0; d < dim; ++d) t << n[d] << " ";
    t << "\n";
    for (int d = 0; d < dim; ++d) t << lo[d] << " ";
    t << "\n";
    for (int d = 0; d < dim; ++d) t << hi[d] << " ";
    t << "\n" << (tri ? "triangular" : "rectangular") << "\n";
    for (int d = 0; d < dim; ++d) t << (per[d] ? "true " : "false ");
    t << "\n";
    std::ofstream(in) << t.str();
    std::string what = t.str();
    std::replace(what.begin(), what.end(), '\n', '|');
    begin(what + " -n " + std::to_string(nParts));
    std::string kind = str(dim, "D-", tri ? "triangular" : "rectangular");
    distinct(str(kind, n[0], "x", n[1], "x", n[2], per[0], per[1], per[2], "/", nParts));
    FMesh f;
    if (narrow) {
        // one cell in a periodic direction: refused, or at least elements that have a volume
        std::vector<std::string> a = {"--inFile", in, "--outFile", out};
        unlink(out.c_str());
        std::string res = preprocess(a);
        expect(res.empty() || res[0] == 'E', "box:one-cell-period:failed", res);
        count("one-cell-periods");
        if (!res.empty()) return;
        f = parseFile(out);
        for (auto& e : f.el) {
            std::set<std::pair<int, int>> c;
            for (std::size_t i = 0; i < e.node.size(); ++i) c.insert({e.node[i], e.off[i]});
            expect(c.size() == e.node.size(), "box:one-cell-period:degenerate-element", "an element has ", c.size(), " different corners of ", e.node.size());
        }
        return;
    }
    if (mayRefuse) {
        std::string res = preprocess({"--inFile", in, "--outFile", out});
        if (!res.empty() && res[0] == 'E') {
            count("refused-two-cell-periods");
            return;
        }
        // or all faces that the cells have
        f = parseFile(out);
        long sides = 0, inner = 0;
        for (auto& e : f.el) {
            MShape sh;
            int o;
            if (shapeOf(dim, e.node.size(), sh, o)) sides += shapeInfo(sh).faces.size();
        }
        for (auto& q : f.ent[0]) inner += q.el.size() == 2;
        long outer = 0;
        for (int d = 0; d < dim; ++d) outer += per[d] ? 0 : 2 * cells / n[d] * (tri && dim == 3 ? 2 : 1);
        count("accepted-two-cell-periods");
        if (!expect(2 * inner == sides - outer, "box:two-cell-period:faces-merged", inner, " inner faces, want ", (sides - outer) / 2.)) return;
    }
    if (!process(in, out, nParts, {}, "box:" + kind, f)) return;
    std::string P = "box:" + kind + ":";
    if (!expect(f.dim == dim, P + "dimension", f.dim)) return;
    // the points of the box
    Want w;
    w.dim = dim;
    std::map<Key, int> pointAt;
    std::map<Key, int> nodeAt;
    std::vector<Key> keyOf;
    double h = 1e300, size = 0;
    for (int d = 0; d < dim; ++d) h = std::min(h, (hi[d] - lo[d]) / n[d]), size = std::max({size, std::abs(lo[d]), std::abs(hi[d])});
    Key k;
    for (k[2] = 0; k[2] <= (dim > 2 ? n[2] : 0); ++k[2])
        for (k[1] = 0; k[1] <= (dim > 1 ? n[1] : 0); ++k[1])
            for (k[0] = 0; k[0] <= n[0]; ++k[0]) {
                V3 x{0, 0, 0};
                Key q = k;
                for (int d = 0; d < dim; ++d) {
                    x[d] = (double)(lo[d] + (long double)k[d] * ((long double)hi[d] - lo[d]) / n[d]);
                    if (per[d]) q[d] = k[d] % n[d];
                }
                pointAt[k] = w.pts.size();
                keyOf.push_back(k);
                w.pts.push_back(x);
                w.nodeOf.push_back(nodeAt.insert({q, (int)nodeAt.size()}).first->second);
            }
    double tol = 1e-13 * size;
    auto find = [&](const V3& x) {
        Key q{0, 0, 0};
        for (int d = 0; d < dim; ++d) {
            q[d] = (int)std::lround((x[d] - lo[d]) / (hi[d] - lo[d]) * n[d]);
            q[d] = std::min(std::max(q[d], 0), n[d]);
        }
        int p = pointAt[q];
        return dist(x, w.pts[p]) <= tol ? p : -1;
    };
    // the elements tile the cells
    std::map<Key, double> filled;
    std::map<std::vector<Key>, Canon> F, E;
    expect((long)f.el.size() == (long)cells * perCell, P + "element-count", f.el.size());
    double cellVolume = 1;
    for (int d = 0; d < dim; ++d) cellVolume *= (hi[d] - lo[d]) / n[d];
    for (std::size_t e = 0; e < f.el.size(); ++e) {
        WElement q;
        if (!expect(shapeOf(dim, f.el[e].node.size(), q.shape, q.order) && q.order == 1 &&
                        q.shape == (dim == 1 ? LINE : dim == 2 ? (tri ? TRI : QUAD) : tri ? TET : HEX),
                    P + "shape", "element ", e))
            return;
        q.corner = cornerPositions(q.shape, 1);
        q.zone = "Main";
        Key low{1 << 20, 1 << 20, 1 << 20}, high{0, 0, 0};
        for (std::size_t i = 0; i < f.el[e].node.size(); ++i) {
            const V3& x = f.nodes[f.el[e].node[i]].x[f.el[e].off[i]];
            int p = find(x);
            if (!expect(p >= 0, P + "coordinate", "element ", e, " has a corner at ", x[0], " ", x[1], " ", x[2])) return;
            q.pt.push_back(p);
            for (int d = 0; d < 3; ++d) low[d] = std::min(low[d], keyOf[p][d]), high[d] = std::max(high[d], keyOf[p][d]);
        }
        for (int d = 0; d < dim; ++d)
            if (!expect(high[d] == low[d] + 1, P + "cell", "element ", e, " is not in one cell")) return;
        auto X = [&](int i) { return w.pts[q.pt[i]]; };
        double v;
        if (dim == 1) v = X(1)[0] - X(0)[0];
        else if (dim == 2) {
            V3 a = sub(X(1), X(0)), b = sub(X(2), X(0));
            v = (a[0] * b[1] - a[1] * b[0]) * (tri ? 0.5 : 1);
        } else v = det3(sub(X(1), X(0)), sub(X(2), X(0)), sub(X(tri ? 3 : 4), X(0))) * (tri ? 1. / 6 : 1);
        expect(v > 0, P + "orientation", "element ", e, " has volume ", v);
        if (!tri) {
            // lexicographic up to a renumbering of the shape
            std::vector<int> perm;
            for (int p : q.pt) {
                int c = 0;
                for (int d = 0; d < dim; ++d) c += (keyOf[p][d] - low[d]) << d;
                perm.push_back(c);
            }
            const auto& A = automorphisms(q.shape);
            if (!expect(std::find(A.begin(), A.end(), perm) != A.end(), P + "corner-order", "element ", e)) return;
        }
        filled[low] += v;
        const ShapeInfo& si = shapeInfo(q.shape);
        auto entity = [&](const std::vector<int>& local) {
            // translated to its lowest corner and that corner into the base cell
            std::vector<Key> ks;
            for (int c : local) ks.push_back(keyOf[q.pt[c]]);
            for (int d = 0; d < dim; ++d) {
                int m = 1 << 20;
                for (auto& kk : ks) m = std::min(m, kk[d]);
                if (per[d] && m >= n[d])
                    for (auto& kk : ks) kk[d] -= n[d];
            }
            std::sort(ks.begin(), ks.end());
            return ks;
        };
        for (auto& l : si.faces) F[entity(l)].push_back({(int)e, cornersOf(q, l)});
        for (auto& l : si.edges) E[entity(l)].push_back({(int)e, cornersOf(q, l)});
        w.el.push_back(q);
    }
    expect((int)filled.size() == cells, P + "tiling:cells", filled.size(), " of ", cells, " cells are filled");
    for (auto& c : filled)
        expect(std::abs(c.second - cellVolume) < 1e-10 * cellVolume + 1e-12 * size * cellVolume / h, P + "tiling:volume", c.second, " of ", cellVolume);
    // faces: two elements inside and over periodic sides, one on the others
    w.ent.resize(std::max(0, dim - 1));
    for (auto& q : F) {
        bool outer = false;
        for (int d = 0; d < dim; ++d) {
            if (per[d]) continue;
            for (int side : {0, n[d]}) {
                bool all = true;
                for (auto& kk : q.first) all &= kk[d] == side;
                outer |= all;
            }
        }
        expect(q.second.size() == (outer ? 1u : 2u), P + "tiling:face", "a face ", outer ? "on the boundary" : "inside", " belongs to ", q.second.size(), " elements");
    }
    for (auto& q : F) {
        std::sort(q.second.begin(), q.second.end());
        if (dim > 1) w.ent[0].insert(q.second);
    }
    for (auto& q : E) {
        std::sort(q.second.begin(), q.second.end());
        if (dim > 2) w.ent[1].insert(q.second);
    }
    compare(f, w, nParts, tol, "box:" + kind);
    count("boxes-" + kind);
    for (int d = 0; d < dim; ++d)
        if (per[d]) count("periodic-directions");
}

// ---------------------------------------------------------------- P03
struct Gmsh {
    std::string text;
    std::vector<V3> pts;
};
static std::vector<int> gmshOrder(MShape s, int order, const std::vector<int>& pt, const std::vector<int>& corner, int& type) {
    auto c = [&](std::initializer_list<int> l) {
        std::vector<int> r;
        for (int i : l) r.push_back(pt[corner[i]]);
        return r;
    };
    // the node half way between two corners of a quadratic simplex
    auto mid = [&](int a, int b) {
        auto lat = simplexLattice(shapeInfo(s).dim, 2);
        Key k{0, 0, 0};
        if (a) k[a - 1]++;
        if (b) k[b - 1]++;
        return pt[std::find(lat.begin(), lat.end(), k) - lat.begin()];
    };
    std::vector<int> r;
    switch (s) {
        case LINE: type = 1; return c({0, 1});
        case TRI:
            r = c({0, 1, 2});
            type = 2;
            if (order == 2) {
                type = 9;
                for (auto e : std::vector<std::pair<int, int>>{{0, 1}, {1, 2}, {2, 0}}) r.push_back(mid(e.first, e.second));
            }
            return r;
        case QUAD: type = 3; return c({0, 1, 3, 2});
        case TET:
            r = c({0, 1, 2, 3});
            type = 4;
            if (order == 2) {
                type = 11;
                for (auto e : std::vector<std::pair<int, int>>{{0, 1}, {1, 2}, {2, 0}, {3, 0}, {3, 2}, {3, 1}}) r.push_back(mid(e.first, e.second));
            }
            return r;
        case PYR: type = 7; return c({1, 2, 4, 3, 0});
        case PRISM: type = 6; return c({0, 1, 2, 3, 4, 5});
        default: type = 5; return c({0, 1, 3, 2, 4, 5, 7, 6});
    }
}
// a face of an element as a gmsh element of lower dimension
static std::vector<int> gmshFace(const WElement& e, int lf, int& type) {
    std::vector<int> c = shapeInfo(e.shape).faces[lf], r;
    for (int k : c) r.push_back(e.pt[e.corner[k]]);
    if (c.size() == 4) std::swap(r[2], r[3]);  // around the face
    type = c.size() == 2 ? 1 : c.size() == 3 ? 2 : 3;
    if (e.order == 2) {
        auto lat = simplexLattice(shapeInfo(e.shape).dim, 2);
        auto mid = [&](int a, int b) {
            Key k{0, 0, 0};
            if (a) k[a - 1]++;
            if (b) k[b - 1]++;
            return e.pt[std::find(lat.begin(), lat.end(), k) - lat.begin()];
        };
        for (std::size_t i = 0; i < c.size(); ++i)
            if (c.size() > 2 || i == 0) r.push_back(mid(c[i], c[(i + 1) % c.size()]));
        type = c.size() == 2 ? 8 : 9;
    }
    return r;
}
// periodic: pairs are written for the directions in which the keys allow it
static void writeGmsh(Rng& r, const MMesh& m, const Want& w, const std::string& file, const std::array<bool, 3>& pairs, int& flavour) {
    std::ostringstream t;
    t.precision(17);
    bool crlf = below(r, 5) == 0;
    std::string nl = crlf ? "\r\n" : "\n";
    int naming = flavour;  // 0 physical names, 1 tags only, 2 element data, 3 no tags, 4 names of lower dimensions only
    auto comment = [&]() {
        if (below(r, 4) == 0) t << "$Comments" << nl << "a line" << nl << "1 2 3" << nl << "$EndComments" << nl;
        if (below(r, 8) == 0) t << nl;
    };
    // numbers of the nodes: any order, with gaps
    std::vector<long> tag(w.pts.size());
    bool dense = below(r, 3) == 0;
    long next = 1;
    std::vector<int> order(w.pts.size());
    for (std::size_t i = 0; i < order.size(); ++i) order[i] = i;
    vf::shuffle(order, r);
    for (int i : order) {
        tag[i] = next;
        next += dense ? 1 : 1 + below(r, 4);
    }
    if (!dense) vf::shuffle(order, r);
    comment();
    t << "$MeshFormat" << nl << "2.2 0 8" << nl << "$EndMeshFormat" << nl;
    comment();
    std::map<std::string, int> physical;
    {
        std::vector<int> tags;
        for (std::size_t i = 0; i < m.zones.size(); ++i) tags.push_back(1 + i * 3 + below(r, 3));
        vf::shuffle(tags, r);
        for (std::size_t i = 0; i < m.zones.size(); ++i) physical[m.zones[i]] = tags[i];
    }
    if (naming == 0 || naming == 4) {
        std::vector<std::string> lines;
        if (naming == 0)
            for (auto& p : physical) lines.push_back(str(m.dim, " ", below(r, 5) == 0 ? -p.second : p.second, " \"", p.first, "\""));
        // the same numbers name other things in lower dimensions
        for (int d = 0; d < m.dim; ++d)
            if (naming == 4 ? d == m.dim - 1 : below(r, 2)) lines.push_back(str(d, " ", 1 + below(r, 5), " \"lower ", d, "\""));
        vf::shuffle(lines, r);
        t << "$PhysicalNames" << nl << lines.size() << nl;
        for (auto& l : lines) t << l << nl;
        t << "$EndPhysicalNames" << nl;
    }
    comment();
    t << "$Nodes" << nl << order.size() << nl;
    for (int i : order) t << tag[i] << " " << w.pts[i][0] << " " << w.pts[i][1] << " " << w.pts[i][2] << nl;
    t << "$EndNodes" << nl;
    comment();
    std::vector<std::string> lines;
    std::vector<std::pair<std::size_t, int>> data;
    auto element = [&](int type, int phys, const std::vector<int>& pt) {
        std::ostringstream l;
        int extra = below(r, 4) == 0 ? 1 + below(r, 3) : 0;
        if (naming == 3) {
            l << type << " 0";
            for (int p : pt) l << " " << tag[p];
            return l.str();
        }
        l << type << " " << 2 + (extra ? 1 + extra : 0) << " " << phys << " " << 1 + below(r, 6);
        if (extra) {
            l << " " << extra;
            for (int i = 0; i < extra; ++i) l << " " << (i ? -1 : 1) * (1 + (int)below(r, 4));
        }
        for (int p : pt) l << " " << tag[p];
        return l.str();
    };
    std::vector<std::pair<std::string, int>> els;  // text, zone tag or 0
    for (auto& e : w.el) {
        int type;
        auto pt = gmshOrder(e.shape, e.order, e.pt, e.corner, type);
        int p = physical[e.zone];
        els.push_back({element(type, naming == 2 ? 99 : p, pt), p});
    }
    if (below(r, 2))
        for (auto& e : w.el)
            for (std::size_t f = 0; f < shapeInfo(e.shape).faces.size(); ++f)
                if (below(r, 4) == 0) {
                    int type;
                    auto pt = gmshFace(e, f, type);
                    els.push_back({element(type, 1 + below(r, 5), pt), 0});
                }
    if (below(r, 2))
        for (int i = 0; i < 4; ++i) els.push_back({element(15, 1 + below(r, 4), {(int)below(r, w.pts.size())}), 0});
    vf::shuffle(els, r);
    t << "$Elements" << nl << els.size() << nl;
    for (std::size_t i = 0; i < els.size(); ++i) t << i + 1 << " " << els[i].first << nl;
    t << "$EndElements" << nl;
    comment();
    std::vector<std::vector<std::pair<int, int>>> links;
    std::vector<Key> keyOf;
    std::vector<int> nodeOf;
    for (std::size_t n = 0; n < m.nodes.size(); ++n)
        for (auto& k : m.nodes[n].key) keyOf.push_back(k), nodeOf.push_back(n);
    std::map<Key, int> at;
    for (std::size_t i = 0; i < keyOf.size(); ++i) at[keyOf[i]] = i;
    for (int d = 0; d < m.dim; ++d) {
        if (!pairs[d]) continue;
        std::vector<std::pair<int, int>> l, sub;
        for (auto& p : at)
            if (p.first[d] == 0) {
                Key q = p.first;
                q[d] = MUL * m.n[d];
                auto it = at.find(q);
                if (it != at.end()) {
                    l.push_back({it->second, p.second});
                    int o = (d + 1) % m.dim;
                    if (o != d && (q[o] == 0 || q[o] == MUL * m.n[o])) sub.push_back(l.back());
                }
            }
        bool flip = below(r, 2);
        for (auto* s : {&l, &sub}) {
            if (flip)
                for (auto& p : *s) std::swap(p.first, p.second);
            vf::shuffle(*s, r);
        }
        if (!l.empty()) links.push_back(l);
        if (!sub.empty() && below(r, 2)) links.push_back(sub);  // as gmsh does for the curves of the sides
    }
    if (!links.empty()) {
        vf::shuffle(links, r);
        t << "$Periodic" << nl << links.size() << nl;
        for (auto& l : links) {
            t << m.dim - 1 << " " << 1 + below(r, 9) << " " << 1 + below(r, 9) << nl << l.size() << nl;
            for (auto& p : l) t << tag[p.first] << " " << tag[p.second] << nl;
        }
        t << "$EndPeriodic" << nl;
    }
    if (naming == 2) {
        std::vector<std::string> l;
        for (std::size_t i = 0; i < els.size(); ++i)
            if (els[i].second) l.push_back(str(i + 1, " ", els[i].second, below(r, 2) ? "" : ".0"));
        vf::shuffle(l, r);
        t << "$ElementData" << nl << "1" << nl << "\"zones\"" << nl << "1" << nl << "0.0" << nl;
        if (below(r, 2)) t << "3" << nl << "0" << nl << "1" << nl << l.size() << nl;
        else t << "4" << nl << "0" << nl << "1" << nl << l.size() << nl << "0" << nl;
        for (auto& s : l) t << s << nl;
        t << "$EndElementData" << nl;
    }
    comment();
    std::ofstream(file, std::ios::binary) << t.str();
    if (naming == 0) return;
    // without names the zones are called after their numbers
    Want& ww = const_cast<Want&>(w);
    for (auto& e : ww.el) e.zone = naming == 3 ? "Main" : std::to_string(physical[e.zone]);
}
static std::string vec(const V3& v, int dim) {
    std::string s;
    for (int d = 0; d < dim; ++d) {
        char b[40];
        snprintf(b, sizeof b, "%s%.17g", d ? "," : "", v[d]);
        s += b;
    }
    return s;
}
static void import(Rng& r, const std::string& dir) {
    static const char* formats[] = {"gmsh", "gmsh-translations", "gmsh-ignored", "native", "native-translations"};
    int format = below(r, 5);
    bool native = format >= 3;
    int dim = native ? 1 + below(r, 3) : 2 + below(r, 2);
    ZooOptions o = randomOptions(dim, r);
    o.reflectAllowed = below(r, 2);
    o.quarterTurns = below(r, 2);
    o.scale = below(r, 2) ? 1 : std::pow(10., uni(r, -2, 2));
    int periods = 0;
    for (int d = 0; d < dim; ++d) {
        if (format == 2) o.periodic[d] = false;
        // entities of a native mesh are found by their nodes
        if (native && o.periodic[d]) o.n[d] = std::max(o.n[d], dim == 1 ? 2 : 3);
        periods += o.periodic[d];
    }
    if (periods > 1) o.holes = 0;
    if (native) o.zones = 1;
    MMesh m;
    try {
        m = makeMesh(o, r);
    } catch (const std::runtime_error& e) {
        count("skipped-meshes");
        return;
    }
    if (native)
        for (auto& z : m.zones) z = "Main";
    Want w = wantOf(m);
    int nParts = below(r, 2) ? 1 : 1 + below(r, std::min<int>(6, m.el.size()));
    std::string in = dir + (native ? "/in.hpgem" : "/in.msh"), out = dir + "/out.hpgem";
    std::vector<std::string> more;
    std::string key = str("import:", formats[format], ":", dim, "D");
    begin(str(formats[format], " ", m.name, " -n ", nParts));
    distinct(str(formats[format], m.name));
    int naming = below(r, 5);
    if (format == 0) writeGmsh(r, m, w, in, o.periodic, naming);
    if (format == 2) {
        std::array<bool, 3> p{true, true, true};
        writeGmsh(r, m, w, in, p, naming);
        more.push_back("--ignore-periodicity");
    }
    if (format == 1 || format == 4) {
        // the same mesh without its periodic sides, which are then asked for
        MMesh flat = m;
        flat.nodes.clear();
        std::vector<int> first;
        for (auto& n : m.nodes) {
            first.push_back(flat.nodes.size());
            for (std::size_t i = 0; i < n.x.size(); ++i) {
                MNode q;
                q.x = {n.x[i]};
                q.key = {n.key[i]};
                q.parts = n.parts;
                flat.nodes.push_back(q);
            }
        }
        for (auto& e : flat.el)
            for (std::size_t i = 0; i < e.node.size(); ++i) e.node[i] = first[e.node[i]] + e.off[i], e.off[i] = 0;
        std::string tr;
        std::vector<std::string> v;
        for (int d = 0; d < dim; ++d)
            if (o.periodic[d]) {
                V3 x{0, 0, 0};
                x = add(x, m.A[d], (below(r, 2) ? 1. : -1.) * m.n[d]);
                v.push_back(vec(x, dim));
            }
        vf::shuffle(v, r);
        for (auto& s : v) tr += (tr.empty() ? "" : ";") + s;
        if (!tr.empty()) more.insert(more.end(), {"--translations", tr});
        if (format == 4) writeMesh(flat, in, 1, below(r, 2));
        else {
            std::array<bool, 3> none{false, false, false};
            writeGmsh(r, flat, w, in, none, naming);
        }
    }
    if (format == 3) writeMesh(m, in, 1, below(r, 2));
    FMesh f;
    if (!process(in, out, nParts, more, key, f)) return;
    compare(f, w, nParts, 0, key);
    count(str("imports-", formats[format]));
    if (periods) count("periodic-meshes");
}

int main(int argc, char** argv) {
    init(argc, argv);
    MPI_Init(&argc, &argv);
    bool box = arg("mode") == "box";
    int n = std::stoi(arg("cases", st().thorough ? "6000" : "600"));
    int only = std::stoi(arg("case", "-1"));
    for (int k = only >= 0 ? only : 0; k < (only >= 0 ? only + 1 : n); ++k) {
        Rng r = rng(str("prep", arg("mode"), arg("salt"), ":", k));
        if (box) structured(r, st().scratch);
        else import(r, st().scratch);
        if (hangs > 2) break;
    }
    _exit(finish());
}
