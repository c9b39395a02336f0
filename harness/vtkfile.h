// Independent readers for the visualisation files hpGEM writes.
#ifndef VF_VTKFILE_H
#define VF_VTKFILE_H
#include "meshmodel.h"
#include <fstream>
#include <memory>
#include <cstring>

namespace vf {
inline std::string slurp(const std::string& file, bool& ok) {
    std::ifstream in(file, std::ios::binary);
    ok = in.good();
    std::stringstream s;
    s << in.rdbuf();
    return s.str();
}
// ------------------------------------------------------------------ XML
struct Xml {
    std::string tag, text;
    std::map<std::string, std::string> attr;
    std::vector<std::unique_ptr<Xml>> child;
    const Xml* first(const std::string& t) const {
        for (auto& c : child)
            if (c->tag == t) return c.get();
        return nullptr;
    }
    std::vector<const Xml*> all(const std::string& t) const {
        std::vector<const Xml*> r;
        for (auto& c : child)
            if (c->tag == t) r.push_back(c.get());
        return r;
    }
    std::string get(const std::string& a, const std::string& d = "") const {
        auto i = attr.find(a);
        return i == attr.end() ? d : i->second;
    }
};
// strict: one root, every element closed, attributes quoted and unique
struct XmlReader {
    const std::string& s;
    std::size_t i = 0;
    std::string error;
    explicit XmlReader(const std::string& t) : s(t) {}
    bool fail(const std::string& m) {
        if (error.empty()) error = str(m, " at byte ", i);
        return false;
    }
    void space() {
        while (i < s.size() && isspace((unsigned char)s[i])) ++i;
    }
    std::string name() {
        std::size_t b = i;
        while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '_' || s[i] == ':' || s[i] == '-')) ++i;
        return s.substr(b, i - b);
    }
    bool attributes(Xml& x) {
        for (;;) {
            space();
            if (i >= s.size()) return fail("end of file in a tag");
            if (s[i] == '>' || s[i] == '/' || s[i] == '?') return true;
            std::string n = name();
            if (n.empty()) return fail("attribute name expected");
            if (s[i] != '=') return fail("= expected");
            ++i;
            char q = s[i];
            if (q != '"' && q != '\'') return fail("quote expected");
            std::size_t e = s.find(q, i + 1);
            if (e == std::string::npos) return fail("unterminated attribute");
            if (!x.attr.emplace(n, s.substr(i + 1, e - i - 1)).second) return fail("attribute " + n + " twice");
            i = e + 1;
        }
    }
    std::unique_ptr<Xml> element() {
        auto x = std::make_unique<Xml>();
        if (s[i] != '<') return fail("< expected"), nullptr;
        ++i;
        x->tag = name();
        if (x->tag.empty() || !attributes(*x)) return fail("bad tag"), nullptr;
        if (s[i] == '/') {
            if (s.compare(i, 2, "/>")) return fail("/> expected"), nullptr;
            i += 2;
            return x;
        }
        ++i;
        for (;;) {
            std::size_t e = s.find('<', i);
            if (e == std::string::npos) return fail("element " + x->tag + " not closed"), nullptr;
            x->text += s.substr(i, e - i);
            i = e;
            if (s.compare(i, 2, "</") == 0) {
                i += 2;
                std::string n = name();
                if (n != x->tag) return fail("element " + x->tag + " closed as " + n), nullptr;
                space();
                if (s[i] != '>') return fail("> expected"), nullptr;
                ++i;
                return x;
            }
            auto c = element();
            if (!c) return nullptr;
            x->child.push_back(std::move(c));
        }
    }
    std::unique_ptr<Xml> document() {
        space();
        if (s.compare(i, 5, "<?xml") == 0) {
            i = s.find("?>", i);
            if (i == std::string::npos) return i = 0, fail("declaration"), nullptr;
            i += 2;
        }
        space();
        if (i >= s.size()) return fail("empty file"), nullptr;
        auto x = element();
        if (!x) return nullptr;
        space();
        if (i != s.size()) return fail("text after the root"), nullptr;
        return x;
    }
};
inline std::unique_ptr<Xml> readXml(const std::string& file, std::string& error) {
    bool ok;
    std::string t = slurp(file, ok);
    if (!ok) return error = "cannot open " + file, nullptr;
    XmlReader r(t);
    auto x = r.document();
    if (!x) error = r.error;
    return x;
}
// --------------------------------------------------------------- base 64
// decodes one padded group; stops behind it
inline bool base64(const std::string& s, std::size_t& i, std::size_t bytes, std::string& out) {
    auto val = [](char c) {
        if (c >= 'A' && c <= 'Z') return c - 'A';
        if (c >= 'a' && c <= 'z') return c - 'a' + 26;
        if (c >= '0' && c <= '9') return c - '0' + 52;
        return c == '+' ? 62 : c == '/' ? 63 : -1;
    };
    std::size_t quads = (bytes + 2) / 3;
    for (std::size_t q = 0; q < quads; ++q) {
        if (i + 4 > s.size()) return false;
        std::size_t here = std::min<std::size_t>(3, bytes - 3 * q);
        unsigned v = 0;
        for (int k = 0; k < 4; ++k) {
            int d = val(s[i + k]);
            bool pad = (std::size_t)k > here;
            if (pad ? s[i + k] != '=' : d < 0) return false;
            v = v << 6 | (pad ? 0 : d);
        }
        for (std::size_t k = 0; k < here; ++k) out += (char)(v >> (16 - 8 * k) & 255);
        i += 4;
    }
    return true;
}
struct DataArray {
    std::string type, name;
    int components = 1;
    std::vector<double> v;
};
// one <DataArray format="binary"> with a UInt32 byte count in front
inline bool dataArray(const Xml& x, DataArray& a, std::string& error) {
    a.type = x.get("type"), a.name = x.get("Name");
    a.components = std::stoi(x.get("NumberOfComponents", "1"));
    if (x.get("format") != "binary") return error = "format " + x.get("format"), false;
    std::string t;
    for (char c : x.text)
        if (!isspace((unsigned char)c)) t += c;
    std::size_t i = 0;
    std::string head, body;
    if (!base64(t, i, 4, head)) return error = "size of array " + a.name, false;
    std::uint32_t n;
    std::memcpy(&n, head.data(), 4);
    if (!base64(t, i, n, body) || i != t.size()) return error = str("array ", a.name, " of ", n, " bytes has ", t.size(), " characters"), false;
    std::size_t w = a.type == "Float64" ? 8 : a.type == "UInt32" || a.type == "Float32" ? 4 : a.type == "UInt8" ? 1 : 0;
    if (!w || n % w) return error = str("array ", a.name, " type ", a.type, " bytes ", n), false;
    for (std::size_t k = 0; k < n; k += w) {
        if (a.type == "Float64") {
            double d;
            std::memcpy(&d, body.data() + k, 8), a.v.push_back(d);
        } else if (a.type == "UInt32") {
            std::uint32_t d;
            std::memcpy(&d, body.data() + k, 4), a.v.push_back(d);
        } else if (a.type == "Float32") {
            float d;
            std::memcpy(&d, body.data() + k, 4), a.v.push_back(d);
        } else
            a.v.push_back((unsigned char)body[k]);
    }
    return true;
}
// an unstructured grid as a reader of the format understands it
struct Vtu {
    std::string version;
    std::vector<V3> points;
    std::vector<std::vector<int>> cells;
    std::vector<int> types;
    std::map<std::string, DataArray> data;
};
inline bool readVtu(const std::string& file, Vtu& g, std::string& error) {
    auto x = readXml(file, error);
    if (!x) return false;
    if (x->tag != "VTKFile" || x->get("type") != "UnstructuredGrid" || x->get("byte_order") != "LittleEndian") return error = "header", false;
    g.version = x->get("version");
    const Xml* u = x->first("UnstructuredGrid");
    if (!u || u->all("Piece").size() != 1) return error = "pieces", false;
    const Xml* p = u->first("Piece");
    std::size_t np = std::stoul(p->get("NumberOfPoints", "0")), nc = std::stoul(p->get("NumberOfCells", "0"));
    const Xml *P = p->first("Points"), *C = p->first("Cells"), *D = p->first("PointData");
    if (!P || !C || !D || P->all("DataArray").size() != 1) return error = "sections", false;
    DataArray a;
    if (!dataArray(*P->first("DataArray"), a, error)) return false;
    if (a.components != 3 || a.v.size() != 3 * np) return error = str("points ", a.v.size(), " components ", a.components), false;
    for (std::size_t i = 0; i < np; ++i) g.points.push_back({a.v[3 * i], a.v[3 * i + 1], a.v[3 * i + 2]});
    std::map<std::string, DataArray> c;
    for (const Xml* d : C->all("DataArray")) {
        DataArray b;
        if (!dataArray(*d, b, error)) return false;
        c[b.name] = b;
    }
    if (!c.count("connectivity") || !c.count("offsets") || !c.count("types")) return error = "cell arrays", false;
    if (c["offsets"].v.size() != nc || c["types"].v.size() != nc) return error = "cell array sizes", false;
    std::size_t at = 0;
    for (std::size_t i = 0; i < nc; ++i) {
        std::size_t to = c["offsets"].v[i];
        if (to < at || to > c["connectivity"].v.size()) return error = "offsets", false;
        g.cells.emplace_back();
        for (; at < to; ++at) {
            if (c["connectivity"].v[at] >= np) return error = "connectivity", false;
            g.cells.back().push_back(c["connectivity"].v[at]);
        }
        g.types.push_back(c["types"].v[i]);
    }
    if (at != c["connectivity"].v.size()) return error = "connectivity left", false;
    for (const Xml* d : D->all("DataArray")) {
        DataArray b;
        if (!dataArray(*d, b, error)) return false;
        if (b.v.size() != np * b.components) return error = str("array-size array ", b.name, " has ", b.v.size(), " values for ", np, " points of ", b.components, " components"), false;
        if (!g.data.emplace(b.name, b).second) return error = "array twice " + b.name, false;
    }
    return true;
}
struct Pvtu {
    std::vector<std::string> pieces;
    std::map<std::string, int> arrays;
};
inline bool readPvtu(const std::string& file, Pvtu& g, std::string& error) {
    auto x = readXml(file, error);
    if (!x) return false;
    if (x->tag != "VTKFile" || x->get("type") != "PUnstructuredGrid" || x->get("byte_order") != "LittleEndian") return error = "header", false;
    const Xml* u = x->first("PUnstructuredGrid");
    if (!u || u->get("GhostLevel", "0") != "0") return error = "ghost level", false;
    for (const Xml* p : u->all("Piece")) g.pieces.push_back(p->get("Source"));
    const Xml *P = u->first("PPoints"), *D = u->first("PPointData");
    if (!P || !D || !P->first("PDataArray") || P->first("PDataArray")->get("NumberOfComponents") != "3" || P->first("PDataArray")->get("type") != "Float64") return error = "points", false;
    for (const Xml* a : D->all("PDataArray")) {
        if (a->get("type") != "Float64") return error = "type", false;
        if (!g.arrays.emplace(a->get("Name"), std::stoi(a->get("NumberOfComponents", "1"))).second) return error = "array twice " + a->get("Name"), false;
    }
    return true;
}
inline bool readPvd(const std::string& file, std::vector<std::pair<double, std::string>>& sets, std::string& error) {
    auto x = readXml(file, error);
    if (!x) return false;
    if (x->tag != "VTKFile" || x->get("type") != "Collection") return error = "header", false;
    const Xml* c = x->first("Collection");
    if (!c) return error = "collection", false;
    for (const Xml* d : c->all("DataSet")) sets.push_back({std::stod(d->get("timestep")), d->get("file")});
    return true;
}
// ---------------------------------------------------- cells by the VTK rules
// (cell type, reference points in the order the format prescribes)
inline void triangleLattice(int p, std::vector<std::array<int, 3>>& out) {
    for (int l = 0; 3 * l <= p; ++l) {
        int n = p - 3 * l;
        auto put = [&](int a, int b, int c) { out.push_back({a + l, b + l, c + l}); };
        if (n == 0) {
            put(0, 0, 0);
            return;
        }
        put(n, 0, 0), put(0, n, 0), put(0, 0, n);
        for (int i = 1; i < n; ++i) put(n - i, i, 0);
        for (int i = 1; i < n; ++i) put(0, n - i, i);
        for (int i = 1; i < n; ++i) put(i, 0, n - i);
    }
}
inline int vtkCell(MShape s, int p, std::vector<V3>& x, bool oldHex) {
    x.clear();
    if (p < 1) p = 1;
    auto add = [&](double a, double b = 0, double c = 0) { x.push_back({a, b, c}); };
    auto at = [&](int i) { return -1. + 2. * i / p; };
    switch (s) {
        case LINE:
            add(-1), add(1);
            for (int i = 1; i < p; ++i) add(at(i));
            return p == 1 ? 3 : 68;
        case TRI: {
            std::vector<std::array<int, 3>> t;
            triangleLattice(p, t);
            for (auto& b : t) add(double(b[1]) / p, double(b[2]) / p);
            return p == 1 ? 5 : 69;
        }
        case QUAD:
            add(-1, -1), add(1, -1), add(1, 1), add(-1, 1);
            for (int i = 1; i < p; ++i) add(at(i), -1);
            for (int i = 1; i < p; ++i) add(1, at(i));
            for (int i = 1; i < p; ++i) add(at(i), 1);
            for (int i = 1; i < p; ++i) add(-1, at(i));
            for (int j = 1; j < p; ++j)
                for (int i = 1; i < p; ++i) add(at(i), at(j));
            return p == 1 ? 9 : 70;
        case TET: {
            auto put = [&](std::array<int, 4> b, int l) { add(double(b[1] + l) / p, double(b[2] + l) / p, double(b[3] + l) / p); };
            for (int l = 0; 4 * l <= p; ++l) {
                int n = p - 4 * l;
                if (n == 0) {
                    put({0, 0, 0, 0}, l);
                    break;
                }
                for (int c = 0; c < 4; ++c) {
                    std::array<int, 4> b{0, 0, 0, 0};
                    b[c] = n;
                    put(b, l);
                }
                static const int E[6][2] = {{0, 1}, {1, 2}, {2, 0}, {0, 3}, {1, 3}, {2, 3}};
                for (auto& e : E)
                    for (int i = 1; i < n; ++i) {
                        std::array<int, 4> b{0, 0, 0, 0};
                        b[e[0]] = n - i, b[e[1]] = i;
                        put(b, l);
                    }
                static const int F[4][3] = {{0, 1, 3}, {2, 3, 1}, {0, 3, 2}, {0, 2, 1}};
                std::vector<std::array<int, 3>> t;
                if (n >= 3) triangleLattice(n - 3, t);
                for (auto& f : F)
                    for (auto& q : t) {
                        std::array<int, 4> b{0, 0, 0, 0};
                        for (int k = 0; k < 3; ++k) b[f[k]] = q[k] + 1;
                        put(b, l);
                    }
            }
            return p == 1 ? 10 : 71;
        }
        case HEX: {
            static const int c[8][3] = {{-1, -1, -1}, {1, -1, -1}, {1, 1, -1}, {-1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {1, 1, 1}, {-1, 1, 1}};
            for (auto& q : c) add(q[0], q[1], q[2]);
            for (int z = -1; z <= 1; z += 2) {
                for (int i = 1; i < p; ++i) add(at(i), -1, z);
                for (int i = 1; i < p; ++i) add(1, at(i), z);
                for (int i = 1; i < p; ++i) add(at(i), 1, z);
                for (int i = 1; i < p; ++i) add(-1, at(i), z);
            }
            int y[4][2] = {{-1, -1}, {1, -1}, {-1, 1}, {1, 1}};
            if (!oldHex) std::swap(y[2][0], y[3][0]);
            for (auto& q : y)
                for (int i = 1; i < p; ++i) add(q[0], q[1], at(i));
            for (int d = 0; d < 3; ++d)
                for (int side = -1; side <= 1; side += 2)
                    for (int j = 1; j < p; ++j)
                        for (int i = 1; i < p; ++i) {
                            V3 v;
                            int a = d == 0 ? 1 : 0, b = d == 2 ? 1 : 2;
                            v[d] = side, v[a] = at(i), v[b] = at(j);
                            x.push_back(v);
                        }
            for (int k = 1; k < p; ++k)
                for (int j = 1; j < p; ++j)
                    for (int i = 1; i < p; ++i) add(at(i), at(j), at(k));
            return p == 1 ? 12 : 72;
        }
        case PRISM:
            for (int z = -1; z <= 1; z += 2) add(0, 0, z), add(1, 0, z), add(0, 1, z);
            return p == 1 ? 13 : -1;
        case PYR:
            add(-1, -1), add(1, -1), add(1, 1), add(-1, 1), add(0, 0, 1);
            return p == 1 ? 14 : -1;
    }
    return -1;
}
// -------------------------------------------------------------- Tecplot
struct TecZone {
    std::string title, type;
    double time = 0;
    std::size_t n = 0, e = 0;
    bool shared = false;
    std::vector<std::vector<double>> rows;
    std::vector<std::vector<int>> cells;
};
struct TecFile {
    std::string title;
    std::vector<std::string> variables;
    std::vector<TecZone> zones;
};
inline std::vector<std::string> quoted(const std::string& s) {
    std::vector<std::string> r;
    std::size_t i = 0;
    while ((i = s.find('"', i)) != std::string::npos) {
        std::size_t e = s.find('"', i + 1);
        if (e == std::string::npos) break;
        r.push_back(s.substr(i + 1, e - i - 1));
        i = e + 1;
    }
    return r;
}
inline bool readTecplot(const std::string& text, TecFile& f, std::string& error) {
    std::istringstream in(text);
    std::string line;
    auto field = [&](const std::string& k) -> std::string {
        std::size_t i = line.find(", " + k + " = ");
        if (i == std::string::npos) return "";
        i += k.size() + 5;
        std::size_t e = line.find(',', i);
        if (k == "D") e = line.find(')', i) + 1;
        std::string v = line.substr(i, e == std::string::npos ? e : e - i);
        while (!v.empty() && v.back() == ' ') v.pop_back();
        return v;
    };
    if (!std::getline(in, line) || line.compare(0, 8, "TITLE = ") || quoted(line).size() != 1) return error = "title", false;
    f.title = quoted(line)[0];
    if (!std::getline(in, line) || line.compare(0, 12, "VARIABLES = ")) return error = "variables", false;
    f.variables = quoted(line);
    while (std::getline(in, line)) {
        if (line.compare(0, 9, "ZONE T = ")) return error = "zone expected: " + line.substr(0, 60), false;
        TecZone z;
        z.title = quoted(line).empty() ? "" : quoted(line)[0];
        z.type = field("ZONETYPE");
        std::string n = field("N"), e = field("E"), t = field("SOLUTIONTIME"), d = field("D");
        if (n.empty() || e.empty() || t.empty() || field("DATAPACKING") != "POINT") return error = "zone header: " + line, false;
        z.n = std::stoul(n), z.e = std::stoul(e), z.time = std::stod(t);
        z.shared = !d.empty();
        for (std::size_t i = 0; i < z.n; ++i) {
            if (!std::getline(in, line)) return error = "end of file in a zone", false;
            std::istringstream l(line);
            std::vector<double> row;
            std::string w;
            while (l >> w) row.push_back(std::stod(w));
            z.rows.push_back(row);
        }
        if (!z.shared)
            for (std::size_t i = 0; i < z.e; ++i) {
                if (!std::getline(in, line)) return error = "end of file in the connectivity", false;
                std::istringstream l(line);
                std::vector<int> row;
                int w;
                while (l >> w) row.push_back(w);
                z.cells.push_back(row);
            }
        f.zones.push_back(std::move(z));
    }
    return true;
}
}  // namespace vf
#endif
