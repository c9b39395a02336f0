// P15: the level hierarchy (LevelTree, TreeEntry, TreeIterator) against a
// model: an entry that lives on several levels is a chain of positions, one
// for each level; the traversals are those of the forest of positions.
#include "vf.h"
#include <algorithm>
#include <memory>
#include "Base/LevelTree.h"

using namespace vf;
using namespace hpgem;
using Tree = Base::LevelTree<std::size_t>;
using It = Base::TreeIterator<std::size_t>;
using CIt = Base::TreeIteratorConst<std::size_t>;
using Entry = Base::TreeEntry<std::size_t>;
using M = Base::TreeTraversalMethod;

struct Node {
    std::size_t id, level, depth;
    Node* parent;
    std::vector<std::unique_ptr<Node>> child;
};

struct Model {
    std::vector<std::unique_ptr<Node>> root;
    std::size_t next = 0;
    void all(std::vector<Node*>& out) {
        std::vector<Node*> stack;
        for (std::size_t i = root.size(); i-- > 0;) stack.push_back(root[i].get());
        while (!stack.empty()) {
            Node* n = stack.back();
            stack.pop_back();
            out.push_back(n);
            for (std::size_t i = n->child.size(); i-- > 0;) stack.push_back(n->child[i].get());
        }
    }
    using Seq = std::vector<std::size_t>;
    static void pre(const Node& n, Seq& s) {
        for (std::size_t k = 0; k < n.depth; ++k) s.push_back(n.id);
        for (auto& c : n.child) pre(*c, s);
    }
    static void post(const Node& n, Seq& s) {
        for (auto& c : n.child) post(*c, s);
        for (std::size_t k = 0; k < n.depth; ++k) s.push_back(n.id);
    }
    static void level(const Node& n, std::size_t l, Seq& s) {
        if (n.level <= l && l < n.level + n.depth) s.push_back(n.id);
        for (auto& c : n.child) level(*c, l, s);
    }
    std::size_t levels() {
        std::vector<Node*> v;
        all(v);
        std::size_t m = 0;
        for (auto* n : v) m = std::max(m, n->level + n->depth);
        return m;
    }
    Seq sequence(M m, std::size_t l) {
        Seq s;
        if (m == M::PREORDER)
            for (auto& r : root) pre(*r, s);
        else if (m == M::POSTORDER)
            for (auto& r : root) post(*r, s);
        else if (m == M::SINGLELEVEL)
            for (auto& r : root) level(*r, l, s);
        else
            for (std::size_t k = 0; k < levels(); ++k)
                for (auto& r : root) level(*r, k, s);
        return s;
    }
};

static std::string show(const std::vector<std::size_t>& v) {
    std::string s;
    for (std::size_t i = 0; i < v.size() && i < 60; ++i) s += str(v[i], " ");
    return s;
}
static const char* nameOf(M m) { return m == M::PREORDER ? "preorder" : m == M::POSTORDER ? "postorder" : m == M::SINGLELEVEL ? "level" : "alllevel"; }

static bool hasStretchedLeaf, hasStretched;

template <typename I>
std::vector<std::size_t> walk(I b, I e, std::size_t limit) {
    std::vector<std::size_t> s;
    while (b != e && s.size() < limit) {
        s.push_back(*b);
        ++b;
    }
    return s;
}

static void judge(const std::vector<std::size_t>& got, const std::vector<std::size_t>& want, const std::string& key) {
    expect(got == want, key, "got ", show(got), " want ", show(want));
}

static std::string kind() { return hasStretchedLeaf ? "tree:stretched-leaves" : hasStretched ? "tree:stretched" : "tree"; }

// whole traversals, all ways to ask for them
static void traverse(Tree& t, Model& m, M method, std::size_t l, Rng& r) {
    auto want = m.sequence(method, l);
    auto back = want;
    std::reverse(back.begin(), back.end());
    std::size_t limit = want.size() * 3 + 20;
    std::string key = str(kind(), ":", nameOf(method));
    if (method == M::SINGLELEVEL)
        t.setSingleLevelTraversal(l);
    else if (below(r, 2))
        t.setTraversalMethod(method);
    else if (method == M::PREORDER)
        t.setPreOrderTraversal();
    else if (method == M::POSTORDER)
        t.setPostOrderTraversal();
    else
        t.setAllLevelTraversal();
    const Tree& ct = t;
    count(str("traversals-", nameOf(method)));
    guard(key + ":forward", [&]() {
        judge(walk(t.begin(), t.end(), limit), want, key + ":forward");
        judge(walk(ct.begin(), ct.end(), limit), want, key + ":const-forward");
        std::vector<std::size_t> s;
        for (std::size_t x : t) {
            s.push_back(x);
            if (s.size() > limit) break;
        }
        judge(s, want, key + ":range");
    });
    guard(key + ":backward", [&]() {
        judge(walk(t.rbegin(), t.rend(), limit), back, key + ":backward");
        judge(walk(ct.rbegin(), ct.rend(), limit), back, key + ":const-backward");
    });
    if (!t.empty())
        guard(key + ":named-begin", [&]() {
            It b = method == M::SINGLELEVEL ? t.beginLevel(l) : method == M::PREORDER ? t.beginPreOrder() : method == M::POSTORDER ? t.beginPostOrder() : t.beginAllLevel();
            judge(walk(b, t.end(), limit), want, key + ":named-begin");
        });
    if (method == M::SINGLELEVEL) expect(t.getActiveLevel() == l, "tree:active-level", t.getActiveLevel());
    // a random walk
    if (!want.empty())
        guard(key + ":steps", [&]() {
            It b = t.begin();
            std::size_t pos = 0;
            for (int k = 0; k < 30; ++k) {
                bool fwd = pos == want.size() ? false : pos == 0 ? true : below(r, 2);
                bool postfix = below(r, 2);
                It old = b;
                It before = postfix ? (fwd ? b++ : b--) : old;
                if (!postfix) fwd ? ++b : --b;
                if (postfix && !expect(before == old, key + ":postfix", "position ", pos)) return;
                pos += fwd ? 1 : -1;
                bool atEnd = b == t.end();
                if (!expect(atEnd == (pos == want.size()), key + ":steps-end", "at position ", pos, " of ", want.size())) return;
                if (!atEnd && !expect(*b == want[pos], key + ":steps", "position ", pos, " of ", want.size(), " got ", *b, " want ", want[pos])) return;
                if (!atEnd) {
                    CIt c = b;
                    expect(*c == want[pos] && c == b, key + ":const-copy", pos);
                    It cp(b);
                    It mv(std::move(cp));
                    It as;
                    as = mv;
                    expect(*as == want[pos] && as == b, key + ":copy", pos);
                }
            }
        });
}

static void structure(const Node& n, const Entry* e, const Entry* parent, std::size_t index, std::size_t siblings) {
    expect(e->getData() == n.id, "tree:entry:data", e->getData());
    expect(e->getLevel() == n.level, "tree:entry:level", n.id, " at ", e->getLevel(), " want ", n.level);
    expect(e->getDepth() == n.depth, "tree:entry:depth", n.id, " has ", e->getDepth(), " want ", n.depth);
    expect(e->isRoot() == (parent == nullptr), "tree:entry:root", n.id);
    if (parent) expect(e->getParent() == parent, "tree:entry:parent", n.id);
    expect(e->getSiblingIndex() == index, "tree:entry:sibling-index", n.id, " is ", e->getSiblingIndex());
    expect(e->getNumberOfSiblings() == siblings, "tree:entry:siblings", n.id, " has ", e->getNumberOfSiblings());
    expect(e->isFirstSibling() == (index == 0) && e->isLastSibling() == (index + 1 == siblings), "tree:entry:first-last", n.id);
    expect(e->getNumberOfChildren() == n.child.size(), "tree:entry:children", n.id, " has ", e->getNumberOfChildren());
    expect(e->hasChild() == !n.child.empty() && e->isLeaf() == n.child.empty(), "tree:entry:leaf", n.id);
    std::size_t k = 0;
    for (const Entry* s : e->getSiblings()) {
        expect((s == e) == (k == index), "tree:entry:sibling-list", n.id);
        ++k;
    }
    expect(k == siblings, "tree:entry:sibling-count", k);
    if (e->getNumberOfChildren() != n.child.size()) return;
    if (!n.child.empty()) expect(e->getFirstChild() == e->getChild(0) && e->getLastChild() == e->getChild(n.child.size() - 1), "tree:entry:first-child", n.id);
    k = 0;
    for (const Entry* s : e->getChildren()) {
        if (!expect(k < n.child.size() && s == e->getChild(k), "tree:entry:child-list", n.id)) return;
        structure(*n.child[k], s, e, k, n.child.size());
        ++k;
    }
    expect(k == n.child.size(), "tree:entry:child-count", k);
}

// random iterator to a given entry
static It find(Tree& t, std::size_t id, Rng& r) {
    // getRootEntries gives const entries; search by a traversal that is
    // trusted as soon as traverse() has judged it
    t.setPreOrderTraversal();
    It b = t.begin();
    std::size_t steps = 0;
    while (*b != id && steps++ < 100000) ++b;
    (void)r;
    return b;
}

static void history(int mode, Rng& r) {
    Tree t;
    Model m;
    std::string log = str("mode ", mode, ":");
    auto check = [&]() {
        begin(log.size() > 3500 ? log.substr(log.size() - 3500) : log);
        std::vector<Node*> v;
        m.all(v);
        hasStretched = hasStretchedLeaf = false;
        for (auto* n : v)
            if (n->depth > 1) (n->child.empty() ? hasStretchedLeaf : hasStretched) = true;
        expect(t.empty() == m.root.empty(), "tree:empty", t.empty());
        expect(t.size() == m.root.size(), "tree:size", t.size());
        std::size_t levels = m.levels();
        if (!expect(t.maxLevel() == levels, "tree:levels", t.maxLevel(), " want ", levels)) return false;
        std::size_t k = 0;
        for (const Entry* e : t.getRootEntries()) {
            if (!expect(k < m.root.size(), "tree:roots", k)) return false;
            structure(*m.root[k], e, nullptr, k, m.root.size());
            ++k;
        }
        expect(k == m.root.size(), "tree:roots", k);
        for (M method : {M::PREORDER, M::POSTORDER, M::ALLLEVEL}) traverse(t, m, method, 0, r);
        for (std::size_t l = 0; l < std::max<std::size_t>(levels, 1); ++l) traverse(t, m, M::SINGLELEVEL, l, r);
        std::string sh;
        for (auto* n : v) sh += str(n->level, ".", n->depth, ".", n->child.size(), " ");
        distinct(sh);
        return true;
    };
    if (!check()) return;
    int ops = 1 + below(r, 12);
    for (int k = 0; k < ops; ++k) {
        std::vector<Node*> v;
        m.all(v);
        std::size_t op = v.empty() ? 0 : below(r, mode == 0 ? 7 : 9);
        if (op <= 1) {
            int n = 1 + below(r, 4);
            for (int i = 0; i < n; ++i) {
                It it = t.addRootEntry(m.next);
                expect(*it == m.next, "tree:add-root:iterator", *it);
                m.root.emplace_back(new Node{m.next++, 0, 1, nullptr, {}});
            }
            log += str(" roots*", n);
            count("root-additions");
        } else if (op <= 5) {
            Node* p = v[below(r, v.size())];
            int n = 1 + below(r, 4);
            std::vector<std::size_t> ids;
            for (int i = 0; i < n; ++i) ids.push_back(m.next++);
            It it = find(t, p->id, r);
            bool stretch = mode >= 1 && p->child.empty() && below(r, 3) == 0;
            std::size_t level = p->level + p->depth;
            if (stretch) {
                level = p->level + p->depth + below(r, 4);
                p->depth = level - p->level;
            } else if (!p->child.empty()) {
                level = p->child[0]->level;
            }
            bool giveLevel = stretch || below(r, 3) == 0;
            t.setAllLevelTraversal();
            if (n == 1 || below(r, 2)) {
                for (auto id : ids) {
                    It c = giveLevel ? t.addChild(it, id, level) : t.addChild(it, id);
                    expect(*c == id, "tree:add-child:iterator", *c);
                }
            } else if (giveLevel) {
                t.addChildren(it, ids, level);
            } else {
                t.addChildren(it, ids);
            }
            for (auto id : ids) p->child.emplace_back(new Node{id, level, 1, p, {}});
            log += str(" children(", p->id, ")*", n, giveLevel ? str("@", level) : "");
            count("child-additions");
        } else if (op == 6) {
            if (below(r, 8) == 0) {
                t.clear();
                m.root.clear();
                log += " clear";
                count("clears");
            } else {
                Node* p = v[below(r, v.size())];
                It it = find(t, p->id, r);
                t.eraseChilds(it);
                p->child.clear();
                p->depth = 1;
                log += str(" erase(", p->id, ")");
                count("erasures");
            }
        } else if (mode >= 2) {
            std::size_t level = below(r, m.levels() + 2);
            t.fillToLevel(level);
            for (auto* n : v)
                if (n->child.empty() && n->level + n->depth - 1 < level) n->depth = level - n->level + 1;
            log += str(" fill(", level, ")");
            count("fills");
        }
        if (!check()) return;
    }
}

int main(int argc, char** argv) {
    init(argc, argv);
    int n = std::stoi(arg("cases", st().thorough ? "20000" : "700"));
    for (int mode = 0; mode < 3; ++mode)
        for (int k = 0; k < n; ++k) {
            Rng r = rng(str("tree", arg("salt"), mode, ":", k));
            guard("tree", [&]() { history(mode, r); });
        }
    return finish();
}
