// The block hierarchy under random operations, against a tree kept by the harness.
#include "core.hpp"
#include "pooya_all.hpp"
#include <algorithm>

namespace vh
{
bool debug_build()
{
#ifdef POOYA_DEBUG
    return true;
#else
    return false;
#endif
}
const char* suite_property = "C15";
const char* suite_rule = "random sequences of constructing, set_parent, add_block, link_block and rename on up to 24 submodels and leaves with arbitrary names, rarely on up to 400 siblings or 70 levels; after each operation parents and full names, and in between complete traversals (visit and const_visit, from any node, any start level and maximum level, stopped after any number of blocks) and pre_step/post_step/unprocessed notifications are compared with a model tree; non-trivial: at least 4 blocks in one tree";
using namespace pooya;
namespace
{
struct Log
{
    std::vector<std::pair<int, std::pair<int, double>>> ev; // node, (kind, t)
};
struct TSub : Submodel
{
    Log* l;
    int id;
    TSub(Log* ll, int i, Submodel* p, std::string_view n) : Submodel(p, n), l(ll), id(i) {}
    void pre_step(double t) override { l->ev.push_back({id, {0, t}}); Submodel::pre_step(t); }
    void post_step(double t) override { l->ev.push_back({id, {1, t}}); Submodel::post_step(t); }
    void _mark_unprocessed() override { l->ev.push_back({id, {2, 0}}); Submodel::_mark_unprocessed(); }
};
struct TLeaf : Leaf
{
    Log* l;
    int id;
    TLeaf(Log* ll, int i, Submodel* p, std::string_view n) : Leaf(p, n), l(ll), id(i) {}
    void pre_step(double t) override { l->ev.push_back({id, {0, t}}); Leaf::pre_step(t); }
    void post_step(double t) override { l->ev.push_back({id, {1, t}}); Leaf::post_step(t); }
    void _mark_unprocessed() override { l->ev.push_back({id, {2, 0}}); Leaf::_mark_unprocessed(); }
    void activation_function(double) override { act++; }
    int act = 0;
};
std::string emend(std::string s)
{
    for (auto& c : s)
        if (!((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_')) c = '_';
    return s;
}
struct Node
{
    std::unique_ptr<Block> b;
    bool sub;
    int par = -1;
    std::vector<int> kids;
    std::string name;
    bool connected = false;
};
struct World
{
    std::vector<Node> n;
    Log log;
    std::string full(int i) const { return (n[i].par < 0 ? std::string() : full(n[i].par)) + "/" + n[i].name; }
    bool in_subtree(int i, int root) const
    {
        for (; i >= 0; i = n[i].par)
            if (i == root) return true;
        return false;
    }
    void walk(int i, uint32_t level, uint32_t maxl, std::vector<std::pair<int, uint32_t>>& v) const
    {
        if (level > maxl) return;
        v.push_back({i, level});
        for (int k : n[i].kids) walk(k, level + 1, maxl, v);
    }
    int id(const Block& b) const
    {
        for (std::size_t i = 0; i < n.size(); i++)
            if (n[i].b.get() == &b) return int(i);
        return -1;
    }
    int size(int i) const
    {
        int s = 1;
        for (int k : n[i].kids) s += size(k);
        return s;
    }
};
} // namespace

void suite_case(Ctx& c)
{
    Rng& r = c.rng;
    CoutCapture cap;
    World w;
    // rarely a large tree: 1 wide, 2 deep
    const int large = r.chance(0.004) ? r.range(1, 2) : 0;
    std::string& d = c.desc;
    static const char* names[] = {"a", "b", "Sub 1", "x.y", "", "_", "\xc3\xa9", "a/b", "0", "long_name_long_name_long_name_long_name", "a", "-"};
    auto new_node = [&]()
    {
        const int i = int(w.n.size());
        Node q;
        q.sub             = r.chance(0.55) || i == 0 || large == 2;
        std::string nm    = r.chance(0.6) ? strf("n%d", i) : names[r.range(0, 11)];
        q.name            = emend(nm);
        int p = -1;
        if (i > 0 && (r.chance(0.5) || large))
        {
            std::vector<int> subs;
            for (int k = 0; k < i; k++) if (w.n[k].sub) subs.push_back(k);
            p = large == 1 ? 0 : large == 2 ? subs.back() : r.pick(subs);
        }
        Submodel* ps = p < 0 ? nullptr : static_cast<Submodel*>(w.n[p].b.get());
        if (q.sub) q.b = std::make_unique<TSub>(&w.log, i, ps, nm);
        else q.b = std::make_unique<TLeaf>(&w.log, i, ps, nm);
        q.par = p;
        w.n.push_back(std::move(q));
        if (p >= 0) w.n[p].kids.push_back(i);
        d += strf("new %s%d('%s', parent %d); ", w.n[i].sub ? "sub" : "leaf", i, w.n[i].name.c_str(), p);
    };
    auto check_names = [&]()
    {
        for (std::size_t i = 0; i < w.n.size(); i++)
        {
            const auto& q = w.n[i];
            const Block* pp = q.par < 0 ? nullptr : w.n[q.par].b.get();
            VH_CHECK(q.b->parent() == pp, "block %zu has parent %d instead of %d", i, q.b->parent() ? w.id(*q.b->parent()) : -1, q.par);
            const std::string f = q.b->full_name().str();
            VH_CHECK(f == w.full(int(i)), "block %zu reports the full name '%s' instead of '%s'", i, f.c_str(), w.full(int(i)).c_str());
        }
        c.count("names and parents compared", w.n.size());
    };
    auto check_visit = [&]()
    {
        const int root     = r.range(0, int(w.n.size()) - 1);
        const uint32_t lv0 = r.chance(0.7) ? 0 : uint32_t(r.range(1, 3));
        const uint32_t ml  = r.chance(0.5) ? std::numeric_limits<uint32_t>::max() : uint32_t(r.range(0, large == 2 ? 80 : 6));
        std::vector<std::pair<int, uint32_t>> want, got;
        w.walk(root, lv0, ml, want);
        const int stop = r.chance(0.5) ? -1 : r.range(1, int(want.size()) + 1);
        bool res;
        const bool cv = r.chance(0.5), dm = ml == std::numeric_limits<uint32_t>::max() && r.chance(0.5);
        auto rec = [&](const Block& b, uint32_t level) -> bool
        {
            got.push_back({w.id(b), level});
            VH_CHECK(got.size() <= want.size() + 5, "traversal does not end");
            return int(got.size()) != stop;
        };
        Block& rb = *w.n[root].b;
        if (cv)
        {
            auto cb = [&](const Block& b, uint32_t l) { return rec(b, l); };
            res     = dm ? static_cast<const Block&>(rb).const_visit(cb, lv0) : static_cast<const Block&>(rb).const_visit(cb, lv0, ml);
        }
        else
        {
            auto cb = [&](Block& b, uint32_t l) { return rec(b, l); };
            res     = dm ? rb.visit(cb, lv0) : rb.visit(cb, lv0, ml);
        }
        const bool stopped = stop > 0 && stop <= int(want.size());
        if (stopped) want.resize(stop);
        auto str = [](const std::vector<std::pair<int, uint32_t>>& v)
        {
            std::string s;
            for (auto& p : v) s += strf("%d@%u ", p.first, p.second);
            return s;
        };
        VH_CHECK(got == want, "%s from block %d, level %u, maximum %u%s: visited %s instead of %s", cv ? "const_visit" : "visit", root, lv0, ml, stopped ? strf(", stopped after %d", stop).c_str() : "", str(got).c_str(), str(want).c_str());
        VH_CHECK(res == !stopped, "traversal returned %d", int(res));
        c.count("traversals compared");
        if (stopped) c.count("stopped traversals");
    };
    auto check_notify = [&]()
    {
        const int root = r.range(0, int(w.n.size()) - 1);
        const int kind = r.range(0, 2);
        const double t = r.uni(-3, 9);
        w.log.ev.clear();
        Block& b = *w.n[root].b;
        if (kind == 0) b.pre_step(t);
        else if (kind == 1) b.post_step(t);
        else b._mark_unprocessed();
        std::vector<int> cnt(w.n.size(), 0);
        for (auto& e : w.log.ev)
        {
            VH_CHECK(e.second.first == kind, "block %d got another notification", e.first);
            VH_CHECK(kind == 2 || e.second.second == t, "block %d notified of t=%.17g instead of %.17g", e.first, e.second.second, t);
            cnt[e.first]++;
        }
        for (std::size_t i = 0; i < w.n.size(); i++)
            VH_CHECK(cnt[i] == int(w.in_subtree(int(i), root)), "notification %d to block %d: block %zu was notified %d times", kind, root, i, cnt[i]);
        if (kind == 2)
            for (std::size_t i = 0; i < w.n.size(); i++)
                if (w.in_subtree(int(i), root)) VH_CHECK(!w.n[i].b->processed(), "block %zu is still marked as processed", i);
        c.count("notifications compared");
    };
    new_node();
    if (large)
        for (int i = large == 1 ? r.range(30, 400) : r.range(20, 70); i > 0; i--) new_node();
    const int ops = large ? r.range(2, 12) : r.range(6, 60);
    for (int op = 0; op < ops; op++)
    {
        const int k = r.range(0, 9);
        if (k <= 2 && (w.n.size() < 24 || large)) new_node();
        else if (k <= 7)
        {
            // adopt
            std::vector<int> subs;
            for (std::size_t i = 0; i < w.n.size(); i++) if (w.n[i].sub) subs.push_back(int(i));
            const int p = r.pick(subs), b = r.range(0, int(w.n.size()) - 1);
            Submodel& ps = static_cast<Submodel&>(*w.n[p].b);
            Block& bb    = *w.n[b].b;
            const int how = r.range(0, 2);
            if (how < 2 && w.in_subtree(p, b) && w.n[b].par < 0) continue; // would make a cycle
            if (how < 2 && w.in_subtree(p, b) && w.n[b].par == p) continue;
            const bool may = w.n[b].par < 0 || w.n[b].par == p;
            const bool neu = w.n[b].par < 0;
            bool res = false, threw = false;
            d += strf("%s(%d, %d); ", how == 0 ? "set_parent" : how == 1 ? "add_block" : "link_block", p, b);
            if (how == 0) res = bb.set_parent(ps);
            else if (how == 1)
            {
                try
                {
                    res = ps.add_block(bb);
                }
                catch (const std::exception&)
                {
                    threw = true; // a connected block may not be connected again
                    VH_CHECK(w.n[b].connected, "add_block(%d, %d) threw", p, b);
                }
                if (!threw && may) w.n[b].connected = true;
            }
            else
            {
                res = ps.link_block(bb);
                VH_CHECK(res == (w.n[b].par == p), "link_block(%d, %d) returned %d", p, b, int(res));
            }
            if (how < 2)
            {
                VH_CHECK(threw || res == may, "%s: block %d with parent %d: adding it to %d returned %d", how ? "add_block" : "set_parent", b, w.n[b].par, p, int(res));
                if (neu)
                {
                    w.n[b].par = p;
                    w.n[p].kids.push_back(b);
                }
                if (!may) c.count("second parents refused");
                else if (!neu) c.count("repeated adoptions");
            }
            VH_CHECK(bb.connected() == w.n[b].connected, "%s(%d, %d): block is %sconnected", how ? "add_block" : "set_parent", p, b, bb.connected() ? "" : "not ");
        }
        else if (k == 8)
        {
            const int b = r.range(0, int(w.n.size()) - 1);
            std::string nm = names[r.range(0, 11)];
            w.n[b].b->rename(nm);
            w.n[b].name = emend(nm);
            d += strf("rename(%d, '%s'); ", b, nm.c_str());
        }
        check_names();
        if (r.chance(0.6)) check_visit();
        if (r.chance(0.4)) check_notify();
    }
    for (int i = 0; i < 4; i++) { check_visit(); check_notify(); }
    int big = 0;
    for (std::size_t i = 0; i < w.n.size(); i++) if (w.n[i].par < 0) big = std::max(big, w.size(int(i)));
    if (big >= 4) c.nontrivial(hash_str(d));
    cap.os.str("");
}
} // namespace vh
