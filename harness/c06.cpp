#include "pooya_all.hpp"
#include "core.hpp"
using namespace pooya;
namespace vh
{
bool debug_build()
{
#ifdef POOYA_DEBUG
    return true;
#else
    return false;
#endif
}
const char* suite_property = "C06";
const char* suite_rule = "random trees of buses (depth up to 4, labels with characters that are sanitized, prefixes of each other, automatic labels, shared signals, named and unnamed signals); every index, label and dotted path is looked up with every accessor and compared with a model by identity; mutated, truncated, extended, empty and wrong-type paths and out-of-range indices must be refused; non-trivial: at least 2 nested buses and 10 refused lookups";
static std::string emend(std::string s)
{
    for (auto& ch : s)
        if (!((ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') || (ch >= '0' && ch <= '9') || ch == '_')) ch = '_';
    return s;
}
struct Node
{
    std::optional<Signal> sig;
    std::optional<Bus> bus;
    std::string name; // expected name
    std::vector<std::pair<std::string, Node*>> kids;
};
struct T
{
    Ctx& c;
    Rng& r;
    std::vector<std::unique_ptr<Node>> pool;
    std::string buf;
    u64 found = 0, refused = 0, nbus = 0, h = 7;
    int max_depth;
    explicit T(Ctx& cc) : c(cc), r(cc.rng), max_depth(cc.rng.chance(0.05) ? cc.rng.range(4, 24) : 3) {}
    std::string rlabel(std::set<std::string>& used)
    {
        static const char* const frag[] = {"a", "b", "x", "sig0", "sig1", "sig", "a b", "a.b", "x/y", "A", "_", "1", "aa", "ab", "\xc3\xa9", "", "Z", "z3"};
        for (;;)
        {
            std::string l = frag[r.range(0, 17)];
            if (r.chance(0.4)) l += frag[r.range(0, 17)];
            if (r.chance(0.1)) l += std::string(r.range(20, 60), 'q');
            if (used.insert(emend(l)).second) return l;
        }
    }
    Node* leaf()
    {
        pool.emplace_back(new Node);
        Node* n = pool.back().get();
        std::string nm = r.chance(0.5) ? "" : strf("n%d", int(pool.size()));
        if (r.chance(0.1) && !nm.empty()) nm += " %";
        n->name = emend(nm);
        switch (r.range(0, 3))
        {
        case 0: n->sig.emplace(ScalarSignal(nm)); break;
        case 1: n->sig.emplace(IntSignal(nm)); break;
        case 2: n->sig.emplace(BoolSignal(nm)); break;
        default: n->sig.emplace(ArraySignal(std::size_t(r.range(1, 3)), nm));
        }
        return n;
    }
    Node* bus(int depth)
    {
        int m = r.range(depth == 0 ? 1 : 0, depth < 3 ? 6 : 2);
        if (depth < 2 && r.chance(0.02)) m = r.chance(0.2) ? r.range(100, 400) : r.range(7, 40); // a wide bus
        bool auto_l = r.chance(0.3);
        std::vector<std::pair<std::string, Node*>> kids;
        if (m > 6) c.count("buses with 7 to 400 signals");
        if (depth > 6) c.count("buses nested deeper than 6");
        std::set<std::string> used;
        for (int i = 0; i < m; i++)
        {
            Node* k = m > 6 ? (r.chance(0.05) && depth < 3 ? bus(depth + 1) : leaf()) : depth < max_depth && r.chance(depth < 3 ? 0.45 : 0.7) ? bus(depth + 1) : (!pool.empty() && r.chance(0.15) ? r.pick(pool).get() : leaf());
            kids.emplace_back(auto_l ? strf("sig%d", i) : m > 40 ? strf("w%d", i) : rlabel(used), k);
        }
        std::string nm = r.chance(0.5) ? "" : strf("bus%d", int(pool.size()));
        std::vector<LabSig> ls;
        std::vector<Signal> ss;
        for (auto& [l, k] : kids)
        {
            ls.emplace_back(l, *k->sig);
            ss.push_back(*k->sig);
            l = emend(l);
            if (k->name.empty()) k->name = l;
        }
        Bus b = auto_l ? mk_bus_auto(ss, nm) : mk_bus(ls, nm);
        pool.emplace_back(new Node);
        Node* n = pool.back().get();
        n->name = nm;
        n->kids = kids;
        n->bus.emplace(b);
        n->sig.emplace(b);
        nbus++;
        h = hash_u(h, u64(m * 16 + depth * 2 + auto_l));
        return n;
    }
    // the model's lookup
    Node* find(Node* n, const std::string& path)
    {
        auto p        = path.find('.');
        std::string l = path.substr(0, p);
        for (auto& [lab, k] : n->kids)
            if (lab == l)
            {
                if (p == std::string::npos) return k;
                return k->bus ? find(k, path.substr(p + 1)) : nullptr;
            }
        return nullptr;
    }
    template<class F>
    std::optional<SignalImpl*> get(F f)
    {
        try
        {
            Signal s = f();
            return &s.impl();
        }
        catch (const Violation&)
        {
            throw;
        }
        catch (const std::exception&)
        {
            return std::nullopt;
        }
    }
    void lookup(Node* n, const std::string& path)
    {
        Node* w = find(n, path);
        const Bus& b = *n->bus;
        if (buf.empty()) buf.reserve(4096);
        std::string path2 = path; // not the same buffer
        if (r.chance(0.7)) // or always the same buffer, with other contents
        {
            path2.swap(buf);
            path2.assign(path);
        }
        std::optional<SignalImpl*> res[5];
        res[0] = get([&] { return b.at(std::string_view(path2)); });
        res[1] = get([&] { return b[std::string_view(path2)]; });
        res[2] = get([&] { return b->at(std::string_view(path2)); });
        res[3] = get([&] { return (*b.operator->())[std::string_view(path2)]; });
        bool threw = false;
        try
        {
            auto q = b->try_at(path2);
            if (q) res[4] = &q->impl();
        }
        catch (const std::exception& e)
        {
            threw = true;
        }
        if (path2.capacity() >= 4096) path2.swap(buf);
        VH_CHECK(!threw, "try_at(\"%s\") threw", path.c_str());
        for (int i = 0; i < 5; i++)
        {
            const char* a = i == 4 ? "try_at" : i % 2 ? "operator[]" : "at";
            if (w)
            {
                VH_CHECK(res[i], "%s(\"%s\") refused an existing path", a, path.c_str());
                VH_CHECK(*res[i] == &w->sig->impl(), "%s(\"%s\") gave signal '%s' instead of '%s'", a, path.c_str(), (*res[i])->name().str().c_str(), w->name.c_str());
            }
            else
                VH_CHECK(!res[i], "%s(\"%s\") gave signal '%s', but there is no such path", a, path.c_str(), (*res[i])->name().str().c_str());
        }
        (w ? found : refused)++;
    }
    void paths(Node* n, const std::string& pre, std::vector<std::string>& out)
    {
        for (auto& [l, k] : n->kids)
        {
            out.push_back(pre + l);
            if (k->bus && out.size() < 400) paths(k, pre + l + ".", out);
        }
    }
    void check_bus(Node* n)
    {
        const Bus& b = *n->bus;
        const std::size_t m = n->kids.size();
        VH_CHECK(b.size() == m && b->size() == m, "bus of %d signals has size %d", int(m), int(b.size()));
        std::size_t i = 0;
        for (auto& [l, s] : b)
        {
            VH_CHECK(i < m && l == n->kids[i].first && &s.impl() == &n->kids[i].second->sig->impl(), "iteration: element %d is %s", int(i), l.c_str());
            i++;
        }
        VH_CHECK(i == m && std::size_t(b.end() - b.begin()) == m, "iteration visited %d of %d signals", int(i), int(m));
        for (i = 0; i < m + 5; i++)
        {
            std::size_t k = i < m ? i : i == m ? m : i == m + 1 ? m + 7 : i == m + 2 ? std::size_t(-1) : (std::size_t(1) << (i == m + 3 ? 32 : r.range(8, 63))) + (m ? r.next() % m : 0);
            SignalImpl* w = k < m ? &n->kids[k].second->sig->impl() : nullptr;
            for (int a = 0; a < 4; a++)
            {
                if (!w && a % 2 && !debug_build()) continue; // unchecked access
                auto x = get([&] { return a == 0 ? b.at(k) : a == 1 ? b[k] : a == 2 ? b->at(k) : (*b.operator->())[k]; });
                if (w) VH_CHECK(x && *x == w, "index %d: %s", int(k), x ? "another signal" : "refused");
                else
                {
                    VH_CHECK(!x, "index %d of a bus with %d signals was accepted", int(k), int(m));
                    refused++;
                }
            }
        }
        std::vector<std::string> ps;
        paths(n, "", ps);
        if (ps.size() > 60) { r.shuffle(ps); ps.resize(60); }
        for (auto& p : ps)
        {
            lookup(n, p);
            std::string q = p;
            switch (r.range(0, 10))
            {
            case 0: q += "."; break;
            case 1: q = "." + q; break;
            case 2: q = q.substr(0, q.size() - std::min<std::size_t>(q.size(), 1)); break;
            case 3: q += "x"; break;
            case 4: q += ".a"; break;
            case 5: q += ".sig0.sig0"; break;
            case 6: if (auto d = q.find('.'); d != std::string::npos) q.insert(d, "."); break;
            case 7: if (!q.empty()) q[r.next() % q.size()] = "ab._1 "[r.range(0, 5)]; break;
            case 8: if (auto d = q.find('.'); d != std::string::npos) q = q.substr(d + 1); break;
            case 9: if (auto d = q.rfind('.'); d != std::string::npos) q = q.substr(0, d); break;
            default: q = q + "." + r.pick(ps); break;
            }
            lookup(n, q);
        }
        for (const char* p : {"", ".", "..", "sig0", "sig1", "sig2", "sig01", "nothing", "a.a", "x.x.x"}) lookup(n, p);
    }
};
void suite_case(Ctx& c)
{
    T t(c);
    c.desc  = strf("bus tree of case %llu", (unsigned long long)c.caseno);
    Node* n = t.bus(0);
    std::vector<std::string> ps;
    t.paths(n, "", ps);
    c.desc = "paths:";
    for (auto& p : ps) { if (c.desc.size() < 1200) c.desc += " " + p; t.h = hash_str(p, t.h); }
    for (auto& p : t.pool)
    {
        if (p->bus) t.check_bus(p.get());
        VH_CHECK(p->sig->impl().name().str() == p->name || p.get() == n, "signal is named '%s' instead of '%s'", p->sig->impl().name().str().c_str(), p->name.c_str());
    }
    // renaming a signal changes neither its labels nor what they lead to
    if (t.r.chance(0.3))
    {
        for (auto& p : t.pool)
            if (t.r.chance(0.5)) p->name = t.r.chance(0.5) ? strf("r%d", t.r.range(0, 9)) : t.r.pick(t.pool)->name, p->sig->impl().rename(p->name);
        for (auto& p : t.pool)
        {
            if (p->bus) t.check_bus(p.get());
            VH_CHECK(p->sig->impl().name().str() == p->name || p.get() == n, "signal is named '%s' instead of '%s'", p->sig->impl().name().str().c_str(), p->name.c_str());
        }
        c.count("bus trees with renamed signals");
    }
    // a handle made from the signal found by path is the same bus
    for (auto& p : ps)
    {
        Node* k = t.find(n, p);
        if (!k || !k->bus) continue;
        Bus b2(n->bus->at(p));
        VH_CHECK(&b2.impl() == &k->bus->impl() && b2.size() == k->kids.size(), "bus found by path %s is another one", p.c_str());
    }
    c.count("paths found", t.found);
    c.count("lookups refused", t.refused);
    c.count("buses", t.nbus);
    if (t.nbus >= 3 && t.refused >= 10) c.nontrivial(t.h);
}
} // namespace vh
