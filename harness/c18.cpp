// Random API histories over pools of objects, under sanitizers: the oracle is the sanitizer.
#include "kinds.hpp"
#include <algorithm>
#include <unistd.h>

namespace vh
{
using namespace pooya;
const char* suite_property = "C18";
const char* suite_rule = "random histories of 30-150 API calls over pools of signals, typed handles, buses, 44 kinds of blocks, bus memories and pipes, submodels, three kinds of simulators, three steppers and histories with weird and very long names: creation, assignment, copying, redirecting, connecting (also wrongly, then rightly), adding, traversing, running, re-initializing, recording, exporting and destroying in every order, with every refused call (in release builds only those that are refused there too); ASan, UBSan and LSan (or memcheck) judge; non-trivial: a history with a connected tree of at least 3 blocks that was simulated";
namespace
{
volatile double g_sink;
volatile std::size_t g_sinkn;
void use(const std::string& s)
{
    // read every byte
    std::size_t h = s.size();
    for (unsigned char ch : s) h = h * 31 + ch;
    g_sinkn = h;
}
void use(double d) { g_sink = d; if (d == 12345.678) g_sinkn = 1; /* a branch: memcheck sees uninitialised values */ }

struct Tree;
struct Node
{
    std::unique_ptr<Block> b;
    Submodel* as_sub{nullptr};
    Node* parent{nullptr};
    bool tried{false}; // a connection was attempted
    bool conn{false};
    int tree{0};
    int kind{-1}; // -1: submodel
};
struct Leaf0 : Leaf
{
    Leaf0(Submodel* p, std::string_view n) : Leaf(p, n) {}
};

struct BadIn : SingleInputT<double>
{
    BadIn(Submodel* p, const std::string& n) : SingleInputT<double>(p, n, 2, 1) {}
};
struct BadOut : SingleOutputT<double>
{
    BadOut(Submodel* p, const std::string& n) : SingleOutputT<double>(p, n, 1, 2) {}
};

struct World
{
    Ctx& c;
    Rng& r;
    std::vector<Kind> ks = kinds();
    std::vector<Signal> sig; // pool of value signals
    std::vector<Ty> sty;
    std::vector<int> slen;
    std::vector<int> owner; // tree that drives it; -1: nobody
    std::vector<Bus> bus;
    std::vector<std::unique_ptr<Node>> node;
    std::map<int, bool> wild; // trees with connections that a run may refuse
    struct Sm
    {
        std::unique_ptr<SimulatorBase> s;
        int tree;
        double t;
        bool hasdelay{false};
        bool dead{false};
        std::size_t version{0}; // of the tree when the simulator was last initialized
    };
    std::map<int, std::size_t> version;
    std::vector<Sm> sims;
    std::vector<std::shared_ptr<StepperBase>> steps;
    struct Hi
    {
        std::unique_ptr<History> h;
        std::vector<Signal> tracked;
        uint rows{0};
        bool updated{false};
    };
    std::vector<Hi> hist;
    int next_tree = 0;
    std::size_t calls = 0, refused = 0, simulated = 0;
    explicit World(Ctx& c_) : c(c_), r(c_.rng) {}

    template<class F>
    bool call(const char* what, F f)
    {
        calls++;
        c.count(what);
        if (c.verbose) fprintf(stderr, "%s\n", what);
        try
        {
            f();
            return true;
        }
        catch (const std::exception& e)
        {
            use(std::string(e.what()));
            refused++;
            c.count("refused calls");
            if (c.verbose) fprintf(stderr, "  refused: %s\n", std::string(e.what()).substr(0, 700).c_str());
            return false;
        }
    }
    std::string name()
    {
        static const char* n[] = {"", "a", "b", "x.y", "/", "a/b", "..", "1", " ", "\xc3\xa9", "a\nb", "_", "%s%n", "sig0", "signal"};
        const int k = r.range(0, 40);
        if (k < 15) return n[k];
        if (k == 15) return std::string(std::size_t(r.range(100, 3000)), 'n');
        if (k == 16) return std::string("nul\0inside", 10);
        return strf("n%d", r.range(0, 500));
    }
    std::size_t new_sig(Ty t, int len)
    {
        sig.push_back(mk(t, len, name()));
        sty.push_back(t);
        slen.push_back(len);
        owner.push_back(-1);
        return sig.size() - 1;
    }
    int rnd_len() { return r.chance(0.85) ? N : r.range(1, 5); }
    std::vector<Node*> alive()
    {
        std::vector<Node*> v;
        for (auto& n : node) v.push_back(n.get());
        return v;
    }
    Node* pick_sub(int tree)
    {
        std::vector<Node*> v;
        for (auto& n : node)
            if (n->as_sub && (tree < 0 || n->tree == tree)) v.push_back(n.get());
        return v.empty() ? nullptr : r.pick(v);
    }
    Node* root_of(Node* n)
    {
        while (n->parent) n = n->parent;
        return n;
    }
    bool has_kind(int tree, const std::string& k)
    {
        for (auto& n : node)
            if (n->tree == tree && n->kind >= 0 && ks[n->kind].name.rfind(k, 0) == 0) return true;
        return false;
    }
    // --- operations
    void op_signal()
    {
        call("create signal", [&]
        {
            new_sig(Ty(r.range(0, 3)), rnd_len());
            use(sig.back()->name().str());
        });
    }
    void op_value()
    {
        if (sig.empty()) return;
        const std::size_t i = r.next() % sig.size();
        auto* v  = dynamic_cast<ValueSignalImpl*>(&sig[i].impl());
        const int what = r.range(0, 3);
        if (what == 0) { call("clear", [&] { v->clear(); }); return; }
        if (what == 1)
        {
            if (v->assigned() && !debug_build()) return;
            call("assign", [&]
            {
                if (auto* q = dynamic_cast<ScalarSignalImpl*>(v)) q->set_value(r.uni(-1, 1));
                else if (auto* q = dynamic_cast<IntSignalImpl*>(v)) q->set_value(r.range(-5, 5));
                else if (auto* q = dynamic_cast<BoolSignalImpl*>(v)) q->set_value(r.chance(0.5));
                else if (auto* q = dynamic_cast<ArraySignalImpl*>(v))
                    q->set_value(Array::Constant(debug_build() && r.chance(0.2) ? r.range(1, 6) : slen[i], 0.5));
            });
            return;
        }
        if (!v->assigned() && !debug_build()) return;
        call("read", [&]
        {
            if (auto* q = dynamic_cast<ScalarSignalImpl*>(v)) use(q->get_value());
            else if (auto* q = dynamic_cast<IntSignalImpl*>(v)) use(double(q->get_value()));
            else if (auto* q = dynamic_cast<BoolSignalImpl*>(v)) use(q->get_value() ? 1.0 : 0.0);
            else if (auto* q = dynamic_cast<ArraySignalImpl*>(v))
            {
                const Array& a = q->get_value();
                for (int k = 0; k < a.size(); k++) use(a[k]);
            }
        });
    }
    template<class T>
    void typed(const Signal& s, const Signal& s2)
    {
        call("typed handle", [&]
        {
            T a(s);
            T b(a);
            Signal up = b;
            use(up->name().str());
            a.reset(s2);
            if (debug_build() || std::is_same_v<T, Bus>) b = a; // assigns the value: a must be assigned, b not
            T m(std::move(b));
            use(m->name().str());
        });
    }
    void op_handle()
    {
        if (sig.empty()) return;
        const Signal s = r.pick(sig), s2 = r.pick(sig);
        switch (r.range(0, 4))
        {
        case 0: typed<ScalarSignal>(s, s2); break;
        case 1: typed<IntSignal>(s, s2); break;
        case 2: typed<BoolSignal>(s, s2); break;
        case 3: typed<ArraySignal>(s, s2); break;
        default: if (!bus.empty()) typed<Bus>(r.chance(0.5) ? Signal(r.pick(bus)) : s, Signal(r.pick(bus))); break;
        }
    }
    Signal any_sig()
    {
        if (!bus.empty() && r.chance(0.15)) return r.pick(bus);
        if (sig.empty() || r.chance(0.1)) return sig[new_sig(Ty(r.range(0, 3)), rnd_len())];
        return r.pick(sig);
    }
    void op_bus()
    {
        call("create bus", [&]
        {
            std::vector<LabSig> l;
            std::vector<Signal> a;
            for (int k = r.range(0, 6); k > 0; k--)
            {
                Signal s = any_sig();
                static const char* lab[] = {"", "in", "trigger", "delay", "initial", "a.b", " "};
                std::string nm = r.chance(0.5) ? strf("l%d", int(l.size())) : lab[r.range(0, 6)] + std::string(debug_build() && r.chance(0.1) ? "" : std::to_string(l.size()));
                l.emplace_back(nm, s);
                a.push_back(s);
            }
            bus.push_back(r.chance(0.5) ? mk_bus(l, name()) : mk_bus_auto(a, name()));
        });
    }
    void op_access()
    {
        if (bus.empty()) return;
        const Bus b = r.pick(bus);
        static const char* pth[] = {"l0", "l1", "sig0", "sig1.sig0", "l0.l0", "in", "in0", "nope", ".", "", "l0.", ".l0", "a.b"};
        const std::string p = r.chance(0.1) ? name() : pth[r.range(0, 12)];
        call("bus access", [&]
        {
            auto q = b->try_at(p);
            if (q) use((*q)->name().str());
            for (const auto& x : b.impl())
            {
                use(x.first);
                use(x.second->name().str());
            }
            switch (r.range(0, 4))
            {
            case 0: use(b.at(p)->name().str()); break;
            case 1: use(b.at(std::size_t(r.range(0, 7)))->name().str()); break;
            case 2:
                if (std::size_t k = std::size_t(r.range(0, 7)); debug_build() || k < b.size()) use(b[k]->name().str());
                break;
            case 3: use(b[p]->name().str()); break;
            default: use(b.at(std::size_t(-1))->name().str()); break;
            }
        });
    }
    void op_submodel()
    {
        auto n = std::make_unique<Node>();
        Node* p = node.empty() || r.chance(0.3) ? nullptr : pick_sub(-1);
        if (call("create submodel", [&] { n->b = std::make_unique<Submodel>(p ? p->as_sub : nullptr, name()); }))
        {
            n->as_sub = static_cast<Submodel*>(n->b.get());
            n->parent = p;
            n->tree   = p ? p->tree : next_tree++;
            node.push_back(std::move(n));
        }
    }
    Node* create(int kind, Node* p)
    {
        auto n = std::make_unique<Node>();
        if (!call("create block", [&] { n->b = ks[std::size_t(kind)].mk(p ? p->as_sub : nullptr, name()); })) return nullptr;
        n->kind   = kind;
        version[p ? p->tree : next_tree]++;
        n->as_sub = dynamic_cast<Submodel*>(n->b.get());
        n->parent = p;
        n->tree   = p ? p->tree : next_tree++;
        node.push_back(std::move(n));
        return node.back().get();
    }
    // a block with exactly right ports, fed from signals that are determined in the same tree
    void op_grow()
    {
        Node* p = pick_sub(-1);
        if (!p) { op_submodel(); return; }
        const int tree = p->tree;
        const int ki   = int(r.next() % ks.size());
        const Kind& k  = ks[std::size_t(ki)];
        const bool noop = k.name.rfind("Sources", 0) == 0 || k.name.rfind("Function", 0) == 0 || k.name.rfind("Submodel", 0) == 0;
        if (k.name == "Submodel(1,2)" || k.name == "Submodel") return;
        std::vector<LabSig> in, out;
        auto det = [&](Ty t) -> Signal
        {
            std::vector<std::size_t> v;
            for (std::size_t i = 0; i < sig.size(); i++)
                if (sty[i] == t && owner[i] == tree && (t != A || slen[i] == N)) v.push_back(i);
            if (!v.empty()) return sig[r.pick(v)];
            // a constant first
            std::size_t i = new_sig(t, N);
            const char* src = t == S ? "Const" : t == I ? "SourceI" : t == B ? "MemoryB" : "ConstA";
            int kk = 0;
            for (std::size_t q = 0; q < ks.size(); q++)
                if (ks[q].name == src) kk = int(q);
            Node* n = create(kk, p);
            if (n && call("connect", [&] { n->b->connect(t == B ? mk_bus_auto({sig[i]}) : Bus(), mk_bus_auto({sig[i]})); }))
            {
                n->tried = n->conn = true;
                owner[i] = tree;
            }
            else wild[tree] = true;
            return sig[i];
        };
        auto inputs = k.in;
        if (k.var_in)
            for (int q = r.range(0, 4); q > 0; q--) inputs.push_back(k.in[0]);
        for (auto& q : inputs) in.emplace_back(q.label.empty() ? strf("l%d", int(in.size())) : q.label, det(q.ty));
        std::vector<std::size_t> outs;
        for (auto t : k.out)
        {
            outs.push_back(new_sig(t, N));
            out.emplace_back(strf("o%d", int(out.size())), sig[outs.back()]);
        }
        Node* n = create(ki, p);
        if (!n) return;
        n->tried = true;
        bool ok = true;
        if (r.chance(0.2)) // a first attempt with wrong port counts
            ok = !call("connect wrongly", [&] { n->b->connect(mk_bus({{"x", sig[outs[0]]}, {"y", sig[outs[0]]}, {"z", sig[outs[0]]}, {"w", sig[outs[0]]}, {"v", sig[outs[0]]}}), mk_bus(std::vector<LabSig>(7, {"y", sig[outs[0]]}))); });
        if (!n->b->connected()) ok = call("connect", [&] { n->b->connect(mk_bus(in), mk_bus(out)); });
        n->conn = ok;
        if (!ok) { wild[tree] = true; return; }
        if (!noop)
            for (auto o : outs) owner[o] = tree;
    }
    // anything goes
    void op_wild()
    {
        Node* p = r.chance(0.7) ? pick_sub(-1) : nullptr;
        const int ki = int(r.next() % ks.size());
        Node* n = create(ki, p);
        if (!n) return;
        op_connect(n);
    }
    void op_connect(Node* n)
    {
        const Kind* k = n->kind >= 0 ? &ks[std::size_t(n->kind)] : nullptr;
        std::vector<LabSig> in, out;
        const bool right = (k && (k->lax_types || k->lax_min) && !debug_build()) || r.chance(0.4);
        auto of = [&](Ty t) -> Signal
        {
            std::vector<std::size_t> v;
            for (std::size_t i = 0; i < sig.size(); i++)
                if (sty[i] == t && (t != A || slen[i] == N || r.chance(0.02))) v.push_back(i);
            return v.empty() || r.chance(0.2) ? sig[new_sig(t, N)] : sig[r.pick(v)];
        };
        if (k)
        {
            for (auto& q : k->in) in.emplace_back(q.label.empty() ? strf("l%d", int(in.size())) : q.label, right ? of(q.ty) : any_sig());
            for (auto& q : k->out) out.emplace_back(strf("o%d", int(out.size())), right ? of(q) : any_sig());
        }
        if (!right)
        {
            if (r.chance(0.3)) in.emplace_back("extra", any_sig());
            if (r.chance(0.2) && !in.empty()) in.pop_back();
            if (r.chance(0.2)) out.emplace_back("oextra", any_sig());
            if (r.chance(0.2) && !out.empty()) out.pop_back();
        }
        wild[n->tree] = true;
        n->tried = true;
        Node* p = n->parent;
        const bool ok = call("connect anything", [&]
        {
            if (p && r.chance(0.3)) p->as_sub->add_block(*n->b, mk_bus(in), mk_bus(out));
            else n->b->connect(mk_bus(in), mk_bus(out));
        });
        n->conn = n->conn || ok;
    }
    void op_add()
    {
        if (node.empty()) return;
        Node* n = r.pick(node).get();
        Node* p = pick_sub(-1);
        if (!p) return;
        // no cycles in the hierarchy: only the root of another tree may be moved
        if (!n->parent && n->tree == p->tree) return;
        bool ok = false;
        bool simulated_tree = false;
        for (auto& s : sims) simulated_tree = simulated_tree || (!s.dead && (s.tree == n->tree || s.tree == p->tree));
        if (simulated_tree && !n->parent) return; // a simulated model is not altered
        call("add block", [&] { ok = r.chance(0.5) ? p->as_sub->add_block(*n->b) : p->as_sub->link_block(*n->b); });
        wild[n->tree] = wild[p->tree] = true;
        if (n->b->parent() == p->as_sub && !n->parent)
        {
            n->parent = p;
            const int from = n->tree;
            for (auto& q : node)
                if (q->tree == from) q->tree = p->tree;
            for (auto& o : owner)
                if (o == from) o = p->tree;
        }
    }
    void op_visit()
    {
        if (node.empty()) return;
        Node* n = r.pick(node).get();
        call("traverse", [&]
        {
            int stop = r.range(0, 20);
            auto f = [&](const Block& b, uint32_t lev)
            {
                use(b.full_name().str());
                use(double(lev) + double(b.linked_signals().size()));
                for (auto& ls : b.linked_signals()) use(ls.first->name().str());
                for (const auto& x : b.ibus().impl()) use(x.first);
                for (const auto& x : b.obus().impl()) use(x.second->name().str());
                return --stop != 0;
            };
            if (r.chance(0.5)) n->b->visit([&](Block& b, uint32_t l) { return f(b, l); }, uint32_t(r.range(0, 2)), r.chance(0.5) ? uint32_t(r.range(0, 5)) : uint32_t(-1));
            else n->b->const_visit(f, 0, r.chance(0.5) ? uint32_t(r.range(0, 5)) : uint32_t(-1));
        });
    }
    void op_busblock()
    {
        Node* p = pick_sub(-1);
        if (!p) return;
        if (r.chance(0.4)) op_bus();
        auto tb = [&](int depth, auto&& self) -> std::pair<Bus, Bus>
        {
            std::vector<LabSig> a, b;
            for (int k = r.range(0, 4); k > 0; k--)
            {
                std::string l = strf("l%d", int(a.size()));
                if (depth < 3 && r.chance(0.3))
                {
                    auto q = self(depth + 1, self);
                    a.emplace_back(l, q.first);
                    b.emplace_back(l, q.second);
                    continue;
                }
                Ty t = Ty(r.range(0, 3));
                std::size_t x = new_sig(t, N), y = new_sig(t, N);
                a.emplace_back(l, sig[x]);
                b.emplace_back(l, sig[y]);
            }
            if (r.chance(0.3) && !b.empty()) r.shuffle(b);
            if (r.chance(0.05) && !b.empty()) b.pop_back();
            return {mk_bus(a), mk_bus(b)};
        };
        auto pr = tb(0, tb);
        std::vector<LabVal> iv;
        std::vector<std::string> ex;
        static const char* path[] = {"l0", "l1", "l2", "l0.l0", "l1.l0", "nope", "l0.l1.l0"};
        if (r.chance(0.4)) ex.push_back(path[r.range(0, 6)]);
        // initial values only where they fit
        for (auto* q : {"l0", "l1", "l0.l0", "l1.l1"})
            if (r.chance(0.4))
                if (auto s = pr.first->try_at(q); s || (debug_build() && r.chance(0.1)))
                {
                    if (s && dynamic_cast<ScalarSignalImpl*>(&s->impl())) iv.emplace_back(q, 1.5);
                    else if (s && dynamic_cast<IntSignalImpl*>(&s->impl())) iv.emplace_back(q, 3);
                    else if (s && dynamic_cast<BoolSignalImpl*>(&s->impl())) iv.emplace_back(q, true);
                    else if (s && dynamic_cast<ArraySignalImpl*>(&s->impl())) iv.emplace_back(q, Array(zeros(N)));
                    else if (!s) iv.emplace_back(q, 0.5);
                }
        auto n = std::make_unique<Node>();
        const bool mem = r.chance(0.5);
        if (!call("create bus block", [&]
            {
                if (mem) with_lists([&](auto l, auto e) { n->b = std::make_unique<BusMemory>(*p->as_sub, l, e); return 0; }, iv, ex);
                else with_lists([&](auto, auto e) { n->b = std::make_unique<BusPipe>(*p->as_sub, e); return 0; }, {}, ex);
            }))
            return;
        n->parent = p;
        n->tree   = p->tree;
        n->as_sub = nullptr;
        n->kind   = -1;
        n->tried  = true;
        wild[p->tree] = true;
        Node* q = n.get();
        node.push_back(std::move(n));
        q->conn = call("connect bus block", [&] { q->b->connect(pr.first, pr.second); });
    }
    void op_bad_ctor()
    {
        if (sig.empty()) return;
        Node* p = pick_sub(-1);
        Submodel* sp = p ? p->as_sub : nullptr;
        call("refused constructor", [&]
        {
            switch (r.range(0, 4))
            {
            case 0: { BadIn x(sp, name()); break; }
            case 1: { BadOut x(sp, name()); break; }
            case 2: { ScalarSignal s(Signal(r.pick(sig))); use(s->name().str()); break; }
            case 3: { ArraySignal s(Signal(r.pick(sig))); use(s->name().str()); break; }
            default: { Bus s(Signal(r.pick(sig))); use(s->name().str()); break; }
            }
        });
    }
    void op_sim()
    {
        std::vector<Node*> v;
        for (auto& n : node)
            if (!n->parent && n->as_sub) v.push_back(n.get());
        if (v.empty()) return;
        Node* n = r.pick(v);
        if (!debug_build() && wild[n->tree]) return;
        if (steps.empty() || r.chance(0.3))
        {
            switch (r.range(0, 2))
            {
            case 0: steps.push_back(std::make_shared<Euler>()); break;
            case 1: steps.push_back(std::make_shared<Rk4>()); break;
            default: steps.push_back(std::make_shared<Rkf45>()); break;
            }
        }
        StepperBase* st = debug_build() && r.chance(0.1) ? nullptr : r.pick(steps).get();
        Sm s;
        s.tree = n->tree;
        s.t    = r.uni(-1, 1);
        s.hasdelay = has_kind(n->tree, "Delay");
        s.version  = version[s.tree];
        SimulatorBase::InputCallback cb;
        if (r.chance(0.5))
        {
            Block* root = n->b.get();
            cb = [root](Block& b, double t) { use(t + double(&b == root)); };
        }
        if (!call("create simulator", [&]
            {
                const int k = r.range(0, 2);
                if (k == 2) s.s = std::make_unique<FastSimulator>(*n->b, cb, st);
                else s.s = std::make_unique<Simulator>(*n->b, cb, st, k == 1);
            }))
            return;
        sims.push_back(std::move(s));
        op_run(sims.back());
    }
    void op_run(Sm& s)
    {
        if (s.dead) return;
        // the tree may have been extended by connections since: then only debug builds may refuse
        if (!debug_build() && wild[s.tree]) return;
        CoutCapture cap;
        bool ok = true;
        s.hasdelay = s.hasdelay || has_kind(s.tree, "Delay");
        const bool changed = s.version != version[s.tree];
        if (r.chance(0.3) || (changed && (!debug_build() || r.chance(0.7))))
        {
            ok = call("init", [&] { s.s->init(s.t); });
            s.version = version[s.tree];
        }
        for (int k = r.range(1, 3); k > 0 && ok; k--)
        {
            double t = s.t + (r.chance(0.15) && !(s.hasdelay && !debug_build()) ? 0.0 : r.uni(0.01, 0.6));
            if (debug_build() && r.chance(0.1)) t = s.t - 1;
            ok = call("run", [&]
            {
                const double mx = r.uni(0.05, 1);
                s.s->run(t, r.uni(0.001, 0.05), mx);
            });
            if (ok) { s.t = t; simulated++; }
        }
        use(cap.str());
    }
    void op_hist()
    {
        if (hist.empty() || r.chance(0.2))
        {
            call("create history", [&] { Hi h; h.h = std::make_unique<History>(uint(r.range(0, 6))); hist.push_back(std::move(h)); });
        }
        Hi& h = hist[r.next() % hist.size()];
        for (int k = r.range(1, 5); k > 0; k--)
            switch (r.range(0, 6))
            {
            case 0:
            case 1:
                if (h.updated && !debug_build()) break;
                call("track", [&]
                {
                    Signal s = any_sig();
                    if (r.chance(0.8)) { h.h->track(s); h.tracked.push_back(s); }
                    else h.h->untrack(s);
                });
                break;
            case 2:
            case 3:
                call("update", [&]
                {
                    const uint row = r.chance(0.1) ? h.rows + uint(r.range(1, 9)) : r.chance(0.8) ? h.rows : uint(r.range(0, int(h.rows))); // rows may be skipped
                    h.h->update(row, r.uni(0, 9));
                    if (!h.h->empty()) { h.rows = std::max(h.rows, row + 1); h.updated = true; }
                });
                break;
            case 4:
                call("export", [&]
                {
                    char fn[] = "c18-XXXXXX";
                    int fd = mkstemp(fn);
                    if (fd >= 0) ::close(fd);
                    try
                    {
                        h.h->export_csv(fn);
                    }
                    catch (...)
                    {
                        unlink(fn);
                        throw;
                    }
                    unlink(fn);
                });
                break;
            case 5: if (r.chance(0.4)) call("shrink", [&] { h.h->shrink_to_fit(); }); break;
            default:
                call("read history", [&]
                {
                    use(double(h.h->nrows()));
                    for (uint k2 = 0; k2 < h.rows; k2++) use(h.h->time()(k2));
                    for (auto& s : h.tracked)
                    {
                        auto v = std::dynamic_pointer_cast<ValueSignalImpl>(s->shared_from_this());
                        if (!v || !h.h->count(v)) continue;
                        auto& m = (*h.h)[s];
                        for (uint a = 0; a < h.rows; a++)
                            for (int b = 0; b < m.cols(); b++) use(m(a, b));
                    }
                });
            }
    }
    void destroy_tree(int tree)
    {
        // simulators of the tree may go before it, after it, or stay unused
        for (auto& s : sims)
            if (s.tree == tree) s.dead = true;
        std::vector<std::unique_ptr<Node>> gone, stay;
        for (auto& n : node) (n->tree == tree ? gone : stay).push_back(std::move(n));
        node = std::move(stay);
        const int order = r.range(0, 2);
        if (order == 0) std::reverse(gone.begin(), gone.end());
        else if (order == 1) r.shuffle(gone);
        call("destroy tree", [&]
        {
            for (auto& n : gone)
            {
                n.reset();
                if (r.chance(0.1)) drop_misc();
            }
        });
        for (auto& o : owner)
            if (o == tree) o = -2;
    }
    void drop_misc()
    {
        switch (r.range(0, 4))
        {
        case 0:
            if (!sig.empty())
            {
                std::size_t i = r.next() % sig.size();
                sig.erase(sig.begin() + long(i));
                sty.erase(sty.begin() + long(i));
                slen.erase(slen.begin() + long(i));
                owner.erase(owner.begin() + long(i));
            }
            break;
        case 1: if (!bus.empty()) bus.erase(bus.begin() + long(r.next() % bus.size())); break;
        case 2: if (!sims.empty()) sims.erase(sims.begin() + long(r.next() % sims.size())); break;
        case 3: if (!hist.empty()) hist.erase(hist.begin() + long(r.next() % hist.size())); break;
        default: break;
        }
    }
    void run(int ops)
    {
        op_submodel();
        const double w_wild = r.chance(0.5) ? 0.0 : 0.12;
        for (int i = 0; i < ops; i++)
        {
            const double u = r.uni();
            if (u < 0.10) op_signal();
            else if (u < 0.18) op_value();
            else if (u < 0.25) op_handle();
            else if (u < 0.30) op_bus();
            else if (u < 0.36) op_access();
            else if (u < 0.40) op_submodel();
            else if (u < 0.62) op_grow();
            else if (u < 0.62 + w_wild) op_wild();
            else if (u < 0.76) op_visit();
            else if (u < 0.78) { if (w_wild > 0) op_busblock(); }
            else if (u < 0.80) op_bad_ctor();
            else if (u < 0.82) { if (w_wild > 0) op_add(); }
            else if (u < 0.84)
            {
                std::vector<Node*> v;
                for (auto& n : node)
                    if (n->tried) v.push_back(n.get()); // connecting again
                if (!v.empty() && w_wild > 0) op_connect(r.pick(v));
            }
            else if (u < 0.90) op_sim();
            else if (u < 0.94) { if (!sims.empty()) op_run(sims[r.next() % sims.size()]); }
            else if (u < 0.98) op_hist();
            else if (u < 0.99) { if (!node.empty()) destroy_tree(r.pick(node)->tree); }
            else drop_misc();
        }
        // the end: trees one by one or everything in some order
        const int big = int(node.size());
        while (!node.empty()) destroy_tree(node[r.next() % node.size()]->tree);
        switch (r.range(0, 2))
        {
        case 0: sims.clear(); steps.clear(); hist.clear(); break;
        case 1: steps.clear(); sig.clear(); bus.clear(); break;
        default: break;
        }
        if (big >= 3 && simulated) c.nontrivial(c.caseno * 977 + calls);
    }
};
} // namespace

bool debug_build()
{
#ifdef NDEBUG
    return false;
#else
    return true;
#endif
}
void suite_case(Ctx& c)
{
    CoutCapture cap; // warnings
    World w(c);
    const int ops = c.rng.range(30, c.thorough ? 300 : 150);
    w.run(ops);
    c.desc = strf("%zu calls, %zu refused, %zu runs", w.calls, w.refused, w.simulated);
    c.count("API calls", w.calls);
    c.count("runs completed", w.simulated);
}
} // namespace vh
