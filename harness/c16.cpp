// Bus memories and bus pipes on random nested buses, against per-path references.
#include "core.hpp"
#include "pooya_all.hpp"
#include <algorithm>

namespace vh
{
bool debug_build()
{
#ifdef POOYA_DEBUG
    return true;
#else
    return false;
#endif
}
const char* suite_property = "C16";
const char* suite_rule = "chains of 1-3 bus memories and bus pipes over random buses of depth up to 4 (rarely up to 300 wires or 20 levels) with scalar, int, bool and array signals, input and output buses ordered differently, with random initial values and exclusions (signals and whole sub-buses, whose outputs are driven by other blocks), simulated with all three simulators; at each accepted time every output signal is compared with its path's previous or current input; initial values for paths that do not exist must be refused in debug builds; non-trivial: at least one sub-bus and two accepted times";
using namespace pooya;
namespace
{
struct Tree // shape shared by all buses of a case
{
    std::string label, path; // path without trailing dot
    int ty = 0, n = 1;       // 0-3 value, 4 bus
    std::vector<Tree> kids;
};
void grow(Rng& r, Tree& t, int depth, int& budget, int deep)
{
    const bool wide = depth == 0 && budget > 30;
    const int k = wide ? budget : r.range(depth == 0 ? 1 : 0, depth == 0 ? 6 : 4);
    static const char* pool[] = {"a", "ab", "b", "x", "sig0", "Z", "value", "a1", "b2"};
    std::vector<std::string> ls(pool, pool + 9);
    r.shuffle(ls);
    for (int i = 0; i < k && budget > 0; i++)
    {
        Tree q;
        q.label = i < int(ls.size()) ? ls[i] : strf("w%d", i);
        q.path  = (t.path.empty() ? "" : t.path + ".") + q.label;
        if (depth < deep && r.chance(wide ? 0.02 : deep > 3 ? 0.9 : 0.35))
        {
            q.ty = 4;
            grow(r, q, depth + 1, budget, deep);
        }
        else
        {
            budget--;
            q.ty = r.range(0, 3);
            q.n  = q.ty == 3 ? r.range(1, 4) : 1;
        }
        t.kids.push_back(q);
    }
}
void leaves(const Tree& t, std::vector<const Tree*>& v, std::vector<const Tree*>& buses)
{
    for (auto& k : t.kids)
        if (k.ty == 4)
        {
            buses.push_back(&k);
            leaves(k, v, buses);
        }
        else v.push_back(&k);
}
using Sigs = std::map<std::string, Signal>;
Bus make_bus(Rng& r, const Tree& t, Sigs& s)
{
    std::vector<LabSig> l;
    for (auto& k : t.kids)
        if (k.ty == 4) l.emplace_back(k.label, make_bus(r, k, s));
        else l.emplace_back(k.label, s.at(k.path));
    r.shuffle(l);
    return mk_bus(l);
}
Signal mk(const Tree& k, const std::string& name)
{
    switch (k.ty)
    {
    case 0: return ScalarSignal(name);
    case 1: return IntSignal(name);
    case 2: return BoolSignal(name);
    default: return ArraySignal(std::size_t(k.n), name);
    }
}
void assign(const Signal& s, const Tree& k, const std::vector<double>& v)
{
    auto* p = &s.impl();
    switch (k.ty)
    {
    case 0: dynamic_cast<ScalarSignalImpl&>(*p).set_value(v[0]); break;
    case 1: dynamic_cast<IntSignalImpl&>(*p).set_value(int(v[0])); break;
    case 2: dynamic_cast<BoolSignalImpl&>(*p).set_value(v[0] != 0); break;
    default: dynamic_cast<ArraySignalImpl&>(*p).set_value(to_arr(v)); break;
    }
}
std::vector<double> rnd(Rng& r, const Tree& k)
{
    std::vector<double> v(k.n);
    for (auto& q : v) q = k.ty == 1 ? r.range(-99, 99) : k.ty == 2 ? r.range(0, 1) : r.uni(-9, 9);
    return v;
}
LabVal labval(const Tree& k, const std::string& path, const std::vector<double>& v)
{
    switch (k.ty)
    {
    case 0: return LabVal(path, v[0]);
    case 1: return LabVal(path, int(v[0]));
    case 2: return LabVal(path, v[0] != 0);
    default: return LabVal(path, to_arr(v));
    }
}
struct Layer
{
    bool mem;
    std::set<std::string> excluded; // value paths not acted on
    std::vector<std::string> ex_labels;
    std::map<std::string, std::vector<double>> state;
};
} // namespace

void suite_case(Ctx& c)
{
    Rng& r = c.rng;
    Tree root;
    const int size = r.chance(0.01) ? r.range(1, 2) : 0; // rarely a wide or deep bus
    int budget = size == 1 ? r.range(31, 300) : r.chance(0.1) || size ? 30 : 12;
    grow(r, root, 0, budget, size == 2 ? r.range(4, 20) : 3);
    std::vector<const Tree*> lv, bs;
    leaves(root, lv, bs);
    const int nl = r.range(1, 3);
    Submodel model(nullptr, "m");
    Submodel sub(&model, "sub");
    std::vector<Sigs> sg(nl + 1);
    for (int i = 0; i <= nl; i++)
        for (auto* k : lv) sg[i].emplace(k->path, mk(*k, strf("L%d_%s", i, k->path.c_str())));
    std::vector<std::unique_ptr<Block>> blocks;
    std::vector<Layer> lay(nl);
    std::string d;
    for (auto* k : lv) d += strf("%s:%c%d ", k->path.c_str(), "sibA"[k->ty], k->n);
    double now = 0;
    u64 nex = 0, ninit = 0, nsubex = 0;
    for (int i = 0; i < nl; i++)
    {
        Layer& L = lay[i];
        L.mem    = r.chance(0.6);
        // exclusions
        const int ne = r.chance(0.5) ? 0 : r.range(1, 3);
        for (int e = 0; e < ne; e++)
        {
            if (!bs.empty() && r.chance(0.4))
            {
                auto* b = r.pick(bs);
                L.ex_labels.push_back(b->path + (r.chance(0.3) ? "." : ""));
                for (auto* k : lv)
                    if (k->path.rfind(b->path + ".", 0) == 0) L.excluded.insert(k->path);
                nsubex++;
            }
            else if (!lv.empty())
            {
                auto* k = r.pick(lv);
                L.ex_labels.push_back(k->path);
                L.excluded.insert(k->path);
            }
        }
        if (L.ex_labels.size() < 4 && r.chance(0.2)) L.ex_labels.push_back("no.such.label"); // nothing to exclude
        std::vector<LabVal> iv;
        for (auto* k : lv)
        {
            L.state[k->path] = std::vector<double>(k->n, 0.0);
            if (L.mem && iv.size() < (size ? 100u : 6u) && !L.excluded.count(k->path) && r.chance(0.4))
            {
                auto v           = rnd(r, *k);
                L.state[k->path] = v;
                iv.push_back(labval(*k, k->path, v));
                ninit++;
            }
        }
        d += strf("; layer %d: %s excluding", i, L.mem ? "BusMemory" : "BusPipe");
        for (auto& q : L.ex_labels) d += " '" + q + "'";
        d += " initial";
        for (auto& q : iv) d += " " + q.first;
        c.desc = d;
        Submodel& par = r.chance(0.5) ? model : sub;
        Bus ib = make_bus(r, root, sg[i]), ob = make_bus(r, root, sg[i + 1]);
        // a wrong initial value is refused first
        if (L.mem && debug_build() && r.chance(0.15))
        {
            Submodel other(nullptr, "other");
            Sigs so;
            for (auto* k : lv) so.emplace(k->path, mk(*k, "o_" + k->path));
            Bus oo = make_bus(r, root, so);
            std::string bad = lv.empty() ? "nothing" : r.chance(0.5) || bs.empty() ? r.pick(lv)->path + (r.chance(0.5) ? ".x" : "x") : r.chance(0.5) ? r.pick(bs)->path : r.pick(bs)->path + ".";
            bool exists = false;
            for (auto* k : lv) exists = exists || k->path == bad;
            if (!exists)
            {
                std::vector<LabVal> w = iv;
                                w.push_back(LabVal(bad, 1.0));
                auto b = with_lists([&](auto a, auto e) { return std::make_unique<BusMemory>(other, a, e); }, w, L.ex_labels);
                bool threw = false;
                try
                {
                    b->connect(ib, oo);
                }
                catch (const std::runtime_error& e)
                {
                    threw = true;
                    VH_CHECK(std::string(e.what()).find(bad) != std::string::npos, "the exception about the initial value for '%s' does not name it: %s", bad.c_str(), e.what());
                }
                VH_CHECK(threw, "an initial value for the path '%s', which does not exist, was accepted", bad.c_str());
                c.count("wrong initial values refused");
            }
        }
        std::unique_ptr<Block> b;
        if (L.mem) b = with_lists([&](auto a, auto e) -> std::unique_ptr<Block> { return std::make_unique<BusMemory>(par, a, e); }, iv, L.ex_labels);
        else b = with_lists([&](auto, auto e) -> std::unique_ptr<Block> { return std::make_unique<BusPipe>(par, e); }, {}, L.ex_labels);
        if (r.chance(0.5)) b->rename(strf("bus%d", i));
        b->connect(ib, ob);
        blocks.push_back(std::move(b));
        // what is excluded is driven by another block, which would clash with the bus block
        for (auto* k : lv)
            if (L.excluded.count(k->path))
            {
                nex++;
                const Tree* kk = k;
                const int li   = i;
                auto s = std::make_unique<Sources>([kk, li](const Bus& o, double t)
                {
                    std::vector<double> v(kk->n);
                    for (int j = 0; j < kk->n; j++) v[j] = kk->ty == 1 ? std::floor(10 * t) + li : kk->ty == 2 ? double(std::fmod(std::fabs(t), 1.0) > 0.5) : t + 100 * li + j;
                    assign(o[0], *kk, v);
                }, &model, strf("src%d_%s", i, k->path.c_str()));
                s->connect({}, mk_bus_auto({sg[i + 1].at(k->path)}));
                blocks.push_back(std::move(s));
            }
    }
    // every input is linked, also the excluded ones
    for (auto* k : lv)
    {
        auto s = std::make_unique<Function>([](double, const Bus&, const Bus&) {}, &model, "sink");
        s->connect(mk_bus_auto({sg[0].at(k->path)}), {});
        blocks.push_back(std::move(s));
    }
    const int sim = r.range(0, 2);
    std::map<std::string, std::vector<double>> in;
    auto cb = [&](Block&, double t)
    {
        VH_CHECK(t == now, "inputs callback at t=%.17g", t);
        for (auto* k : lv) assign(sg[0].at(k->path), *k, in[k->path]);
    };
    std::unique_ptr<SimulatorBase> s;
    if (sim == 2) s = std::make_unique<FastSimulator>(model, cb);
    else s = std::make_unique<Simulator>(model, cb, nullptr, sim == 1);
    c.desc = d = strf("simulator %d: ", sim) + d;
    const int steps = r.range(1, 8);
    now = r.uni(-2, 2);
    for (int st = 0; st < steps; st++)
    {
        for (auto* k : lv) in[k->path] = rnd(r, *k);
        if (st == 0 && r.chance(0.5)) s->init(now);
        else s->run(now);
        std::vector<std::map<std::string, std::vector<double>>> val(nl + 1);
        val[0] = in;
        for (int i = 0; i < nl; i++)
            for (auto* k : lv)
            {
                auto& w = val[i + 1][k->path];
                if (lay[i].excluded.count(k->path))
                {
                    w.resize(k->n);
                    for (int j = 0; j < k->n; j++) w[j] = k->ty == 1 ? std::floor(10 * now) + i : k->ty == 2 ? double(std::fmod(std::fabs(now), 1.0) > 0.5) : now + 100 * i + j;
                }
                else w = lay[i].mem ? lay[i].state[k->path] : val[i][k->path];
                auto got = sig_vec(sg[i + 1].at(k->path));
                VH_CHECK(got.size() == w.size(), "step %d: layer %d, %s%s: %s", st, i, k->path.c_str(), lay[i].excluded.count(k->path) ? " (excluded)" : "", got.empty() ? "unassigned" : "wrong size");
                for (std::size_t j = 0; j < w.size(); j++)
                    VH_CHECK(got[j] == w[j], "step %d (t=%.17g): layer %d (%s), %s[%d]%s is %.17g instead of %.17g", st, now, i, lay[i].mem ? "memory" : "pipe", k->path.c_str(), int(j), lay[i].excluded.count(k->path) ? " (excluded)" : "", got[j], w[j]);
                c.count("values compared", w.size());
            }
        for (int i = 0; i < nl; i++)
            for (auto* k : lv) lay[i].state[k->path] = val[i][k->path];
        now += r.uni(0.01, 1);
    }
    c.count("excluded signals", nex);
    c.count("excluded sub-buses", nsubex);
    c.count("initial values", ninit);
    c.count("bus blocks", u64(nl));
    if (!bs.empty() && steps >= 2 && lv.size() >= 2) c.nontrivial(hash_str(d, u64(c.caseno)));
}
} // namespace vh
