#include "build.hpp"
namespace vh
{
const char* suite_property = "C03";
const char* suite_rule = "each random diagram is built in several variants (plain, order-reusing and fast simulator; permuted creation order of blocks and signals; flattened and nested; perturbed heap; a later new simulator of another kind on the same model) and the accepted times and all signal values are compared bit by bit; where they differ at all, the first difference must be rounding-sized and every variant must agree with the reference; non-trivial: at least 3 blocks and 2 accepted times, counted by distinct diagram+program";
// all digests equal, or explained
static std::string same(const Spec& s, const RunOut& a, const RunOut& b, u64& cmp)
{
    std::string e = compare_outs(s, a, b, 0.0, cmp);
    if (e.empty()) return "";
    u64 x = 0, st = 0;
    std::string f = compare_outs(s, a, b, 1e-12, x);
    if (f.empty()) return "";
    // rounding differences may be amplified later by a chaotic diagram, but not at once
    std::string ra = compare_with_ref(s, a, 1e-8, x, st), rb = compare_with_ref(s, b, 1e-8, x, st);
    if (!ra.empty()) return "first variant against the reference: " + ra;
    if (!rb.empty()) return "second variant against the reference: " + rb;
    for (std::size_t i = 0; i < a.snaps.size() && i < b.snaps.size(); i++)
    {
        bool bits = a.snaps[i].t == b.snaps[i].t && a.snaps[i].val == b.snaps[i].val;
        if (bits) continue;
        bool small = close(a.snaps[i].t, b.snaps[i].t, 1e-10);
        for (std::size_t k = 0; small && k < a.snaps[i].val.size(); k++)
            for (std::size_t j = 0; j < a.snaps[i].val[k].size(); j++)
                small = small && j < b.snaps[i].val[k].size() && close(a.snaps[i].val[k][j], b.snaps[i].val[k][j], 1e-10);
        return small || (i > 0 && ill_conditioned(s, a.snaps[i - 1].t, a.snaps[i].t)) ? "" : f;
    }
    return a.snaps.size() == b.snaps.size() ? "" : f;
}
void suite_case(Ctx& c)
{
    GenOpt g;
    g.big = true;
    if (c.caseno % 50 == 7) g.deep = debug_build() ? 70 : 150;
    if (g.deep) c.count("long chains");
    g.max_blocks = 14;
    if (c.rng.chance(0.25)) g.focus = {K(c.caseno % u64(K::COUNT_))};
    if (c.rng.chance(0.2)) { g.repeats = true; g.delay = false; g.trig = false; }
    g.reinit = c.rng.chance(0.25);
    g.max_runs = 8;
    Spec s   = generate(c.rng, g);
    c.desc   = s.str();
    BuildOpt base;
    base.probe = base.events = false;
    u64 q = c.rng.next();
    if (g.reinit) base.new_sim_kind = [](int) { return Sim::PLAIN; };
    RunOut r0 = run_spec(s, base);
    for (auto& e : r0.err) VH_CHECK(e.empty(), "plain simulator: unexpected exception: %s", e.c_str());
    u64 cmp = 0, cmp2 = 0, steps = 0;
    std::string e0 = compare_with_ref(s, r0, 1e-8, cmp2, steps);
    VH_CHECK(e0.empty(), "plain simulator against the reference: %s", e0.c_str());
    const int nvar  = c.thorough ? 9 : 5;
    const bool slow = steps > 400; // keep cases short: only two of the variants
    for (int v = 0; v < nvar; v++)
    {
        if (slow && v % 5 != int(c.caseno % 5) && v != int((c.caseno + 2) % 5)) continue;
        BuildOpt o = base;
        o.sim      = v < 2 ? Sim(v + 1) : Sim(c.rng.range(0, 2));
        o.flatten  = v == 2 || (v > 3 && c.rng.chance(0.3));
        o.perm_seed = v >= 2 ? c.rng.next() | 1 : 0;
        o.noise    = v >= 3;
        o.probe    = v == 4;
        if (g.reinit) o.new_sim_kind = [q, v](int i) { return Sim(mix(q + u64(i + 100 * v)) % 3); };
        RunOut r = run_spec(s, o);
        std::string e = same(s, r0, r, cmp);
        VH_CHECK(e.empty(), "%s%s%s%s differs from the plain simulator: %s", sim_name[int(o.sim)], o.flatten ? ", flattened" : "", o.perm_seed ? ", permuted" : "", o.noise ? ", heap noise" : "", e.c_str());
        c.count("variants compared");
        c.count(sim_name[int(o.sim)]);
    }
    c.count("values compared between variants", cmp);
    c.count("accepted times", steps);
    if (s.blk.size() >= 3 && steps >= 2) c.nontrivial(s.hash());
}
} // namespace vh
