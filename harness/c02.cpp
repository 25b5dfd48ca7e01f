#include "build.hpp"
namespace vh
{
const char* suite_property = "C02";
const char* suite_rule = "random well-formed typed block diagrams (all library blocks, feedback through memories and integrators, nesting) simulated over random times; every signal at every accepted time is compared with an independent reference interpreter; non-trivial: at least 3 blocks and 2 accepted times, counted by distinct diagram+program";
void suite_case(Ctx& c)
{
    GenOpt g;
    g.big = true;
    if (c.rng.chance(0.3)) { g.focus = {K(c.caseno % u64(K::COUNT_))}; g.max_blocks = 6; }
    if (!suite_arg.empty()) // only diagrams around one kind of block
        for (int k = 0; k < int(K::COUNT_); k++)
            if (suite_arg == kind_name[k])
            {
                g.focus = {K(k)};
                if (c.rng.chance(0.5)) g.focus.push_back(K(k));
                g.max_blocks = c.rng.range(3, 8);
            }
    Spec s  = generate(c.rng, g);
    c.desc  = s.str();
    BuildOpt o;
    o.sim    = Sim(c.rng.range(0, 2));
    o.probe  = c.rng.chance(0.3);
    o.events = false;
    c.desc  = std::string(sim_name[int(o.sim)]) + ": " + c.desc;
    RunOut r = run_spec(s, o);
    for (auto& e : r.err) VH_CHECK(e.empty(), "unexpected exception: %s", e.c_str());
    u64 cmp = 0, steps = 0;
    std::string e = compare_with_ref(s, r, 1e-8, cmp, steps);
    VH_CHECK(e.empty(), "%s", e.c_str());
    c.count("values compared", cmp);
    c.count("accepted times", steps);
    c.count("solver steps attempted", r.att.size());
    for (auto& b : s.blk) c.count((std::string("block ") + kind_name[int(b.k)] + (b.ty == Ty::A ? "A" : b.ty == Ty::I ? "I" : b.ty == Ty::B ? "B" : "")).c_str());
    if (s.blk.size() >= 3 && steps >= 2) c.nontrivial(s.hash());
}
} // namespace vh
