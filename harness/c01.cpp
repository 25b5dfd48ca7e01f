#include "build.hpp"
namespace vh
{
const char* suite_property = "C01";
const char* suite_rule = "random well-formed diagrams with all simulators, steppers, nestings, repeated times and re-initializations; an online event log (inputs callback, input_cb, activation begin/end per block, solver stages) is checked for: inputs refreshed first, every leaf activated exactly once per evaluation with the evaluation's time, only after the producers of its required inputs, one evaluation per solver stage; non-trivial: at least 3 blocks and 3 evaluations, counted by distinct diagram+program+simulator";
void suite_case(Ctx& c)
{
    GenOpt g;
    g.big = true;
    if (c.caseno % 150 == 7) g.deep = debug_build() ? 70 : 150;
    if (g.deep) c.count("long chains");
    g.max_blocks = c.rng.chance(0.2) ? 26 : 12;
    if (c.rng.chance(0.25)) g.focus = {K(c.caseno % u64(K::COUNT_))};
    if (c.rng.chance(0.3)) { g.repeats = true; g.delay = false; g.trig = false; }
    g.reinit = c.rng.chance(0.3);
    g.max_runs = 7;
    Spec s  = generate(c.rng, g);
    BuildOpt o;
    o.sim    = Sim(c.rng.range(0, 2));
    o.perm_seed = c.rng.chance(0.5) ? c.rng.next() | 1 : 0;
    if (g.reinit && (o.sim != Sim::PLAIN || c.rng.chance(0.3)))
    {
        u64 q = c.rng.next();
        o.new_sim_kind = [q](int i) { return Sim(mix(q + u64(i)) % 3); };
    }
    o.budget = 3000000;
    c.desc   = std::string(sim_name[int(o.sim)]) + ": " + s.str();
    RunOut r = run_spec(s, o);
    for (auto& e : r.err) VH_CHECK(e.empty(), "unexpected exception: %s", e.c_str());
    u64 evals = 0, cmp = 0, steps = 0;
    std::string e = check_events(s, r, o.sim, evals);
    VH_CHECK(e.empty(), "%s", e.c_str());
    e = compare_with_ref(s, r, 1e-8, cmp, steps);
    VH_CHECK(e.empty(), "value of another evaluation or of an unprocessed block? %s", e.c_str());
    c.count("evaluations observed", evals);
    c.count("block activations observed", r.acts);
    c.count("solver steps observed", r.att.size());
    c.count("values compared", cmp);
    c.count(sim_name[int(o.sim)]);
    if (s.blk.size() >= 3 && evals >= 3) c.nontrivial(hash_u(s.hash(), u64(o.sim)));
}
} // namespace vh
