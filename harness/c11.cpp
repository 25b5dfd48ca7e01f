#include "build.hpp"
namespace vh
{
const char* suite_property = "C11";
const char* suite_rule = "random diagrams with up to 10 integrators and triggered integrators (scalar and array, chains, feedback, shared inputs), all simulators and steppers, rejected attempts forced by scripted proposals, re-initialization, stepwise and long runs; at every solver stage the states and slopes are matched with the integrators' outputs and inputs, and at every accepted time all values with the reference; non-trivial: at least one accepted step";
void suite_case(Ctx& c)
{
    Rng& r = c.rng;
    GenOpt g;
    g.max_blocks   = r.chance(0.3) ? 16 : 8;
    g.force_states = true;
    g.max_runs     = 10;
    const int nf = r.chance(0.003) ? r.range(40, 150) : r.range(1, 6); // rarely many integrators
    const bool rep = r.chance(0.15);
    if (rep) { g.repeats = true; g.delay = g.trig = false; }
    for (int i = 0; i < nf; i++) g.focus.push_back(!rep && r.chance(0.5) ? K::TRIG : K::INTEG);
    g.reinit = r.chance(0.15);
    Spec s = generate(r, g);
    BuildOpt o;
    o.sim         = Sim(r.range(0, 2));
    o.stage_check = true;
    o.events      = false;
    if (g.reinit && o.sim != Sim::PLAIN) o.new_sim_kind = [](int) { return Sim::REUSE; };
    o.perm_seed   = r.chance(0.5) ? r.next() | 1 : 0;
    o.noise       = r.chance(0.3);
    if (r.chance(0.4))
    {
        const u64 seed = r.next();
        o.script = [seed](int a, double h, double nh)
        {
            Rng q(seed + u64(a));
            return q.chance(0.4) ? h * q.uni(0.3, 0.9) : q.chance(0.5) ? nh : h * q.uni(1, 2);
        };
    }
    c.desc   = std::string(sim_name[int(o.sim)]) + ": " + s.str();
    RunOut u = run_spec(s, o);
    for (auto& e : u.err) VH_CHECK(e.empty(), "unexpected exception: %s", e.c_str());
    VH_CHECK(u.probe_error.empty(), "%s", u.probe_error.c_str());
    u64 cmp = 0, steps = 0, rej = 0, acc = 0;
    std::string e = compare_with_ref(s, u, 1e-8, cmp, steps);
    VH_CHECK(e.empty(), "%s", e.c_str());
    e = check_steps(s, u, rej, acc);
    VH_CHECK(e.empty(), "%s", e.c_str());
    int ni = 0, nt = 0;
    u64 fired = 0;
    for (std::size_t i = 0; i < s.blk.size(); i++)
    {
        ni += s.blk[i].k == K::INTEG;
        if (s.blk[i].k == K::TRIG)
        {
            nt++;
            for (auto& sn : u.snaps) fired += sn.val[s.blk[i].in[1]][0] != 0;
        }
    }
    c.count("integrators", u64(ni));
    c.count("triggered integrators", u64(nt));
    c.count("triggers at accepted times", fired);
    c.count("solver stages checked", u.stages);
    c.count("accepted steps", acc);
    c.count("rejected attempts", rej);
    c.count("values compared", cmp);
    if (acc > 0 && ni + nt > 0) c.nontrivial(hash_u(s.hash(), u64(o.sim)));
}
} // namespace vh
