#include "build.hpp"
namespace vh
{
const char* suite_property = "C09";
const char* suite_rule = "random diagrams with memories, derivatives, initial values, user state blocks, integrators and adaptive steppers; the log of end-of-step notifications must contain every block exactly once per accepted time (as known from the stepper's attempts), with an evaluation at that time before it, never inside a solver stage; outputs are compared with the reference at every accepted time; non-trivial: a block with discrete state and at least 3 accepted times";
void suite_case(Ctx& c)
{
    GenOpt g;
    g.big = true;
    g.max_blocks = 8;
    static const K ks[] = {K::MEMORY, K::ACCUM, K::DERIV, K::INITV, K::BUSMEM, K::DELAY, K::TRIG, K::CLOCK};
    g.focus = {ks[c.caseno % 8], ks[(c.caseno / 8) % 8]};
    g.force_states = c.rng.chance(0.6);
    if (c.rng.chance(0.2)) { g.repeats = true; g.delay = false; g.trig = false; for (auto& k : g.focus) if (k == K::DELAY || k == K::TRIG) k = K::MEMORY; }
    g.reinit = c.rng.chance(0.2);
    g.max_runs = 8;
    Spec s  = generate(c.rng, g);
    if (s.rk != RK::NONE && c.rng.chance(0.5)) s.rk = RK::RKF45;
    BuildOpt o;
    o.sim    = Sim(c.rng.range(0, 2));
    if (g.reinit && o.sim != Sim::PLAIN) o.new_sim_kind = [](int) { return Sim::REUSE; };
    c.desc   = std::string(sim_name[int(o.sim)]) + ": " + s.str();
    RunOut r = run_spec(s, o);
    for (auto& e : r.err) VH_CHECK(e.empty(), "unexpected exception: %s", e.c_str());
    u64 commits = 0, cmp = 0, steps = 0;
    std::string e = check_commits(s, r, o.sim, commits);
    VH_CHECK(e.empty(), "%s", e.c_str());
    e = compare_with_ref(s, r, 1e-8, cmp, steps);
    VH_CHECK(e.empty(), "%s", e.c_str());
    u64 rej = 0;
    for (std::size_t i = 0; i + 1 < r.att.size(); i++) rej += r.att[i].run == r.att[i + 1].run && r.att[i].t0 == r.att[i + 1].t0;
    c.count("commits observed", commits);
    c.count("rejected attempts observed", rej);
    c.count("values compared", cmp);
    bool disc = false;
    for (auto& b : s.blk) disc = disc || b.k == K::MEMORY || b.k == K::ACCUM || b.k == K::DERIV || b.k == K::INITV || b.k == K::BUSMEM;
    if (disc && steps >= 3) c.nontrivial(hash_u(s.hash(), u64(o.sim)));
}
} // namespace vh
