#include "build.hpp"
#include <algorithm>
namespace vh
{
const char* suite_property = "C08";
const char* suite_rule = "stateful diagrams are run with steppers whose proposals are scripted (hostile: constant, growing, shrinking, tiny, zero, negative, infinite, alternating) or with RKF45's own proposals, with time step limits from far below to far above the intervals; every attempt (times, states, proposal) is checked against the step control law, end-of-step notifications against the accepted times, and all values against the reference over the accepted steps; non-trivial: at least two attempts, counted by distinct diagram+script+limits";
void suite_case(Ctx& c)
{
    Rng& r = c.rng;
    GenOpt g;
    g.max_blocks   = r.chance(0.2) ? 10 : 5;
    g.force_states = true;
    g.max_runs     = 6;
    g.repeats      = r.chance(0.15);
    if (g.repeats) g.delay = g.trig = false;
    g.reinit       = r.chance(0.1);
    if (r.chance(0.3)) g.focus = {g.repeats ? K::MEMORY : r.chance(0.5) ? K::TRIG : K::MEMORY};
    Spec s = generate(r, g);
    if (s.rk == RK::NONE) return;
    const int kind = r.range(0, 11);
    if (kind == 0) s.rk = RK::RKF45;
    else if (r.chance(0.5)) s.rk = RK::EULER;
    // limits
    double tp = s.runs[0].t;
    for (std::size_t i = 1; i < s.runs.size(); i++)
    {
        Run& q = s.runs[i];
        const double dt = q.t - tp;
        tp = q.t;
        if (!(dt > 0)) continue;
        switch (r.range(0, 4))
        {
        case 0: q.hmax = dt * r.uni(1, 20); q.hmin = q.hmax * r.uni(0.01, 0.99); break;    // minimum maybe above the interval
        case 1: q.hmax = dt * r.uni(0.02, 0.9); q.hmin = q.hmax * r.uni(0.001, 0.99); break;
        case 2: q.hmax = dt / r.range(1, 16); q.hmin = q.hmax / (1 << r.range(1, 8)); break; // divides the interval
        case 3: q.hmax = dt * r.uni(0.05, 1); q.hmin = std::nextafter(q.hmax, 0) * (r.chance(0.5) ? 1 : 0.999); break;
        default: q.hmax = dt * r.uni(0.3, 3); q.hmin = q.hmax * std::pow(10.0, r.uni(-7, -2)); break;
        }
        if (r.chance(0.1)) // a tiny remainder after whole steps
        {
            q.hmax = dt / (r.range(1, 5) + 1e-13 * r.range(1, 100));
            q.hmin = q.hmax * 0.01;
        }
        const bool many   = s.blk.size() < 8 && r.chance(0.0015);
        const double most = many ? 1.3e4 : r.chance(0.03) ? 2e3 : 120; // keep the number of possible steps bounded
        if (many) { q.hmax = dt / r.uni(9e3, 1.2e4); q.hmin = q.hmax * 0.9; }
        if (dt / q.hmin > most)
            q.hmin = dt / most;
        if (!(q.hmin < q.hmax)) q.hmax = q.hmin * 1.5;
    }
    BuildOpt o;
    o.sim = Sim(r.range(0, 2));
    if (g.reinit && o.sim != Sim::PLAIN) o.new_sim_kind = [](int) { return Sim::PLAIN; };
    o.budget = 20000000;
    const u64 seed = r.next();
    const double f = r.uni(0.2, 0.95), g2 = r.uni(1.01, 3);
    const int per  = r.range(2, 6);
    int burst      = 0;
    o.script = [=](int a, double h, double nh) mutable -> double
    {
        Rng q(seed + u64(a));
        switch (kind)
        {
        case 1: return h * std::exp(q.uni(-1.5, 1.5));
        case 2: return a % per ? h * f : h * g2;           // rejected per-1 times
        case 3: return q.chance(0.3) ? 1e-300 : h * g2;    // far below the minimum: forced
        case 4: return q.chance(0.2) ? 0.0 : q.chance(0.2) ? -h : h * q.uni(0.5, 2);
        case 5: return q.chance(0.3) ? INFINITY : q.chance(0.3) ? h * f : h;
        case 6: return h * f;                              // never satisfied
        case 7: return h * g2;
        case 8: return a % 2 ? h * 0.5 : h * 2;
        case 9: return h;                                  // exactly the step taken
        case 10:
            if (burst == 0 && q.chance(0.4)) burst = q.range(1, 12);
            if (burst > 0) { burst--; return h * q.uni(0.3, 0.9); }
            return h * q.uni(1, 3);
        case 11: return q.chance(0.5) ? nh : h * q.uni(0.9, 1.1);
        default: return nh;
        }
    };
    c.desc   = std::string(sim_name[int(o.sim)]) + strf(" script %d: ", kind) + s.str();
    RunOut u = run_spec(s, o);
    for (auto& e : u.err) VH_CHECK(e.empty(), "unexpected exception: %s", e.c_str());
    u64 rej = 0, acc = 0, commits = 0, cmp = 0, steps = 0;
    std::string e = check_steps(s, u, rej, acc);
    VH_CHECK(e.empty(), "%s", e.c_str());
    e = check_commits(s, u, o.sim, commits);
    VH_CHECK(e.empty(), "%s", e.c_str());
    e = compare_with_ref(s, u, 1e-8, cmp, steps);
    VH_CHECK(e.empty(), "%s", e.c_str());
    c.count("attempts observed", u.att.size());
    c.count("rejections observed", rej);
    c.count("accepted steps observed", acc);
    c.count("values compared", cmp);
    if (u.att.size() >= 2) c.nontrivial(hash_u(hash_u(s.hash(), u64(kind)), seed));
}
} // namespace vh
