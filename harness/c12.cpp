#include "build.hpp"
namespace vh
{
const char* suite_property = "C12";
const char* suite_rule = "random programs of up to 24 (rarely 300) calls of init() and run() - forward, to the current time, to earlier times, re-initialization at earlier or later times - on random diagrams with all simulators and steppers; refused calls must throw and leave every signal as it was, repeated times must warn and not step, and the values after all other calls must equal the reference that never saw the refused calls; non-trivial: a program with at least one refused, repeated, backward or re-initializing call";
void suite_case(Ctx& c)
{
    Rng& r = c.rng;
    GenOpt g;
    g.max_blocks = 7;
    g.max_runs   = 1;
    const bool stateless = r.chance(0.25), repeats = r.chance(0.7);
    g.states       = !stateless;
    g.force_states = !stateless;
    if (repeats || stateless) g.delay = g.trig = false;
    if (r.chance(0.4)) g.focus = {r.chance(0.5) ? K::MEMORY : K::DERIV};
    Spec s = generate(r, g);
    const bool sf = s.stateful();
    BuildOpt o;
    o.sim = Sim(r.range(0, 2));
    o.perm_seed = r.chance(0.3) ? r.next() | 1 : 0;
    std::string prog;
    bool del = false;
    for (auto& b : s.blk) del = del || b.k == K::DELAY || b.k == K::TRIG;
    s.runs.clear();
    ModelPtr m = build_model(s, o);
    const int n = r.chance(0.004) ? r.range(60, 300) : r.range(3, 24);
    const double span = n > 24 ? 12.0 / n : 1; // diagrams are bounded for a while only
    double t = r.chance(0.3) ? 0 : r.range(-32, 64) / 8.0;
    u64 refused = 0, repeated = 0, back = 0, reinit = 0;
    bool inited = false;
    for (int i = 0; i < n; i++)
    {
        Run q;
        q.hmin = r.uni(0.002, 0.05);
        q.hmax = q.hmin + r.uni(0.02, 0.8);
        int op = !inited ? (r.chance(0.5) ? 0 : 9) : r.range(0, 9);
        if (!inited) q.t = t;
        bool expect_throw = false, rep = false;
        if (inited)
        {
            if (op <= 1 && sf) // earlier
            {
                q.t = r.chance(0.3) ? std::nextafter(t, -1e9) : t - r.uni(0, 5);
                expect_throw = q.t < t;
            }
            else if (op <= 3 && !sf && !del) // any time
            {
                q.t = r.chance(0.3) ? t : t - r.uni(0, 5);
                back++;
            }
            else if (op <= 5 && repeats && sf && !del)
            {
                q.t = t;
                rep = true;
            }
            else if (op == 6 && r.chance(0.5))
            {
                q.init = true;
                q.t    = del || r.chance(0.3) ? t + r.uni(0.1, 2) : t - r.uni(0, 5);
                reinit++;
            }
            else q.t = r.chance(0.1) && sf ? std::nextafter(t, 1e9) : t + span * (r.chance(0.2) ? r.uni(0.5, 3) : r.uni(0.01, 0.5));
            if (expect_throw) rep = false;
        }
        else q.init = op == 0;
        if (q.init && inited && r.chance(0.4))
        {
            BuildOpt p = o;
            p.sim      = Sim(r.range(0, 2));
            o.sim      = p.sim;
            new_simulator(*m, p);
        }
        prog += strf(" %s(%.17g)", q.init ? "init" : "run", q.t);
        c.desc = std::string(sim_name[int(o.sim)]) + ":" + prog + ": " + s.str();
        s.runs.push_back(q);
        const auto before = read_values(*m);
        const std::size_t na = out(*m).att.size(), ns = out(*m).snaps.size();
        const bool ok = do_run(*m, q);
        if (expect_throw)
        {
            VH_CHECK(!ok, "call %d: running back from t=%.17g to t=%.17g was accepted", i, t, q.t);
            VH_CHECK(same_values(read_values(*m), before), "call %d: the refused call changed signals", i);
            VH_CHECK(out(*m).att.size() == na && out(*m).snaps.size() == ns, "call %d: the refused call integrated or committed", i);
            VH_CHECK(last_exception(*m) != nullptr, "no exception");
            refused++;
            continue;
        }
        VH_CHECK(ok, "call %d: unexpected exception: %s", i, out(*m).err.back().c_str());
        if (rep)
        {
            VH_CHECK(out(*m).att.size() == na, "call %d: repeating t=%.17g called the stepper", i, q.t);
            VH_CHECK(out(*m).out.back().find("arning") != std::string::npos, "call %d: no warning about the repeated time: '%s'", i, out(*m).out.back().c_str());
            repeated++;
        }
        else if (inited && !q.init)
            VH_CHECK(out(*m).out.back().find("arning") == std::string::npos, "call %d: unfounded warning: '%s'", i, out(*m).out.back().c_str());
        inited = true;
        t      = q.t;
    }
    RunOut& u = out(*m);
    u64 cmp = 0, steps = 0, rej = 0, acc = 0;
    std::string e = compare_with_ref(s, u, 1e-8, cmp, steps);
    VH_CHECK(e.empty(), "%s", e.c_str());
    if (sf)
    {
        e = check_steps(s, u, rej, acc);
        VH_CHECK(e.empty(), "%s", e.c_str());
    }
    c.count("calls", u64(n));
    c.count("refused backward calls", refused);
    c.count("repeated calls", repeated);
    c.count("backward or repeated calls of stateless models", back);
    c.count("re-initializations", reinit);
    c.count("accepted steps", acc);
    c.count("values compared", cmp);
    if (refused + repeated + back + reinit) c.nontrivial(hash_str(prog, s.hash()));
}
} // namespace vh
