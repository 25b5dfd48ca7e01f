#include "build.hpp"
#include <exception>
#include <new>
namespace vh
{
const char* suite_property = "C22";
const char* suite_rule = "random diagrams with all simulators and steppers; a fault (std::runtime_error, a non-standard type, or bad_alloc) is thrown at the k-th user callback (inputs callback, model input callback, source or function of a block, before or after the stepper), 1-3 times in a row, for every k of short programs and sampled k of long ones, and the failed call is repeated at the same or at a later time; the exception must reach the caller unchanged, nothing may be committed for a step that was not accepted, and the accepted steps must carry exactly the reference values; non-trivial: a fault that was thrown and retried, counted by diagram+position";

static void one(Ctx& c, const Spec& s0, BuildOpt o, int at, int count, u64 seed)
{
    Rng r(seed);
    o.fault_at    = at;
    o.fault_count = count;
    o.fault_kind  = r.chance(0.6) ? 0 : r.range(1, 2);
    const bool later = r.chance(0.5);
    Spec s = s0;
    s.runs.clear();
    ModelPtr m = build_model(s0, o);
    int thrown = 0;
    std::string prog;
    for (std::size_t i = 0; i < s0.runs.size(); i++)
    {
        Run q = s0.runs[i];
        for (int k = 0;; k++)
        {
            VH_CHECK(k <= count, "the call still throws although no callback does: %s", out(*m).err.back().c_str());
            s.runs.push_back(q);
            prog += strf(" %s(%.17g)", q.init ? "init" : "run", q.t);
            c.desc = strf("%s: fault kind %d at callback %d x%d:%s: ", sim_name[int(o.sim)], o.fault_kind, at, count, prog.c_str()) + s0.str();
            const std::size_t ns = out(*m).snaps.size();
            if (do_run(*m, q)) break;
            // the exception must be the user's
            bool same = false;
            try
            {
                std::rethrow_exception(last_exception(*m));
            }
            catch (const UserFault& f)
            {
                same = o.fault_kind == 0 && f.no == last_fault(*m) && std::string(f.what()) == strf("user fault %d", f.no);
            }
            catch (const OddFault& f)
            {
                same = o.fault_kind == 1 && f.no == last_fault(*m);
            }
            catch (const std::bad_alloc&)
            {
                same = o.fault_kind == 2;
            }
            catch (...)
            {
            }
            VH_CHECK(same && last_fault(*m) >= 0, "the user's exception did not reach the caller unchanged: %s", out(*m).err.back().c_str());
            thrown++;
            c.count("faults thrown");
            c.count(s.runs.size() == 1 ? "faults at initialization" : "faults in later runs");
            if (out(*m).snaps.size() > ns) c.count("faults after an accepted intermediate step");
            // the last accepted time is the simulator's time: a run to an earlier one is refused
            if (s0.stateful() && !out(*m).snaps.empty() && r.chance(0.3) && s0.runs[i].init == false)
            {
                Run b  = q;
                b.t    = out(*m).snaps.back().t - r.uni(0, 1) - 1e-9;
                b.init = false;
                s.runs.push_back(b);
                prog += strf(" run(%.17g)!", b.t);
                const auto before = read_values(*m);
                const int lf      = last_fault(*m);
                VH_CHECK(!do_run(*m, b), "after a fault, running back to t=%.17g (last accepted: %.17g) was accepted", b.t, out(*m).snaps.back().t);
                VH_CHECK(last_fault(*m) == lf && same_values(before, read_values(*m)), "the refused call evaluated something");
                c.count("refused calls after a fault");
            }
            if (later)
            {
                if (i + 1 < s0.runs.size() && !q.init && r.chance(0.4)) { q = s0.runs[i + 1]; i++; } // give up this time
                else if (i + 1 < s0.runs.size() && !s0.runs[i + 1].init) q.t += (s0.runs[i + 1].t - q.t) * r.uni(0.1, 0.9);
                else q.t += r.uni(0.01, 0.5);
            }
        }
    }
    RunOut& u = out(*m);
    u64 cmp = 0, steps = 0, n = 0;
    std::string e = compare_with_ref(s, u, 1e-8, cmp, steps);
    VH_CHECK(e.empty(), "%s", e.c_str());
    e = check_commits(s, u, o.sim, n);
    VH_CHECK(e.empty(), "%s", e.c_str());
    e = check_events(s, u, o.sim, n);
    VH_CHECK(e.empty(), "%s", e.c_str());
    // contiguous: every attempt starts at the last accepted time
    if (s.stateful())
    {
        std::size_t k = 0;
        double t = 0;
        bool have = false;
        for (auto& a : u.att)
        {
            while (k < u.snaps.size() && u.snaps[k].run < a.run) { t = u.snaps[k++].t; have = true; }
            // within the same run, snapshots are taken when steps are accepted
            while (k < u.snaps.size() && u.snaps[k].run == a.run && u.snaps[k].t <= a.t0) { t = u.snaps[k++].t; have = true; }
            VH_CHECK(have && a.t0 == t, "a solver step starts at %.17g, the last accepted time is %.17g", a.t0, t);
            c.count("solver steps observed");
        }
    }
    c.count("values compared", cmp);
    if (thrown) c.nontrivial(hash_u(s0.hash(), u64(at * 4 + count) * 3 + u64(o.sim)));
}

void suite_case(Ctx& c)
{
    Rng& r = c.rng;
    GenOpt g;
    g.max_blocks   = r.chance(0.8) ? 7 : 14;
    g.force_states = r.chance(0.7);
    g.max_runs     = 5;
    if (r.chance(0.3)) g.focus = {K(c.caseno % u64(K::COUNT_))};
    Spec s = generate(r, g);
    BuildOpt o;
    o.sim       = Sim(r.range(0, 2));
    o.perm_seed = r.chance(0.3) ? r.next() | 1 : 0;
    c.desc      = std::string(sim_name[int(o.sim)]) + ": " + s.str();
    int N;
    {
        ModelPtr m = build_model(s, o);
        for (auto& q : s.runs)
        {
            const bool ok = do_run(*m, q);
            VH_CHECK(ok, "unexpected exception without a fault: %s", out(*m).err.back().c_str());
        }
        N = user_calls(*m);
    }
    c.count("user callbacks of fault-free programs", u64(N));
    const int all = c.thorough ? 400 : 60, some = N > 3000 ? 2 : N > 800 ? 5 : c.thorough ? 60 : 14;
    if (N <= all)
    {
        c.count("programs with every fault position tried");
        for (int k = 0; k < N; k++) one(c, s, o, k, r.chance(0.7) ? 1 : r.range(2, 3), r.next());
    }
    else
        for (int k = 0; k < some; k++) one(c, s, o, k < 3 ? k : r.range(0, N - 1), r.chance(0.7) ? 1 : r.range(2, 3), r.next());
}
} // namespace vh
