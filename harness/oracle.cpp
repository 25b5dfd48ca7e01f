#include "build.hpp"
#include <algorithm>

namespace vh
{
static std::string cmp_vals(const Spec& s, const std::vector<Vec>& got, const std::vector<Vec>& want, double tol, u64& compared)
{
    if (got.size() != want.size()) return "different number of signals";
    for (std::size_t i = 0; i < got.size(); i++)
    {
        if (got[i].size() != want[i].size())
            return strf("signal %s: %s", s.sig[i].name.c_str(), got[i].empty() ? "unassigned" : want[i].empty() ? "assigned unexpectedly" : "wrong size");
        for (std::size_t j = 0; j < got[i].size(); j++)
        {
            compared++;
            if (!close(got[i][j], want[i][j], tol))
            {
                const int p = s.sig[i].prod;
                return strf("signal %s[%d] (produced by %s) is %.17g, expected %.17g", s.sig[i].name.c_str(), int(j),
                            p < 0 ? "the inputs callback" : (s.blk[p].name + "=" + kind_name[int(s.blk[p].k)]).c_str(), got[i][j], want[i][j]);
            }
        }
    }
    return "";
}

bool same_values(const std::vector<Vec>& a, const std::vector<Vec>& b)
{
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i < a.size(); i++)
    {
        if (a[i].size() != b[i].size()) return false;
        for (std::size_t j = 0; j < a[i].size(); j++)
            if (!(a[i][j] == b[i][j] || (std::isnan(a[i][j]) && std::isnan(b[i][j])))) return false;
    }
    return true;
}

// a difference quotient over a step near the resolution of the numbers is only noise
bool ill_conditioned(const Spec& s, double t0, double t1)
{
    if (t1 == t0 || std::fabs(t1 - t0) > 5e-6) return false;
    for (auto& b : s.blk)
        if (b.k == K::DERIV) return true;
    return false;
}

std::string compare_with_ref(const Spec& s, const RunOut& o, double tol, u64& compared, u64& steps)
{
    Ref ref(s);
    std::size_t k = 0;
    const bool sf = !ref.states.empty();
    double tp     = 0;
    for (std::size_t c = 0; c < o.after.size(); c++)
    {
        const double t     = o.after[c].t;
        const bool isinit  = !ref.inited || s.runs[c].init;
        const bool errored = !o.err[c].empty();
        bool first = true;
        std::size_t n = 0;
        for (; k < o.snaps.size() && o.snaps[k].run == int(c); k++, n++)
        {
            const Snap& sn = o.snaps[k];
            if (isinit)
            {
                if (!first) return strf("call %d: more than one accepted time at initialization", int(c));
                ref.init(sn.t);
            }
            else if (sf && sn.t == ref.t_prev && first && t == sn.t)
                ref.repeat(sn.t);
            else
            {
                if (sf && sn.t <= ref.t_prev) return strf("call %d: accepted time %.17g after %.17g", int(c), sn.t, ref.t_prev);
                ref.accept(sn.t);
            }
            first = false;
            steps++;
            const bool ill = !isinit && ill_conditioned(s, tp, sn.t);
            tp             = sn.t;
            std::string e  = ill ? std::string() : cmp_vals(s, sn.val, ref.val, tol, compared);
            if (!e.empty()) return strf("call %d (t=%.17g), accepted time %.17g: ", int(c), t, sn.t) + e;
            // continue from the observed values: every step is checked on its own, so that a chaotic diagram does
            // not amplify rounding differences (all state of the library's blocks is visible in signals)
            ref.val = sn.val;
            ref.commit(sn.t);
        }
        if (errored) continue;
        if (n == 0) return strf("call %d (t=%.17g): no time was accepted", int(c), t);
        if (o.snaps[k - 1].t != t) return strf("call %d: ended at %.17g instead of %.17g", int(c), o.snaps[k - 1].t, t);
        std::string e = cmp_vals(s, o.after[c].val, ref.val, tol, compared);
        if (!e.empty()) return strf("after call %d (t=%.17g): ", int(c), t) + e;
    }
    return "";
}

std::string compare_outs(const Spec& s, const RunOut& a, const RunOut& b, double tol, u64& compared)
{
    if (a.err.size() != b.err.size()) return "different number of calls";
    for (std::size_t i = 0; i < a.err.size(); i++)
        if (a.err[i].empty() != b.err[i].empty())
            return strf("call %d: one variant threw: ", int(i)) + a.err[i] + b.err[i];
    if (a.snaps.size() != b.snaps.size()) return strf("%d accepted times instead of %d", int(b.snaps.size()), int(a.snaps.size()));
    for (std::size_t i = 0; i < a.snaps.size(); i++)
    {
        if (!close(a.snaps[i].t, b.snaps[i].t, tol)) return strf("accepted time %.17g instead of %.17g", b.snaps[i].t, a.snaps[i].t);
        auto e = cmp_vals(s, b.snaps[i].val, a.snaps[i].val, tol, compared);
        if (!e.empty()) return strf("at accepted time %.17g: ", a.snaps[i].t) + e;
    }
    for (std::size_t i = 0; i < a.after.size(); i++)
    {
        auto e = cmp_vals(s, b.after[i].val, a.after[i].val, tol, compared);
        if (!e.empty()) return strf("after the call with t=%.17g: ", a.after[i].t) + e;
    }
    return "";
}

std::string check_events(const Spec& s, const RunOut& o, Sim sim, u64& evals)
{
    (void)sim;
    if (!o.probe_error.empty()) return o.probe_error;
    std::vector<char> probed(s.blk.size(), 1);
    int nprobed = 0;
    for (std::size_t i = 0; i < s.blk.size(); i++)
    {
        if (s.blk[i].k == K::BUSMEM || s.blk[i].k == K::BUSPIPE) probed[i] = 0;
        nprobed += probed[i];
    }
    bool in_epoch = false, icb = false;
    double te     = 0;
    std::vector<char> act(s.blk.size(), 0), fin(s.blk.size(), 0);
    int nact = 0;
    int stage_evals = -1; // >= 0 inside a stage
    double ts       = 0;
    int call        = -1;
    bool any_eval_in_call = false;
    auto close_epoch = [&]() -> std::string
    {
        if (!in_epoch) return "";
        in_epoch = false;
        if (nact == 0) return "";
        if (nact != nprobed)
        {
            for (std::size_t i = 0; i < s.blk.size(); i++)
                if (probed[i] && !act[i])
                    return strf("evaluation at t=%.17g: block %s (%s) was not activated", te, s.blk[i].name.c_str(), kind_name[int(s.blk[i].k)]);
        }
        if (!icb) return strf("evaluation at t=%.17g without the input callback of the model", te);
        evals++;
        any_eval_in_call = true;
        if (stage_evals >= 0)
        {
            if (te != ts) return strf("solver stage at t=%.17g evaluated the model at t=%.17g", ts, te);
            stage_evals++;
        }
        return "";
    };
    for (auto& e : o.ev)
    {
        std::string r;
        switch (e.e)
        {
        case Ev::RUN_BEGIN:
            if (e.id == -2)
            {
                r = close_epoch();
                stage_evals = 0;
                ts          = e.t;
            }
            else
            {
                call             = e.id;
                any_eval_in_call = false;
                stage_evals      = -1;
            }
            break;
        case Ev::RUN_END:
            if (e.id == -2)
            {
                r = close_epoch();
                if (r.empty() && stage_evals == 0) r = strf("solver stage at t=%.17g did not evaluate the model", e.t);
                stage_evals = -1;
            }
            else if (o.err[call].empty())
            {
                const double tlast = te;
                const bool had     = in_epoch && nact > 0;
                r                  = close_epoch();
                if (r.empty() && !any_eval_in_call) r = strf("call %d did not evaluate the model", call);
                if (r.empty() && (!had || tlast != e.t)) r = strf("call %d: the last evaluation was not at t=%.17g", call, e.t);
            }
            else
                in_epoch = false;
            break;
        case Ev::INPUTS:
            r        = close_epoch();
            in_epoch = true;
            icb      = false;
            te       = e.t;
            nact     = 0;
            std::fill(act.begin(), act.end(), 0);
            std::fill(fin.begin(), fin.end(), 0);
            break;
        case Ev::INPUT_CB:
            if (!in_epoch || nact > 0) r = strf("input callback of the model at t=%.17g not directly after the inputs callback", e.t);
            else if (icb) r = strf("input callback of the model called twice at t=%.17g", e.t);
            else if (e.t != te) r = strf("input callback of the model called with t=%.17g instead of %.17g", e.t, te);
            icb = true;
            break;
        case Ev::ACT:
        {
            const char* n = s.blk[e.id].name.c_str();
            const char* kn = kind_name[int(s.blk[e.id].k)];
            if (!in_epoch) r = strf("block %s (%s) activated at t=%.17g without refreshing the inputs", n, kn, e.t);
            else if (e.t != te) r = strf("block %s (%s) activated with t=%.17g in an evaluation at t=%.17g", n, kn, e.t, te);
            else if (act[e.id]) r = strf("block %s (%s) activated twice in the evaluation at t=%.17g", n, kn, te);
            else if (!icb) r = strf("block %s (%s) activated before the input callback at t=%.17g", n, kn, te);
            else
                for (int g : s.blk[e.id].required())
                {
                    const int p = s.sig[g].prod;
                    if (p < 0 || !probed[p] || s.blk[p].k == K::INTEG || s.blk[p].k == K::TRIG) continue;
                    if (!fin[p])
                        r = strf("block %s (%s) activated before %s, which produces its input %s, at t=%.17g", n, kn, s.blk[p].name.c_str(), s.sig[g].name.c_str(), te);
                }
            act[e.id] = 1;
            nact++;
            break;
        }
        case Ev::ACT_END: fin[e.id] = 1; break;
        default: break;
        }
        if (!r.empty()) return r;
    }
    return "";
}

std::string check_commits(const Spec& s, const RunOut& o, Sim sim, u64& commits)
{
    (void)sim;
    int nprobed = 0;
    for (auto& b : s.blk) nprobed += !(b.k == K::BUSMEM || b.k == K::BUSPIPE);
    // expected accepted times per call, from the attempts of the stepper
    const int ncalls = int(o.err.size());
    std::vector<std::vector<double>> want(ncalls), got(ncalls);
    for (std::size_t i = 0; i < o.att.size(); i++)
    {
        auto& a = o.att[i];
        if (a.threw) continue;
        const bool last = i + 1 >= o.att.size() || o.att[i + 1].run != a.run;
        const bool acc  = last ? (a.t1 == o.after[a.run].t) : o.att[i + 1].t0 == a.t1;
        if (acc) want[a.run].push_back(a.t1);
    }
    bool inited = false;
    for (int c = 0; c < ncalls; c++)
    {
        if (want[c].empty() && o.err[c].empty()) want[c].push_back(o.after[c].t);
        inited = true;
    }
    (void)inited;
    std::vector<int> cnt(s.blk.size(), 0);
    int npost = 0, call = -1;
    bool in_step = false;
    double tp    = 0;
    double te    = 0;
    int nact     = 0;
    auto close   = [&]() -> std::string
    {
        if (npost == 0) return "";
        if (npost != nprobed)
        {
            for (std::size_t i = 0; i < s.blk.size(); i++)
                if (!cnt[i] && s.blk[i].k != K::BUSMEM && s.blk[i].k != K::BUSPIPE)
                    return strf("block %s (%s) was not told that t=%.17g was accepted", s.blk[i].name.c_str(), kind_name[int(s.blk[i].k)], tp);
        }
        got[call].push_back(tp);
        commits++;
        npost = 0;
        std::fill(cnt.begin(), cnt.end(), 0);
        return "";
    };
    for (auto& e : o.ev)
    {
        std::string r;
        if (e.e != Ev::POST) r = close();
        if (!r.empty()) return r;
        switch (e.e)
        {
        case Ev::RUN_BEGIN:
            if (e.id >= 0) { call = e.id; in_step = false; }
            break;
        case Ev::STEP_BEGIN: in_step = true; break;
        case Ev::STEP_END: in_step = false; break;
        case Ev::INPUTS: nact = 0; te = e.t; break;
        case Ev::ACT: nact++; break;
        case Ev::POST:
        {
            const char* n = s.blk[e.id].name.c_str();
            if (in_step) return strf("block %s: end-of-step notification at t=%.17g during a solver stage", n, e.t);
            if (npost == 0) tp = e.t;
            if (e.t != tp) return strf("block %s: end-of-step notification with t=%.17g instead of %.17g", n, e.t, tp);
            if (nact < nprobed || te != e.t) return strf("block %s: end-of-step notification at t=%.17g without an evaluation at that time", n, e.t);
            if (cnt[e.id]++) return strf("block %s: two end-of-step notifications at t=%.17g", n, e.t);
            npost++;
            break;
        }
        default: break;
        }
    }
    {
        std::string r = close();
        if (!r.empty()) return r;
    }
    for (int c = 0; c < ncalls; c++)
    {
        if (!o.err[c].empty()) continue;
        if (nprobed && got[c] != want[c])
        {
            std::string w, g;
            for (double x : want[c]) w += num(x) + " ";
            for (double x : got[c]) g += num(x) + " ";
            return strf("call %d (t=%.17g): blocks were told these times were accepted: %s; accepted by the stepper: %s", c, o.after[c].t, g.c_str(), w.c_str());
        }
    }
    for (auto& sn : o.snaps)
        for (std::size_t i = 0; i < sn.val.size(); i++)
            if (sn.val[i].empty()) return strf("signal %s unassigned at the end of the accepted step t=%.17g", s.sig[i].name.c_str(), sn.t);
    return "";
}

std::string check_steps(const Spec& s, const RunOut& o, u64& rejected, u64& accepted)
{
    bool trig = false;
    Vec lims; // users' integrators that limit their state when a step is accepted
    for (auto& b : s.blk)
    {
        trig = trig || b.k == K::TRIG;
        if (b.k == K::INTEG && b.fn == 1) lims.push_back(b.p);
    }
    double tp   = 0;
    bool inited = false;
    Vec vp; // state with which the next attempt must start; empty: not known
    std::size_t k = 0;
    auto same_state = [&](const Vec& a, const Vec& b) // b: required
    {
        if (a.size() != b.size()) return false;
        for (std::size_t i = 0; i < a.size(); i++)
        {
            bool ok = a[i] == b[i] || (trig && a[i] == 0) || (std::isnan(a[i]) && std::isnan(b[i]));
            for (double l : lims) ok = ok || a[i] == limited(b[i], l);
            if (!ok) return false;
        }
        return true;
    };
    for (std::size_t c = 0; c < o.err.size(); c++)
    {
        const Run& r = s.runs[c];
        std::size_t k0 = k;
        while (k < o.att.size() && o.att[k].run == int(c)) k++;
        const std::string call = strf("call %d (t=%.17g, limits %.17g..%.17g): ", int(c), r.t, r.hmin, r.hmax);
        if (!inited || r.init)
        {
            if (k != k0) return call + "solver steps during initialization";
            inited = true;
            tp     = r.t;
            vp.clear();
            continue;
        }
        if (!o.err[c].empty()) continue;
        if (r.t == tp)
        {
            if (k != k0) return call + "solver steps although the time is the current one";
            if (trig) vp.clear();
            continue;
        }
        if (k == k0) return call + "no solver step";
        double t1 = tp;
        double want_end = std::min(t1 + r.hmax, r.t); // upper bound for the first attempt
        bool forced = false, first = true;
        for (std::size_t i = k0; i < k; i++)
        {
            const Attempt& a = o.att[i];
            const std::string at = call + strf("attempt %d (%.17g to %.17g, proposal %.17g): ", int(i - k0), a.t0, a.t1, a.new_h);
            const double ulp = 4 * (std::nextafter(std::fabs(t1) + std::fabs(want_end), INFINITY) - (std::fabs(t1) + std::fabs(want_end)));
            if (a.t0 != t1) return at + strf("should start at %.17g", t1);
            if (!vp.empty() && !same_state(a.v0, vp)) return at + "does not start from the state the last accepted step ended with";
            if (first)
            {
                if (!(a.t1 > a.t0)) return at + "does not advance";
                if (a.t1 > want_end + ulp) return at + strf("the first attempt may not go beyond %.17g", want_end);
                if (a.t1 != r.t && a.t1 - a.t0 < r.hmin - ulp) return at + "shorter than the minimum";
            }
            else if (std::fabs(a.t1 - want_end) > ulp) return at + strf("should end at %.17g", want_end);
            first = false;
            if (a.t1 > r.t) return at + "goes beyond the requested time";
            const double h = a.t1 - a.t0;
            const double pr = std::max(r.hmin, std::min(a.new_h, r.hmax));
            const bool last = i + 1 == k;
            const bool acc  = last ? a.t1 == r.t : o.att[i + 1].t0 == a.t1;
            if (last && !acc) return at + "the run ended although the requested time was not reached";
            const bool shorter = a.new_h < h, above = h > r.hmin;
            const double gray = 1e-12 * r.hmin + ulp;
            if (acc)
            {
                if (shorter && !forced && h > r.hmin + gray) return at + "accepted although the stepper asked for a shorter step and the attempt was longer than the minimum";
                if (!last && h < r.hmin - gray) return at + "an accepted step is shorter than the minimum";
                if (h > r.hmax + ulp) return at + "an accepted step is longer than the maximum";
                t1       = a.t1;
                want_end = std::min(t1 + pr, r.t);
                vp       = a.v1;
                forced   = false;
                accepted++;
            }
            else
            {
                if (!(shorter && above)) return at + "retried although the stepper accepted it or it had the minimum length";
                if (o.att[i + 1].t0 != a.t0) return at + strf("the retry starts at %.17g", o.att[i + 1].t0);
                if (!same_state(o.att[i + 1].v0, a.v0)) return at + "the retry starts from another state";
                want_end = t1 + pr;
                vp       = a.v0;
                forced   = a.new_h <= r.hmin;
                rejected++;
            }
        }
        tp = r.t;
    }
    return "";
}

std::string digest(const RunOut& o)
{
    std::string r;
    for (auto& sn : o.snaps)
    {
        r += strf("%d %.17g", sn.run, sn.t);
        for (auto& v : sn.val)
        {
            r += " |";
            for (double x : v) r += strf(" %.17g", x);
        }
        r += "\n";
    }
    return r;
}
} // namespace vh
