// The same cases in debug and release builds: everything observable is written to a digest.
#include "build.hpp"
#include "pooya_all.hpp"
#include <algorithm>
#include <unistd.h>

namespace vh
{
using namespace pooya;
const char* suite_property = "C21";
const char* suite_rule = "the same random cases are run in a debug and in a release build, and everything observable - accepted times, every signal at every accepted time and after every call (also unassigned ones), every attempt of the stepper, processed blocks, bus contents and names, traversals, histories and exported files, stepper results - is compared; cases that raise an error in the debug build are skipped; non-trivial: at least 3 blocks and 2 calls, or 10 API calls";
namespace
{
struct Lf : Leaf
{
    Lf(Submodel* p, std::string_view n) : Leaf(p, n) {}
};
void vec(std::string& d, const Vec& v)
{
    d += " |";
    for (double x : v) d += " " + num(x);
}
void record(Ctx& c, RunOut& u)
{
    std::string& d = c.dig;
    std::size_t k  = 0;
    for (auto& sn : u.snaps)
    {
        d += strf("accepted %d %.17g", sn.run, sn.t);
        for (auto& v : sn.val) vec(d, v);
        d += "\n";
        c.count("accepted times");
    }
    for (auto& a : u.att)
    {
        d += strf("attempt %d %.17g %.17g %.17g %d %d", a.run, a.t0, a.t1, a.new_h, a.stages, int(a.threw));
        // the order of the states follows addresses
        std::sort(a.v0.begin(), a.v0.end());
        std::sort(a.v1.begin(), a.v1.end());
        vec(d, a.v0);
        vec(d, a.v1);
        d += "\n";
        k++;
    }
    for (auto& sn : u.after)
    {
        d += strf("after %d %.17g", sn.run, sn.t);
        for (auto& v : sn.val)
        {
            vec(d, v);
            c.count("values recorded", v.size());
        }
        d += "\n";
    }
}

void spec_mode(Ctx& c, bool broken, bool faults)
{
    Rng& r = c.rng;
    GenOpt g;
    g.big = true;
    g.max_blocks = r.chance(0.2) ? 20 : 10;
    g.max_runs   = 6;
    Spec s;
    if (broken)
    {
        g.states = g.delay = g.deriv = g.trig = false;
        for (int i = 0; i < 20; i++)
        {
            s = generate(r, g);
            bool mem = false;
            for (auto& b : s.blk) mem = mem || b.k == K::MEMORY || b.k == K::ACCUM || b.k == K::BUSMEM;
            if (!mem) break;
        }
        for (int i = r.range(1, 3); i > 0; i--)
        {
            auto& b = r.pick(s.blk);
            if (b.in.empty() || b.k == K::BUSPIPE) continue;
            int& in = b.in[r.next() % b.in.size()];
            std::vector<int> alt;
            for (std::size_t q = 0; q < s.sig.size(); q++)
                if (s.sig[q].ty == s.sig[in].ty && s.sig[q].n == s.sig[in].n && s.sig[q].prod != -1) alt.push_back(int(q));
            if (!alt.empty()) in = r.pick(alt);
        }
    }
    else
    {
        if (r.chance(0.5)) g.focus = {K(c.caseno % u64(K::COUNT_))};
        if (r.chance(0.2)) { g.repeats = true; g.delay = g.trig = false; }
        g.reinit = r.chance(0.2);
        s = generate(r, g);
    }
    BuildOpt o;
    o.sim       = broken ? Sim(r.range(0, 1)) : Sim(r.range(0, 2));
    o.perm_seed = 0; // unordered containers keyed by addresses may still reorder states
    o.probe     = r.chance(0.5);
    if (faults)
    {
        o.probe       = true;
        o.fault_at    = r.range(0, 60);
        o.fault_count = r.range(1, 3);
    }
    if (g.reinit)
    {
        u64 q = r.next();
        o.new_sim_kind = [q](int i) { return Sim(mix(q + u64(i)) % 3); };
    }
    c.desc = strf("%s%s fault %d: ", sim_name[int(o.sim)], broken ? " broken" : "", o.fault_at) + s.str();
    if (!faults)
    {
        ModelPtr m = build_model(s, o);
        RunOut& u = out(*m);
        bool err = false;
        for (std::size_t i = 0; i < s.runs.size() && !err; i++)
        {
            if (i > 0 && s.runs[i].init)
            {
                BuildOpt q = o;
                q.sim      = o.new_sim_kind(int(i));
                new_simulator(*m, q);
            }
            err = !do_run(*m, s.runs[i]);
            for (bool p : processed_flags(*m)) c.dig += p ? "P" : "-";
            c.dig += "\n";
        }
        if (err)
        {
            if (debug_build()) c.dig = "!";
            else c.dig += "error " + u.err.back() + "\n";
            c.count(debug_build() ? "debug errors" : "release errors");
            return;
        }
        record(c, u);
        for (std::size_t b = 0; b < s.blk.size(); b++) c.dig += block_full_name(*m, int(b)) + "\n";
    }
    else
    {
        ModelPtr m = build_model(s, o);
        for (auto& q : s.runs)
            for (int k = 0; k < 5; k++)
            {
                const bool ok = do_run(*m, q);
                c.dig += ok ? "ok\n" : "fault\n";
                if (ok) break;
                if (out(*m).err.back().rfind("user fault", 0) != 0)
                {
                    if (debug_build()) c.dig = "!";
                    else c.dig += "error\n";
                    return;
                }
            }
        record(c, out(*m));
    }
    if (s.blk.size() >= 3 && s.runs.size() >= 2) c.nontrivial(hash_u(s.hash(), u64(o.sim)));
}

void stepper_mode(Ctx& c)
{
    Rng& r = c.rng;
    Euler eu;
    Rk4 rk;
    Rkf45 rf;
    c.desc = "steppers";
    for (int k = r.range(3, 12); k > 0; k--)
    {
        const int n = r.range(1, 6), w = r.range(0, 2);
        StepperBase* st = w == 0 ? static_cast<StepperBase*>(&eu) : w == 1 ? static_cast<StepperBase*>(&rk) : &rf;
        Array x0(n), x1(n), d(n), f(n);
        for (int i = 0; i < n; i++)
        {
            x0[i] = r.uni(-2, 2);
            f[i]  = r.uni(-3, 3) * (r.chance(0.2) ? 1e-6 : 1);
        }
        const double t0 = r.uni(-3, 3), h = std::pow(10.0, r.uni(-4, 1));
        double nh = -1;
        st->step([&](double t, const Array& x) -> const Array&
        {
            c.dig += "stage " + num(t);
            for (int i = 0; i < n; i++) c.dig += " " + num(x[i]);
            c.dig += "\n";
            for (int i = 0; i < n; i++) d[i] = f[i] * std::sin(t + i) + std::cos(x[(i + 1) % n]);
            return d;
        }, t0, x0, t0 + h, x1, nh);
        c.dig += strf("step %d %.17g %.17g", w, h, nh);
        for (int i = 0; i < n; i++) c.dig += " " + num(x1[i]);
        c.dig += "\n";
        c.count("stepper steps");
    }
    c.nontrivial(c.rng.next());
}

void api_mode(Ctx& c)
{
    Rng& r = c.rng;
    std::string& d = c.dig;
    c.desc = "signals, buses, names, histories";
    // signals
    std::vector<Signal> sg;
    std::vector<int> ty, len;
    auto names = [&]() -> std::string
    {
        static const char* n[] = {"", "a", "b.c", "x y", "/z", "q1", "a.b.c", "_", "1/2"};
        return n[r.range(0, 8)];
    };
    for (int i = r.range(1, 8); i > 0; i--)
    {
        const int t = r.range(0, 3), n = r.range(1, 4);
        const std::string nm = names();
        ty.push_back(t);
        len.push_back(n);
        if (t == 0) sg.push_back(ScalarSignal(nm));
        else if (t == 1) sg.push_back(IntSignal(nm));
        else if (t == 2) sg.push_back(BoolSignal(nm));
        else sg.push_back(ArraySignal(std::size_t(n), nm));
    }
    std::vector<Bus> bs;
    std::vector<std::vector<std::string>> labs;
    auto walk = [&](auto&& self, const Bus& b, int dep) -> void
    {
        d += strf("bus %d %zu %s\n", dep, b.size(), b->name().str().c_str());
        for (const auto& p : b.impl())
        {
            d += "label " + p.first + " name " + p.second->name().str() + "\n";
            if (auto* q = dynamic_cast<BusImpl*>(&p.second.impl()); q && dep < 4) self(self, Bus(*q), dep + 1);
        }
    };
    for (int i = r.range(1, 4); i > 0; i--)
    {
        std::vector<LabSig> l;
        std::vector<Signal> a;
        const bool lab = r.chance(0.5);
        for (int k = r.range(0, 5); k > 0; k--)
        {
            Signal s = !bs.empty() && r.chance(0.3) ? Signal(bs[r.next() % bs.size()]) : sg[r.next() % sg.size()];
            l.emplace_back(strf("l%d", int(l.size())), s);
            a.push_back(s);
        }
        bs.push_back(lab ? mk_bus(l, names()) : mk_bus_auto(a, names()));
        walk(walk, bs.back(), 0);
        for (int k = 0; k < 6; k++)
        {
            static const char* pth[] = {"l0", "l1", "sig0", "sig1", "l0.l0", "sig0.l1", "l1.sig0", "nope", "l0.nope", "", "."};
            const char* p = pth[r.range(0, 10)];
            auto got = bs.back()->try_at(p);
            d += strf("try %s ", p);
            int which = -1;
            if (got)
                for (std::size_t q = 0; q < sg.size(); q++)
                    if (&sg[q].impl() == &got->impl()) which = int(q);
            d += strf("%d %d\n", got ? 1 : 0, which);
            bool thrown = false;
            try
            {
                (void)bs.back().at(p);
            }
            catch (const std::exception&)
            {
                thrown = true;
            }
            d += thrown ? "refused\n" : "found\n";
        }
    }
    // values and histories: only legal accesses
    History h(uint(r.range(1, 5)));
    std::vector<char> asg(sg.size(), 0);
    for (std::size_t i = 0; i < sg.size(); i++)
        if (r.chance(0.6)) h.track(sg[i]);
    for (std::size_t i = 0; i < sg.size(); i++)
        if (r.chance(0.1)) h.untrack(sg[i]);
    h.track(sg[0]); // a history that tracks nothing records nothing
    auto val = [&](std::size_t i) -> ValueSignalImpl* { return dynamic_cast<ValueSignalImpl*>(&sg[i].impl()); };
    uint rows = 0;
    for (int op = r.range(5, 40); op > 0; op--)
    {
        const std::size_t i = r.next() % sg.size();
        switch (r.range(0, 4))
        {
        case 0:
            val(i)->clear();
            asg[i] = 0;
            break;
        case 1:
        {
            if (asg[i]) break;
            double v = r.uni(-5, 5);
            SignalImpl* p = &sg[i].impl();
            if (auto* q = dynamic_cast<ScalarSignalImpl*>(p)) q->set_value(v);
            else if (auto* q = dynamic_cast<IntSignalImpl*>(p)) q->set_value(int(v));
            else if (auto* q = dynamic_cast<BoolSignalImpl*>(p)) q->set_value(v > 0);
            else if (auto* q = dynamic_cast<ArraySignalImpl*>(p)) q->set_value(Array::Constant(len[i], v));
            asg[i] = 1;
            break;
        }
        case 2:
        {
            const uint k = r.chance(0.5) ? rows : uint(r.range(0, int(rows)));
            h.update(k, r.uni(0, 10));
            rows = std::max(rows, k + 1);
            break;
        }
        case 3: if (r.chance(0.3)) h.shrink_to_fit(); break;
        default: break;
        }
        d += strf("assigned %d", int(val(i)->assigned()));
        vec(d, sig_vec(sg[i]));
        d += "\n";
        c.count("API calls");
    }
    d += strf("rows %u\n", h.nrows());
    for (uint k = 0; k < rows; k++) d += num(h.time()(k)) + "\n";
    for (std::size_t i = 0; i < sg.size(); i++)
    {
        if (!h.count(std::dynamic_pointer_cast<ValueSignalImpl>(sg[i]->shared_from_this()))) { d += "untracked\n"; continue; }
        auto& mtx = h[sg[i]];
        for (uint k = 0; k < rows; k++)
            for (int j = 0; j < mtx.cols(); j++) d += num(mtx(k, j)) + " ";
        d += "\n";
    }
    {
        char fn[] = "c21-XXXXXX";
        int fd = mkstemp(fn);
        if (fd >= 0) ::close(fd);
        h.export_csv(fn);
        if (FILE* f = fopen(fn, "r"))
        {
            // the columns are in no particular order: compare them sorted
            std::string txt;
            char buf[4096];
            for (std::size_t n; (n = fread(buf, 1, sizeof buf, f)) > 0;) txt.append(buf, n);
            fclose(f);
            std::vector<std::vector<std::string>> cols;
            std::istringstream is(txt);
            for (std::string l; std::getline(is, l);)
            {
                std::istringstream ls(l);
                std::size_t k = 0;
                for (std::string x; std::getline(ls, x, ','); k++)
                {
                    if (cols.size() <= k) cols.resize(k + 1);
                    cols[k].push_back(x);
                }
            }
            std::vector<std::string> flat;
            for (auto& q : cols)
            {
                std::string z;
                for (auto& x : q) z += x + " ; ";
                flat.push_back(z);
            }
            std::sort(flat.begin(), flat.end());
            for (auto& z : flat) d += "csv " + z + "\n";
        }
        unlink(fn);
    }
    // hierarchy
    {
        std::vector<std::unique_ptr<Submodel>> sm;
        std::vector<std::unique_ptr<Block>> bl;
        sm.push_back(std::make_unique<Submodel>(nullptr, names()));
        for (int k = r.range(0, 4); k > 0; k--) sm.push_back(std::make_unique<Submodel>(sm[r.next() % sm.size()].get(), names()));
        for (int k = r.range(1, 6); k > 0; k--)
        {
            bl.push_back(std::make_unique<Lf>(nullptr, names()));
            const bool ok = sm[r.next() % sm.size()]->add_block(*bl.back());
            d += strf("added %d\n", int(ok));
            try
            {
                d += strf("again %d\n", int(sm[r.next() % sm.size()]->add_block(*bl.back())));
            }
            catch (const std::exception&)
            {
                d += "again refused\n";
            }
        }
        int stop = r.range(0, 12), n = 0;
        sm[0]->visit([&](Block& b, uint32_t lev) -> bool
        {
            d += strf("visit %u ", lev) + b.full_name().str() + "\n";
            return ++n != stop;
        }, 0, uint32_t(r.range(0, 4)));
    }
    c.nontrivial(hash_str(d));
}
} // namespace

void suite_case(Ctx& c)
{
    const int m = int(c.caseno % 10);
    if (m <= 4) spec_mode(c, false, false);
    else if (m == 5) spec_mode(c, true, false);
    else if (m == 6) spec_mode(c, false, true);
    else if (m == 7) stepper_mode(c);
    else api_mode(c);
}
} // namespace vh
