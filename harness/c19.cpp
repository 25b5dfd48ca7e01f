// Independent models at the same time: interleaved in one thread, nested in each other's callbacks, and in threads.
#include "build.hpp"
#include "pooya_all.hpp"
#include <algorithm>
#include <atomic>
#include <sched.h>
#include <thread>
#include <unistd.h>

namespace vh
{
using namespace pooya;
const char* suite_property = "C19";
const char* suite_rule = "2-6 independent random models (different simulators, steppers, blocks; some with faults, warnings, refused calls, histories and exported files) are first run alone, then again (a) interleaved call by call in one thread, (b) nested: one model runs inside the callbacks of another, (c) each in its own thread with random yields and pauses in the user callbacks, also built or destroyed by another thread; accepted times, all signals and exported files must be exactly those of the run alone; the threaded ones also run under ThreadSanitizer; non-trivial: distinct orders in which the callbacks of the models alternated";
namespace
{
struct Task
{
    Spec s;
    BuildOpt o;
    bool api = false; // signals, buses, hierarchies, histories, refused calls
    u64 seed = 0;
};

std::string all_of(RunOut& u)
{
    std::string d = digest(u);
    for (auto& a : u.att) d += strf("%d %.17g %.17g %.17g %d\n", a.run, a.t0, a.t1, a.new_h, a.stages);
    for (auto& e : u.err) d += e.empty() ? "ok\n" : e.rfind("user fault", 0) == 0 ? e + "\n" : "err\n";
    for (auto& sn : u.after)
    {
        d += num(sn.t);
        for (auto& v : sn.val)
        {
            d += " |";
            for (double x : v) d += " " + num(x);
        }
        d += "\n";
    }
    return d;
}

// one call of the model's program; returns false when it is finished
struct Player
{
    const Task& t;
    ModelPtr m;
    std::size_t i = 0;
    int tries = 0;
    explicit Player(const Task& tk) : t(tk) {}
    void build(const BuildOpt& o) { m = build_model(t.s, o); }
    bool step()
    {
        if (i >= t.s.runs.size()) return false;
        if (do_run(*m, t.s.runs[i]) || ++tries > 3)
        {
            i++;
            tries = 0;
        }
        return true;
    }
    std::string result() { return all_of(out(*m)); }
};

struct Nop : Leaf
{
    Nop(Submodel* p, std::string_view n) : Leaf(p, n) {}
};

// library calls outside simulations; f is called between them
std::string api_task(u64 seed, bool nested, const std::function<void()>& f)
{
    Rng r(seed);
    std::string d;
    auto refuse = [&](const std::function<void()>& g)
    {
        try
        {
            g();
            d += "accepted\n";
        }
        catch (const std::exception& e)
        {
            // the traceback must not contain what other models do
            std::string w = e.what();
            // (nested calls do appear in it)
            if (nested) w = w.substr(0, w.find("Pooya Traceback"));
            d += w + "\n";
        }
        f();
    };
    for (int k = r.range(2, 5); k > 0; k--)
    {
        const std::string base = strf("n%llu_%d", (unsigned long long)(seed % 1000), k);
        ScalarSignal s(base + ".s"), s2(base + "/t");
        IntSignal i(base + " i");
        BoolSignal b;
        ArraySignal a(std::size_t(r.range(1, 3)), base + "a");
        f();
        Bus in({{"x", s}, {"y", i}}, base), un({s, a, b});
        Bus nest({{"p", in}, {"q", un}});
        d += in->name().str() + " " + un.at(1)->name().str() + strf(" %d\n", int(&nest.at("p.x").impl() == &s.impl()));
        f();
        refuse([&] { (void)nest.at("p." + base); });
        refuse([&] { ScalarSignal z(i.impl()); });
        refuse([&] { s.reset(a); });
        s = 1.5;
        if (debug_build()) refuse([&] { s = 2.5; });
        if (debug_build()) refuse([&] { (void)s2->get_value(); });
        Submodel root(nullptr, base), sub(&root, "a b");
        Nop l1(&sub, "l.1"), l2(nullptr, "l2");
        sub.add_block(l2);
        f();
        root.visit([&](Block& q, uint32_t lev) -> bool { d += strf("%u ", lev) + q.full_name().str() + "\n"; f(); return true; }, 0);
        Gain g(2.0, &sub, "g");
        refuse([&] { g.connect(in, un); });
        g.connect(mk_bus_auto({s}), mk_bus_auto({s2}));
        History h(2);
        h.track(s);
        h.track(a);
        a = Array::Constant(a->size(), 0.5);
        for (uint q = 0; q < 5; q++)
        {
            h.update(q, q * 0.5);
            f();
        }
        h.shrink_to_fit();
        char fn[] = "c19-XXXXXX";
        int fd = mkstemp(fn);
        if (fd >= 0) ::close(fd);
        f();
        h.export_csv(fn);
        if (FILE* fl = fopen(fn, "r"))
        {
            // columns follow addresses: sort the characters of each line
            char buf[512];
            while (fgets(buf, sizeof buf, fl))
            {
                std::string l = buf;
                std::sort(l.begin(), l.end());
                d += l + "\n";
            }
            fclose(fl);
        }
        unlink(fn);
        const int n = r.range(1, 3);
        Euler eu;
        Rk4 rk;
        Rkf45 rf;
        StepperBase* st[] = {&eu, &rk, &rf};
        for (int q = 0; q < 3; q++)
        {
            Array x0 = Array::Constant(n, 0.7), x1(n), dx(n);
            double nh = 0;
            st[q]->step([&](double t, const Array& x) -> const Array& { f(); dx = (x * (1.0 + q)).sin() + t; return dx; }, 0.1 * k, x0, 0.1 * k + 0.3, x1, nh);
            for (int z = 0; z < n; z++) d += num(x1[z]) + " ";
            d += num(nh) + "\n";
        }
    }
    return d;
}

Task make_task(Rng& r, u64 no)
{
    Task t;
    t.seed = r.next();
    t.api  = r.chance(0.2);
    GenOpt g;
    g.max_blocks   = r.chance(0.2) ? 16 : 8;
    g.max_runs     = 5;
    g.force_states = r.chance(0.6);
    if (r.chance(0.4)) g.focus = {K(no % u64(K::COUNT_))};
    if (r.chance(0.1)) { g.repeats = true; g.delay = g.trig = false; }
    t.s           = generate(r, g);
    t.o.sim       = Sim(r.range(0, 2));
    t.o.probe     = true;
    t.o.budget    = 20000;
    t.o.events    = false;
    t.o.capture_out = false;
    if (r.chance(0.2))
    {
        t.o.fault_at    = r.range(0, 80);
        t.o.fault_count = r.range(1, 2);
    }
    return t;
}
struct NullBuf : std::streambuf
{
    int overflow(int ch) override { return ch == EOF ? 0 : ch; }
    std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};
std::string diff(const std::string& a, const std::string& b)
{
    std::istringstream x(a), y(b);
    std::string l, m;
    for (int k = 0;; k++)
    {
        const bool p = bool(std::getline(x, l)), q = bool(std::getline(y, m));
        if (!p && !q) return "";
        if (p != q || l != m) return strf("line %d: alone: %s | together: %s", k, p ? l.substr(0, 400).c_str() : "(none)", q ? m.substr(0, 400).c_str() : "(none)");
    }
}
} // namespace

void suite_case(Ctx& c)
{
    Rng& r = c.rng;
    static NullBuf nul;
    struct Mute
    {
        std::streambuf* o = std::cout.rdbuf(&nul);
        ~Mute() { std::cout.rdbuf(o); }
    } mute;
    const int n    = r.range(2, suite_arg == "threads" ? 5 : 4);
    int mode = suite_arg == "threads" ? 2 : suite_arg == "one" ? r.range(0, 1) : r.range(0, 2);
    std::vector<Task> tasks;
    for (int i = 0; i < n; i++) tasks.push_back(make_task(r, c.caseno * 4 + i));
    if (r.chance(0.3)) for (int i = 1; i < n; i++) { const auto o = tasks[i].o; tasks[i] = tasks[0]; if (r.chance(0.5)) tasks[i].o = o; } // twins
    c.desc = strf("%d models, %s", n, mode == 0 ? "interleaved" : mode == 1 ? "nested" : "in threads");
    for (auto& t : tasks) c.desc += std::string(" || ") + (t.api ? "api calls" : strf("%s fault %d: ", sim_name[int(t.o.sim)], t.o.fault_at) + t.s.str());
    std::vector<std::string> alone(n), got(n);
    for (int i = 0; i < n; i++)
    {
        if (tasks[i].api)
        {
            alone[i] = api_task(tasks[i].seed, mode == 1, [] {});
            continue;
        }
        try
        {
            Player p(tasks[i]);
            p.build(tasks[i].o);
            while (p.step()) {}
            alone[i] = p.result();
        }
        catch (const Budget&) // too long for this suite
        {
            tasks[i].api = true;
            alone[i]     = api_task(tasks[i].seed, mode == 1, [] {});
        }
    }
    u64 order = 17;
    if (mode == 0)
    {
        // call by call, in random order; also construction and destruction interleave
        std::vector<std::unique_ptr<Player>> ps(n);
        std::vector<int> left;
        for (int i = 0; i < n; i++) left.push_back(i);
        while (!left.empty())
        {
            const int k = int(r.next() % left.size()), i = left[k];
            order = hash_u(order, u64(i));
            c.count("interleaved calls");
            if (tasks[i].api)
            {
                got[i] = api_task(tasks[i].seed, mode == 1, [] {});
                left.erase(left.begin() + k);
                continue;
            }
            if (!ps[i])
            {
                ps[i] = std::make_unique<Player>(tasks[i]);
                ps[i]->build(tasks[i].o);
            }
            else if (!ps[i]->step())
            {
                got[i] = ps[i]->result();
                ps[i].reset();
                left.erase(left.begin() + k);
            }
        }
    }
    else if (mode == 1)
    {
        // model 0 runs; inside its callbacks the others advance
        std::vector<std::unique_ptr<Player>> ps(n);
        u64 rs = r.next();
        int depth = 0;
        std::function<void(int)> advance = [&](int from)
        {
            if (depth >= 3) return;
            rs = mix(rs);
            if (rs % 5) return;
            const int i = from + 1 + int((rs >> 8) % u64(n));
            if (i >= n) return;
            depth++;
            struct D { int& d; ~D() { d--; } } dd{depth};
            if (tasks[i].api)
            {
                if (got[i].empty()) got[i] = api_task(tasks[i].seed, mode == 1, [&] { advance(i); });
            }
            else if (!ps[i])
            {
                auto p = std::make_unique<Player>(tasks[i]);
                BuildOpt o = tasks[i].o;
                o.on_tick  = [&, i] { advance(i); };
                p->build(o);
                ps[i] = std::move(p);
            }
            else
            {
                // a model must not be entered again while it runs: it is advanced only by lower-numbered ones, which
                // may be active only once each
                static thread_local std::set<int> active;
                if (active.count(i)) return;
                active.insert(i);
                struct A { std::set<int>& s; int i; ~A() { s.erase(i); } } aa{active, i};
                ps[i]->step();
                c.count("nested calls");
            }
            order = hash_u(order, u64(i) + 100);
        };
        for (int i = 0; i < n; i++)
        {
            if (tasks[i].api)
            {
                if (got[i].empty()) got[i] = api_task(tasks[i].seed, mode == 1, [&] { advance(i); });
                continue;
            }
            if (!ps[i])
            {
                ps[i]      = std::make_unique<Player>(tasks[i]);
                BuildOpt o = tasks[i].o;
                o.on_tick  = [&, i] { advance(i); };
                ps[i]->build(o);
            }
            while (ps[i]->step()) {}
            got[i] = ps[i]->result();
        }
    }
    else
    {
        std::atomic<int> ready{0}, seq{0};
        static std::atomic<unsigned char> log[1 << 16];
        std::vector<std::thread> th;
        std::vector<std::unique_ptr<Player>> ps(n);
        std::vector<u64> ys(n);
        std::vector<int> pre(n), post(n);
        std::vector<BuildOpt> opts(n);
        for (int i = 0; i < n; i++)
        {
            ys[i]   = r.next();
            pre[i]  = r.chance(0.3);  // built by the main thread
            post[i] = r.chance(0.3); // destroyed by the main thread
        }
        auto pause = [&](int i)
        {
            // relaxed: must not order the threads
            const int k = seq.fetch_add(1, std::memory_order_relaxed);
            if (k < (1 << 16)) log[k].store((unsigned char)i, std::memory_order_relaxed);
            ys[i] = mix(ys[i]);
            if (ys[i] % 4 == 0) sched_yield();
            else if (ys[i] % 97 == 0) usleep(50);
        };
        std::vector<std::string> errs(n);
        for (int i = 0; i < n; i++)
        {
            opts[i]         = tasks[i].o;
            opts[i].on_tick = [&pause, i] { pause(i); };
            if (!tasks[i].api && pre[i])
            {
                ps[i] = std::make_unique<Player>(tasks[i]);
                ps[i]->build(opts[i]);
            }
        }
        for (int i = 0; i < n; i++)
            th.emplace_back([&, i]
            {
                ready.fetch_add(1);
                while (ready.load() < n) sched_yield();
                try
                {
                    if (tasks[i].api)
                    {
                        got[i] = api_task(tasks[i].seed, mode == 1, [&] { pause(i); });
                        return;
                    }
                    if (!ps[i])
                    {
                        ps[i] = std::make_unique<Player>(tasks[i]);
                        ps[i]->build(opts[i]);
                    }
                    while (ps[i]->step()) {}
                    got[i] = ps[i]->result();
                    if (!post[i]) ps[i].reset();
                }
                catch (const Violation& v) { errs[i] = v.msg; }
                catch (const Budget& v) { errs[i] = v.what; }
                catch (const std::exception& e) { errs[i] = std::string("exception: ") + e.what(); }
            });
        for (auto& t : th) t.join();
        for (int i = 0; i < n; i++) VH_CHECK(errs[i].empty(), "thread %d: %s", i, errs[i].c_str());
        const int k = std::min(seq.load(), 1 << 16);
        u64 sw = 0;
        for (int i = 0; i < k; i++)
        {
            order = hash_u(order, log[i].load(std::memory_order_relaxed));
            if (i && log[i].load(std::memory_order_relaxed) != log[i - 1].load(std::memory_order_relaxed)) sw++;
        }
        c.count("user callbacks in threads", u64(k));
        c.count("switches between threads at callbacks", sw);
        c.count("threads", u64(n));
    }
    for (int i = 0; i < n; i++)
    {
        VH_CHECK(got[i] == alone[i], "model %d of %d (%s): not the results of the run alone: %s", i, n, mode == 0 ? "interleaved" : mode == 1 ? "nested" : "in threads", diff(alone[i], got[i]).c_str());
        c.count("models compared with the run alone");
    }
    c.nontrivial(order);
}
} // namespace vh
