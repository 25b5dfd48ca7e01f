// Delay blocks driven sample by sample against a reference that keeps every sample ever accepted.
#include "core.hpp"
#include "pooya_all.hpp"
#include <algorithm>
#include <sanitizer/allocator_interface.h>

namespace vh
{
bool debug_build()
{
#ifdef POOYA_DEBUG
    return true;
#else
    return false;
#endif
}
const char* suite_property = "C10";
const char* suite_rule = "Delay and DelayA are driven through random accepted times (regular, irregular, dyadic, bursts, gaps longer than the lifespan, 5-400 samples) with random delays in [0, lifespan] that vary from call to call (constant, boundary values, exact hits of samples), evaluated at accepted times and at trial times after the last accepted one, and compared with a reference that never discards a sample; heap growth is measured over long runs; non-trivial: each distinct sequence";
using namespace pooya;
namespace
{
struct RefDelay
{
    std::vector<double> t;
    std::vector<std::vector<double>> x;
    // acceptable outputs at delayed time q (two at a tie with the first sample)
    void at(double q, const std::vector<double>& ini, std::vector<double>& a, std::vector<double>& b, double& tol) const
    {
        tol = 0;
        a = b = ini;
        if (t.empty() || q < t[0]) return;
        if (q == t[0])
        {
            b = x[0];
            return;
        }
        if (q >= t.back())
        {
            a = b = x.back();
            return;
        }
        std::size_t k = std::upper_bound(t.begin(), t.end(), q) - t.begin(); // t[k-1] <= q < t[k]
        long double w = ((long double)q - t[k - 1]) / ((long double)t[k] - t[k - 1]);
        for (std::size_t j = 0; j < a.size(); j++)
        {
            a[j] = double(x[k - 1][j] + w * ((long double)x[k][j] - x[k - 1][j]));
            // rounding in the size of the samples around (an exact hit may be computed in either segment)
            for (std::size_t i = k >= 2 ? k - 2 : 0; i <= k + 1 && i < x.size(); i++) tol = std::max(tol, 4e-15 * std::fabs(x[i][j]) + 1e-300);
        }
        b = a;
    }
};
struct Driver
{
    bool arr;
    int n;
    Submodel root{nullptr, "root"};
    std::unique_ptr<Block> blk;
    std::vector<Signal> s; // in, delay, initial, out
    Driver(bool a, int nn, double life, Rng& r) : arr(a), n(nn)
    {
        if (arr)
        {
            blk = std::make_unique<DelayA>(life, &root, "d");
            s   = {ArraySignal(std::size_t(n), "x"), ScalarSignal("tau"), ArraySignal(std::size_t(n), "i"), ArraySignal(std::size_t(n), "y")};
        }
        else
        {
            blk = std::make_unique<Delay>(life, &root, "d");
            s   = {ScalarSignal("x"), ScalarSignal("tau"), ScalarSignal("i"), ScalarSignal("y")};
        }
        std::vector<LabSig> l = {{"in", s[0]}, {"delay", s[1]}, {"initial", s[2]}};
        r.shuffle(l);
        blk->connect(mk_bus(l), mk_bus_auto({s[3]}));
    }
    void put(int i, const std::vector<double>& v)
    {
        if (arr && i != 1) dynamic_cast<ArraySignalImpl&>(s[i].impl()).set_value(to_arr(v));
        else dynamic_cast<ScalarSignalImpl&>(s[i].impl()).set_value(v[0]);
    }
    std::vector<double> eval(double t, const std::vector<double>& x, double d, const std::vector<double>& ini)
    {
        for (auto& q : s) dynamic_cast<ValueSignalImpl&>(q.impl()).clear();
        put(0, x);
        put(1, {d});
        put(2, ini);
        root._mark_unprocessed();
        const auto np = root.process(t);
        VH_CHECK(np == 1, "the delay block was not processed");
        return sig_vec(s[3]);
    }
};
void endurance(Ctx& c)
{
    // retained samples stay bounded by the lifespan: heap growth over a long run
    Rng& r          = c.rng;
    const bool arr  = r.chance(0.4);
    const int n     = arr ? r.range(1, 20) : 1;
    const double dt = std::ldexp(1.0, -r.range(2, 8));
    const int keep  = r.chance(0.05) ? r.range(300, 3000) : r.range(2, 40); // samples per lifespan
    const double life = dt * keep;
    Driver d(arr, n, life, r);
    const int N = 20000;
    c.desc      = strf("endurance: %s[%d], %d samples per lifespan, %d steps", arr ? "DelayA" : "Delay", n, keep, N);
    std::vector<double> x(n), ini(n, 7.0);
    std::size_t mem0 = 0, mem1 = 0;
    for (int k = 0; k < N; k++)
    {
        double t = k * dt;
        for (int j = 0; j < n; j++) x[j] = k + j;
        int lag = k % (keep + 1);
        auto y  = d.eval(t, x, lag * dt, ini);
        // delayed index k - lag; the newest sample is k - 1 (the current input is not a sample yet)
        for (int j = 0; j < n; j++)
        {
            double w = k - lag < 0 ? ini[j] : std::min(k - lag, k - 1) + j;
            if (k == 0) w = ini[j];
            bool ok = std::fabs(y[j] - w) <= 1e-9 * (1 + std::fabs(w)) || (k - lag == 0 && y[j] == ini[j]);
            VH_CHECK(ok, "step %d, lag %d samples: output %.17g instead of %.17g", k, lag, y[j], w);
        }
        d.root.post_step(t);
        if (k == N / 10) mem0 = __sanitizer_get_current_allocated_bytes();
    }
    mem1 = __sanitizer_get_current_allocated_bytes();
    const std::size_t allow = 4096 + 4u * std::size_t(keep + 8) * (sizeof(double) * std::size_t(n) + 64);
    VH_CHECK(mem1 <= mem0 + allow, "heap grew from %zu to %zu bytes between step %d and step %d although the lifespan covers only %d samples", mem0, mem1, N / 10, N, keep);
    c.count("endurance steps", N);
    c.nontrivial(hash_u(u64(keep * 100 + n), u64(c.caseno)));
}
} // namespace

void suite_case(Ctx& c)
{
    Rng& r = c.rng;
    if (c.caseno % 256 == 5)
    {
        endurance(c);
        return;
    }
    const bool arr    = r.chance(0.4);
    const int n       = arr ? (r.chance(0.002) ? r.range(7, 300) : r.range(1, 6)) : 1;
    const int style   = r.range(0, 5);
    const double unit = style == 0 ? 0.125 : std::pow(10.0, r.uni(-3, 1));
    const double life = style == 0 ? 0.125 * r.range(1, 40) : unit * r.uni(0.3, 40);
    const int N       = r.chance(0.001) ? r.range(1000, 4000) : r.chance(0.1) ? r.range(100, 400) : r.range(5, 50);
    const int dstyle  = r.range(0, 5);
    const double d0   = life * r.uni();
    Driver d(arr, n, life, r);
    RefDelay ref;
    double t = r.chance(0.3) ? 0 : style == 0 ? 0.125 * r.range(-40, 40) : r.uni(-20, 20);
    u64 h    = hash_u(hash_d(hash_d(u64(N * 10 + n), life), t), c.rng.next());
    c.desc   = strf("%s n=%d lifespan=%.17g style=%d delays=%d samples=%d from t=%.17g", arr ? "DelayA" : "Delay", n, life, style, dstyle, N, t);
    std::vector<double> ini(n), x(n), a, b;
    const bool vary_ini = r.chance(0.3);
    for (auto& q : ini) q = r.uni(-9, 9);
    u64 interp = 0, ticks = 0;
    auto pick_delay = [&](double now) -> double
    {
        double q = d0;
        switch (dstyle)
        {
        case 0: break;
        case 1: q = life * r.uni(); break;
        case 2: q = r.chance(0.4) ? life : r.chance(0.4) ? 0 : std::nextafter(life, 0) ; break;
        case 3: // exact hit of a sample
            if (!ref.t.empty())
            {
                double s = ref.t[std::size_t(r.range(std::max(0, int(ref.t.size()) - 12), int(ref.t.size()) - 1))];
                q        = now - s;
                if (r.chance(0.3)) q = std::nextafter(q, r.chance(0.5) ? 0 : life);
            }
            break;
        case 4: q = life * (0.5 + 0.5 * std::sin(now)); break;
        default: q = life * (1 - r.uni() * r.uni() * 0.05); break; // close to the lifespan
        }
        return q < 0 ? 0 : q > life ? life : q;
    };
    for (int k = 0; k < N; k++)
    {
        // trial evaluations between the last accepted time and the next one, then the accepted one
        double step;
        switch (style)
        {
        case 0: step = 0.125 * r.range(1, r.chance(0.2) ? 16 : 4); break;
        case 1: step = unit; break;
        case 2: step = unit * r.uni(0.01, 2); break;
        case 3: step = r.chance(0.15) ? life * r.uni(1, 4) : unit * r.uni(0.05, 1); break; // gaps beyond the lifespan
        case 4: step = life * std::pow(10.0, r.uni(-4, 0.3)); break;
        default: step = life * r.uni(0.6, 1.5); break;
        }
        const double tn = k == 0 ? t : t + step;
        if (k > 0 && !(tn > t)) continue;
        if (vary_ini) for (auto& q : ini) q = r.uni(-9, 9);
        const int trials = r.chance(0.5) ? 0 : r.range(1, 4);
        for (int e = 0; e <= trials; e++)
        {
            const double te = e == trials ? tn : t + (tn - t) * r.uni();
            for (auto& q : x) q = r.chance(0.1) ? 1e6 * r.uni(-1, 1) : r.uni(-5, 5);
            const double dl = pick_delay(te);
            auto y          = d.eval(te, x, dl, ini);
            double tol;
            ref.at(te - dl, ini, a, b, tol);
            VH_CHECK(int(y.size()) == n, "output has %d components", int(y.size()));
            bool oka = true, okb = true;
            for (int j = 0; j < n; j++)
            {
                oka = oka && std::fabs(y[j] - a[j]) <= tol;
                okb = okb && std::fabs(y[j] - b[j]) <= tol;
            }
            // near-exact hits of samples: the interpolation is continuous, so a rounding-sized shift is harmless
            if (!oka && !okb)
            {
                for (double q : {std::nextafter(te - dl, -1e300), std::nextafter(te - dl, 1e300)})
                {
                    double tl;
                    std::vector<double> a2, b2;
                    ref.at(q, ini, a2, b2, tl);
                    bool ok = true;
                    for (int j = 0; j < n; j++) ok = ok && std::fabs(y[j] - a2[j]) <= tl + tol + 1e-13 * std::fabs(y[j]);
                    oka = oka || ok;
                }
            }
            if (!oka && !okb)
            {
                int j = 0;
                while (j + 1 < n && std::fabs(y[j] - a[j]) <= tol) j++;
                fail(strf("sample %d: at t=%.17g with delay %.17g (delayed time %.17g; %d samples so far, %.17g..%.17g): component %d is %.17g instead of %.17g", k, te, dl, te - dl, int(ref.t.size()), ref.t.empty() ? 0 : ref.t[0], ref.t.empty() ? 0 : ref.t.back(), j, y[j], a[j]));
            }
            ticks++;
            interp += tol > 0;
        }
        d.root.post_step(tn);
        ref.t.push_back(tn);
        ref.x.push_back(x);
        t = tn;
    }
    c.count("outputs compared", ticks);
    c.count("interpolated outputs", interp);
    c.nontrivial(h);
}
} // namespace vh
