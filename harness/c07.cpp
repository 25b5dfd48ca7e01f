// The steppers against their Butcher tableaus, evaluated in long double on the logged derivative values.
#include "core.hpp"
#include "pooya_all.hpp"
#include <algorithm>

namespace vh
{
bool debug_build()
{
#ifdef POOYA_DEBUG
    return true;
#else
    return false;
#endif
}
const char* suite_property = "C07";
const char* suite_rule = "steppers are called directly: every derivative evaluation (time, state, returned slope) is logged and compared with the stage times, stage states, solution and step proposal of the tableau computed in long double from the logged slopes; systems of 1-24 components, linear/nonlinear/slopes drawn so that the RKF45 estimate falls on all sides of its thresholds, step lengths 1e-6..1e3, one stepper reused for other sizes, interleaved and nested with other steppers, and after a throwing callback; non-trivial: each distinct (method, size, system, step)";
using pooya::Array;
typedef long double LD;

namespace
{
struct Tab
{
    const char* name;
    int s;
    std::vector<LD> c;
    std::vector<std::vector<LD>> a;
    std::vector<LD> b, b2; // b2 empty: fixed step
};
const Tab& tab(int k)
{
    static const Tab t[3] = {
        {"Euler", 1, {0}, {{}}, {1}, {}},
        {"Rk4", 4, {0, .5L, .5L, 1}, {{}, {.5L}, {0, .5L}, {0, 0, 1}}, {1 / 6.L, 1 / 3.L, 1 / 3.L, 1 / 6.L}, {}},
        {"Rkf45", 6, {0, .25L, .375L, 12 / 13.L, 1, .5L},
         {{}, {.25L}, {3 / 32.L, 9 / 32.L}, {1932 / 2197.L, -7200 / 2197.L, 7296 / 2197.L},
          {439 / 216.L, -8, 3680 / 513.L, -845 / 4104.L},
          {-8 / 27.L, 2, -3544 / 2565.L, 1859 / 4104.L, -11 / 40.L}},
         {25 / 216.L, 0, 1408 / 2565.L, 2197 / 4104.L, -1 / 5.L, 0},
         {16 / 135.L, 0, 6656 / 12825.L, 28561 / 56430.L, -9 / 50.L, 2 / 55.L}},
    };
    return t[k];
}
std::shared_ptr<pooya::StepperBase> make(int k)
{
    if (k == 0) return std::make_shared<pooya::Euler>();
    if (k == 1) return std::make_shared<pooya::Rk4>();
    return std::make_shared<pooya::Rkf45>();
}
struct Boom
{
    int at;
};
struct Call
{
    double t;
    std::vector<double> x, k;
};
struct System
{
    int n, kind;
    double scale;
    u64 seed;
    std::vector<std::vector<double>> ks; // kind 3: prescribed slopes per stage
    std::vector<double> A;
    double rate;
    void slope(int call, double t, const double* x, double* d) const
    {
        switch (kind)
        {
        case 0: // linear with full coupling
            for (int i = 0; i < n; i++)
            {
                double q = 0;
                for (int j = 0; j < n; j++) q += A[i * n + j] * x[j];
                d[i] = q + scale * std::cos(rate * t + i);
            }
            break;
        case 1: // nonlinear, coupled with the neighbour
            for (int i = 0; i < n; i++) d[i] = scale * std::sin(3 * x[(i + 1) % n] + rate * t) + 0.1 * x[i] * std::cos(x[i]);
            break;
        case 2: // time only
            for (int i = 0; i < n; i++) d[i] = scale * (1 + i) * std::sin(rate * t + i * i);
            break;
        default: // prescribed: an arbitrary function of the stage
            for (int i = 0; i < n; i++) d[i] = ks[call % ks.size()][i];
            break;
        }
    }
};
System gen(Rng& r, int method, double h)
{
    System s;
    s.n     = r.chance(0.001) ? r.range(25, 300) : r.chance(0.2) ? r.range(1, 24) : r.range(1, 6);
    s.kind  = r.range(0, 3);
    s.scale = std::pow(10.0, r.uni(-4, 3));
    s.rate  = r.uni(-4, 4);
    s.seed  = r.next();
    const int n = s.n;
    s.A.resize(n * n);
    for (auto& q : s.A) q = r.uni(-1, 1);
    s.ks.resize(6, std::vector<double>(n));
    if (method == 2 && r.chance(0.7)) s.kind = 3;
    if (s.kind == 3)
    {
        // error estimate of the prescribed slopes: aim at a chosen multiple of the tolerance
        std::vector<std::vector<double>> e(6, std::vector<double>(n));
        double m = 0;
        auto& t2 = tab(2);
        for (auto& v : e) for (auto& q : v) q = r.chance(0.3) ? 0 : r.uni(-1, 1);
        if (r.chance(0.3)) // only one component matters
        {
            int keep = r.range(0, n - 1);
            for (auto& v : e) for (int i = 0; i < n; i++) if (i != keep) v[i] *= 1e-6;
        }
        for (int i = 0; i < n; i++)
        {
            LD q = 0;
            for (int k = 0; k < 6; k++) q += (t2.b[k] - t2.b2[k]) * e[k][i];
            m = std::max(m, double(fabsl(q)));
        }
        const double s4 = std::exp(r.uni(std::log(0.01), std::log(100.0)));
        const double c  = m > 0 ? 0.001 / (2 * s4) / m : 1.0;
        for (int i = 0; i < n; i++)
        {
            double base = r.chance(0.5) ? 0 : r.uni(-2, 2);
            for (int k = 0; k < 6; k++) s.ks[k][i] = base + c * e[k][i];
        }
    }
    (void)h;
    return s;
}

struct Start // of an earlier step
{
    double t0, h;
    Array v0;
};

struct Logged
{
    std::vector<Call> log;
    std::vector<Array> bufs;
    Array one;
};

// one monitored step
void one_step(Ctx& c, pooya::StepperBase& st, int method, Rng& r, const System* reuse, std::function<void()> nested, std::vector<Start>* past = nullptr)
{
    const Tab& T = tab(method);
    double h = r.chance(0.2) ? std::ldexp(1.0, r.range(-20, 8)) : std::pow(10.0, r.uni(-6, r.chance(0.1) ? 3 : 0.5));
    // sometimes from the very same instant and state as an earlier step (a retry, or another system with these initial values)
    const bool again = past && !past->empty() && r.chance(0.25);
    const Start* p   = again ? &r.pick(*past) : nullptr;
    const bool tiny = r.chance(0.1); // then the starting time is of the same order
    if (tiny) h = std::pow(10.0, r.uni(-30, -6)), c.count("steps shorter than a microsecond");
    if (p && r.chance(0.5)) h = p->h;
    System s = reuse ? *reuse : gen(r, method, h);
    for (int tries = 0; p && s.n != p->v0.size() && tries < 200; tries++) s = gen(r, method, h);
    if (p && s.n != p->v0.size()) p = nullptr;
    const int n = s.n;
    const double t0 = p ? p->t0 : r.chance(0.3) || (tiny && r.chance(0.5)) ? 0 : tiny ? h * r.uni(-10, 10) : r.uni(-5, 50);
    const double t1 = t0 + h;
    const double hh = t1 - t0;
    if (!(hh > 0)) return;
    Array v0(n), v1(n);
    for (int i = 0; i < n; i++) v0[i] = r.chance(tiny ? 0.5 : 0.1) ? 0 : s.scale * (tiny && r.chance(0.5) ? h : 1) * r.uni(-2, 2);
    if (p) v0 = p->v0, c.count("steps started at the same time and state as an earlier one");
    if (past) past->push_back({t0, h, v0});
    for (int i = 0; i < n; i++) v1[i] = r.chance(0.5) ? NAN : 1e30;
    const Array v0c = v0;
    double new_h = r.chance(0.5) ? NAN : r.chance(0.5) ? 1e300 : 0.0;
    Logged L;
    L.bufs.resize(8);
    L.one.resize(n);
    const bool single = r.chance(0.5); // return the same buffer from every call, as the simulator does
    const int nest_at = nested ? r.range(0, T.s - 1) : -1;
    const int boom_at = r.chance(0.1) ? r.range(0, T.s - 1) : -1;
    auto cb = [&](double t, const Array& x) -> const Array&
    {
        const int k = int(L.log.size());
        VH_CHECK(k < 8, "%s: more than 8 derivative evaluations in one step", T.name);
        VH_CHECK(x.size() == n, "%s: stage %d called with %d states instead of %d", T.name, k, int(x.size()), n);
        Call q;
        q.t = t;
        q.x.assign(x.data(), x.data() + n);
        q.k.resize(n);
        s.slope(k, t, q.x.data(), q.k.data());
        if (k == boom_at) throw Boom{k};
        if (k == nest_at) nested();
        Array& o = single ? L.one : L.bufs[k];
        o        = to_arr(q.k);
        L.log.push_back(std::move(q));
        return o;
    };
    bool threw = false;
    try
    {
        st.step(cb, t0, v0, t1, v1, new_h);
    }
    catch (const Boom& b)
    {
        threw = true;
        VH_CHECK(b.at == boom_at, "foreign exception");
    }
    c.count("steps observed");
    VH_CHECK(threw == (boom_at >= 0), "%s: exception of the derivative function %s", T.name, threw ? "invented" : "swallowed");
    for (int i = 0; i < n; i++) VH_CHECK(v0[i] == v0c[i], "%s: the start state was modified", T.name);
    if (threw)
    {
        c.count("steps interrupted by an exception");
        return;
    }
    VH_CHECK(int(L.log.size()) == T.s, "%s: %d derivative evaluations instead of %d", T.name, int(L.log.size()), T.s);
    VH_CHECK(v1.size() == n, "%s: result has %d components instead of %d", T.name, int(v1.size()), n);
    // scale of each component for the rounding tolerance
    for (int k = 0; k < T.s; k++)
    {
        const double te = double((LD)t0 + T.c[k] * (LD)hh);
        VH_CHECK(std::fabs(L.log[k].t - te) <= 4e-15 * (std::fabs(t0) + std::fabs(t1)), "%s: stage %d evaluated at t=%.17g instead of %.17g (step %.17g to %.17g)", T.name, k, L.log[k].t, te, t0, t1);
        for (int i = 0; i < n; i++)
        {
            LD x = v0[i], m = fabsl(x);
            for (int j = 0; j < k; j++)
            {
                LD a = j < int(T.a[k].size()) ? T.a[k][j] : 0.L;
                x += hh * a * (LD)L.log[j].k[i];
                m += fabsl(hh * a * (LD)L.log[j].k[i]);
            }
            VH_CHECK(fabsl(x - L.log[k].x[i]) <= 1e-14L * m, "%s: stage %d, component %d of %d: state %.17g instead of %.17g (step %.17g)", T.name, k, i, n, L.log[k].x[i], double(x), hh);
            c.count("stage values compared");
        }
    }
    LD err = 0, noise = 0;
    for (int i = 0; i < n; i++)
    {
        LD y = v0[i], z = v0[i], m = fabsl(y);
        for (int k = 0; k < T.s; k++)
        {
            y += hh * T.b[k] * (LD)L.log[k].k[i];
            if (!T.b2.empty()) z += hh * T.b2[k] * (LD)L.log[k].k[i];
            m += fabsl(hh * (LD)L.log[k].k[i]);
        }
        VH_CHECK(fabsl(y - v1[i]) <= 1e-14L * m, "%s: component %d of %d: result %.17g instead of %.17g (step %.17g)", T.name, i, n, v1[i], double(y), hh);
        err   = std::max(err, fabsl(y - z));
        noise = std::max(noise, 4e-15L * m);
    }
    if (T.b2.empty())
        VH_CHECK(new_h == hh, "%s: proposes a step of %.17g after one of %.17g", T.name, new_h, hh);
    else
    {
        // half below 0.75^4, double above 1.5^4, the same between; either side within rounding of a threshold
        const LD q = 0.001L * hh / 2, lo = 0.31640625L, hi = 5.0625L;
        const LD emin = std::max(0.L, err - noise), emax = err + noise;
        bool can_half = q < lo * emax, can_dbl = emin <= 0 || q > hi * emin, can_same = !(q < lo * emin) && !(emin > 0 && q > hi * emax) ;
        if (emin <= 0) can_same = true; // no error at all: the same step
        const bool half = new_h == hh / 2, dbl = new_h == 2 * hh, same = new_h == hh;
        VH_CHECK((half && can_half) || (dbl && can_dbl) || (same && can_same), "Rkf45: error estimate %.6Lg for step %.17g (tolerance 0.001/unit time): proposed %.17g", err, hh, new_h);
        c.count(half ? "Rkf45 proposed half" : dbl ? "Rkf45 proposed double" : "Rkf45 proposed same");
    }
    c.nontrivial(hash_d(hash_d(hash_u(u64(method * 100 + n), s.seed), hh), t0));
}
} // namespace

void suite_case(Ctx& c)
{
    Rng& r = c.rng;
    std::vector<int> kinds;
    std::vector<std::shared_ptr<pooya::StepperBase>> st;
    const int ns = r.range(1, 4);
    for (int i = 0; i < ns; i++)
    {
        kinds.push_back(int((c.caseno + u64(i)) % 3));
        st.push_back(make(kinds.back()));
    }
    c.desc = strf("steppers:");
    for (int k : kinds) c.desc += std::string(" ") + tab(k).name;
    System keep = gen(r, kinds[0], 0.1);
    const int steps = r.range(2, 12);
    std::vector<Start> past;
    for (int i = 0; i < steps; i++)
    {
        const int k = r.range(0, ns - 1);
        std::function<void()> nested;
        // another stepper (of any kind) may run inside the derivative function
        if (ns > 1 && r.chance(0.25))
            nested = [&]()
            {
                one_step(c, *st[(k + 1) % ns], kinds[(k + 1) % ns], r, nullptr, nullptr);
                c.count("nested steps");
            };
        try
        {
            one_step(c, *st[k], kinds[k], r, r.chance(0.3) && kinds[k] == kinds[0] ? &keep : nullptr, nested, &past);
        }
        catch (Violation& v)
        {
            v.msg = strf("call %d (stepper %d): ", i, k) + v.msg;
            throw;
        }
    }
}
} // namespace vh
