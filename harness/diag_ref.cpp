#include "diag.hpp"
#include <algorithm>

namespace vh
{
const char* const kind_name[] = {"Add", "Multiply", "Subtract", "Divide", "Gain", "Const", "Source", "SISOFunction",
                                 "SOFunction", "Function", "Sources", "Pipe", "Memory", "Delay", "Derivative",
                                 "InitialValue", "Integrator", "TriggeredIntegrator", "BusMemory", "BusPipe", "Accum",
                                 "Clock", "UserBus"};

std::vector<int> BlkS::required() const
{
    switch (k)
    {
    case K::MEMORY: case K::INTEG: case K::BUSMEM: case K::ACCUM: return {};
    case K::TRIG: return {};
    default: return in;
    }
}

bool Spec::stateful() const
{
    for (auto& b : blk)
        if (b.k == K::INTEG || b.k == K::TRIG) return true;
    return false;
}
std::vector<int> Spec::inputs() const
{
    std::vector<int> r;
    for (std::size_t i = 0; i < sig.size(); i++)
        if (sig[i].prod == -1) r.push_back(int(i));
    return r;
}
static const char* tyn(Ty t)
{
    switch (t)
    {
    case Ty::S: return "";
    case Ty::I: return "I";
    case Ty::B: return "B";
    default: return "A";
    }
}
std::string Spec::str() const
{
    std::ostringstream o;
    o.precision(6);
    o << (rk == RK::NONE ? "stateless" : rk == RK::EULER ? "Euler" : rk == RK::RK4 ? "Rk4" : "Rkf45") << "; inputs:";
    for (int i : inputs()) o << " " << sig[i].name << tyn(sig[i].ty) << (sig[i].ty == Ty::A ? std::to_string(sig[i].n) : "");
    o << "; blocks:";
    for (auto& b : blk)
    {
        o << " " << b.name << "=" << kind_name[int(b.k)] << tyn(b.ty) << (b.ty == Ty::A ? std::to_string(b.n) : "") << "@" << b.parent << "(";
        for (std::size_t i = 0; i < b.in.size(); i++) o << (i ? "," : "") << sig[b.in[i]].name;
        o << "->";
        for (std::size_t i = 0; i < b.out.size(); i++) o << (i ? "," : "") << sig[b.out[i]].name;
        o << ")";
    }
    o << "; submodels: " << sub_parent.size() - 1 << "; runs:";
    for (auto& r : runs) o << " " << (r.init ? "init " : "") << r.t << "[" << r.hmin << "," << r.hmax << "]";
    return o.str();
}
u64 Spec::hash() const { return hash_str(str()); }

// ---------------------------------------------------------------- user functions
double src_fn(int id, double p1, double p2, double t, int j)
{
    switch (id % 6)
    {
    case 0: return p1 * std::sin(p2 * t + 0.37 + 0.9 * j);
    case 1: return p1 * (std::fabs(std::fmod(p2 * t + 0.123 + 0.31 * j, 2.0)) - 1.0);
    case 2: return (std::fmod(std::fabs(t * p2) + 0.2718281 + 0.17 * j, 1.0) < 0.5) ? p1 : -p1 * 0.5;
    case 3: return p1 * std::cos(p2 * t * t * 0.1 + j);
    case 4: return p1 * std::exp(-0.3 * std::fabs(t)) + 0.01 * p2 * j;
    default: return p1 * (1.0 - 0.1 * j) / (1.0 + 0.05 * std::fabs(p2 * t));
    }
}
double siso_fn(int id, double t, double x)
{
    switch (id % 6)
    {
    case 0: return x / (1 + std::fabs(x));
    case 1: return std::sin(x + 0.2 * t);
    case 2: return 2 + x / (1 + std::fabs(x)); // in (1, 3)
    case 3: return std::cos(1.3 * x) * std::sin(t + 0.1);
    case 4: return std::sqrt(std::fabs(x) + 0.25) / (1 + 0.5 * std::sqrt(std::fabs(x)));
    default: return std::tanh(0.7 * x - 0.1);
    }
}
double to_int(double s) { return !std::isfinite(s) ? 0.0 : std::fmod(std::floor(7.3 * s + 0.12345678), 10.0); }
bool to_bool(double s) { return s > 0.0876543; }
double func_out(double s, Ty ty, int which, int j)
{
    const double q = s + 0.61 * which;
    switch (ty)
    {
    case Ty::S: return std::sin(q);
    case Ty::I: return to_int(std::sin(q) * 1.3);
    case Ty::B: return to_bool(std::sin(1.7 * q)) ? 1 : 0;
    default: return std::sin(q * (1 + 0.3 * j));
    }
}
double wsum_weight(int k, int j) { return 0.5 + 0.25 * ((k * 5 + j * 3) % 7); }

// ---------------------------------------------------------------- generator
namespace
{
struct Gen
{
    Rng& r;
    const GenOpt& o;
    Spec s;
    int nameno = 0;
    bool big = false, chain = false, pure = false, huge = false;

    Gen(Rng& rr, const GenOpt& oo) : r(rr), o(oo) {}

    Ty rand_ty(bool si_only = false)
    {
        if (chain && r.chance(0.9)) return Ty::S;
        for (;;)
        {
            int x = r.range(0, 9);
            if (x < 5) return Ty::S;
            if (x < 8) { if (o.arrays) return Ty::A; }
            else if (si_only) return Ty::S;
            else if (x == 8) { if (o.ints) return Ty::I; }
            else if (o.bools) return Ty::B;
        }
    }
    Vec rv(int n, double b)
    {
        Vec v(n);
        for (auto& x : v) x = r.chance(0.5) ? r.range(-8, 8) / 8.0 * b : r.uni(-b, b);
        return v;
    }
    int new_sig(Ty ty, int n, int prod, double bound, double minabs = 0)
    {
        SigS g;
        g.ty     = ty;
        g.n      = ty == Ty::A ? n : 1;
        g.name   = strf("s%d", int(s.sig.size()));
        g.prod   = prod;
        g.bound  = bound;
        g.minabs = minabs;
        s.sig.push_back(g);
        return int(s.sig.size()) - 1;
    }
    int new_blk(K k, Ty ty, int n)
    {
        BlkS b;
        b.k    = k;
        b.ty   = ty;
        b.n    = ty == Ty::A ? n : 1;
        b.name = strf("b%d", int(s.blk.size()));
        b.add_via_parent = r.chance(0.3);
        s.blk.push_back(b);
        return int(s.blk.size()) - 1;
    }
    int out(int b, Ty ty, int n, double bound, double minabs = 0)
    {
        int g = new_sig(ty, n, b, bound, minabs);
        s.blk[b].out.push_back(g);
        const K k = s.blk[b].k;
        if (k == K::DERIV || k == K::MEMORY || k == K::ACCUM || k == K::BUSMEM) s.sig[g].noise = 1;
        for (int x : s.blk[b].in)
            if (s.sig[x].noise) s.sig[g].noise = 1;
        return g;
    }
    // -1 if there is none
    int find(Ty ty, int n, double maxb = 1e3, double minabs = 0, bool quiet = false)
    {
        std::vector<int> c;
        for (std::size_t i = 0; i < s.sig.size(); i++)
        {
            auto& g = s.sig[i];
            if (g.ty == ty && (ty != Ty::A || g.n == n) && g.bound <= maxb && g.minabs >= minabs && !(quiet && g.noise))
                c.push_back(int(i));
        }
        if (c.empty()) return -1;
        // prefer recent signals, so that chains become deep
        if (big && r.chance(pure ? 1 : chain ? 0.92 : 0.6)) return c.back();
        if (r.chance(0.5)) return c[c.size() - 1 - r.next() % std::min<std::size_t>(c.size(), 4)];
        return r.pick(c);
    }
    int make_source(Ty ty, int n)
    {
        if (ty == Ty::B || (ty == Ty::S && r.chance(0.2)) || (ty == Ty::I && r.chance(0.3)))
        {
            int b        = new_blk(K::SOURCES, ty, n);
            s.blk[b].fn  = r.range(0, 5);
            s.blk[b].p   = r.uni(0.5, 2);
            s.blk[b].p2  = r.uni(0.3, 3);
            int g        = out(b, ty, n, ty == Ty::I ? 9 : 2.5);
            if (r.chance(0.4)) out(b, rand_ty(), r.range(1, 4), 9);
            return g;
        }
        if (ty == Ty::I || r.chance(0.6))
        {
            int b       = new_blk(K::SOURCE, ty, n);
            s.blk[b].fn = r.range(0, 5);
            s.blk[b].p  = r.uni(0.5, 2);
            s.blk[b].p2 = r.uni(0.3, 3);
            return out(b, ty, n, ty == Ty::I ? 9 : 2.5);
        }
        int b       = new_blk(K::CONST, ty, n);
        s.blk[b].pv = rv(s.blk[b].n, 2);
        return out(b, ty, n, 2);
    }
    int need(Ty ty, int n, double maxb = 1e3, double minabs = 0)
    {
        int g = find(ty, n, maxb, minabs);
        if (g >= 0) return g;
        if (minabs > 0 || maxb < 3)
        {
            // squash something
            int x       = find(ty, n);
            if (x < 0) x = make_source(ty, n);
            int b       = new_blk(K::SISO, ty, n);
            s.blk[b].fn = minabs > 0 ? 2 : (r.chance(0.5) ? 0 : 1);
            s.blk[b].in = {x};
            return out(b, ty, n, minabs > 0 ? 3 : 1, minabs > 0 ? 1 : 0);
        }
        return make_source(ty, n);
    }
    int arr_n() { return r.chance(0.01) ? r.range(10, 40) : r.chance(0.15) ? r.range(6, 9) : r.range(1, 4); }
    // an array size that already exists, or a new one
    int some_n(Ty ty)
    {
        if (ty != Ty::A) return 1;
        std::vector<int> c;
        for (auto& g : s.sig)
            if (g.ty == Ty::A) c.push_back(g.n);
        return c.empty() || r.chance(0.3) ? arr_n() : r.pick(c);
    }
    void custom_labels(BlkS& b)
    {
        if (r.chance(0.3))
        {
            b.lab.clear();
            for (std::size_t i = 0; i < b.in.size(); i++) b.lab.push_back(strf("L%d", int(i)));
        }
    }

    void feedforward(K k)
    {
        switch (k)
        {
        case K::ADD: case K::MUL:
        {
            Ty ty = rand_ty(true);
            int n = some_n(ty);
            int m = r.chance(0.15) ? 1 : r.range(2, r.chance(0.2) ? 6 : 3);
            std::vector<int> in;
            double bsum = 0, bprod = 1;
            for (int i = 0; i < m; i++)
            {
                int g = need(ty, n, k == K::MUL ? 8 : 200);
                in.push_back(g);
                bsum += s.sig[g].bound;
                bprod *= s.sig[g].bound;
            }
            if (k == K::MUL && bprod > 300) k = K::ADD;
            int b       = new_blk(k, ty, n);
            s.blk[b].in = in;
            custom_labels(s.blk[b]);
            if (r.chance(0.5)) s.blk[b].pv = rv(s.blk[b].n, 2);
            else if (ty == Ty::A) s.blk[b].pv = Vec(n, k == K::MUL ? 1.0 : 0.0);
            else s.blk[b].pv = {}; // default argument
            out(b, ty, n, k == K::MUL ? bprod * 2 : bsum + 2);
            break;
        }
        case K::SUB: case K::DIV:
        {
            Ty ty = rand_ty(true);
            int n = some_n(ty);
            int x = need(ty, n, 200), y = need(ty, n, 200, k == K::DIV ? 0.9 : 0);
            int b = new_blk(k, ty, n);
            s.blk[b].in = {x, y};
            custom_labels(s.blk[b]);
            out(b, ty, n, k == K::DIV ? s.sig[x].bound * 1.2 : s.sig[x].bound + s.sig[y].bound);
            break;
        }
        case K::GAIN:
        {
            Ty ty = rand_ty();
            if (ty == Ty::B) ty = Ty::S;
            int n = some_n(ty);
            int x = need(ty, n, 200);
            int b = new_blk(k, ty, n);
            s.blk[b].in = {x};
            s.blk[b].p  = ty == Ty::I ? r.range(-3, 3) : r.uni(-2.5, 2.5);
            out(b, ty, n, s.sig[x].bound * 3);
            break;
        }
        case K::CONST: case K::SOURCE: case K::SOURCES:
        {
            Ty ty = rand_ty();
            make_source(ty, some_n(ty));
            break;
        }
        case K::SISO:
        {
            Ty ty = rand_ty(true);
            int n = some_n(ty);
            int x = need(ty, n);
            int b = new_blk(k, ty, n);
            s.blk[b].in = {x};
            s.blk[b].fn = r.range(0, 5);
            out(b, ty, n, 3, s.blk[b].fn == 2 ? 1 : 0);
            break;
        }
        case K::SO: case K::FUNC: case K::USERBUS:
        {
            int m = r.range(k == K::SO && !pure ? 0 : 1, 4);
            std::vector<int> in;
            for (int i = 0; i < m; i++)
            {
                Ty ty = rand_ty();
                in.push_back(need(ty, some_n(ty)));
            }
            Ty ty = k == K::SO ? rand_ty(true) : rand_ty();
            int n = some_n(ty);
            int b = new_blk(k, ty, n);
            s.blk[b].in = in;
            if (k != K::USERBUS) custom_labels(s.blk[b]);
            if (k == K::FUNC && r.chance(0.15)) break; // a sink: inputs only
            out(b, ty, n, ty == Ty::I ? 9 : 1);
            if (k != K::SO)
                for (int i = r.range(0, 2); i > 0; i--)
                {
                    Ty t2 = rand_ty();
                    out(b, t2, some_n(t2), t2 == Ty::I ? 9 : 1);
                }
            if (k == K::USERBUS)
            {
                auto& ub = s.blk[b];
                for (std::size_t i = 0; i < std::max(ub.in.size(), ub.out.size()); i++) ub.group.push_back(r.chance(0.6) ? r.range(1, 2) : 0);
                for (std::size_t i = 0; i < ub.out.size(); i++) ub.perm.push_back(int(i));
                r.shuffle(ub.perm);
            }
            break;
        }
        case K::PIPE: case K::INITV:
        {
            Ty ty = rand_ty(k == K::INITV);
            int n = some_n(ty);
            int x = need(ty, n);
            int b = new_blk(k, ty, n);
            s.blk[b].in = {x};
            out(b, ty, n, s.sig[x].bound);
            break;
        }
        case K::DELAY:
        {
            Ty ty = rand_ty(true);
            int n = some_n(ty);
            int x = need(ty, n), ini = need(ty, n);
            // delay signal: a constant, or 'positive' function of something, scaled into [0, lifespan]
            int d;
            double life = r.uni(0.3, 3);
            if (r.chance(0.5))
            {
                int c       = new_blk(K::CONST, Ty::S, 1);
                s.blk[c].pv = {r.uni(0.02, 0.98) * life};
                d           = out(c, Ty::S, 1, life);
            }
            else
            {
                int y       = need(Ty::S, 1, 1e3, 0.9); // in (1, 3)
                int c       = new_blk(K::GAIN, Ty::S, 1);
                s.blk[c].in = {y};
                life        = r.uni(0.9, 3);
                s.blk[c].p  = life / std::max(3.01, s.sig[y].bound * 1.01);
                d           = out(c, Ty::S, 1, life);
                if (s.sig[y].prod >= 0 && s.blk[s.sig[y].prod].k == K::SISO && s.blk[s.sig[y].prod].fn == 2)
                    ;
                else
                {
                    // the sign is unknown: use a constant after all
                    s.blk[c].k  = K::CONST;
                    s.blk[c].in = {};
                    s.blk[c].pv = {life * 0.4321};
                }
            }
            int b = new_blk(k, ty, n);
            static const int perms[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
            const int* p = perms[r.range(0, 5)];
            int sigs[3]  = {x, d, ini};
            const char* labs[3] = {"in", "delay", "initial"};
            for (int i = 0; i < 3; i++)
            {
                s.blk[b].in.push_back(sigs[p[i]]);
                s.blk[b].lab.push_back(labs[p[i]]);
            }
            s.blk[b].p = life;
            out(b, ty, n, std::max(s.sig[x].bound, s.sig[ini].bound));
            break;
        }
        case K::DERIV:
        {
            Ty ty = rand_ty(true);
            int n = some_n(ty);
            int x = find(ty, n, 200, 0, true);
            if (x < 0) x = make_source(ty, n);
            int b = new_blk(k, ty, n);
            s.blk[b].in = {x};
            s.blk[b].pv = rv(s.blk[b].n, 1);
            if (r.chance(0.2)) for (auto& v : s.blk[b].pv) v = 0;
            int d       = out(b, ty, n, 1e6);
            // always squashed before it goes anywhere unbounded
            int q       = new_blk(K::SISO, ty, n);
            s.blk[q].in = {d};
            s.blk[q].fn = 0;
            out(q, ty, n, 1);
            break;
        }
        case K::CLOCK:
        {
            int b = new_blk(k, Ty::S, 1);
            out(b, Ty::S, 1, 1);
            break;
        }
        case K::BUSPIPE:
        {
            int m = r.range(1, 4);
            std::vector<int> in;
            for (int i = 0; i < m; i++)
            {
                Ty ty = rand_ty();
                in.push_back(need(ty, some_n(ty)));
            }
            int b = new_blk(k, Ty::S, 1);
            s.blk[b].in = in;
            for (int i : in) out(b, s.sig[i].ty, s.sig[i].n, s.sig[i].bound);
            bus_shape(s.blk[b]);
            break;
        }
        default: break;
        }
    }
    void bus_shape(BlkS& b)
    {
        for (std::size_t i = 0; i < b.out.size(); i++)
        {
            b.group.push_back(r.chance(0.4) ? r.range(1, 2) : 0);
            b.perm.push_back(int(i));
        }
        r.shuffle(b.perm);
    }

    Spec go()
    {
        int nin = r.range(0, 4);
        for (int i = 0; i < nin; i++)
        {
            Ty ty = rand_ty();
            int g = new_sig(ty, arr_n(), -1, ty == Ty::I ? 9 : 2.5);
            s.sig[g].src = r.range(0, 5);
            s.sig[g].p1  = r.uni(0.5, 2);
            s.sig[g].p2  = r.uni(0.3, 3);
        }
        // blocks with state whose inputs are chosen last (feedback)
        std::vector<int> fb;
        auto add_fb = [&](K k)
        {
            Ty ty = k == K::MEMORY ? rand_ty() : rand_ty(true);
            int n = some_n(ty);
            if (k == K::BUSMEM)
            {
                int b = new_blk(k, Ty::S, 1);
                int m = r.range(1, 4);
                for (int i = 0; i < m; i++)
                {
                    Ty t2 = rand_ty();
                    out(b, t2, some_n(t2), t2 == Ty::I ? 30 : 4);
                    const SigS& g = s.sig[s.blk[b].out.back()];
                    s.blk[b].has_init.push_back(r.chance(0.5));
                    Vec v = t2 == Ty::I ? Vec{double(r.range(-5, 5))} : t2 == Ty::B ? Vec{double(r.chance(0.5))} : rv(g.n, 2);
                    if (!s.blk[b].has_init.back()) v = Vec(g.n, 0.0);
                    s.blk[b].inits.push_back(v);
                }
                bus_shape(s.blk[b]);
                fb.push_back(b);
                return;
            }
            int b = new_blk(k, ty, n);
            Vec v = ty == Ty::I ? Vec{double(r.range(-5, 5))} : ty == Ty::B ? Vec{double(r.chance(0.5))} : rv(s.blk[b].n, 2);
            s.blk[b].pv = v;
            if ((k == K::INTEG || k == K::TRIG) && r.chance(0.15)) for (auto& x : s.blk[b].pv) x = 0;
            if (k == K::INTEG && r.chance(0.2)) s.blk[b].fn = 1, s.blk[b].p = r.uni(0.2, 3); // a user's integrator, limited
            out(b, ty, n, k == K::MEMORY ? (ty == Ty::I ? 30 : 4) : k == K::ACCUM ? 6 : 20);
            fb.push_back(b);
        };
        int ns = 0;
        if (o.states && (o.force_states || r.chance(0.65))) ns = r.chance(0.3) ? r.range(3, 6) : r.range(1, 2);
        for (int i = 0; i < ns; i++) add_fb(o.trig && r.chance(0.3) ? K::TRIG : K::INTEG);
        int nm = r.range(0, 3);
        for (int i = 0; i < nm; i++)
        {
            int x = r.range(0, 9);
            add_fb(x < 6 ? K::MEMORY : x < 8 ? K::ACCUM : (o.buses ? K::BUSMEM : K::MEMORY));
        }
        for (K k : o.focus)
            if (k == K::MEMORY || k == K::ACCUM || k == K::BUSMEM || k == K::INTEG || k == K::TRIG)
                if (o.states || (k != K::INTEG && k != K::TRIG)) add_fb(k);
        big    = o.deep || (o.big && r.chance(0.015));
        chain  = o.deep || (big && r.chance(0.6));
        pure   = o.deep || (chain && r.chance(0.6));
        huge   = big && r.chance(0.12);
        if (pure && r.chance(o.deep ? 1 : 0.1)) huge = true;
        int nb = o.deep ? r.range(o.deep * 2 / 3, o.deep) : huge ? r.range(61, pure ? 100 : 280) : big ? r.range(30, 60) : r.range(o.min_blocks, o.max_blocks);
        static const K ff[] = {K::ADD, K::ADD, K::MUL, K::SUB, K::DIV, K::GAIN, K::GAIN, K::CONST, K::SOURCE, K::SISO, K::SISO,
                               K::SO, K::FUNC, K::FUNC, K::PIPE, K::INITV, K::DELAY, K::DERIV, K::CLOCK, K::BUSPIPE, K::USERBUS};
        std::vector<K> todo;
        for (K k : o.focus) todo.push_back(k);
        while (int(todo.size()) < nb)
        {
            K k = ff[r.next() % (sizeof ff / sizeof *ff)];
            static const K cf[] = {K::SISO, K::SISO, K::SO, K::FUNC, K::PIPE}; // bounded outputs for any input: chains get long
            if (chain && r.chance(pure ? 0.97 : 0.75)) k = cf[r.next() % (sizeof cf / sizeof *cf)];
            if (k == K::DELAY && !o.delay) continue;
            if (k == K::DERIV && !o.deriv) continue;
            if ((k == K::BUSPIPE || k == K::USERBUS) && !o.buses) continue;
            todo.push_back(k);
        }
        r.shuffle(todo);
        for (K k : todo) feedforward(k);
        for (int b : fb)
        {
            const K kk = s.blk[b].k;
            if (kk == K::BUSMEM)
            {
                std::vector<int> outs = s.blk[b].out;
                for (int g : outs)
                {
                    int x = need(s.sig[g].ty, s.sig[g].n, s.sig[g].bound);
                    s.blk[b].in.push_back(x);
                }
                continue;
            }
            const SigS g = s.sig[s.blk[b].out[0]];
            double maxb  = kk == K::MEMORY ? g.bound : kk == K::INTEG && r.chance(0.15) ? 25 : 2.5;
            int x        = need(g.ty, g.n, maxb);
            s.blk[b].in  = {x};
            if (kk == K::TRIG)
            {
                int tr = need(Ty::B, 1);
                s.blk[b].in.push_back(tr);
                s.blk[b].lab = {r.chance(0.5) ? "in" : "x", "trigger"};
            }
        }
        // inputs must be linked to some block, otherwise the library does not know (and clear) them
        {
            const std::size_t n0 = s.sig.size();
            for (std::size_t i = 0; i < n0; i++)
            {
                if (s.sig[i].prod != -1) continue;
                bool used = false;
                for (auto& b : s.blk)
                    for (int g : b.in) used = used || g == int(i);
                if (used) continue;
                int b       = new_blk(K::PIPE, s.sig[i].ty, s.sig[i].n);
                s.blk[b].in = {int(i)};
                out(b, s.sig[i].ty, s.sig[i].n, s.sig[i].bound);
            }
        }
        // hierarchy
        int nsub = r.chance(pure ? 0.8 : chain ? 0.6 : 0.3) ? 0 : huge ? r.range(10, 40) : big ? r.range(3, 10) : r.range(1, 5);
        const bool nest = r.chance(big ? 0.6 : 0.2); // one inside the other
        s.sub_parent.assign(1, -1);
        s.sub_name.assign(1, "m");
        for (int i = 1; i <= nsub; i++)
        {
            s.sub_parent.push_back(nest ? i - 1 : r.range(0, i - 1));
            s.sub_name.push_back(strf("m%d", i));
        }
        for (auto& b : s.blk) b.parent = r.range(0, nsub);
        // order of the blocks: a permutation, signals refer to blocks by index
        std::vector<int> perm(s.blk.size());
        for (std::size_t i = 0; i < perm.size(); i++) perm[i] = int(i);
        if (r.chance(pure ? 0.8 : big ? 0.3 : 0.12)) std::reverse(perm.begin(), perm.end()); // consumers before producers
        else if (r.chance(0.85)) r.shuffle(perm);
        std::vector<BlkS> nb2(s.blk.size());
        std::vector<int> where(s.blk.size());
        for (std::size_t i = 0; i < perm.size(); i++)
        {
            nb2[i]         = s.blk[perm[i]];
            where[perm[i]] = int(i);
        }
        s.blk = nb2;
        for (auto& g : s.sig)
            if (g.prod >= 0) g.prod = where[g.prod];
        // runs
        bool sf = s.stateful();
        if (sf)
        {
            int x = r.range(0, 9);
            s.rk  = x < 2 || huge ? RK::EULER : x < 6 ? RK::RK4 : (o.adaptive && !big ? RK::RKF45 : RK::RK4);
        }
        double t  = r.chance(0.5) ? 0.0 : r.chance(0.03) ? r.uni(-2e4, 2e4) : r.range(-16, 40) / 8.0;
        int nr    = r.range(1, huge ? std::min(o.max_runs, 2) : big ? std::min(o.max_runs, 3) : o.max_runs);
        bool init = r.chance(0.5);
        double dt = r.range(1, 12) / 16.0;
        int style = r.range(0, 3);
        for (int i = 0; i < nr; i++)
        {
            Run q;
            q.t    = t;
            q.init = i == 0 && init;
            if (sf && r.chance(0.5))
            {
                q.hmin = huge ? 0.05 : r.uni(0.002, 0.05);
                q.hmax = q.hmin + r.uni(0.02, 0.6);
            }
            s.runs.push_back(q);
            if (i > 0 && o.reinit && r.chance(0.25))
            {
                bool del = false;
                for (auto& b : s.blk) del = del || b.k == K::DELAY;
                s.runs.back().init = true;
                if (!del && r.chance(0.6)) s.runs.back().t = t = t - r.uni(0.0, 2.0) * r.range(0, 1);
            }
            double d = style == 0 ? dt : style == 1 ? r.range(1, 16) / 16.0 : style == 2 ? r.uni(0.001, 1.3) : (r.chance(0.2) ? r.uni(1, 3) : dt);
            if (o.repeats && r.chance(0.2))
            {
                bool ok = true;
                for (auto& b : s.blk) ok = ok && b.k != K::DELAY && b.k != K::TRIG;
                if (ok) d = 0;
            }
            // requested times may be very close to each other
            if (d > 0 && r.chance(0.06))
            {
                bool der = false;
                for (auto& b : s.blk) der = der || b.k == K::DERIV;
                d = std::pow(10.0, r.uni(der ? -5 : -8, -3));
            }
            t += d;
        }
        return s;
    }
};
} // namespace
Spec generate(Rng& r, const GenOpt& o)
{
    Gen g(r, o);
    return g.go();
}

// ---------------------------------------------------------------- reference interpreter
double limited(double x, double lim) { return x > lim ? lim : x < -lim ? -lim : x; }
Ref::Ref(const Spec& sp) : s(sp), st(sp.blk.size()), val(sp.sig.size()), have(sp.sig.size(), 0), busy(sp.blk.size(), 0), done_blk(sp.blk.size(), 0)
{
    for (std::size_t i = 0; i < s.blk.size(); i++)
    {
        auto& b = s.blk[i];
        if (b.k == K::INTEG || b.k == K::TRIG) states.push_back(int(i));
        st[i].v = b.pv;
        if (b.k == K::BUSMEM) st[i].vs = b.inits;
    }
}
Vec Ref::pack() const
{
    Vec x;
    for (int b : states) x.insert(x.end(), st[b].v.begin(), st[b].v.end());
    return x;
}
void Ref::pre(double t)
{
    for (std::size_t i = 0; i < s.blk.size(); i++)
    {
        if (s.blk[i].k == K::TRIG && st[i].flag)
        {
            for (auto& v : st[i].v) v = 0;
            st[i].flag = false;
        }
        if (s.blk[i].k == K::CLOCK) st[i].t = t;
    }
}
void Ref::eval(double t, const Vec& x)
{
    te = t;
    xe = &x;
    evals++;
    std::fill(have.begin(), have.end(), 0);
    std::fill(busy.begin(), busy.end(), 0);
    std::fill(done_blk.begin(), done_blk.end(), 0);
    // the integrators' outputs are the states
    std::size_t k = 0;
    for (int b : states)
    {
        int g = s.blk[b].out[0];
        val[g].assign(x.begin() + k, x.begin() + k + s.sig[g].n);
        have[g] = 1;
        done_blk[b] = 1;
        k += s.sig[g].n;
    }
    for (std::size_t i = 0; i < s.blk.size(); i++)
        if (!done_blk[i]) compute_blk(int(i));
    for (std::size_t i = 0; i < s.sig.size(); i++) get(int(i));
}
void Ref::compute_sig(int i)
{
    auto& g = s.sig[i];
    if (g.prod == -1)
    {
        Vec v(g.n);
        for (int j = 0; j < g.n; j++)
        {
            double x = src_fn(g.src, g.p1, g.p2, te, j);
            v[j]     = g.ty == Ty::I ? to_int(x) : g.ty == Ty::B ? double(to_bool(x)) : x;
        }
        val[i]  = v;
        have[i] = 1;
        return;
    }
    if (g.prod < 0) throw std::logic_error("undriven signal in the reference");
    compute_blk(g.prod);
}
void Ref::compute_blk(int bi)
{
    auto& b = s.blk[bi];
    if (done_blk[bi]) return;
    if (busy[bi]) throw std::logic_error("algebraic loop in the reference");
    busy[bi] = 1;
    auto set = [&](int o, Vec v)
    {
        val[b.out[o]]  = std::move(v);
        have[b.out[o]] = 1;
    };
    const int n = b.n;
    auto wsum   = [&]()
    {
        double q = 0;
        for (std::size_t k = 0; k < b.in.size(); k++)
        {
            const Vec& x = get(b.in[k]);
            for (std::size_t j = 0; j < x.size(); j++) q += wsum_weight(int(k), int(j)) * x[j];
        }
        return q;
    };
    switch (b.k)
    {
    case K::ADD: case K::MUL:
    {
        Vec v(n);
        for (int j = 0; j < n; j++)
        {
            double q = b.pv.empty() ? (b.k == K::MUL ? 1.0 : 0.0) : b.pv[j];
            for (int g : b.in)
            {
                double x = get(g)[j];
                q        = b.k == K::ADD ? q + x : q * x;
            }
            v[j] = q;
        }
        set(0, v);
        break;
    }
    case K::SUB: case K::DIV:
    {
        Vec v(n);
        for (int j = 0; j < n; j++)
        {
            double x = get(b.in[0])[j], y = get(b.in[1])[j];
            v[j] = b.k == K::SUB ? x - y : x / y;
        }
        set(0, v);
        break;
    }
    case K::GAIN:
    {
        Vec v = get(b.in[0]);
        for (auto& x : v) x *= b.p;
        set(0, v);
        break;
    }
    case K::CONST: set(0, b.pv); break;
    case K::SOURCE: case K::SOURCES:
        for (std::size_t o = 0; o < b.out.size(); o++)
        {
            auto& g = s.sig[b.out[o]];
            Vec v(g.n);
            for (int j = 0; j < g.n; j++)
            {
                double x = src_fn(b.fn + int(o), b.p, b.p2, te, j);
                v[j]     = g.ty == Ty::I ? to_int(x) : g.ty == Ty::B ? double(to_bool(x)) : x;
            }
            set(int(o), v);
        }
        break;
    case K::SISO:
    {
        Vec v = get(b.in[0]);
        for (auto& x : v) x = siso_fn(b.fn, te, x);
        set(0, v);
        break;
    }
    case K::SO: case K::FUNC: case K::USERBUS:
    {
        double q = wsum() + 0.1 * te;
        for (std::size_t o = 0; o < b.out.size(); o++)
        {
            auto& g = s.sig[b.out[o]];
            Vec v(g.n);
            for (int j = 0; j < g.n; j++) v[j] = func_out(q, g.ty, int(o), j);
            set(int(o), v);
        }
        break;
    }
    case K::PIPE: set(0, get(b.in[0])); break;
    case K::BUSPIPE:
        for (std::size_t o = 0; o < b.out.size(); o++) set(int(o), get(b.in[o]));
        break;
    case K::MEMORY: case K::ACCUM: set(0, st[bi].v); break;
    case K::BUSMEM:
        for (std::size_t o = 0; o < b.out.size(); o++) set(int(o), st[bi].vs[o]);
        break;
    case K::CLOCK: set(0, {std::sin(te - st[bi].t)}); break;
    case K::INITV:
        if (!st[bi].flag)
        {
            st[bi].v    = get(b.in[0]);
            st[bi].flag = true;
        }
        set(0, st[bi].v);
        break;
    case K::DERIV:
    {
        const Vec& x = get(b.in[0]);
        if (!st[bi].flag || st[bi].t == te) set(0, st[bi].v);
        else
        {
            Vec v(n);
            for (int j = 0; j < n; j++) v[j] = (x[j] - st[bi].x[j]) / (te - st[bi].t);
            set(0, v);
        }
        break;
    }
    case K::DELAY:
    {
        int ix = -1, id = -1, ii = -1;
        for (int k = 0; k < 3; k++)
        {
            if (b.lab[k] == "in") ix = b.in[k];
            if (b.lab[k] == "delay") id = b.in[k];
            if (b.lab[k] == "initial") ii = b.in[k];
        }
        get(ix);
        const double d = get(id)[0];
        const Vec ini  = get(ii);
        auto& buf      = st[bi].buf;
        double t       = te - d;
        if (buf.empty() || t <= buf.front().first) set(0, ini);
        else if (!(t < buf.back().first)) set(0, buf.back().second);
        else
        {
            std::size_t k = 1;
            while (k + 1 < buf.size() && buf[k].first < t) k++;
            double w = (t - buf[k - 1].first) / (buf[k].first - buf[k - 1].first);
            Vec v(n);
            for (int j = 0; j < n; j++) v[j] = buf[k - 1].second[j] + w * (buf[k].second[j] - buf[k - 1].second[j]);
            set(0, v);
        }
        break;
    }
    default: throw std::logic_error("reference: unexpected block");
    }
    done_blk[bi] = 1;
    busy[bi]     = 0;
}
void Ref::commit(double t)
{
    std::size_t k = 0;
    for (std::size_t i = 0; i < s.blk.size(); i++)
    {
        auto& b = s.blk[i];
        auto& q = st[i];
        switch (b.k)
        {
        case K::INTEG:
            q.v = val[b.out[0]];
            if (b.fn == 1)
                for (auto& x : q.v) x = limited(x, b.p);
            break;
        case K::TRIG:
            q.v    = val[b.out[0]];
            q.flag = val[b.in[1]][0] != 0;
            break;
        case K::MEMORY: q.v = val[b.in[0]]; break;
        case K::ACCUM:
            for (std::size_t j = 0; j < q.v.size(); j++) q.v[j] = 0.5 * q.v[j] + val[b.in[0]][j];
            break;
        case K::BUSMEM:
            for (std::size_t o = 0; o < b.in.size(); o++) q.vs[o] = val[b.in[o]];
            break;
        case K::DERIV:
            q.t    = t;
            q.x    = val[b.in[0]];
            q.v    = val[b.out[0]];
            q.flag = true;
            break;
        case K::DELAY:
            for (int j = 0; j < 3; j++)
                if (b.lab[j] == "in") q.buf.emplace_back(t, val[b.in[j]]);
            break;
        default: break;
        }
    }
    (void)k;
    t_prev = t;
}
void Ref::init(double t)
{
    pre(t);
    eval(t, pack());
    inited = true;
}
void Ref::repeat(double t)
{
    pre(t);
    eval(t, pack());
}
Vec Ref::deriv(double t, const Vec& x)
{
    eval(t, x);
    Vec d;
    for (int b : states)
    {
        const Vec& v = val[s.blk[b].in[0]];
        d.insert(d.end(), v.begin(), v.end());
    }
    return d;
}
Vec Ref::rk_step(double t0, const Vec& x0, double t1, double& err)
{
    const double h = t1 - t0;
    const std::size_t n = x0.size();
    err = 0;
    auto comb = [&](std::initializer_list<std::pair<double, const Vec*>> l)
    {
        Vec r = x0;
        for (auto& [c, v] : l)
            for (std::size_t i = 0; i < n; i++) r[i] += h * c * (*v)[i];
        return r;
    };
    if (s.rk == RK::EULER)
    {
        Vec k1 = deriv(t0, x0);
        return comb({{1, &k1}});
    }
    if (s.rk == RK::RK4)
    {
        Vec k1 = deriv(t0, x0);
        Vec k2 = deriv(t0 + h / 2, comb({{0.5, &k1}}));
        Vec k3 = deriv(t0 + h / 2, comb({{0.5, &k2}}));
        Vec k4 = deriv(t0 + h, comb({{1, &k3}}));
        return comb({{1. / 6, &k1}, {2. / 6, &k2}, {2. / 6, &k3}, {1. / 6, &k4}});
    }
    Vec k1 = deriv(t0, x0);
    Vec k2 = deriv(t0 + h / 4, comb({{1. / 4, &k1}}));
    Vec k3 = deriv(t0 + 3 * h / 8, comb({{3. / 32, &k1}, {9. / 32, &k2}}));
    Vec k4 = deriv(t0 + 12 * h / 13, comb({{1932. / 2197, &k1}, {-7200. / 2197, &k2}, {7296. / 2197, &k3}}));
    Vec k5 = deriv(t1, comb({{439. / 216, &k1}, {-8, &k2}, {3680. / 513, &k3}, {-845. / 4104, &k4}}));
    Vec k6 = deriv(t0 + h / 2, comb({{-8. / 27, &k1}, {2, &k2}, {-3544. / 2565, &k3}, {1859. / 4104, &k4}, {-11. / 40, &k5}}));
    Vec y  = comb({{25. / 216, &k1}, {1408. / 2565, &k3}, {2197. / 4104, &k4}, {-1. / 5, &k5}});
    Vec z  = comb({{16. / 135, &k1}, {6656. / 12825, &k3}, {28561. / 56430, &k4}, {-9. / 50, &k5}, {2. / 55, &k6}});
    for (std::size_t i = 0; i < n; i++) err = std::max(err, std::fabs(y[i] - z[i]));
    return y;
}
void Ref::accept(double t)
{
    if (states.empty())
    {
        pre(t);
        eval(t, {});
        return;
    }
    pre(t_prev);
    Vec x0 = pack();
    double err;
    Vec x1 = rk_step(t_prev, x0, t, err);
    eval(t, x1);
}
} // namespace vh
