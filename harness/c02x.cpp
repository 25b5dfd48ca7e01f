// Every block on its own with extreme values: infinities, NaN, signed zeros, denormals, the whole range of integers,
// long arrays, many and repeated operands.
#include "core.hpp"
#include "pooya_all.hpp"
#include <climits>

namespace vh
{
using namespace pooya;
const char* suite_property = "C02";
const char* suite_rule = "one block of a random kind fed with extreme values (infinities, NaN, zeros, denormals, huge and tiny numbers, all integers, arrays of up to 64 components, up to 9 and repeated operands) over 1-8 accepted times with each of the three simulators, compared with its formula; non-trivial: every distinct kind, operand count, size and simulator";
bool debug_build()
{
#ifdef NDEBUG
    return false;
#else
    return true;
#endif
}
namespace
{
using V = std::vector<double>;
struct Case
{
    Ctx& c;
    Rng& r;
    std::vector<Signal> in;
    std::vector<V> cur; // values of the inputs
    Case(Ctx& c_) : c(c_), r(c_.rng) {}
    double sum_val()
    {
        switch (r.range(0, 9))
        {
        case 0: return 0;
        case 1: return -0.0;
        case 2: return 5e-324;
        case 3: return 1e290 * r.uni(-1, 1);
        case 4: return r.chance(0.3) ? INFINITY : 1;
        case 5: return r.chance(0.3) ? -INFINITY : -1;
        case 6: return r.chance(0.2) ? NAN : 2;
        case 7: return 9007199254740993.0 * r.uni(-1, 1);
        case 8: return 1e-150 * r.uni(-1, 1);
        default: return r.uni(-10, 10);
        }
    }
    double mul_val()
    {
        switch (r.range(0, 7))
        {
        case 0: return r.chance(0.3) ? 0 : 1;
        case 1: return r.chance(0.2) ? INFINITY : -1;
        case 2: return r.chance(0.2) ? NAN : 1;
        case 3: return 1e30 * r.uni(0.1, 1);
        case 4: return -1e-30 * r.uni(0.1, 1);
        default: return r.uni(-10, 10);
        }
    }
    int int_val()
    {
        switch (r.range(0, 5))
        {
        case 0: return INT_MAX;
        case 1: return INT_MIN;
        case 2: return r.range(-3, 3);
        case 3: return (1 << 24) + r.range(-2, 2);
        default: return int(u64(r.next()));
        }
    }
};
bool same(double a, double b, double tol)
{
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (a == b) return true;
    return std::fabs(a - b) <= tol;
}
void set(const Signal& s, const V& v)
{
    SignalImpl* p = &s.impl();
    if (auto* q = dynamic_cast<ScalarSignalImpl*>(p)) q->set_value(v[0]);
    else if (auto* q = dynamic_cast<IntSignalImpl*>(p)) q->set_value(int(v[0]));
    else if (auto* q = dynamic_cast<BoolSignalImpl*>(p)) q->set_value(v[0] != 0);
    else if (auto* q = dynamic_cast<ArraySignalImpl*>(p)) q->set_value(to_arr(v));
}
enum Op { ADD, MUL, SUB, DIV, GAIN, CONST, SOURCE, PIPE, MEM, INITV, DERIV, SO, SISO, FUNC, SOURCES, NOPS };
const char* opn[] = {"sum", "product", "difference", "quotient", "gain", "constant", "source", "pipe", "memory", "initial value", "derivative", "SO function", "SISO function", "function", "sources"};
} // namespace

void suite_case(Ctx& c)
{
    Case k(c);
    Rng& r = c.rng;
    const Op op = Op(c.caseno % NOPS);
    // type: 0 scalar, 1 array, 2 int, 3 bool
    int ty = r.chance(0.5) ? 0 : 1;
    if ((op == GAIN || op == SOURCE || op == PIPE || op == MEM || op == FUNC || op == SOURCES) && r.chance(0.4)) ty = 2;
    if ((op == PIPE || op == MEM || op == FUNC) && r.chance(0.2)) ty = 3;
    const int n = ty == 1 ? (r.chance(0.005) ? r.range(65, 600) : r.chance(0.3) ? r.range(8, 64) : r.range(1, 7)) : 1;
    auto mk = [&](const char* nm) -> Signal
    {
        switch (ty)
        {
        case 0: return ScalarSignal(nm);
        case 1: return ArraySignal(std::size_t(n), nm);
        case 2: return IntSignal(nm);
        default: return BoolSignal(nm);
        }
    };
    const bool discrete = op == MEM || op == INITV || op == DERIV;
    int nin = 1;
    if (op == ADD || op == MUL || op == SO || op == FUNC) nin = r.chance(0.01) ? r.range(10, 300) : r.range(1, 9);
    if (op == SUB || op == DIV) nin = 2;
    if (op == CONST || op == SOURCE || op == SOURCES) nin = 0;
    // distinct signals, of which some are used several times
    std::vector<Signal> sg;
    std::vector<int> use;
    for (int i = 0; i < nin; i++)
    {
        if (!sg.empty() && r.chance(0.25)) { use.push_back(int(r.next() % sg.size())); continue; }
        use.push_back(int(sg.size()));
        sg.push_back(mk(strf("u%d", i).c_str()));
    }
    std::vector<V> cur(sg.size());
    V par(std::size_t(n), 0.0);
    for (auto& x : par) x = op == ADD || op == MEM || op == DERIV || op == CONST ? k.sum_val() : k.mul_val();
    if (ty == 2) par[0] = k.int_val();
    if (ty == 3) par[0] = r.chance(0.5);
    if (op == GAIN && ty == 2) par[0] = r.chance(0.2) ? 1 : r.range(-1000, 1000);
    V srcv(std::size_t(n), 0.0); // what a source returns
    auto fresh = [&](V& v)
    {
        v.assign(std::size_t(n), 0.0);
        for (auto& x : v)
        {
            if (ty == 2) x = op == GAIN ? (par[0] == 0 ? k.int_val() : std::trunc(r.uni(-1, 1) * double(INT_MAX) / std::fabs(par[0]))) : k.int_val();
            else if (ty == 3) x = r.chance(0.5);
            else if (op == MUL && nin > 9) x = (r.chance(0.5) ? 1 : -1) * r.uni(0.95, 1.05);
            else x = op == MUL || op == DIV || op == GAIN ? k.mul_val() : k.sum_val();
        }
    };
    Submodel root(nullptr, "m");
    Submodel* p = &root;
    Signal out = mk("y");
    std::unique_ptr<Block> b;
    switch (op)
    {
    case ADD: if (ty) b = std::make_unique<AddA>(to_arr(par), p); else b = std::make_unique<Add>(par[0], p); break;
    case MUL: if (ty) b = std::make_unique<MultiplyA>(to_arr(par), p); else b = std::make_unique<Multiply>(par[0], p); break;
    case SUB: if (ty) b = std::make_unique<SubtractA>(p); else b = std::make_unique<Subtract>(p); break;
    case DIV: if (ty) b = std::make_unique<DivideA>(p); else b = std::make_unique<Divide>(p); break;
    case GAIN:
        if (ty == 1) b = std::make_unique<GainA>(par[0], p);
        else if (ty == 2) b = std::make_unique<GainI>(int(par[0]), p);
        else b = std::make_unique<Gain>(par[0], p);
        break;
    case CONST: if (ty) b = std::make_unique<ConstA>(to_arr(par), p); else b = std::make_unique<Const>(par[0], p); break;
    case SOURCE:
        if (ty == 1) b = std::make_unique<SourceA>([&](double) { return to_arr(srcv); }, p);
        else if (ty == 2) b = std::make_unique<SourceI>([&](double) { return int(srcv[0]); }, p);
        else b = std::make_unique<Source>([&](double) { return srcv[0]; }, p);
        break;
    case PIPE:
        if (ty == 1) b = std::make_unique<PipeA>(p);
        else if (ty == 2) b = std::make_unique<PipeI>(p);
        else if (ty == 3) b = std::make_unique<PipeB>(p);
        else b = std::make_unique<Pipe>(p);
        break;
    case MEM:
        if (ty == 1) b = std::make_unique<MemoryA>(to_arr(par), p);
        else if (ty == 2) b = std::make_unique<MemoryI>(int(par[0]), p);
        else if (ty == 3) b = std::make_unique<MemoryB>(par[0] != 0, p);
        else b = std::make_unique<Memory>(par[0], p);
        break;
    case INITV: if (ty) b = std::make_unique<InitialValueA>(p); else b = std::make_unique<InitialValue>(p); break;
    case DERIV: if (ty) b = std::make_unique<DerivativeA>(to_arr(par), p); else b = std::make_unique<Derivative>(par[0], p); break;
    case SO: // the last input
        if (ty) b = std::make_unique<SOFunctionA>([&](double, const Bus& x) -> Array { return ArraySignal(x.at(x.size() - 1))->get_value(); }, p);
        else b = std::make_unique<SOFunction>([&](double, const Bus& x) { return ScalarSignal(x.at(x.size() - 1))->get_value(); }, p);
        break;
    case SISO:
        if (ty) b = std::make_unique<SISOFunctionA>([&](double, const Array& x) -> Array { return -x; }, p);
        else b = std::make_unique<SISOFunction>([&](double, double x) { return -x; }, p);
        break;
    case FUNC: b = std::make_unique<Function>([&](double, const Bus& x, const Bus& y) { set(y.at(std::size_t(0)), sig_vec(x.at(x.size() - 1))); }, p); break;
    default: b = std::make_unique<Sources>([&](const Bus& y, double) { set(y.at(std::size_t(0)), srcv); }, p); break;
    }
    std::vector<Signal> ins;
    for (int u : use) ins.push_back(sg[std::size_t(u)]);
    b->connect(mk_bus_auto(ins), mk_bus_auto({out}));
    const int kind = r.range(0, 2);
    SimulatorBase::InputCallback cb = [&](Block&, double)
    {
        for (std::size_t i = 0; i < sg.size(); i++) set(sg[i], cur[i]);
    };
    std::unique_ptr<SimulatorBase> s;
    if (kind == 2) s = std::make_unique<FastSimulator>(root, cb);
    else s = std::make_unique<Simulator>(root, cb, nullptr, kind == 1);
    const int runs = r.range(1, 8);
    double t = r.uni(-2, 2), tp = t;
    V held = par, prev;
    c.desc = strf("%s, type %d, %d operands of %d components, simulator %d, %d times", opn[op], ty, nin, n, kind, runs);
    for (int q = 0; q < runs; q++)
    {
        for (auto& v : cur)
            if (v.empty() || r.chance(0.8)) fresh(v);
        fresh(srcv);
        s->run(t);
        V want(std::size_t(n), 0.0), tol(std::size_t(n), 0.0);
        for (int j = 0; j < n; j++)
        {
            auto in = [&](int i) { return cur[std::size_t(use[std::size_t(i)])][std::size_t(j)]; };
            double& w = want[std::size_t(j)];
            double& e = tol[std::size_t(j)];
            switch (op)
            {
            case ADD:
                w = par[std::size_t(j)];
                e = std::fabs(w);
                for (int i = 0; i < nin; i++) { w += in(i); e += std::fabs(in(i)); }
                e *= 1e-14 * std::max(1.0, nin / 20.0);
                break;
            case MUL:
                w = par[std::size_t(j)];
                for (int i = 0; i < nin; i++) w *= in(i);
                e = std::fabs(w) * 1e-14 * std::max(1.0, nin / 20.0);
                break;
            case SUB: w = in(0) - in(1); break;
            case DIV: w = in(0) / in(1); e = std::fabs(w) * 1e-15; break;
            case GAIN: w = par[0] * in(0); e = std::fabs(w) * 1e-15; break;
            case CONST: w = par[std::size_t(j)]; break;
            case SOURCE: case SOURCES: w = srcv[std::size_t(j)]; break;
            case PIPE: w = in(0); break;
            case MEM: w = held[std::size_t(j)]; break;
            case INITV:
                if (q == 0) held[std::size_t(j)] = in(0);
                w = held[std::size_t(j)];
                break;
            case DERIV:
                w = q == 0 ? par[std::size_t(j)] : (in(0) - prev[std::size_t(j)]) / (t - tp);
                e = q == 0 ? 0 : (std::fabs(in(0)) + std::fabs(prev[std::size_t(j)])) / (t - tp) * 1e-14;
                break;
            case SO: case FUNC: w = in(nin - 1); break;
            case SISO: w = -in(0); break;
            default: break;
            }
            if (std::isnan(e) || std::isinf(e)) e = 0;
        }
        const V got = sig_vec(out);
        VH_CHECK(got.size() == want.size(), "time %d: the output has %zu components, expected %zu", q, got.size(), want.size());
        for (int j = 0; j < n; j++)
            VH_CHECK(same(got[std::size_t(j)], want[std::size_t(j)], tol[std::size_t(j)]), "time %d (t=%.17g): component %d is %.17g, expected %.17g", q, t, j, got[std::size_t(j)], want[std::size_t(j)]);
        c.count("values compared", u64(n));
        if (op == MEM) held = cur[0];
        if (op == DERIV) prev = cur[0];
        tp = t;
        if (discrete) t += r.chance(0.1) ? 1e-9 : r.uni(0.001, 3);
        else t = r.uni(-5, 5);
    }
    c.nontrivial(hash_str(strf("%d %d %d %d %d", int(op), ty, nin, n, kind)));
}
} // namespace vh
