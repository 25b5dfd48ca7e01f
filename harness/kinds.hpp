// The connection contract of every block kind (independent table).
#pragma once
#include "core.hpp"
#include "pooya_all.hpp"
#include <functional>
namespace vh
{
using namespace pooya;
namespace
{
enum Ty { S, I, B, A, BUS };
struct In
{
    Ty ty;
    std::string label; // needed label
    bool req = true;
};
struct Kind
{
    std::string name;
    std::vector<In> in;
    std::vector<Ty> out;
    bool var_in = false;      // more of in[0] may follow
    bool any_in = false;      // inputs of any type
    bool any_out = false;
    bool in_free = false;     // any number of inputs is accepted
    bool out_free = false;
    bool lax_types = false;   // input types are only checked in debug builds
    bool lax_min = false;     // at least one input: only checked in debug builds
    bool out_req = false;     // integrators need their own output (the state)
    bool same_size = false;
    std::function<std::unique_ptr<Block>(Submodel*, std::string)> mk;
};
Array zeros(int n) { return Array::Zero(n); }
const int N = 3;
std::vector<Kind> kinds()
{
    std::vector<Kind> v;
    auto add = [&](Kind k) { v.push_back(std::move(k)); };
    auto K = [](const char* n, std::vector<In> in, std::vector<Ty> out, std::function<std::unique_ptr<Block>(Submodel*, std::string)> mk)
    {
        Kind k;
        k.name = n;
        k.in   = std::move(in);
        k.out  = std::move(out);
        k.mk   = std::move(mk);
        return k;
    };
#define MK(T, ...) [](Submodel* p, std::string nm) -> std::unique_ptr<Block> { return std::make_unique<T>(__VA_ARGS__); }
    auto var = [](Kind k) { k.var_in = k.in_free = k.lax_types = k.lax_min = true; return k; };
    add(var(K("Add", {{S}}, {S}, MK(Add, 0.0, p, nm))));
    add(var(K("AddA", {{A}}, {A}, MK(AddA, zeros(N), p, nm))));
    add(var(K("Multiply", {{S}}, {S}, MK(Multiply, 1.0, p, nm))));
    add(var(K("MultiplyA", {{A}}, {A}, MK(MultiplyA, zeros(N), p, nm))));
    add(K("Subtract", {{S}, {S}}, {S}, MK(Subtract, p, nm)));
    add(K("SubtractA", {{A}, {A}}, {A}, MK(SubtractA, p, nm)));
    add(K("Divide", {{S}, {S}}, {S}, MK(Divide, p, nm)));
    add(K("DivideA", {{A}, {A}}, {A}, MK(DivideA, p, nm)));
    add(K("Gain", {{S}}, {S}, MK(Gain, 2.0, p, nm)));
    add(K("GainI", {{I}}, {I}, MK(GainI, 2, p, nm)));
    add(K("GainA", {{A}}, {A}, MK(GainA, 2.0, p, nm)));
    add(K("Const", {}, {S}, MK(Const, 2.0, p, nm)));
    add(K("ConstA", {}, {A}, MK(ConstA, zeros(N), p, nm)));
    auto src = [](Kind k) { k.in_free = true; return k; }; // sources ignore inputs
    add(src(K("Source", {}, {S}, MK(Source, [](double) { return 0.0; }, p, nm))));
    add(src(K("SourceI", {}, {I}, MK(SourceI, [](double) { return 0; }, p, nm))));
    add(src(K("SourceA", {}, {A}, MK(SourceA, [](double) { return zeros(N); }, p, nm))));
    {
        Kind k = K("Sources", {}, {S, A, I}, MK(Sources, [](const Bus&, double) {}, p, nm));
        k.any_out = k.out_free = true;
        add(k);
        Kind k2 = K("Sources(2)", {}, {S, A}, MK(Sources, [](const Bus&, double) {}, p, nm, 2));
        k2.any_out = true;
        add(k2);
        Kind f = K("Function", {{S}, {I}, {B}, {A}}, {B, S}, MK(Function, [](double, const Bus&, const Bus&) {}, p, nm));
        f.any_in = f.any_out = f.in_free = f.out_free = true;
        add(f);
        Kind f2 = K("Function(2,3)", {{S}, {I}}, {B, S, A}, MK(Function, [](double, const Bus&, const Bus&) {}, p, nm, 2, 3));
        f2.any_in = f2.any_out = true;
        add(f2);
        Kind sm = K("Submodel(1,2)", {{S}}, {B, S}, MK(Submodel, p, nm, 1, 2));
        sm.any_in = sm.any_out = true;
        add(sm);
        Kind sm2 = K("Submodel", {{S}, {A}}, {B, S}, MK(Submodel, p, nm));
        sm2.any_in = sm2.any_out = sm2.in_free = sm2.out_free = true;
        add(sm2);
        Kind so = K("SOFunction", {{S}, {A}, {B}}, {S}, MK(SOFunction, [](double, const Bus&) { return 0.0; }, p, nm));
        so.any_in = so.in_free = true;
        add(so);
        Kind so2 = K("SOFunction(2)", {{S}, {I}}, {S}, MK(SOFunction, [](double, const Bus&) { return 0.0; }, p, nm, 2));
        so2.any_in = true;
        add(so2);
        Kind so3 = K("SOFunctionA", {{S}, {A}}, {A}, MK(SOFunctionA, [](double, const Bus&) { return zeros(N); }, p, nm));
        so3.any_in = so3.in_free = true;
        add(so3);
    }
    add(K("SISOFunction", {{S}}, {S}, MK(SISOFunction, [](double, double x) { return x; }, p, nm)));
    add(K("SISOFunctionA", {{A}}, {A}, MK(SISOFunctionA, [](double, const Array& x) -> Array { return x; }, p, nm)));
    add(K("Pipe", {{S}}, {S}, MK(Pipe, p, nm)));
    add(K("PipeI", {{I}}, {I}, MK(PipeI, p, nm)));
    add(K("PipeB", {{B}}, {B}, MK(PipeB, p, nm)));
    add(K("PipeA", {{A}}, {A}, MK(PipeA, p, nm)));
    add(K("Memory", {{S, "", false}}, {S}, MK(Memory, 0.5, p, nm)));
    add(K("MemoryI", {{I, "", false}}, {I}, MK(MemoryI, 5, p, nm)));
    add(K("MemoryB", {{B, "", false}}, {B}, MK(MemoryB, true, p, nm)));
    add(K("MemoryA", {{A, "", false}}, {A}, MK(MemoryA, zeros(N), p, nm)));
    add(K("Delay", {{S, "in"}, {S, "delay"}, {S, "initial"}}, {S}, MK(Delay, 1.0, p, nm)));
    add(K("DelayA", {{A, "in"}, {S, "delay"}, {A, "initial"}}, {A}, MK(DelayA, 1.0, p, nm)));
    add(K("Derivative", {{S}}, {S}, MK(Derivative, 0.0, p, nm)));
    add(K("DerivativeA", {{A}}, {A}, MK(DerivativeA, zeros(N), p, nm)));
    add(K("InitialValue", {{S}}, {S}, MK(InitialValue, p, nm)));
    add(K("InitialValueA", {{A}}, {A}, MK(InitialValueA, p, nm)));
    auto integ = [](Kind k) { k.out_req = k.same_size = true; return k; };
    add(integ(K("Integrator", {{S, "", false}}, {S}, MK(Integrator, 0.0, p, nm))));
    add(integ(K("IntegratorA", {{A, "", false}}, {A}, MK(IntegratorA, zeros(N), p, nm))));
    add(integ(K("TriggeredIntegrator", {{S, "", false}, {B, "trigger"}}, {S}, MK(TriggeredIntegrator, 0.0, p, nm))));
    add(integ(K("TriggeredIntegratorA", {{A, "", false}, {B, "trigger"}}, {A}, MK(TriggeredIntegratorA, zeros(N), p, nm))));
    return v;
#undef MK
}
Signal mk(Ty t, int n, const std::string& name)
{
    switch (t)
    {
    case S: return ScalarSignal(name);
    case I: return IntSignal(name);
    case B: return BoolSignal(name);
    case A: return ArraySignal(std::size_t(n), name);
    default: return mk_bus_auto({ScalarSignal(name + "_e")}, name);
    }
}
} // namespace
} // namespace vh
