#pragma once
#include <cstring>
#include <iostream>
#include <memory>
#include <optional>
#include <variant>
#include "src/block/submodel.hpp"
#include "src/block/leaf.hpp"
#include "src/block/integrator.hpp"
#include "src/block/extra/add.hpp"
#include "src/block/extra/bus_memory.hpp"
#include "src/block/extra/bus_pipe.hpp"
#include "src/block/extra/const.hpp"
#include "src/block/extra/delay.hpp"
#include "src/block/extra/derivative.hpp"
#include "src/block/extra/divide.hpp"
#include "src/block/extra/function.hpp"
#include "src/block/extra/gain.hpp"
#include "src/block/extra/initial_value.hpp"
#include "src/block/extra/memory.hpp"
#include "src/block/extra/multiply.hpp"
#include "src/block/extra/pipe.hpp"
#include "src/block/extra/siso_function.hpp"
#include "src/block/extra/so_function.hpp"
#include "src/block/extra/source.hpp"
#include "src/block/extra/sources.hpp"
#include "src/block/extra/subtract.hpp"
#include "src/block/extra/triggered_integrator.hpp"
#include "src/signal/array_signal.hpp"
#include "src/signal/bool_signal.hpp"
#include "src/signal/bus.hpp"
#include "src/signal/int_signal.hpp"
#include "src/signal/scalar_signal.hpp"
#include "src/solver/euler.hpp"
#include "src/solver/fast_simulator.hpp"
#include "src/solver/history.hpp"
#include "src/solver/rk4.hpp"
#include "src/solver/rkf45.hpp"
#include "src/solver/simulator.hpp"

namespace vh
{
using LabSig = std::pair<std::string, pooya::Signal>;
// an initializer list of run-time length (the library takes nothing else); valid as long as the vector is unchanged
template<class T>
std::initializer_list<T> as_list(const std::vector<T>& v)
{
    struct
    {
        const T* p;
        std::size_t n;
    } raw{v.data(), v.size()};
    std::initializer_list<T> l;
    static_assert(sizeof l == sizeof raw && std::is_trivially_copyable_v<std::initializer_list<T>>);
    memcpy(static_cast<void*>(&l), &raw, sizeof raw);
    return l;
}
// a bus with run-time contents
inline pooya::Bus mk_bus(const std::vector<LabSig>& v, const std::string& name = "")
{
    if (v.empty()) return pooya::Bus(std::initializer_list<pooya::Signal>{}, name);
    return pooya::Bus(as_list(v), name);
}
inline pooya::Bus mk_bus_auto(const std::vector<pooya::Signal>& v, const std::string& name = "")
{
    return pooya::Bus(as_list(v), name);
}
using LabVal = pooya::BusMemory::LabelValue;
// calls f(initializer_list<LabelValue>, initializer_list<string>)
template<class F>
auto with_lists(F f, const std::vector<LabVal>& v, const std::vector<std::string>& e)
{
    return f(as_list(v), as_list(e));
}

// captures std::cout
struct CoutCapture
{
    std::ostringstream os;
    std::streambuf* old;
    CoutCapture() : old(std::cout.rdbuf(os.rdbuf())) {}
    ~CoutCapture() { std::cout.rdbuf(old); }
    std::string str() const { return os.str(); }
};
// the value of any value signal as a vector; empty if unassigned
inline std::vector<double> sig_vec(const pooya::Signal& s)
{
    using namespace pooya;
    SignalImpl* p = &s.impl();
    if (auto* v = dynamic_cast<ValueSignalImpl*>(p); v && !v->assigned()) return {};
    if (auto* q = dynamic_cast<ScalarSignalImpl*>(p)) return {q->get_value()};
    if (auto* q = dynamic_cast<IntSignalImpl*>(p)) return {double(q->get_value())};
    if (auto* q = dynamic_cast<BoolSignalImpl*>(p)) return {q->get_value() ? 1.0 : 0.0};
    if (auto* q = dynamic_cast<ArraySignalImpl*>(p))
    {
        const Array& a = q->get_value();
        return std::vector<double>(a.data(), a.data() + a.size());
    }
    return {};
}
inline pooya::Array to_arr(const std::vector<double>& v)
{
    pooya::Array a(v.size());
    for (std::size_t i = 0; i < v.size(); i++) a[i] = v[i];
    return a;
}
} // namespace vh
