// what every demonstration needs
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "src/block/submodel.hpp"
#include "src/block/leaf.hpp"
#include "src/block/integrator.hpp"
#include "src/block/extra/add.hpp"
#include "src/block/extra/bus_memory.hpp"
#include "src/block/extra/bus_pipe.hpp"
#include "src/block/extra/const.hpp"
#include "src/block/extra/delay.hpp"
#include "src/block/extra/derivative.hpp"
#include "src/block/extra/divide.hpp"
#include "src/block/extra/function.hpp"
#include "src/block/extra/gain.hpp"
#include "src/block/extra/initial_value.hpp"
#include "src/block/extra/memory.hpp"
#include "src/block/extra/multiply.hpp"
#include "src/block/extra/pipe.hpp"
#include "src/block/extra/siso_function.hpp"
#include "src/block/extra/so_function.hpp"
#include "src/block/extra/source.hpp"
#include "src/block/extra/sources.hpp"
#include "src/block/extra/subtract.hpp"
#include "src/block/extra/triggered_integrator.hpp"
#include "src/signal/array_signal.hpp"
#include "src/signal/bool_signal.hpp"
#include "src/signal/bus.hpp"
#include "src/signal/int_signal.hpp"
#include "src/signal/scalar_signal.hpp"
#include "src/solver/euler.hpp"
#include "src/solver/fast_simulator.hpp"
#include "src/solver/history.hpp"
#include "src/solver/rk4.hpp"
#include "src/solver/rkf45.hpp"
#include "src/solver/simulator.hpp"
using namespace pooya;
#define CHECK(c)                                                                                                       \
    do                                                                                                                 \
    {                                                                                                                  \
        if (!(c))                                                                                                      \
        {                                                                                                              \
            fprintf(stderr, "%s:%d: FAILED: %s\n", __FILE__, __LINE__, #c);                                            \
            exit(3);                                                                                                   \
        }                                                                                                              \
    } while (0)
template<class F>
bool throws(F f)
{
    try
    {
        f();
    }
    catch (const std::exception&)
    {
        return true;
    }
    return false;
}
inline bool near(double a, double b, double tol = 1e-9) { return std::fabs(a - b) <= tol; }
struct Quiet
{
    std::ostringstream os;
    std::streambuf* old;
    Quiet() : old(std::cout.rdbuf(os.rdbuf())) {}
    ~Quiet() { std::cout.rdbuf(old); }
};
