// Random typed block diagrams: specification, generator, and an independent reference interpreter.
// Nothing in this header or in diag_ref.cpp uses the library under test.
#pragma once
#include "core.hpp"
#include <array>

namespace vh
{
using Vec = std::vector<double>;

enum class Ty { S, I, B, A };
enum class K
{
    ADD, MUL, SUB, DIV, GAIN, CONST, SOURCE, SISO, SO, FUNC, SOURCES, PIPE,
    MEMORY, DELAY, DERIV, INITV, INTEG, TRIG, BUSMEM, BUSPIPE, ACCUM, CLOCK, USERBUS, COUNT_
};
extern const char* const kind_name[];

struct SigS
{
    Ty ty;
    int n;            // components
    std::string name;
    int prod;         // producing block, -1: model input, -2: driven by nobody
    double bound;     // |value| <= bound
    double minabs;    // |value| >= minabs
    int src = 0;      // source function of an input
    int noise = 0;    // 1: depends on a difference quotient (ill-conditioned), not differentiated again
    double p1 = 0, p2 = 0;
};

struct BlkS
{
    K k;
    Ty ty = Ty::S;    // type of the variant
    int n = 1;
    std::vector<int> in, out;
    std::vector<std::string> lab; // labels of the inputs; empty: automatic labels
    Vec pv;           // parameter (initial value, constant, ...)
    double p = 0, p2 = 0;
    int fn = 0;
    int parent = 0;   // submodel
    std::string name;
    std::vector<int> perm;        // BUSMEM/BUSPIPE: order of the output bus
    std::vector<int> group;       // BUSMEM/BUSPIPE: sub-bus of each signal (0: top level)
    std::vector<char> has_init;   // BUSMEM: initial value given for this signal
    std::vector<Vec> inits;
    bool add_via_parent = false;  // connected with Submodel::add_block
    std::vector<int> required() const; // inputs whose current value is needed
};

enum class RK { NONE, EULER, RK4, RKF45 };

struct Run
{
    double t;
    double hmin = 1e-3, hmax = 1;
    bool init = false; // call init(t) instead of run(t)
};

struct Spec
{
    std::vector<SigS> sig;
    std::vector<BlkS> blk;
    std::vector<int> sub_parent;        // parent of submodel i (0: root); entry 0 unused
    std::vector<std::string> sub_name;
    RK rk = RK::NONE;
    std::vector<Run> runs;
    bool stateful() const;
    std::vector<int> inputs() const;
    std::string str() const;
    u64 hash() const;
};

struct GenOpt
{
    int min_blocks = 2, max_blocks = 14;
    bool states = true;      // integrators allowed
    bool force_states = false;
    bool arrays = true, ints = true, bools = true, buses = true;
    bool trig = true, delay = true, deriv = true;
    bool repeats = false;    // repeated run times
    bool adaptive = true;
    bool reinit = false;     // later calls of init(), also at earlier times if no block forbids it
    int max_runs = 12;
    int deep = 0;            // a long chain of at most so many blocks
    bool big = false;        // now and then a model with dozens of blocks, long chains and deep nesting
    std::vector<K> focus;    // kinds that must occur
};
Spec generate(Rng& r, const GenOpt& o);

// pure functions shared by the user callbacks of the built model and by the reference
double src_fn(int id, double p1, double p2, double t, int j);
double siso_fn(int id, double t, double x);
double to_int(double s);   // integer in [-9, 9]
bool to_bool(double s);
double func_out(double s, Ty ty, int which, int j);
double wsum_weight(int k, int j);
double limited(double x, double lim);

// one component-wise value
struct Ref
{
    struct St
    {
        Vec v;                 // integrator/memory/derivative-output/initial-value/accumulator
        std::vector<Vec> vs;   // bus memory
        bool flag = false;     // trigger latched / derivative: first step over / initial value latched
        double t = 0;          // derivative: previous accepted time; clock: start of step
        Vec x;                 // derivative: previous input
        std::vector<std::pair<double, Vec>> buf; // delay
    };
    const Spec& s;
    std::vector<St> st;
    std::vector<Vec> val;      // values of the last evaluation
    std::vector<char> have;
    double t_prev = 0;
    bool inited = false;
    std::vector<int> states;   // integrator blocks
    u64 evals = 0;

    explicit Ref(const Spec& sp);
    Vec pack() const;                       // committed states
    void pre(double t);
    void eval(double t, const Vec& x);      // evaluate all signals
    Vec deriv(double t, const Vec& x);
    void commit(double t);
    // these evaluate at an accepted time; call commit(t) afterwards
    void init(double t);
    void repeat(double t);
    void accept(double t);                  // one accepted step from t_prev to t (or evaluation if stateless)
    // Runge-Kutta step; err: max |4th - 5th| for RKF45
    Vec rk_step(double t0, const Vec& x0, double t1, double& err);
    const Vec& value(int sig) const { return val[sig]; }

private:
    double te = 0;
    const Vec* xe = nullptr;
    std::vector<char> busy, done_blk;
    void compute_sig(int i);
    void compute_blk(int b);
    const Vec& get(int i)
    {
        if (!have[i]) compute_sig(i);
        return val[i];
    }
};
} // namespace vh
