// Builds a Spec with the library under test, runs it, and records what the monitors see.
#pragma once
#include "diag.hpp"
#include <memory>
#include <optional>

namespace vh
{
enum class Sim { PLAIN, REUSE, FAST };
extern const char* const sim_name[];

enum class Ev : std::uint8_t { INPUTS, INPUT_CB, PRE, ACT, ACT_END, POST, STEP_BEGIN, STEP_END, RUN_BEGIN, RUN_END };
struct Event
{
    Ev e;
    int id; // block
    double t;
};
struct Snap
{
    double t;
    int run;               // index of the run() call during which it was taken
    std::vector<Vec> val;  // per signal; empty vector: unassigned
};
struct Attempt // one call of the stepper
{
    int run;
    double t0 = 0, t1 = 0, new_h = 0;
    Vec v0, v1;
    int stages = 0;
    bool threw = false;
};

struct RunOut
{
    std::vector<Event> ev;
    std::vector<Snap> snaps;        // taken in post_step
    std::vector<Snap> after;        // taken after each call of run()/init()
    std::vector<Attempt> att;
    std::vector<std::string> err;   // exception per call ("" if none)
    std::vector<std::string> out;   // printed per call
    u64 acts = 0, stages = 0;
    std::string probe_error;        // first error seen by a probe
};

struct BuildOpt
{
    Sim sim = Sim::PLAIN;
    bool flatten = false;          // all blocks in the root
    bool noise = false;            // perturb the heap
    u64 perm_seed = 0;             // != 0: permute creation order of signals and blocks
    bool probe = true;             // record events
    bool events = true;            // keep the event list (needs probe)
    bool snaps = true;
    int fault_at = -1;             // throw UserFault at the n-th user callback
    int fault_count = 1;           // ... this many times in a row
    int fault_kind = 0;            // 0: UserFault, 1: OddFault, 2: std::bad_alloc
    u64 budget = 2000000;          // block activations
    bool capture_out = true;
    bool swap_runs = false;
    std::function<void()> between; // called between runs
    std::function<void()> on_tick; // called in every user callback
    std::function<double(int, double, double)> script; // attempt number, its length, the stepper's proposal -> proposal
    bool stage_check = false;      // compare every stage's states and slopes with the integrators' outputs and inputs
    std::function<Sim(int)> new_sim_kind; // if set, later init() calls use a new simulator of this kind
};
struct UserFault : std::runtime_error
{
    int no;
    explicit UserFault(int n) : std::runtime_error("user fault " + std::to_string(n)), no(n) {}
};
struct OddFault // not a std::exception
{
    int no;
};

// a built model; opaque so that only build.cpp compiles against the library headers
struct Model;
struct ModelDeleter { void operator()(Model*) const; };
using ModelPtr = std::unique_ptr<Model, ModelDeleter>;
ModelPtr build_model(const Spec& s, const BuildOpt& o);
void new_simulator(Model& m, const BuildOpt& o);     // (another) simulator for the same model
// one call of init()/run(); returns false if it threw (recorded in out().err)
bool do_run(Model& m, const Run& r);
RunOut& out(Model& m);
void reset_fault(Model& m, int at, int count);
int last_fault(Model& m);                            // number of the callback that threw last, or -1
int user_calls(Model& m);                            // number of user callbacks so far
std::vector<Vec> read_values(Model& m);              // empty vector: unassigned
bool same_values(const std::vector<Vec>& a, const std::vector<Vec>& b); // bitwise, NaN equals NaN
std::vector<bool> processed_flags(Model& m);         // per block
std::string block_full_name(Model& m, int blk);
std::string sub_full_name(Model& m, int sub);
bool sub_processed(Model& m, int sub);
std::exception_ptr last_exception(Model& m);

RunOut run_spec(const Spec& s, const BuildOpt& o);

// oracle: replays the accepted times of `o` with the reference and compares every value.
// Returns "" or a description of the first mismatch.  Counts compared values.
bool ill_conditioned(const Spec& s, double t0, double t1);
std::string compare_with_ref(const Spec& s, const RunOut& o, double tol, u64& compared, u64& steps);
// oracle: same snapshots
std::string compare_outs(const Spec& s, const RunOut& a, const RunOut& b, double tol, u64& compared);
// oracle: event order (C01)
std::string check_events(const Spec& s, const RunOut& o, Sim sim, u64& evals);
// oracle: pre_step/post_step protocol (C09)
std::string check_commits(const Spec& s, const RunOut& o, Sim sim, u64& commits);
// oracle: step control (C08); counts rejections
std::string check_steps(const Spec& s, const RunOut& o, u64& rejected, u64& accepted);
std::string digest(const RunOut& o);
} // namespace vh
