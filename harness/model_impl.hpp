// The built model: shared by build.cpp and the block factories.
#pragma once
#include "build.hpp"
#include "pooya_all.hpp"
#include <algorithm>

namespace vh
{
using namespace pooya;

struct Probe
{
    Model* m = nullptr;
    void ev(Ev e, int id, double t);
    void act(int id, double t);
};

template<class B>
struct P : B
{
    Probe* pr;
    int bid;
    template<class... A>
    P(Probe* p, int id, A&&... a) : B(std::forward<A>(a)...), pr(p), bid(id)
    {
    }
    void pre_step(double t) override
    {
        pr->ev(Ev::PRE, bid, t);
        B::pre_step(t);
    }
    void post_step(double t) override
    {
        B::post_step(t);
        pr->ev(Ev::POST, bid, t);
    }
    void activation_function(double t) override
    {
        pr->act(bid, t);
        B::activation_function(t);
        pr->ev(Ev::ACT_END, bid, t);
    }
};

// user-defined blocks
template<typename T>
struct AccumT : SingleInputOutputT<T>
{
    using Base = SingleInputOutputT<T>;
    T v;
    AccumT(typename Types<T>::SetValue ic, Submodel* parent, std::string_view name) : Base(parent, name, 1), v(ic) {}
    bool connect(const Bus& ibus, const Bus& obus) override
    {
        if (!Base::connect(ibus, obus)) return false;
        if (auto* p = Base::find_linked_signal(Base::_s_in.impl())) p->second &= ~uint32_t(Block::SignalLinkType::Required);
        return true;
    }
    void post_step(double) override { v = 0.5 * v + Base::_s_in->get_value(); }
    void activation_function(double) override { Base::_s_out = v; }
};
// a block whose ports are found by their paths in nested buses
struct UserBus : Leaf
{
    using Fn = std::function<void(double, const std::vector<Signal>&, const std::vector<Signal>&)>;
    std::vector<std::string> ip, op;
    Fn fn;
    std::vector<Signal> is, os;
    UserBus(std::vector<std::string> i, std::vector<std::string> o, Fn f, Submodel* parent, std::string_view name)
        : Leaf(parent, name), ip(std::move(i)), op(std::move(o)), fn(std::move(f))
    {
    }
    bool connect(const Bus& ibus, const Bus& obus) override
    {
        if (!Leaf::connect(ibus, obus)) return false;
        for (std::size_t k = 0; k < ip.size(); k++)
        {
            if (k % 3 == 0) is.push_back(input(ip[k]));
            else if (k % 3 == 1) is.push_back(input(std::string_view(ip[k])));
            else is.push_back(io_at(_ibus, ip[k].c_str(), SignalLinkType::Input | SignalLinkType::Required));
        }
        for (std::size_t k = 0; k < op.size(); k++)
            os.push_back(k % 2 ? output(op[k].c_str()) : output(op[k]));
        return true;
    }
    void activation_function(double t) override { fn(t, is, os); }
};
// a user's integrator: the state is limited at every accepted step
template<typename T>
struct LimIntegratorT : IntegratorT<T>
{
    using Base = IntegratorT<T>;
    double lim;
    LimIntegratorT(typename Types<T>::SetValue ic, double l, Submodel* parent, std::string_view name) : Base(ic, parent, name), lim(l) {}
    void post_step(double t) override
    {
        Base::post_step(t);
        if constexpr (std::is_same_v<T, Array>)
            for (int i = 0; i < int(Base::_value.size()); i++) Base::_value[i] = limited(Base::_value[i], lim);
        else Base::_value = limited(Base::_value, lim);
    }
};
struct Clock : SingleOutputT<double>
{
    using Base = SingleOutputT<double>;
    double t0  = 1e9;
    Clock(Submodel* parent, std::string_view name) : Base(parent, name, 0) {}
    void pre_step(double t) override { t0 = t; }
    void activation_function(double t) override { _s_out = std::sin(t - t0); }
};
struct Root : Submodel
{
    Probe* pr;
    explicit Root(Probe* p, std::string_view name) : Submodel(nullptr, name), pr(p) {}
    void input_cb(double t) override;
};
struct Observer : Leaf
{
    std::function<void(double)> cb;
    Observer(Submodel* parent, std::function<void(double)> f) : Leaf(parent, "observer"), cb(std::move(f)) {}
    void post_step(double t) override { cb(t); }
};

struct MonStepper : StepperBase
{
    Model& m;
    std::shared_ptr<StepperBase> inner;
    MonStepper(Model& mm, std::shared_ptr<StepperBase> i) : m(mm), inner(std::move(i)) {}
    void step(StepperCallback callback, double t0, const Array& v0, double t1, Array& v1, double& new_h) override;
};

struct Model
{
    Spec s;
    BuildOpt o;
    Probe probe;
    std::vector<std::optional<Signal>> sig;
    std::unique_ptr<Root> root;
    std::vector<std::unique_ptr<Submodel>> subs;
    std::vector<std::unique_ptr<Block>> blk;
    std::unique_ptr<Observer> obs;
    std::shared_ptr<MonStepper> stepper;
    std::unique_ptr<SimulatorBase> sim;
    std::vector<std::unique_ptr<char[]>> junk;
    RunOut ro;
    int cur_run    = -1;
    int calls      = 0;
    int fault_at   = -1, fault_count = 0, faulted = -1;
    std::exception_ptr last_exc;

    void tick()
    {
        int k = calls++;
        if (o.on_tick) o.on_tick();
        if (fault_at >= 0 && k >= fault_at && k < fault_at + fault_count)
        {
            faulted = k;
            if (o.fault_kind == 1) throw OddFault{k};
            if (o.fault_kind == 2) throw std::bad_alloc();
            throw UserFault(k);
        }
    }
    void assign(const Signal& sg, const Vec& v)
    {
        SignalImpl* p = &sg.impl();
        if (auto* q = dynamic_cast<ScalarSignalImpl*>(p)) q->set_value(v[0]);
        else if (auto* q = dynamic_cast<IntSignalImpl*>(p)) q->set_value(int(v[0]));
        else if (auto* q = dynamic_cast<BoolSignalImpl*>(p)) q->set_value(v[0] != 0);
        else if (auto* q = dynamic_cast<ArraySignalImpl*>(p)) q->set_value(to_arr(v));
        else throw std::logic_error("assign");
    }
    void inputs_cb(Block& b, double t)
    {
        if (&b != root.get() && ro.probe_error.empty()) ro.probe_error = "inputs callback got a block that is not the model";
        probe.ev(Ev::INPUTS, -1, t);
        tick();
        for (std::size_t i = 0; i < s.sig.size(); i++)
        {
            auto& g = s.sig[i];
            if (g.prod != -1) continue;
            Vec v(g.n);
            for (int j = 0; j < g.n; j++)
            {
                double x = src_fn(g.src, g.p1, g.p2, t, j);
                v[j]     = g.ty == Ty::I ? to_int(x) : g.ty == Ty::B ? double(to_bool(x)) : x;
            }
            assign(*sig[i], v);
        }
    }
    Vec src_val(const BlkS& b, int o, double t)
    {
        auto& g = s.sig[b.out[o]];
        Vec v(g.n);
        for (int j = 0; j < g.n; j++)
        {
            double x = src_fn(b.fn + o, b.p, b.p2, t, j);
            v[j]     = g.ty == Ty::I ? to_int(x) : g.ty == Ty::B ? double(to_bool(x)) : x;
        }
        return v;
    }
    // weighted sum over an input bus, read by index (typed handles made on the fly)
    double wsum(const Bus& ib)
    {
        double q = 0;
        for (std::size_t k = 0; k < ib.size(); k++)
        {
            const Signal x = (k % 2) ? ib[k] : ib.at(k);
            Vec v          = sig_vec(x);
            for (std::size_t j = 0; j < v.size(); j++) q += wsum_weight(int(k), int(j)) * v[j];
        }
        return q;
    }
    void stage_check(double t, const Array& x, const Array& d);
    void read_all(std::vector<Vec>& v)
    {
        v.clear();
        for (auto& g : sig) v.push_back(sig_vec(*g));
    }
};

struct Maker
{
    Model& m;
    int id;
    Submodel* par;
    bool probe;
    // creates B(args..., parent, name), probed or not
    template<class B, class... A>
    std::unique_ptr<Block> mk(A&&... a)
    {
        const std::string& name = m.s.blk[id].name;
        if (probe) return std::make_unique<P<B>>(&m.probe, id, std::forward<A>(a)..., par, name);
        return std::make_unique<B>(std::forward<A>(a)..., par, name);
    }
    // B with an initial value; left out of the constructor's arguments if it is the documented default
    template<class B>
    std::unique_ptr<Block> mkd(double v, double def)
    {
        if (par || v != def) return mk<B>(v);
        std::unique_ptr<Block> r;
        if (probe) r = std::make_unique<P<B>>(&m.probe, id);
        else r = std::make_unique<B>();
        r->rename(m.s.blk[id].name);
        return r;
    }
};


// each factory creates the kinds it knows, and returns null for the others
std::unique_ptr<Block> make_a(Model& m, int id, Submodel& parent, bool via);
std::unique_ptr<Block> make_b(Model& m, int id, Submodel& parent, bool via);
std::unique_ptr<Block> make_c(Model& m, int id, Submodel& parent, bool via);
std::unique_ptr<Block> make_d(Model& m, int id, Submodel& parent, bool via);
std::string bus_path(const BlkS& b, int i);
} // namespace vh
