#include "model_impl.hpp"

namespace vh
{
using namespace pooya;
const char* const sim_name[] = {"Simulator", "Simulator(reuse_order)", "FastSimulator"};

bool debug_build()
{
#ifdef POOYA_DEBUG
    return true;
#else
    return false;
#endif
}

void ModelDeleter::operator()(Model* m) const { delete m; }

void Root::input_cb(double t)
{
    pr->ev(Ev::INPUT_CB, -1, t);
    pr->m->tick();
}

void Probe::ev(Ev e, int id, double t)
{
    if (m->o.events) m->ro.ev.push_back({e, id, t});
}
void Probe::act(int id, double t)
{
    ev(Ev::ACT, id, t);
    if (++m->ro.acts > m->o.budget) throw Budget{strf("more than %llu block activations", (unsigned long long)m->o.budget)};
    if (m->ro.probe_error.empty())
        for (int g : m->s.blk[id].required())
        {
            auto* v = dynamic_cast<ValueSignalImpl*>(&m->sig[g]->impl());
            if (!v->assigned())
                m->ro.probe_error = strf("block %s activated at t=%.17g although its input %s is unassigned", m->s.blk[id].name.c_str(), t, m->s.sig[g].name.c_str());
        }
}
void MonStepper::step(StepperCallback callback, double t0, const Array& v0, double t1, Array& v1, double& new_h)
{
    Attempt a;
    a.run = m.cur_run;
    a.t0  = t0;
    a.t1  = t1;
    a.v0.assign(v0.data(), v0.data() + v0.size());
    if (m.ro.att.size() > m.o.budget / 10) throw Budget{"too many solver steps"};
    m.probe.ev(Ev::STEP_BEGIN, -1, t0);
    m.ro.att.push_back(a);
    auto& r = m.ro.att.back();
    r.threw = true;
    m.tick();
    inner->step(
        [&](double t, const Array& x) -> const Array&
        {
            r.stages++;
            m.probe.ev(Ev::RUN_BEGIN, -2, t);
            const Array xin = x;
            const Array& d = callback(t, x);
            m.probe.ev(Ev::RUN_END, -2, t);
            if (m.o.stage_check && m.ro.probe_error.empty()) m.stage_check(t, xin, d);
            return d;
        },
        t0, v0, t1, v1, new_h);
    m.tick();
    r.threw = false;
    if (m.o.script) new_h = m.o.script(int(m.ro.att.size()) - 1, t1 - t0, new_h);
    r.new_h = new_h;
    r.v1.assign(v1.data(), v1.data() + v1.size());
    m.probe.ev(Ev::STEP_END, -1, t1);
}

// there must be an order of the integrators in which the states are their outputs and the slopes their inputs
void Model::stage_check(double t, const Array& x, const Array& d)
{
    ro.stages++;
    std::vector<std::pair<Vec, Vec>> io;
    std::size_t n = 0;
    for (auto& b : s.blk)
        if (b.k == K::INTEG || b.k == K::TRIG)
        {
            io.emplace_back(sig_vec(*sig[b.out[0]]), sig_vec(*sig[b.in[0]]));
            n += b.n;
            if (io.back().first.size() != std::size_t(b.n) || io.back().second.size() != std::size_t(b.n))
            {
                ro.probe_error = strf("solver stage at t=%.17g: output or input of integrator %s unassigned", t, b.name.c_str());
                return;
            }
        }
    if (std::size_t(x.size()) != n || std::size_t(d.size()) != n)
    {
        ro.probe_error = strf("solver stage at t=%.17g: %d states and %d slopes instead of %d", t, int(x.size()), int(d.size()), int(n));
        return;
    }
    std::vector<char> used(io.size(), 0);
    int steps = 0;
    std::function<bool(std::size_t, int)> rec = [&](std::size_t pos, int left) -> bool
    {
        if (left == 0) return true;
        if (++steps > 200000) return true; // too many equal values to tell apart
        for (std::size_t i = 0; i < io.size(); i++)
        {
            if (used[i]) continue;
            bool ok = true;
            for (std::size_t j = 0; ok && j < io[i].first.size(); j++) ok = x[pos + j] == io[i].first[j] && d[pos + j] == io[i].second[j];
            if (!ok) continue;
            used[i] = 1;
            if (rec(pos + io[i].first.size(), left - 1)) return true;
            used[i] = 0;
        }
        return false;
    };
    if (!rec(0, int(io.size())))
    {
        std::string q;
        for (std::size_t i = 0; i < n; i++) q += strf(" (%.17g, %.17g)", x[i], d[i]);
        std::string w;
        for (auto& p : io) for (std::size_t j = 0; j < p.first.size(); j++) w += strf(" (%.17g, %.17g)", p.first[j], p.second[j]);
        ro.probe_error = strf("solver stage at t=%.17g: (state, slope) pairs%s, but (output, input) of the integrators are%s", t, q.c_str(), w.c_str());
    }
}

static Signal make_signal(const SigS& g)
{
    switch (g.ty)
    {
    case Ty::S: return ScalarSignal(g.name);
    case Ty::I: return IntSignal(g.name);
    case Ty::B: return BoolSignal(g.name);
    default: return ArraySignal(std::size_t(g.n), g.name);
    }
}

std::string bus_path(const BlkS& b, int i)
{
    return b.group[i] == 0 ? strf("L%d", i) : b.group[i] == 1 ? strf("g1.L%d", i) : strf("g1.g2.L%d", i);
}
static Bus nested_bus(Model& m, const BlkS& b, const std::vector<int>& sigs, const std::vector<int>& order, bool group_first)
{
    std::vector<LabSig> top, g1, g2;
    for (int i : order)
    {
        auto& v = b.group[i] == 0 ? top : b.group[i] == 1 ? g1 : g2;
        v.emplace_back(strf("L%d", i), *m.sig[sigs[i]]);
    }
    if (!g2.empty()) g1.insert(group_first ? g1.begin() : g1.end(), LabSig("g2", mk_bus(g2)));
    if (!g1.empty()) top.insert(group_first ? top.begin() : top.end(), LabSig("g1", mk_bus(g1)));
    return mk_bus(top);
}

static void make_block(Model& m, int id, Submodel& parent)
{
    const BlkS& b = m.s.blk[id];
    const bool via = b.add_via_parent && b.k != K::BUSMEM && b.k != K::BUSPIPE;
    std::unique_ptr<Block> r = make_a(m, id, parent, via);
    if (!r) r = make_b(m, id, parent, via);
    if (!r) r = make_c(m, id, parent, via);
    if (!r) r = make_d(m, id, parent, via);
    if (!r) throw std::logic_error("make_block");
    m.blk[id] = std::move(r);
    Block& blk = *m.blk[id];

    if (b.k == K::USERBUS)
    {
        std::vector<int> nat(b.in.size());
        for (std::size_t i = 0; i < nat.size(); i++) nat[i] = int(i);
        Bus ib = nested_bus(m, b, b.in, nat, false), ob = nested_bus(m, b, b.out, b.perm, true);
        if (!via) blk.connect(ib, ob);
        else if (!parent.add_block(blk, ib, ob)) throw std::logic_error("add_block refused");
        return;
    }
    if (b.k == K::BUSPIPE || b.k == K::BUSMEM)
    {
        std::vector<int> nat(b.out.size());
        for (std::size_t i = 0; i < nat.size(); i++) nat[i] = int(i);
        Bus ib = nested_bus(m, b, b.in, nat, false), ob = nested_bus(m, b, b.out, b.perm, true);
        blk.connect(ib, ob);
        return;
    }
    std::vector<Signal> in, ou;
    for (int g : b.in) in.push_back(*m.sig[g]);
    for (int g : b.out) ou.push_back(*m.sig[g]);
    std::vector<LabSig> lin;
    for (std::size_t i = 0; i < b.lab.size(); i++) lin.emplace_back(b.lab[i], *m.sig[b.in[i]]);
    Bus ib = b.lab.empty() ? mk_bus_auto(in) : mk_bus(lin);
    Bus ob = mk_bus_auto(ou);
    if (via)
    {
        if (!parent.add_block(blk, ib, ob)) throw std::logic_error("add_block refused");
    }
    else
        blk.connect(ib, ob);
}

void new_simulator(Model& m, const BuildOpt& o)
{
    std::shared_ptr<StepperBase> in; // StepperBase has no virtual destructor
    switch (m.s.rk)
    {
    case RK::EULER: in = std::make_shared<Euler>(); break;
    case RK::RK4: in = std::make_shared<Rk4>(); break;
    case RK::RKF45: in = std::make_shared<Rkf45>(); break;
    default: break;
    }
    m.sim.reset();
    m.stepper.reset();
    if (in) m.stepper = std::make_shared<MonStepper>(m, std::move(in));
    Model* pm = &m;
    auto cb   = [pm](Block& b, double t) { pm->inputs_cb(b, t); };
    if (o.sim == Sim::FAST) m.sim = std::make_unique<FastSimulator>(*m.root, cb, m.stepper.get());
    else m.sim = std::make_unique<Simulator>(*m.root, cb, m.stepper.get(), o.sim == Sim::REUSE);
}

ModelPtr build_model(const Spec& s, const BuildOpt& o)
{
    ModelPtr mp(new Model);
    Model& m = *mp;
    m.s      = s;
    m.o      = o;
    m.probe.m = &m;
    m.fault_at = o.fault_at;
    m.fault_count = o.fault_count;
    Rng r(o.perm_seed + 17);
    auto junk = [&]()
    {
        if (!o.noise) return;
        for (int i = r.range(0, 3); i > 0; i--) m.junk.push_back(std::make_unique<char[]>(std::size_t(r.range(1, 400))));
        if (m.junk.size() > 4 && r.chance(0.5)) m.junk.erase(m.junk.begin() + r.range(0, int(m.junk.size()) - 1));
    };
    m.root = std::make_unique<Root>(&m.probe, s.sub_name[0]);
    std::vector<int> so(s.sig.size()), bo(s.blk.size());
    for (std::size_t i = 0; i < so.size(); i++) so[i] = int(i);
    for (std::size_t i = 0; i < bo.size(); i++) bo[i] = int(i);
    if (o.perm_seed)
    {
        r.shuffle(so);
        r.shuffle(bo);
    }
    m.sig.resize(s.sig.size());
    for (int i : so)
    {
        junk();
        m.sig[i].emplace(make_signal(s.sig[i]));
    }
    m.subs.resize(s.sub_parent.size());
    m.blk.resize(s.blk.size());
    int obs_pos = o.perm_seed ? r.range(0, int(bo.size())) : int(bo.size());
    auto sub    = [&](auto&& self, int i) -> Submodel&
    {
        if (i == 0 || o.flatten) return *m.root;
        if (!m.subs[i])
        {
            Submodel& p = self(self, s.sub_parent[i]);
            if (i % 2) m.subs[i] = std::make_unique<Submodel>(&p, s.sub_name[i]);
            else
            {
                m.subs[i] = std::make_unique<Submodel>(nullptr, s.sub_name[i]);
                p.add_block(*m.subs[i]);
            }
        }
        return *m.subs[i];
    };
    if (!o.perm_seed && !o.flatten)
        for (std::size_t i = 1; i < m.subs.size(); i++) sub(sub, int(i));
    Model* pm  = &m;
    auto mkobs = [&]()
    {
        m.obs = std::make_unique<Observer>(m.root.get(), [pm](double t)
        {
            if (!pm->o.snaps) return;
            Snap sn;
            sn.t   = t;
            sn.run = pm->cur_run;
            pm->read_all(sn.val);
            pm->ro.snaps.push_back(std::move(sn));
            if (pm->ro.snaps.size() > 200000) throw Budget{"too many accepted steps"};
        });
        m.obs->connect();
    };
    for (std::size_t i = 0; i < bo.size(); i++)
    {
        if (int(i) == obs_pos) mkobs();
        junk();
        make_block(m, bo[i], sub(sub, s.blk[bo[i]].parent));
    }
    if (!m.obs) mkobs();
    for (std::size_t i = 1; i < m.subs.size(); i++) sub(sub, int(i)); // also empty submodels exist
    // now and then a submodel declares (some of) the signals its blocks exchange with the others as its ports
    Rng pr(s.hash() ^ 0x5bd1e995);
    for (std::size_t i = 1; i < m.subs.size() && !o.flatten; i++)
    {
        if (!m.subs[i] || m.subs[i]->connected() || !pr.chance(0.5)) continue;
        std::vector<LabSig> in, ou;
        for (auto& b : s.blk)
        {
            for (int g : b.in)
                if (b.parent == int(i) && (s.sig[g].prod < 0 || s.blk[s.sig[g].prod].parent != int(i)) && in.size() < 8 && pr.chance(0.6))
                    in.emplace_back(strf("i%d", int(in.size())), *m.sig[g]);
            for (int g : b.out)
                if (b.parent == int(i) && ou.size() < 8 && pr.chance(0.4)) ou.emplace_back(strf("o%d", int(ou.size())), *m.sig[g]);
        }
        m.subs[i]->connect(mk_bus(in), mk_bus(ou));
    }
    new_simulator(m, o);
    return mp;
}

bool do_run(Model& m, const Run& r)
{
    m.cur_run++;
    std::optional<CoutCapture> cc;
    if (m.o.capture_out) cc.emplace();
    std::string err;
    bool ok = true;
    m.probe.ev(Ev::RUN_BEGIN, m.cur_run, r.t);
    m.last_exc = nullptr;
    try
    {
        // arguments with their documented default values are left out
        if (r.init && r.t == 0) m.sim->init();
        else if (r.init) m.sim->init(r.t);
        else if (r.hmin == 1e-3 && r.hmax == 1) m.sim->run(r.t);
        else if (r.hmax == 1) m.sim->run(r.t, r.hmin);
        else m.sim->run(r.t, r.hmin, r.hmax);
    }
    catch (const std::exception& e)
    {
        ok         = false;
        err        = e.what();
        if (err.empty()) err = "(empty)";
        m.last_exc = std::current_exception();
    }
    catch (const OddFault&)
    {
        ok         = false;
        err        = "(odd)";
        m.last_exc = std::current_exception();
    }
    m.probe.ev(Ev::RUN_END, m.cur_run, r.t);
    m.ro.err.push_back(err);
    m.ro.out.push_back(cc ? cc->str() : "");
    Snap sn;
    sn.t   = r.t;
    sn.run = m.cur_run;
    m.read_all(sn.val);
    m.ro.after.push_back(std::move(sn));
    return ok;
}
RunOut& out(Model& m) { return m.ro; }
void reset_fault(Model& m, int at, int count)
{
    m.fault_at    = at;
    m.fault_count = count;
}
int last_fault(Model& m) { return m.faulted; }
int user_calls(Model& m) { return m.calls; }
std::vector<Vec> read_values(Model& m)
{
    std::vector<Vec> v;
    m.read_all(v);
    return v;
}
std::vector<bool> processed_flags(Model& m)
{
    std::vector<bool> r;
    for (auto& b : m.blk) r.push_back(b->processed());
    return r;
}
std::string block_full_name(Model& m, int b) { return m.blk[b]->full_name().str(); }
std::string sub_full_name(Model& m, int i) { return i == 0 || !m.subs[i] ? m.root->full_name().str() : m.subs[i]->full_name().str(); }
bool sub_processed(Model& m, int i) { return i == 0 || !m.subs[i] ? m.root->processed() : m.subs[i]->processed(); }
std::exception_ptr last_exception(Model& m) { return m.last_exc; }

RunOut run_spec(const Spec& s, const BuildOpt& o)
{
    ModelPtr m = build_model(s, o);
    for (std::size_t i = 0; i < s.runs.size(); i++)
    {
        auto& r = s.runs[i];
        if (o.between) o.between();
        if (i > 0 && r.init && o.new_sim_kind)
        {
            // a later init() goes to a new simulator (of any kind) for the same model
            BuildOpt q = o;
            q.sim      = o.new_sim_kind(int(i));
            new_simulator(*m, q);
        }
        if (!do_run(*m, r)) break;
    }
    return std::move(out(*m));
}
} // namespace vh
