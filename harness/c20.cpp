// Exceptions name the culprit and carry the active calls; the trace always unwinds.
#include "build.hpp"
#include "kinds.hpp"
#include <algorithm>

namespace vh
{
using namespace pooya;
const char* suite_property = "C20";
const char* suite_rule = "debug builds: (a) every refusal of signals, buses, connections (44 block kinds), bus memories, histories, simulators and clocks, provoked at random depths of submodels under random stacks of traced user calls, from outside and from inside callbacks of running simulations; the text must contain the names of the offending signals, blocks, labels or paths, and the traceback must list exactly the active traced user calls and blocks, innermost first, and end with the trace as it was before the call; (b) random diagrams with faults in user callbacks; after every call, returned or thrown, the trace must be what it was before; non-trivial: each distinct (error, context) and each faulty diagram";

#ifdef POOYA_DEBUG
namespace
{
std::string trace() { return pooya::helper::pooya_trace_info_string(); }

struct Entry
{
    std::string where, msg;
};
std::vector<Entry> parse_trace(const std::string& text)
{
    std::vector<Entry> v;
    const std::string head = "Pooya Traceback:\n";
    auto p = text.find(head);
    VH_CHECK(p != std::string::npos, "no traceback in: %s", text.substr(0, 600).c_str());
    std::istringstream is(text.substr(p + head.size()));
    std::string l;
    while (std::getline(is, l))
    {
        if (l.rfind("- ", 0) == 0) v.push_back({l.substr(2), ""});
        else if (!v.empty()) v.back().msg += l + "\n";
    }
    return v;
}
std::size_t depth() { return parse_trace(trace()).size(); }

bool has_word(const std::string& s, const std::string& w)
{
    auto wc = [](char ch) { return isalnum((unsigned char)ch) || ch == '_' || ch == '/' ; };
    for (std::size_t p = s.find(w); p != std::string::npos; p = s.find(w, p + 1))
    {
        const bool l = p == 0 || !wc(s[p - 1]) || s[p - 1] == '/';
        const bool r = p + w.size() >= s.size() || !wc(s[p + w.size()]);
        if (l && r) return true;
    }
    return false;
}

int g_tok = 0;
std::string token() { return strf("tok%dq", g_tok++); }

// what an exception must look like
struct Want
{
    std::vector<std::string> names;    // in the message
    std::vector<std::string> active;   // in the traceback, innermost first
    std::vector<std::string> anywhere; // in the message or the traceback
};

// runs f under a stack of traced user calls and checks what it throws
struct Tester
{
    Ctx& c;
    std::string base;
    std::vector<std::string> wheres; // where the traced user calls were entered or last updated
    void must_throw(const char* kind, int extra_depth, const std::function<void()>& f, const Want& w)
    {
        if (c.rng.chance(0.005)) extra_depth += c.rng.range(20, 80);
        const std::string before = trace();
        std::vector<std::string> toks;
        wheres.clear();
        bool threw = false;
        std::function<void(int)> rec = [&](int d)
        {
            if (d == 0)
            {
                const std::string inner = trace();
                try
                {
                    f();
                }
                catch (const std::exception& e)
                {
                    threw = true;
                    check(kind, e.what(), inner, toks, w);
                    VH_CHECK(trace() == inner, "%s: the trace after the exception is not the one before the call:\n%s\nbefore:\n%s", kind, trace().c_str(), inner.c_str());
                    throw;
                }
                return;
            }
            const std::string t = token();
            toks.insert(toks.begin(), t);
            const int how = c.rng.range(0, 3);
            if (how == 0)
            {
                // an entry is updated in place: new position and text
                pooya_trace("stale text");
                pooya_trace_update(t); wheres.insert(wheres.begin(), strf(":%d", __LINE__));
                rec(d - 1);
                VH_CHECK(false, "%s: returned", kind);
            }
            else if (how == 1)
            {
                // an update without a text keeps the text
                pooya_trace(t);
                pooya_trace_update0; wheres.insert(wheres.begin(), strf(":%d", __LINE__));
                rec(d - 1);
                VH_CHECK(false, "%s: returned", kind);
            }
            pooya_trace(t); wheres.insert(wheres.begin(), strf(":%d", __LINE__));
            rec(d - 1);
        };
        try
        {
            rec(extra_depth);
        }
        catch (const std::exception&)
        {
        }
        wheres.clear();
        VH_CHECK(threw, "%s: no exception", kind);
        VH_CHECK(trace() == before, "%s: the trace is not unwound:\n%s\nbefore:\n%s", kind, trace().c_str(), before.c_str());
        c.count(kind);
        c.count("exceptions examined");
        c.nontrivial(hash_str(kind, u64(extra_depth) * 97 + w.active.size()));
    }
    void check(const char* kind, const std::string& text, const std::string& inner, const std::vector<std::string>& toks, const Want& w)
    {
        VH_CHECK(text.find("Pooya Exception:") != std::string::npos, "%s: not an exception of the library: %s", kind, text.substr(0, 600).c_str());
        // by the message itself, not only somewhere in the traceback
        const std::string msg = text.substr(0, text.find("Pooya Traceback"));
        for (auto& n : w.names) VH_CHECK(has_word(msg, n), "%s: the exception does not name %s: %s", kind, n.c_str(), text.substr(0, 1500).c_str());
        for (auto& n : w.anywhere) VH_CHECK(has_word(text, n), "%s: neither the message nor the traceback names %s: %s", kind, n.c_str(), text.substr(0, 1500).c_str());
        // ends with the trace as it was before the call
        const auto e = parse_trace(text), b = parse_trace(inner);
        VH_CHECK(e.size() >= b.size(), "%s: the traceback is shorter than the trace at the call: %s", kind, text.substr(0, 1500).c_str());
        for (std::size_t i = 0; i < b.size(); i++)
        {
            const Entry &x = e[e.size() - b.size() + i], &y = b[i];
            VH_CHECK(x.where == y.where && x.msg == y.msg, "%s: the traceback does not end with the calls that were active: %s\ntrace at the call:\n%s", kind, text.substr(0, 2000).c_str(), inner.c_str());
        }
        // active calls in order, each exactly as often as it is active; no other token
        std::vector<std::string> want = w.active;
        want.insert(want.end(), toks.begin(), toks.end());
        std::size_t pos = 0;
        for (auto& n : want)
        {
            std::size_t k = pos;
            while (k < e.size() && !has_word(e[k].msg, n)) k++;
            VH_CHECK(k < e.size(), "%s: %s is not at its place in the traceback: %s", kind, n.c_str(), text.substr(0, 2000).c_str());
            const std::size_t wi = std::size_t(&n - want.data());
            if (wi >= w.active.size() && wheres.size() == toks.size())
            {
                const std::string at = "c20.cpp" + wheres[wi - w.active.size()];
                VH_CHECK(e[k].where.size() > at.size() && e[k].where.compare(e[k].where.size() - at.size(), at.size(), at) == 0, "%s: the entry of the call %s is at %s instead of %s", kind, n.c_str(), e[k].where.c_str(), at.c_str());
                VH_CHECK(e[k].msg.find("stale text") == std::string::npos, "%s: updated text still there", kind);
            }
            pos = k + (n.rfind("tok", 0) == 0);
        }
        std::size_t ntok = 0;
        for (auto& x : e)
            if (x.msg.find("tok") != std::string::npos && x.msg.find('q') != std::string::npos) ntok++;
        std::size_t wtok = 0;
        for (auto& n : want) wtok += n.rfind("tok", 0) == 0;
        VH_CHECK(ntok == wtok, "%s: %zu traced user calls in the traceback, %zu are active: %s", kind, ntok, wtok, text.substr(0, 2000).c_str());
        c.count("traceback entries examined", e.size());
    }
    // a call that must return must leave the trace alone
    template<class F>
    auto quiet(const char* kind, F f)
    {
        const std::string b = trace();
        struct G
        {
            const char* k;
            std::string b;
            Ctx& c;
        } g{kind, b, c};
        if constexpr (std::is_void_v<decltype(f())>)
        {
            f();
            VH_CHECK(trace() == b, "%s: the trace after the call is not the one before:\n%s", kind, trace().c_str());
            c.count("returned calls examined");
        }
        else
        {
            auto r = f();
            VH_CHECK(trace() == b, "%s: the trace after the call is not the one before:\n%s", kind, trace().c_str());
            c.count("returned calls examined");
            return r;
        }
    }
};

std::string uname(Rng& r, const char* p) { return strf("%s%dz%d", p, g_tok++, r.range(0, 99)); }

// a chain of nested submodels; names[0] is the root
struct Nest
{
    std::vector<std::unique_ptr<Submodel>> subs;
    Nest(Rng& r)
    {
        const int n = r.chance(0.005) ? r.range(10, 40) : r.range(1, 4);
        for (int i = 0; i < n; i++) subs.push_back(std::make_unique<Submodel>(i ? subs.back().get() : nullptr, uname(r, "m")));
    }
    Submodel& leafp() { return *subs.back(); }
    std::vector<std::string> chain() const // innermost first
    {
        std::vector<std::string> v;
        for (auto it = subs.rbegin(); it != subs.rend(); ++it) v.push_back((*it)->full_name().str());
        return v;
    }
};
std::vector<std::string> cat(std::vector<std::string> a, const std::vector<std::string>& b)
{
    a.insert(a.end(), b.begin(), b.end());
    return a;
}
Bus bus_of(const std::vector<Signal>& s) { return mk_bus_auto(s); }

void set_any(const Signal& s, int n)
{
    SignalImpl* p = &s.impl();
    if (auto* q = dynamic_cast<ScalarSignalImpl*>(p)) q->set_value(1);
    else if (auto* q = dynamic_cast<IntSignalImpl*>(p)) q->set_value(1);
    else if (auto* q = dynamic_cast<BoolSignalImpl*>(p)) q->set_value(true);
    else if (auto* q = dynamic_cast<ArraySignalImpl*>(p)) q->set_value(Array::Ones(n));
}

void signal_errors(Tester& T, Rng& r)
{
    const int d = r.range(0, 3);
    const std::string n1 = uname(r, "s"), n2 = uname(r, "s");
    const int ty = r.range(0, 3);
    Signal s = mk(Ty(ty), 3, n1);
    switch (r.range(0, 6))
    {
    case 0:
        T.must_throw("read of an unassigned signal", d, [&] { 
            SignalImpl* p = &s.impl();
            if (auto* q = dynamic_cast<ScalarSignalImpl*>(p)) (void)q->get_value();
            else if (auto* q = dynamic_cast<IntSignalImpl*>(p)) (void)q->get_value();
            else if (auto* q = dynamic_cast<BoolSignalImpl*>(p)) (void)q->get_value();
            else if (auto* q = dynamic_cast<ArraySignalImpl*>(p)) (void)q->get_value(); }, {{n1}, {}});
        break;
    case 1:
        T.quiet("assignment", [&] { set_any(s, 3); });
        T.must_throw("second assignment", d, [&] { set_any(s, 3); }, {{n1}, {}});
        break;
    case 2:
    {
        ArraySignal a(3, n1);
        T.must_throw("assignment of a wrong size", d, [&] { a = Array::Ones(r.chance(0.5) ? 2 : 4); }, {{n1}, {}});
        T.quiet("assignment", [&] { a = Array::Ones(3); });
        break;
    }
    case 3:
        T.must_throw("handle of another type", d, [&] {
            if (ty != S) ScalarSignal x(s.impl());
            else IntSignal x(s.impl()); }, {{n1}, {}});
        break;
    case 4:
    {
        ScalarSignal h(n2);
        IntSignal hi(n2);
        T.must_throw("handle redirected to another type", d, [&] {
            if (ty != S) h.reset(s);
            else hi.reset(s); }, {{n1}, {}});
        break;
    }
    case 5:
    {
        ArraySignal a(3, n1), b(2, n2);
        T.must_throw("derivative of another size", d, [&] { a->set_deriv_signal(b); }, {{n1, n2}, {}});
        break;
    }
    default:
    {
        const std::string lab = uname(r, "l"), bn = uname(r, "b");
        std::vector<LabSig> in{{lab, s}};
        Bus b({{lab, s}}, bn);
        const std::string miss = uname(r, "l");
        T.quiet("bus access", [&] { (void)b[0]; (void)b.at(lab); (void)b[lab]; });
        switch (r.range(0, 2))
        {
        case 0: T.must_throw("bus label that does not exist", d, [&] { (void)b.at(miss); }, {{miss}, {}}); break;
        case 1: T.must_throw("bus label that does not exist", d, [&] { (void)b[miss]; }, {{miss}, {}}); break;
        default:
        {
            Bus o({{"sub", b}}, uname(r, "b"));
            T.quiet("bus path access", [&] { (void)o.at("sub." + lab); });
            T.must_throw("bus path that does not exist", d, [&] { (void)o.at("sub." + miss); }, {{miss}, {}});
            T.quiet("non-throwing access", [&] { (void)o->try_at(miss); });
        }
        }
        if (r.chance(0.3)) T.must_throw("bus index out of range", d, [&] { (void)b[std::size_t(1 + r.range(0, 5))]; }, {{}, {}});
    }
    }
}

void connect_errors(Tester& T, Rng& r, u64 no)
{
    static const std::vector<Kind> ks = kinds();
    const Kind& k = ks[no % ks.size()];
    const int d = r.range(0, 3);
    Nest N(r);
    const std::string bn = uname(r, "b");
    const int how = r.range(0, 2); // connect, add_block with the parent given before, add_block of an orphan
    std::unique_ptr<Block> b = k.mk(how < 2 ? &N.leafp() : nullptr, bn);
    std::vector<In> in = k.in;
    std::vector<Ty> out = k.out;
    if (k.any_in) for (auto& i : in) i.ty = Ty(r.range(0, 3));
    if (k.any_out) for (auto& o : out) o = Ty(r.range(0, 3));
    Want w;
    const char* what = nullptr;
    int bad = -1, badout = -1;
    std::vector<int> opts;
    if (!k.in_free) opts.push_back(0);
    if (!k.out_free) opts.push_back(1);
    if (!k.any_in && !in.empty()) opts.push_back(2);
    if (!k.any_out) opts.push_back(3);
    opts.push_back(4);
    bool lab = false;
    for (auto& i : in) lab = lab || !i.label.empty();
    if (lab) opts.push_back(5);
    if (k.lax_min) opts.push_back(6);
    const int op = r.pick(opts);
    std::string gone;
    switch (op)
    {
    case 0: what = "wrong number of inputs"; in.push_back(In{S, lab ? "extra" : ""}); break;
    case 1: what = "wrong number of outputs"; out.push_back(out.empty() ? S : out[0]); break;
    case 2:
    {
        what = "input of a wrong type";
        bad  = r.range(0, int(in.size()) - 1);
        Ty o = in[bad].ty, n = o;
        while (n == o) n = Ty(r.range(0, 3));
        in[bad].ty = n;
        break;
    }
    case 3:
    {
        what   = "output of a wrong type";
        badout = r.range(0, int(out.size()) - 1);
        Ty o = out[badout], n = o;
        while (n == o) n = Ty(r.range(0, 3));
        out[badout] = n;
        break;
    }
    case 4: what = "second connection"; break;
    case 5:
    {
        what = "missing label";
        for (auto& i : in) if (!i.label.empty()) { gone = i.label; i.label = "other"; break; }
        break;
    }
    default: what = "no operands"; in.clear(); break;
    }
    std::vector<LabSig> li;
    std::vector<Signal> lo;
    for (std::size_t i = 0; i < in.size(); i++)
    {
        const std::string n = uname(r, "i");
        li.emplace_back(in[i].label.empty() ? strf("L%d", int(i)) : in[i].label, mk(in[i].ty, 3, n));
        if (int(i) == bad && !k.lax_types) w.names.push_back(n);
    }
    for (std::size_t i = 0; i < out.size(); i++)
    {
        const std::string n = uname(r, "o");
        lo.push_back(mk(out[i], 3, n));
        if (int(i) == badout) w.names.push_back(n);
    }
    if (!gone.empty()) w.names.push_back(gone);
    if ((op != 2 && op != 3) || (op == 2 && k.lax_types))
    {
        // the others name the signal
        (op == 5 ? w.anywhere : w.names).push_back(bn); // a missing label is named itself
        w.active = {bn};
    }
    Bus ib = mk_bus(li), ob = bus_of(lo);
    auto go = [&]() { if (how == 0) b->connect(ib, ob); else N.leafp().add_block(*b, ib, ob); };
    if (op == 4) T.quiet("connection", [&] { b->connect(ib, ob); });
    T.must_throw(what, d, go, w);
    T.c.count(k.name.c_str());
}

// a block whose output is already driven
void double_drive(Tester& T, Rng& r, u64 no)
{
    static const std::vector<Kind> ks = kinds();
    const Kind& k = ks[no % ks.size()];
    const int d = r.range(0, 2);
    if (k.name.rfind("Sources", 0) == 0 || k.name.rfind("Function", 0) == 0 || k.name.rfind("Submodel", 0) == 0) return signal_errors(T, r);
    Nest N(r);
    const std::string bn = uname(r, "b"), on = uname(r, "o");
    std::unique_ptr<Block> b = k.mk(&N.leafp(), bn);
    std::vector<LabSig> li;
    std::vector<Signal> ins;
    for (std::size_t i = 0; i < k.in.size(); i++)
    {
        Signal s = mk(k.any_in ? S : k.in[i].ty, 3, uname(r, "i"));
        ins.push_back(s);
        li.emplace_back(k.in[i].label.empty() ? strf("L%d", int(i)) : k.in[i].label, s);
    }
    Signal o = mk(k.out[0], 3, on);
    b->connect(mk_bus(li), bus_of({o}));
    Submodel& root = *N.subs[0];
    Sources feed([&](const Bus&, double) {}, &root, "feed");
    std::vector<Signal> all = ins;
    all.push_back(o);
    feed.connect(bus_of({}), bus_of(all));
    std::vector<std::string> active{b->full_name().str()};
    const int sk = r.range(0, 2);
    std::unique_ptr<SimulatorBase> sim;
    const std::string cb_tok = token();
    auto cb = [&](Block&, double) { for (auto& s : all) set_any(s, 3); };
    Rk4 rk;
    if (sk == 2) sim = std::make_unique<FastSimulator>(root, cb, &rk);
    else sim = std::make_unique<Simulator>(root, cb, &rk, sk == 1);
    CoutCapture cap;
    if (sk == 0 && k.out_req == false) active = cat(active, N.chain());
    T.must_throw("output driven twice", d, [&] { r.chance(0.5) ? sim->run(1.0) : sim->init(1.0); }, {k.out_req ? std::vector<std::string>{} : std::vector<std::string>{on}, active, {bn}});
    T.c.count(("driven twice: " + k.name).c_str());
}

// errors inside the user's callbacks and blocks while a simulation runs
struct UserLeaf : Leaf
{
    std::function<void(double)> act, pre, post;
    UserLeaf(Submodel* p, std::string_view n) : Leaf(p, n) {}
    void activation_function(double t) override { if (act) act(t); }
    void pre_step(double t) override { if (pre) pre(t); }
    void post_step(double t) override { if (post) post(t); }
};
void running_errors(Tester& T, Rng& r)
{
    const int d = r.range(0, 2);
    Nest N(r);
    Submodel& root = *N.subs[0];
    const int sk = r.range(0, 2);
    const std::string bad = uname(r, "s"), leafn = uname(r, "b");
    ScalarSignal x(uname(r, "x")), dx(uname(r, "x")), u(bad);
    Integrator I(0.5, &N.leafp(), "int");
    I.connect(bus_of({dx}), bus_of({x}));
    UserLeaf L(&N.leafp(), leafn);
    L.connect();
    const std::string tok = token();
    int when = r.range(1, 12), n = 0;
    bool armed = true;
    // the failing user code; it checks what it can see itself
    const int where = r.range(0, 5);
    auto boom = [&]()
    {
        if (!armed || ++n < when) return;
        n = -1000000;
        const std::string before = trace();
        const std::string seen_before = before;
        pooya_trace(tok);
        // caught inside: the trace must be intact
        const std::string in = trace();
        try { (void)u->get_value(); VH_CHECK(false, "read of an unassigned signal accepted"); }
        catch (const std::exception&) { VH_CHECK(trace() == in, "trace not unwound after an exception caught inside a callback"); }
        (void)u->get_value();
    };
    SISOFunction F([&](double, double) -> double { if (where == 1) boom(); return 1.0; }, &N.leafp(), "fun");
    F.connect(bus_of({x}), bus_of({dx}));
    L.act  = [&](double) { if (where == 2) boom(); };
    L.pre  = [&](double) { if (where == 3) boom(); };
    L.post = [&](double) { if (where == 4) boom(); };
    Rk4 rk4;
    Euler eu;
    Rkf45 rf;
    StepperBase* st = r.chance(0.3) ? static_cast<StepperBase*>(&eu) : r.chance(0.5) ? static_cast<StepperBase*>(&rk4) : &rf;
    auto cb = [&](Block&, double) { if (where == 0) boom(); };
    std::unique_ptr<SimulatorBase> sim;
    if (sk == 2) sim = std::make_unique<FastSimulator>(root, cb, st);
    else sim = std::make_unique<Simulator>(root, cb, st, sk == 1);
    History h;
    h.track(x);
    if (where == 5) when = 1;
    CoutCapture cap;
    Want w;
    w.names  = {bad};
    w.active = {tok};
    if (where == 1) w.active.push_back(F.full_name().str());
    else if (where == 2 && sk < 2) w.active.push_back(L.full_name().str());
    if ((where == 1 || where == 2) && sk == 0) w.active = cat(w.active, N.chain());
    // calls that return before the fault
    double t = 0;
    if (where == 5)
    {
        // inside a visitor
        T.must_throw("error inside a visitor", d, [&] { root.visit([&](Block&, uint32_t) -> bool { boom(); return true; }, 0); }, w);
        return;
    }
    int calls = 0;
    bool done = false;
    while (!done && calls++ < 40)
    {
        const std::string before = trace();
        std::string text;
        // only the call in which the fault happens is examined; it is found with a dry step counter
        std::vector<std::string> toks;
        bool threw = false;
        std::string inner;
        {
            const std::string t1 = token();
            pooya_trace(t1);
            toks  = {t1};
            inner = trace();
            try
            {
                sim->run(t, 1e-3, 0.05);
                h.update(uint32_t(calls - 1), t);
            }
            catch (const std::exception& e)
            {
                threw = true;
                text  = e.what();
            }
            VH_CHECK(trace() == inner, "the trace after run(%g) (%s) is not the one before:\n%s", t, threw ? "thrown" : "returned", trace().c_str());
        }
        VH_CHECK(trace() == before, "trace not unwound");
        if (threw)
        {
            T.check("error inside a running simulation", text, inner, toks, w);
            T.c.count("errors inside a running simulation");
            T.c.count(strf("errors inside callback kind %d", where).c_str());
            T.c.nontrivial(hash_u(u64(where), u64(sk * 1000 + when * 10 + int(N.subs.size()))));
            done = true;
        }
        t += 0.1;
    }
    VH_CHECK(done, "the fault never happened");
    // and afterwards everything works again
    armed = false;
    T.quiet("run after an error", [&] { sim->run(t, 1e-3, 0.05); });
    // going back in time, and a stepper that is missing
    if (r.chance(0.5)) T.must_throw("going back in time", d, [&] { sim->run(t - 0.5); }, {{strf("%d", int(t - 0.5))}, {}});
}

void simulator_errors(Tester& T, Rng& r)
{
    const int d = r.range(0, 2);
    Nest N(r);
    Submodel& root = *N.subs[0];
    const std::string bn = uname(r, "b"), sn = uname(r, "s");
    CoutCapture cap;
    switch (r.range(0, 4))
    {
    case 0: // memory whose input nobody drives
    {
        ScalarSignal a(sn), b(uname(r, "s"));
        Memory m(0.0, &N.leafp(), bn);
        m.connect(bus_of({a}), bus_of({b}));
        Simulator sim(root, nullptr, nullptr, r.chance(0.5));
        const std::string full = m.full_name().str();
        T.must_throw("memory without an input value", d, [&] { sim.run(0); }, {{sn}, cat({full}, N.chain()), {bn}});
        break;
    }
    case 1: // bus memory with a path that does not exist
    {
        ScalarSignal a(uname(r, "s")), b(uname(r, "s"));
        const std::string path = uname(r, "p");
        BusMemory m(N.leafp(), {{path, 1.0}});
        Bus ib({{"x", a}}, "ib"), ob({{"x", b}}, "ob");
        const std::string full = m.full_name().str();
        T.must_throw("initial value for a path that does not exist", d, [&] { m.connect(ib, ob); }, {{path}, {full}});
        break;
    }
    case 2: // algebraic loop with the fast simulator
    {
        ScalarSignal a(uname(r, "s")), b(uname(r, "s"));
        Gain g1(1.0, &N.leafp(), bn), g2(2.0, &N.leafp(), uname(r, "b"));
        g1.connect(bus_of({a}), bus_of({b}));
        g2.connect(bus_of({b}), bus_of({a}));
        FastSimulator sim(root, nullptr, nullptr);
        T.must_throw("algebraic loop with the fast simulator", d, [&] { sim.init(0); }, {{}, {}});
        Simulator sim2(root, nullptr, nullptr, r.chance(0.5));
        T.quiet("algebraic loop with the plain simulator", [&] { sim2.run(0); });
        break;
    }
    case 3: // integrator whose slope is unknown
    {
        ScalarSignal x(uname(r, "x")), dx(sn);
        Integrator I(0.5, &N.leafp(), bn);
        I.connect(bus_of({dx}), bus_of({x}));
        Rk4 rk;
        Simulator sim(root, nullptr, &rk, r.chance(0.5));
        T.quiet("initialization", [&] { sim.init(0); });
        T.must_throw("slope that nobody computes", d, [&] { sim.run(1); }, {{sn}, {}});
        break;
    }
    default: // delay evaluated twice at the same time
    {
        ScalarSignal a(uname(r, "s")), q(uname(r, "s")), i(uname(r, "s")), o(uname(r, "s"));
        Delay dl(10.0, &N.leafp(), bn);
        dl.connect(Bus({{"in", a}, {"delay", q}, {"initial", i}}), bus_of({o}));
        auto cb = [&](Block&, double) { a = 1; q = 0.5; i = 2; };
        Simulator sim(root, cb, nullptr, r.chance(0.5));
        T.quiet("initialization", [&] { sim.init(0); });
        const std::string full = dl.full_name().str();
        T.must_throw("delay at a repeated time", d, [&] { sim.run(0); }, {{}, cat({full}, N.chain()), {bn}});
        break;
    }
    }
}

void spec_balance(Ctx& c)
{
    Rng& r = c.rng;
    GenOpt g;
    g.max_blocks = 8;
    g.max_runs   = 5;
    if (r.chance(0.5)) g.focus = {K(c.caseno % u64(K::COUNT_))};
    Spec s = generate(r, g);
    BuildOpt o;
    o.sim    = Sim(r.range(0, 2));
    o.events = o.snaps = false;
    o.probe  = r.chance(0.5);
    if (r.chance(0.6))
    {
        o.fault_at    = r.range(0, r.chance(0.5) ? 10 : 200);
        o.fault_count = r.range(1, 3);
        o.fault_kind  = r.range(0, 2);
    }
    c.desc = strf("%s fault %d: ", sim_name[int(o.sim)], o.fault_at) + s.str();
    const std::string base = trace();
    {
        const std::string t = token();
        pooya_trace(t);
        const std::string in = trace();
        ModelPtr m = build_model(s, o);
        VH_CHECK(trace() == in, "building a model left calls in the trace:\n%s", trace().c_str());
        for (auto& q : s.runs)
            for (int k = 0; k < 4; k++)
            {
                const bool ok = do_run(*m, q);
                VH_CHECK(trace() == in, "after a call that %s the trace is not the one before:\n%s", ok ? "returned" : "threw", trace().c_str());
                c.count(ok ? "returned calls examined" : "calls left by user exceptions");
                if (!ok) c.nontrivial(hash_u(s.hash(), u64(o.fault_at)));
                if (ok) break;
            }
        m.reset();
        VH_CHECK(trace() == in, "destroying a model left calls in the trace");
    }
    VH_CHECK(trace() == base, "trace not unwound");
}
} // namespace
#endif

void suite_case(Ctx& c)
{
#ifdef POOYA_DEBUG
    Tester T{c, ""};
    VH_CHECK(c.caseno > 100000000 || true, " ");
    const std::string b = trace();
    const int m = c.rng.range(0, 9);
    c.desc = strf("mode %d", m);
    if (m <= 1) signal_errors(T, c.rng);
    else if (m <= 3) connect_errors(T, c.rng, c.caseno);
    else if (m == 4) double_drive(T, c.rng, c.caseno);
    else if (m <= 6) running_errors(T, c.rng);
    else if (m == 7) simulator_errors(T, c.rng);
    else spec_balance(c);
    VH_CHECK(trace() == b, "the trace is not unwound at the end of the case:\n%s", trace().c_str());
#endif
}
} // namespace vh
