#include "pooya_all.hpp"
#include "core.hpp"
#include <limits>
using namespace pooya;
namespace vh
{
bool debug_build()
{
#ifdef POOYA_DEBUG
    return true;
#else
    return false;
#endif
}
const char* suite_property = "C05";
const char* suite_rule = "random sequences of operations on scalar, int, bool, array and bus signals through generic and typed, aliased and redirected handles (assign, read, clear, copy, construct, reset; right and wrong types and lengths; extreme values); after every operation every signal's assigned state and exact value and every handle's target are compared with a model; non-trivial: at least 5 successful assignments and 3 refused operations, counted by distinct operation sequence";
using HV = std::variant<Signal, ScalarSignal, IntSignal, BoolSignal, ArraySignal, Bus>;
struct Obj // model of one signal
{
    int ty; // 1 scalar 2 int 3 bool 4 array 5 bus
    std::size_t n = 1;
    bool assigned = false;
    double d = 0;
    int i = 0;
    bool b = false;
    std::vector<double> a;
    const Array* ref = nullptr; // a reference that was read earlier
    std::shared_ptr<SignalImpl> impl;
    std::string name;
};
struct Handle
{
    std::unique_ptr<HV> h;
    int obj;
};
static bool bits(double a, double b) { return memcmp(&a, &b, 8) == 0 || (std::isnan(a) && std::isnan(b)); }
struct T
{
    Ctx& c;
    Rng& r;
    std::vector<Obj> obj;
    std::vector<Handle> hs;
    u64 ok = 0, refused = 0, h = 1;
    std::string log;
    explicit T(Ctx& cc) : c(cc), r(cc.rng) {}
    SignalImpl* target(const Handle& x) { return std::visit([](auto& s) -> SignalImpl* { return &s.impl(); }, *x.h); }
    double rd()
    {
        static const double sp[] = {0.0, -0.0, 1.0, -1.0, 1e308, -1e308, 5e-324, 1e-300, INFINITY, -INFINITY, NAN, 0.1, 4503599627370497.5};
        return r.chance(0.4) ? sp[r.range(0, 12)] : r.uni(-1e6, 1e6);
    }
    int ri()
    {
        static const int sp[] = {0, 1, -1, INT32_MAX, INT32_MIN, 255, 65536};
        return r.chance(0.5) ? sp[r.range(0, 6)] : int(r.next());
    }
    void note(const std::string& s)
    {
        h = hash_str(s, h);
        if (log.size() < 1500) log += s + "; ";
    }
    int new_obj()
    {
        Obj o;
        o.ty   = r.range(1, r.chance(0.2) ? 5 : 4);
        o.name = r.chance(0.2) ? "" : strf("x%d", int(obj.size()));
        Handle x;
        x.obj = int(obj.size());
        if (o.ty == 1) x.h.reset(new HV(std::in_place_type<ScalarSignal>, o.name));
        else if (o.ty == 2) x.h.reset(new HV(std::in_place_type<IntSignal>, o.name));
        else if (o.ty == 3) x.h.reset(new HV(std::in_place_type<BoolSignal>, o.name));
        else if (o.ty == 4)
        {
            o.n = r.chance(0.1) ? 0 : r.chance(0.1) ? 40 : r.chance(0.002) ? r.range(41, 1500) : r.range(1, 6);
            x.h.reset(new HV(std::in_place_type<ArraySignal>, o.n, o.name));
        }
        else x.h.reset(new HV(std::in_place_type<Bus>, std::initializer_list<Signal>{}, o.name));
        o.impl = target(x)->shared_from_this();
        obj.push_back(o);
        hs.push_back(std::move(x));
        note(strf("new %s%d", o.ty == 1 ? "S" : o.ty == 2 ? "I" : o.ty == 3 ? "B" : o.ty == 4 ? "A" : "Bus", int(o.n)));
        return int(obj.size()) - 1;
    }
    template<class F>
    bool throws(F f)
    {
        try
        {
            f();
        }
        catch (const std::exception& e)
        {
            VH_CHECK(e.what() && *e.what(), "exception without a message after: %s", log.c_str());
            return true;
        }
        return false;
    }
    // compares everything with the model
    void verify()
    {
        for (std::size_t k = 0; k < hs.size(); k++)
        {
            Obj& o = obj[hs[k].obj];
            VH_CHECK(target(hs[k]) == o.impl.get(), "handle %d refers to another signal after: %s", int(k), log.c_str());
            std::visit([&](auto& s)
            {
                VH_CHECK(s.operator->() == static_cast<void*>(nullptr) || true, "x");
                const Signal& g = s;
                VH_CHECK(&g.impl() == o.impl.get() && g.operator->() == o.impl.get() && &*g == o.impl.get(), "the untyped view of handle %d refers to another signal after: %s", int(k), log.c_str());
            }, *hs[k].h);
        }
        for (auto& o : obj)
        {
            auto* v = dynamic_cast<ValueSignalImpl*>(o.impl.get());
            VH_CHECK(bool(v) == (o.ty != 5), "signal changed its kind");
            VH_CHECK(o.impl->name().str() == o.name, "signal %s is now named %s after: %s", o.name.c_str(), o.impl->name().str().c_str(), log.c_str());
            if (!v) continue;
            VH_CHECK(v->assigned() == o.assigned, "signal %s: assigned() is %d, expected %d after: %s", o.name.c_str(), v->assigned(), o.assigned, log.c_str());
            if (!o.assigned) continue;
            check_value(o);
        }
    }
    void check_value(Obj& o)
    {
        if (o.ty == 1)
        {
            double x = dynamic_cast<ScalarSignalImpl&>(*o.impl).get_value();
            VH_CHECK(bits(x, o.d), "scalar %s reads %.17g instead of %.17g after: %s", o.name.c_str(), x, o.d, log.c_str());
        }
        else if (o.ty == 2)
        {
            int x = dynamic_cast<IntSignalImpl&>(*o.impl).get_value();
            VH_CHECK(x == o.i, "int %s reads %d instead of %d after: %s", o.name.c_str(), x, o.i, log.c_str());
        }
        else if (o.ty == 3)
        {
            bool x = dynamic_cast<BoolSignalImpl&>(*o.impl).get_value();
            VH_CHECK(x == o.b, "bool %s reads %d instead of %d after: %s", o.name.c_str(), x, o.b, log.c_str());
        }
        else
        {
            auto& q        = dynamic_cast<ArraySignalImpl&>(*o.impl);
            const Array& x = q.get_value();
            VH_CHECK(std::size_t(x.size()) == o.n && q.size() == o.n, "array %s has %d components instead of %d after: %s", o.name.c_str(), int(x.size()), int(o.n), log.c_str());
            for (std::size_t j = 0; j < o.n; j++)
                VH_CHECK(bits(x[j], o.a[j]) && bits(q.get_value(j), o.a[j]), "array %s[%d] reads %.17g instead of %.17g after: %s", o.name.c_str(), int(j), x[j], o.a[j], log.c_str());
        }
    }
    // reads through a handle: every reading operator of the typed handles
    void read(int k)
    {
        Obj& o = obj[hs[k].obj];
        if (o.ty == 5) return;
        if (!o.assigned && !debug_build()) return;
        note(strf("read %d", k));
        HV& hv  = *hs[k].h;
        bool th = throws([&]
        {
            if (auto* s = std::get_if<ScalarSignal>(&hv))
            {
                double x = *s;
                VH_CHECK(bits(x, o.d) && bits((*s)->get_value(), o.d), "handle of scalar %s reads %.17g instead of %.17g after: %s", o.name.c_str(), x, o.d, log.c_str());
            }
            else if (auto* s = std::get_if<IntSignal>(&hv))
            {
                int x = *s;
                VH_CHECK(x == o.i && s->operator double() == double(o.i), "handle of int %s reads %d instead of %d after: %s", o.name.c_str(), x, o.i, log.c_str());
            }
            else if (auto* s = std::get_if<BoolSignal>(&hv))
            {
                bool x = *s;
                VH_CHECK(x == o.b, "handle of bool %s reads %d instead of %d after: %s", o.name.c_str(), x, o.b, log.c_str());
            }
            else if (auto* s = std::get_if<ArraySignal>(&hv))
            {
                const Array& x = *s;
                VH_CHECK(std::size_t(x.size()) == o.n, "handle of array %s: %d components", o.name.c_str(), int(x.size()));
                o.ref = &x;
                for (std::size_t j = 0; j < o.n; j++)
                    VH_CHECK(bits(x[j], o.a[j]) && bits((*s)[j], o.a[j]), "handle of array %s[%d] reads %.17g instead of %.17g after: %s", o.name.c_str(), int(j), x[j], o.a[j], log.c_str());
            }
            else
            {
                auto v = sig_vec(std::get<Signal>(hv)); // does not read if unassigned
                if (!o.assigned)
                {
                    if (o.ty == 1) (void)dynamic_cast<ScalarSignalImpl&>(*o.impl).get_value();
                    if (o.ty == 2) (void)dynamic_cast<IntSignalImpl&>(*o.impl).get_value();
                    if (o.ty == 3) (void)dynamic_cast<BoolSignalImpl&>(*o.impl).get_value();
                    if (o.ty == 4) (void)dynamic_cast<ArraySignalImpl&>(*o.impl).get_value();
                }
            }
        });
        VH_CHECK(th == !o.assigned, "reading %s signal %s %s after: %s", o.assigned ? "an assigned" : "an unassigned", o.name.c_str(), th ? "threw" : "did not throw", log.c_str());
        refused += th;
    }
    void assign(int k)
    {
        Obj& o = obj[hs[k].obj];
        if (o.ty == 5) return;
        if (o.assigned && !debug_build()) return;
        HV& hv   = *hs[k].h;
        bool exp = o.assigned;
        Obj nv   = o;
        nv.assigned = true;
        const int how = r.range(0, 2); // operator=, impl, signal to signal
        bool th;
        note(strf("assign %d via %d", k, how));
        if (o.ty == 4)
        {
            std::size_t n = o.n;
            if (debug_build() && r.chance(0.3)) n = r.range(0, 7);
            exp = exp || n != o.n;
            Array own(n);
            const Array* px = &own;
            for (std::size_t j = 0; j < n; j++) own[j] = rd();
            // the value may also be a reference that was read from a signal before, even from this one
            if (r.chance(0.2))
            {
                const Obj& from = r.chance(0.5) ? o : obj[r.range(0, int(obj.size()) - 1)];
                if (from.ref && std::size_t(from.ref->size()) == n) px = from.ref, c.count("assignments of a value read earlier"), note("(value read earlier)");
            }
            const Array& x = *px;
            nv.a.assign(x.data(), x.data() + n);
            th = throws([&]
            {
                auto* s = std::get_if<ArraySignal>(&hv);
                if (s && how == 0) *s = x;
                else if (s && how == 2)
                {
                    ArraySignal tmp(n);
                    tmp = x;
                    *s  = tmp;
                }
                else dynamic_cast<ArraySignalImpl&>(*o.impl).set_value(x);
            });
        }
        else if (o.ty == 1)
        {
            double x = nv.d = rd();
            th       = throws([&]
            {
                auto* s = std::get_if<ScalarSignal>(&hv);
                if (s && how == 0) *s = x;
                else if (s && how == 2) { ScalarSignal tmp("tmp"); tmp = x; *s = tmp; }
                else dynamic_cast<ScalarSignalImpl&>(*o.impl).set_value(x);
            });
        }
        else if (o.ty == 2)
        {
            int x = nv.i = ri();
            th    = throws([&]
            {
                auto* s = std::get_if<IntSignal>(&hv);
                if (s && how == 0) *s = x;
                else if (s && how == 2) { IntSignal tmp("tmp"); tmp = x; *s = tmp; }
                else dynamic_cast<IntSignalImpl&>(*o.impl).set_value(x);
            });
        }
        else
        {
            bool x = nv.b = r.chance(0.5);
            th     = throws([&]
            {
                auto* s = std::get_if<BoolSignal>(&hv);
                if (s && how == 0) *s = x;
                else if (s && how == 2) { BoolSignal tmp("tmp"); tmp = x; *s = tmp; }
                else dynamic_cast<BoolSignalImpl&>(*o.impl).set_value(x);
            });
        }
        VH_CHECK(th == exp, "assigning %s signal %s%s %s after: %s", o.assigned ? "an assigned" : "an unassigned", o.name.c_str(), exp && !o.assigned ? " with a wrong length" : "", th ? "threw" : "did not throw", log.c_str());
        if (!th) o = nv, ok++;
        refused += th;
    }
    template<class S>
    void construct(int k, int ty)
    {
        Obj& o   = obj[hs[k].obj];
        bool exp = o.ty != ty;
        Handle x;
        x.obj = hs[k].obj;
        const bool via_impl = r.chance(0.5);
        bool th = throws([&]
        {
            Signal g(*o.impl);
            if (via_impl) x.h.reset(new HV(std::in_place_type<S>, *o.impl));
            else x.h.reset(new HV(std::in_place_type<S>, g));
        });
        VH_CHECK(th == exp, "making a handle of type %d for signal of type %d %s after: %s", ty, o.ty, th ? "threw" : "did not throw", log.c_str());
        refused += th;
        if (!th) hs.push_back(std::move(x));
    }
    template<class S>
    bool try_copy(int k)
    {
        auto* s = std::get_if<S>(hs[k].h.get());
        if (!s) return false;
        Handle x;
        x.obj = hs[k].obj;
        x.h.reset(new HV(std::in_place_type<S>, static_cast<const S&>(*s)));
        hs.push_back(std::move(x));
        return true;
    }
    template<class S>
    bool try_reset(int k, int ty, int to)
    {
        auto* s = std::get_if<S>(hs[k].h.get());
        if (!s) return false;
        bool exp = obj[to].ty != ty;
        bool th  = throws([&] { s->reset(Signal(*obj[to].impl)); });
        VH_CHECK(th == exp, "redirecting a handle of type %d to a signal of type %d %s after: %s", ty, obj[to].ty, th ? "threw" : "did not throw", log.c_str());
        refused += th;
        if (!th) hs[k].obj = to;
        return true;
    }
    void go()
    {
        for (int i = r.range(2, 5); i > 0; i--) new_obj();
        const int nops = r.range(10, 90);
        for (int i = 0; i < nops; i++)
        {
            int k = r.range(0, int(hs.size()) - 1);
            switch (r.range(0, 11))
            {
            case 0: case 1: case 2: assign(k); break;
            case 3: case 4: read(k); break;
            case 5: case 6:
            {
                Obj& o = obj[hs[k].obj];
                if (o.ty == 5) break;
                note(strf("clear %d", k));
                if (auto* s = std::get_if<ScalarSignal>(hs[k].h.get())) (*s)->clear();
                else dynamic_cast<ValueSignalImpl&>(*o.impl).clear();
                o.assigned = false;
                break;
            }
            case 7: case 8:
            {
                int ty = r.chance(0.5) ? obj[hs[k].obj].ty : r.range(1, 5);
                if (r.chance(0.15))
                {
                    note(strf("untyped handle of %d", k));
                    Handle x;
                    x.obj = hs[k].obj;
                    if (r.chance(0.5)) x.h.reset(new HV(std::in_place_type<Signal>, *obj[x.obj].impl));
                    else std::visit([&](auto& s) { x.h.reset(new HV(std::in_place_type<Signal>, static_cast<const Signal&>(s))); }, *hs[k].h);
                    hs.push_back(std::move(x));
                    break;
                }
                note(strf("typed handle %d of %d", ty, k));
                if (ty == 1) construct<ScalarSignal>(k, 1);
                else if (ty == 2) construct<IntSignal>(k, 2);
                else if (ty == 3) construct<BoolSignal>(k, 3);
                else if (ty == 4) construct<ArraySignal>(k, 4);
                else construct<Bus>(k, 5);
                break;
            }
            case 9:
                note(strf("copy %d", k));
                (void)(try_copy<ScalarSignal>(k) || try_copy<IntSignal>(k) || try_copy<BoolSignal>(k) || try_copy<ArraySignal>(k) || try_copy<Signal>(k) || try_copy<Bus>(k));
                break;
            case 10:
            {
                int to = r.range(0, int(obj.size()) - 1);
                if (r.chance(0.4))
                    for (std::size_t q = 0; q < obj.size(); q++)
                        if (obj[q].ty == obj[hs[k].obj].ty && int(q) != hs[k].obj) to = int(q);
                note(strf("reset %d to x%d", k, to));
                if (auto* g = std::get_if<Signal>(hs[k].h.get())) // an untyped handle may refer to any signal
                {
                    if (r.chance(0.5)) *g = static_cast<const Signal&>(Signal(*obj[to].impl));
                    else *g = Signal(*obj[to].impl);
                    hs[k].obj = to;
                    break;
                }
                (void)(try_reset<ScalarSignal>(k, 1, to) || try_reset<IntSignal>(k, 2, to) || try_reset<BoolSignal>(k, 3, to) || try_reset<ArraySignal>(k, 4, to) || try_reset<Bus>(k, 5, to));
                break;
            }
            default:
                if (hs.size() > 3 && r.chance(0.7))
                {
                    note(strf("drop %d", k));
                    hs.erase(hs.begin() + k);
                }
                else if (obj.size() < 8) new_obj();
            }
            verify();
        }
    }
};
void suite_case(Ctx& c)
{
    T t(c);
    c.desc = "(setup)";
    try
    {
        t.go();
    }
    catch (...)
    {
        c.desc = t.log;
        throw;
    }
    c.desc = t.log;
    c.count("successful assignments", t.ok);
    c.count("refused operations", t.refused);
    if (t.ok >= 5 && (t.refused >= 3 || (!debug_build() && t.refused))) c.nontrivial(t.h);
}
} // namespace vh
