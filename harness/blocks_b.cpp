#include "model_impl.hpp"
namespace vh
{
std::unique_ptr<Block> make_b(Model& m, int id, Submodel& parent, bool via)
{
    const BlkS& b = m.s.blk[id];
    Maker k{m, id, via ? nullptr : &parent, m.o.probe};
    Model* pm = &m;
    std::unique_ptr<Block> r;
    const bool A = b.ty == Ty::A;
    const BlkS* pb = &b;
    (void)pm; (void)pb; (void)A;
    auto src   = [pm, pb](double t) { pm->tick(); return pm->src_val(*pb, 0, t); };
    (void)src;
    switch (b.k)
    {
    case K::CONST: r = A ? k.mk<ConstA>(to_arr(b.pv)) : k.mk<Const>(b.pv[0]); break;
    case K::SOURCE:
        if (A) r = k.mk<SourceA>([src](double t) { return to_arr(src(t)); });
        else if (b.ty == Ty::I) r = k.mk<SourceI>([src](double t) { return int(src(t)[0]); });
        else r = k.mk<Source>([src](double t) { return src(t)[0]; });
        break;
    case K::SOURCES:
    {
        auto f = [pm, pb](const Bus& ob, double t)
        {
            pm->tick();
            for (std::size_t i = 0; i < pb->out.size(); i++) pm->assign(ob[i], pm->src_val(*pb, int(i), t));
        };
        r = k.mk<Sources>(f);
        break;
    }
    case K::SISO:
    {
        const int fn = b.fn;
        if (A)
            r = k.mk<SISOFunctionA>([pm, fn](double t, const Array& x) -> Array
            {
                pm->tick();
                Array y(x.size());
                for (int j = 0; j < x.size(); j++) y[j] = siso_fn(fn, t, x[j]);
                return y;
            });
        else
            r = k.mk<SISOFunction>([pm, fn](double t, double x) -> double
            {
                pm->tick();
                return siso_fn(fn, t, x);
            });
        break;
    }
    case K::SO:
    {
        const int n = b.n;
        if (A)
            r = k.mk<SOFunctionA>([pm, n](double t, const Bus& ib) -> Array
            {
                pm->tick();
                Array y(n);
                const double q = pm->wsum(ib) + 0.1 * t;
                for (int j = 0; j < n; j++) y[j] = func_out(q, Ty::A, 0, j);
                return y;
            });
        else
            r = k.mk<SOFunction>([pm](double t, const Bus& ib) -> double
            {
                pm->tick();
                return func_out(pm->wsum(ib) + 0.1 * t, Ty::S, 0, 0);
            });
        break;
    }
    case K::FUNC:
    {
        auto f = [pm, pb](double t, const Bus& ib, const Bus& ob)
        {
            pm->tick();
            const double q = pm->wsum(ib) + 0.1 * t;
            for (std::size_t o = 0; o < pb->out.size(); o++)
            {
                auto& g = pm->s.sig[pb->out[o]];
                Vec v(g.n);
                for (int j = 0; j < g.n; j++) v[j] = func_out(q, g.ty, int(o), j);
                pm->assign(ob[o], v);
            }
        };
        r = k.mk<Function>(f);
        break;
    }
    case K::USERBUS:
    {
        std::vector<std::string> ip, op;
        for (std::size_t i = 0; i < b.in.size(); i++) ip.push_back(bus_path(b, int(i)));
        for (std::size_t i = 0; i < b.out.size(); i++) op.push_back(bus_path(b, int(i)));
        auto f = [pm, pb](double t, const std::vector<Signal>& is, const std::vector<Signal>& os)
        {
            pm->tick();
            double q = 0;
            for (std::size_t k = 0; k < is.size(); k++)
            {
                Vec v = sig_vec(is[k]);
                for (std::size_t j = 0; j < v.size(); j++) q += wsum_weight(int(k), int(j)) * v[j];
            }
            q += 0.1 * t;
            for (std::size_t o = 0; o < os.size(); o++)
            {
                auto& g = pm->s.sig[pb->out[o]];
                Vec v(g.n);
                for (int j = 0; j < g.n; j++) v[j] = func_out(q, g.ty, int(o), j);
                pm->assign(os[o], v);
            }
        };
        r = k.mk<UserBus>(ip, op, f);
        break;
    }
    default: break;
    }
    return r;
}
} // namespace vh
