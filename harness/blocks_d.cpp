#include "model_impl.hpp"
namespace vh
{
std::unique_ptr<Block> make_d(Model& m, int id, Submodel& parent, bool via)
{
    const BlkS& b = m.s.blk[id];
    Maker k{m, id, via ? nullptr : &parent, m.o.probe};
    Model* pm = &m;
    std::unique_ptr<Block> r;
    const bool A = b.ty == Ty::A;
    const BlkS* pb = &b;
    (void)pm; (void)pb; (void)A;
    auto src   = [pm, pb](double t) { pm->tick(); return pm->src_val(*pb, 0, t); };
    (void)src;
    switch (b.k)
    {
    case K::INTEG:
        if (b.fn == 1) r = A ? k.mk<LimIntegratorT<Array>>(to_arr(b.pv), b.p) : k.mk<LimIntegratorT<double>>(b.pv[0], b.p);
        else r = A ? k.mk<IntegratorA>(to_arr(b.pv)) : k.mkd<Integrator>(b.pv[0], 0);
        break;
    case K::TRIG: r = A ? k.mk<TriggeredIntegratorA>(to_arr(b.pv)) : k.mkd<TriggeredIntegrator>(b.pv[0], 0); break;
    case K::ACCUM: r = A ? k.mk<AccumT<Array>>(to_arr(b.pv)) : k.mk<AccumT<double>>(b.pv[0]); break;
    case K::CLOCK: r = k.mk<Clock>(); break;
    case K::BUSPIPE:
        r = std::make_unique<BusPipe>(parent);
        r->rename(b.name);
        break;
    case K::BUSMEM:
    {
        std::vector<LabVal> l;
        for (std::size_t i = 0; i < b.out.size(); i++)
        {
            if (!b.has_init[i]) continue;
            const SigS& g = m.s.sig[b.out[i]];
            BusMemory::Value v = 0.0;
            if (g.ty == Ty::S) v = b.inits[i][0];
            else if (g.ty == Ty::I) v = int(b.inits[i][0]);
            else if (g.ty == Ty::B) v = b.inits[i][0] != 0;
            else v = to_arr(b.inits[i]);
            l.emplace_back(bus_path(b, int(i)), v);
        }
        r = with_lists([&](std::initializer_list<LabVal> a, std::initializer_list<std::string> e) -> std::unique_ptr<Block>
                       { return std::make_unique<BusMemory>(parent, a, e); }, l, {});
        r->rename(b.name);
        break;
    }
    default: break;
    }
    return r;
}
} // namespace vh
