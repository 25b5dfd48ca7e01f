#include "model_impl.hpp"
namespace vh
{
std::unique_ptr<Block> make_c(Model& m, int id, Submodel& parent, bool via)
{
    const BlkS& b = m.s.blk[id];
    Maker k{m, id, via ? nullptr : &parent, m.o.probe};
    Model* pm = &m;
    std::unique_ptr<Block> r;
    const bool A = b.ty == Ty::A;
    const BlkS* pb = &b;
    (void)pm; (void)pb; (void)A;
    auto src   = [pm, pb](double t) { pm->tick(); return pm->src_val(*pb, 0, t); };
    (void)src;
    switch (b.k)
    {
    case K::PIPE:
        r = A ? k.mk<PipeA>() : b.ty == Ty::I ? k.mk<PipeI>() : b.ty == Ty::B ? k.mk<PipeB>() : k.mk<Pipe>();
        break;
    case K::MEMORY:
        if (A) r = k.mk<MemoryA>(to_arr(b.pv));
        else if (b.ty == Ty::I) r = k.mk<MemoryI>(int(b.pv[0]));
        else if (b.ty == Ty::B) r = k.mk<MemoryB>(b.pv[0] != 0);
        else r = k.mk<Memory>(b.pv[0]);
        break;
    case K::DELAY: r = A ? k.mk<DelayA>(b.p) : k.mk<Delay>(b.p); break;
    case K::DERIV: r = A ? k.mk<DerivativeA>(to_arr(b.pv)) : k.mkd<Derivative>(b.pv[0], 0); break;
    case K::INITV: r = A ? k.mk<InitialValueA>() : k.mk<InitialValue>(); break;
    default: break;
    }
    return r;
}
} // namespace vh
