#include "model_impl.hpp"
namespace vh
{
std::unique_ptr<Block> make_a(Model& m, int id, Submodel& parent, bool via)
{
    const BlkS& b = m.s.blk[id];
    Maker k{m, id, via ? nullptr : &parent, m.o.probe};
    Model* pm = &m;
    std::unique_ptr<Block> r;
    const bool A = b.ty == Ty::A;
    const BlkS* pb = &b;
    (void)pm; (void)pb; (void)A;
    auto src   = [pm, pb](double t) { pm->tick(); return pm->src_val(*pb, 0, t); };
    (void)src;
    switch (b.k)
    {
    case K::ADD:
        if (A) r = k.mk<AddA>(to_arr(b.pv));
        else if (b.pv.empty() && via)
        {
            if (m.o.probe) r = std::make_unique<P<Add>>(&m.probe, id); else r = std::make_unique<Add>();
            r->rename(b.name);
        }
        else r = k.mk<Add>(b.pv.empty() ? 0.0 : b.pv[0]);
        break;
    case K::MUL:
        if (A) r = k.mk<MultiplyA>(to_arr(b.pv));
        else if (b.pv.empty() && via)
        {
            if (m.o.probe) r = std::make_unique<P<Multiply>>(&m.probe, id); else r = std::make_unique<Multiply>();
            r->rename(b.name);
        }
        else r = k.mk<Multiply>(b.pv.empty() ? 1.0 : b.pv[0]);
        break;
    case K::SUB: r = A ? k.mk<SubtractA>() : k.mk<Subtract>(); break;
    case K::DIV: r = A ? k.mk<DivideA>() : k.mk<Divide>(); break;
    case K::GAIN:
        r = A ? k.mk<GainA>(b.p) : b.ty == Ty::I ? k.mk<GainI>(int(b.p)) : k.mk<Gain>(b.p);
        break;
    default: break;
    }
    return r;
}
} // namespace vh
