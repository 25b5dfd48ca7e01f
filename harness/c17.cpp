// The connection contract of every block kind: valid and minimally invalid connections.
#include "core.hpp"
#include "kinds.hpp"
#include <algorithm>

namespace vh
{
bool debug_build()
{
#ifdef POOYA_DEBUG
    return true;
#else
    return false;
#endif
}
const char* suite_property = "C17";
const char* suite_rule = "for each of 44 block kinds: a valid pair of buses, or one mutated in exactly one respect (one input/output more or less, one signal of another type, a label missing or renamed, array sizes of state and derivative different); the attempts are made in random order (port-count rejections, then a valid or otherwise invalid connection, then further attempts), directly or with add_block; each must be refused or accepted as the contract says, rejections for port counts must leave the block unconnected, later attempts must be refused without effect, and after a valid one ibus, obus, links and required flags are compared with the given signals; and user-defined blocks that look up their ports by index, label and path in nested buses: signal and link flags after every look-up; non-trivial: each distinct (kind, program)";
using namespace pooya;
namespace
{
enum Mut { VALID, LESS_IN, MORE_IN, LESS_OUT, MORE_OUT, TYPE_IN, TYPE_OUT, LABEL, SIZE, NMUT };
const char* const mname[] = {"valid", "an input less", "an input more", "an output less", "an output more", "wrong input type", "wrong output type", "label missing", "sizes differ"};
struct Conf
{
    std::vector<LabSig> in, out;
    std::vector<Ty> tin, tout;
    bool lab_in = false;
};
int uid = 0;
// a user's block that finds its ports itself: by index, label or path
class PortBlock : public Leaf
{
public:
    PortBlock(Submodel* p, const std::string& n) : Leaf(p, n) {}
};
struct Port
{
    bool out;
    int top;           // index in the bus of the block
    std::string path;  // label path from the bus of the block
    Signal sig;
    Ty ty;
};
// fills a bus with up to n signals and sub-buses; every signal and sub-bus is listed in ports
Bus port_bus(Rng& r, int depth, bool out, int top, const std::string& pre, std::vector<Port>& ports, const std::string& name)
{
    std::vector<LabSig> l;
    const int n = r.range(depth ? 1 : 0, 4);
    for (int i = 0; i < n; i++)
    {
        static const char* stem[] = {"a", "b", "sig", "x1", "trigger"};
        const std::string lab = strf("%s_%d", stem[r.range(0, 4)], i), path = pre.empty() ? lab : pre + "." + lab;
        const int t           = top < 0 ? i : top;
        if (depth < 3 && r.chance(0.3))
        {
            Bus b = port_bus(r, depth + 1, out, t, path, ports, strf("bus%d", uid++));
            l.emplace_back(lab, b);
            ports.push_back({out, top < 0 ? i : -1, path, b, BUS});
        }
        else
        {
            Ty ty = Ty(r.range(0, 3));
            Signal s(mk(ty, N, r.chance(0.7) ? strf("p%d", uid++) : ""));
            for (auto& q : ports)
                if (q.ty == ty && r.chance(0.06)) s = q.sig; // the same signal at two places
            l.emplace_back(lab, s);
            ports.push_back({out, top < 0 ? i : -1, path, s, ty});
        }
    }
    return mk_bus(l, name);
}
void user_ports(Ctx& c)
{
    Rng& r = c.rng;
    Submodel parent(nullptr, "parent");
    std::vector<Port> ports;
    Bus ib = port_bus(r, 0, false, -1, "", ports, "ib"), ob = port_bus(r, 0, true, -1, "", ports, "ob");
    std::unique_ptr<PortBlock> bp(r.chance(0.5) ? new PortBlock(&parent, "user") : new PortBlock(nullptr, "user"));
    PortBlock& b = *bp;
    std::string& d = c.desc;
    d = "user-defined block:";
    std::map<SignalImpl*, uint32_t> want;
    auto links = [&]
    {
        std::map<SignalImpl*, uint32_t> got;
        for (auto& l : b.linked_signals())
        {
            VH_CHECK(!got.count(l.first.get()), "signal %s is linked twice", l.first->name().str().c_str());
            got[l.first.get()] = l.second;
        }
        for (auto& w : want)
        {
            auto it = got.find(w.first);
            VH_CHECK(it != got.end(), "signal %s is not linked", w.first->name().str().c_str());
            VH_CHECK(it->second == w.second, "signal %s is linked as %u instead of %u", w.first->name().str().c_str(), it->second, w.second);
            c.count("links compared");
        }
        VH_CHECK(got.size() == want.size(), "%zu signals linked instead of %zu", got.size(), want.size());
    };
    links();
    static_assert((uint32_t(Block::Input) & uint32_t(Block::Output)) == 0 && (uint32_t(Block::Required) & uint32_t(Block::Input | Block::Output)) == 0, "the kinds of links must be distinguishable");
    b.connect(ib, ob);
    for (auto& p : ports) // signals directly in the buses are linked by the connection itself
        if (p.top >= 0 && p.ty != BUS) want[&p.sig.impl()] |= p.out ? uint32_t(Block::Output) : uint32_t(Block::Input | Block::Required);
    VH_CHECK(&b.ibus().impl() == &ib.impl() && &b.obus().impl() == &ob.impl(), "the buses of the block are not the ones it was connected with");
    links();
    for (int i = r.range(1, 10); i > 0; i--)
    {
        if (ports.empty() || r.chance(0.15))
        {
            // no such port: refused, nothing is linked
            const bool out = r.chance(0.5);
            static const char* no[] = {"nothing", "a_9", "", ".", "a_0.", ".a_0", "a_0.zz", "sig0"};
            std::string l = no[r.range(0, 7)];
            bool present  = false;
            for (auto& p : ports) present = present || (p.out == out && p.path == l);
            if (present) continue;
            const bool by_index = r.chance(0.3);
            d += strf(" [no port '%s']", l.c_str());
            bool th = false;
            try
            {
                if (by_index) (void)(out ? b.output(b.obus().size() + r.range(0, 2)) : b.input(b.ibus().size() + r.range(0, 2)));
                else if (out) (void)b.output<std::string>(l);
                else (void)b.input<std::string>(l);
            }
            catch (const std::exception&)
            {
                th = true;
            }
            VH_CHECK(th, "%s %s was found", out ? "output" : "input", by_index ? "with an index beyond the bus" : l.c_str());
            links();
            continue;
        }
        Port& p = ports[r.range(0, int(ports.size()) - 1)];
        const bool idx = p.top >= 0 && r.chance(0.3);
        const int how  = r.range(0, 4);
        d += strf(" [%s %s by %s, %d]", p.out ? "output" : "input", p.path.c_str(), idx ? "index" : "path", how);
        uint32_t types = 0;
        SignalImpl* got = nullptr;
        if (how <= 2)
        {
            types = p.out ? uint32_t(Block::Output) : uint32_t(Block::Input | Block::Required);
            if (p.out) got = idx ? &b.output(std::size_t(p.top)).impl() : how == 1 ? &b.output<const char*>(p.path.c_str()).impl() : &b.output<std::string>(p.path).impl();
            else got = idx ? &b.input(std::size_t(p.top)).impl() : how == 1 ? &b.input<const char*>(p.path.c_str()).impl() : &b.input<std::string_view>(p.path).impl();
        }
        else
        {
            std::optional<uint32_t> t;
            if (how == 4) t = types = r.range(1, 15);
            const Bus& bus = p.out ? b.obus() : b.ibus();
            got            = idx ? &b.io_at(bus, std::size_t(p.top), t).impl() : &b.io_at(bus, p.path, t).impl();
        }
        VH_CHECK(got == &p.sig.impl(), "%s '%s' is another signal", p.out ? "output" : "input", p.path.c_str());
        if (types && p.ty != BUS) want[&p.sig.impl()] |= types;
        links();
        c.count("ports found by user-defined blocks");
    }
    bool th = false;
    try
    {
        b.connect(ib, ob);
    }
    catch (const std::exception&)
    {
        th = true;
    }
    VH_CHECK(th, "a second connection was accepted");
    links();
    c.nontrivial(hash_str(d, 77));
}
} // namespace

void suite_case(Ctx& c)
{
    Rng& r = c.rng;
    static const std::vector<Kind> ks = kinds();
    {
        const uint32_t fl[] = {Block::Input, Block::Output, Block::Internal, Block::Required};
        for (int i = 0; i < 4; i++)
        {
            VH_CHECK(fl[i] && !(fl[i] & (fl[i] - 1)), "link type %d is not one flag", i);
            for (int j = 0; j < i; j++) VH_CHECK(fl[i] != fl[j], "link types %d and %d cannot be told apart", i, j);
        }
    }
    if (c.caseno % (ks.size() + 3) >= ks.size()) return user_ports(c);
    const Kind& k = ks[c.caseno % (ks.size() + 3)];
    Submodel parent(nullptr, "parent");
    CoutCapture cap;
    const int pm = r.range(0, 2); // constructed with parent, added later, or never
    std::unique_ptr<Block> b = k.mk(pm == 0 ? &parent : nullptr, "b");
    std::string& d = c.desc;
    d = k.name + ":";
    bool labelled_needed = false;
    for (auto& i : k.in) labelled_needed = labelled_needed || !i.label.empty();
    // builds a configuration; returns false if the mutation does not apply
    auto make = [&](Mut m, Conf& f) -> bool
    {
        std::vector<In> in = k.in;
        std::vector<Ty> out = k.out;
        if (k.var_in) for (int i = r.chance(0.01) ? r.range(6, 60) : r.range(0, 5); i > 0; i--) in.push_back(k.in[0]);
        if (k.any_in && (k.in_free || true)) for (auto& i : in) i.ty = Ty(r.range(0, 4));
        if (k.any_out) for (auto& o : out) o = Ty(r.range(0, 4));
        if (k.any_in && k.in_free && !in.empty()) for (int i = r.range(0, int(in.size())); i > 0; i--) in.pop_back();
        if (k.out_free) for (int i = r.range(0, int(out.size())); i > 0; i--) out.pop_back();
        int bad = -1, badout = -1;
        switch (m)
        {
        case LESS_IN:
            if (k.lax_min) { if (!debug_build()) return false; in.clear(); break; }
            if (k.in_free || in.empty()) return false;
            in.erase(in.begin() + r.range(0, int(in.size()) - 1));
            break;
        case MORE_IN:
            if (k.in_free) return false;
            in.insert(in.begin() + r.range(0, int(in.size())), in.empty() || r.chance(0.3) ? In{Ty(r.range(0, 3)), ""} : in[0]);
            if (labelled_needed) for (std::size_t i = 1; i < in.size(); i++) if (!in[i].label.empty() && in[i].label == in[0].label) in[i].label = "extra";
            break;
        case LESS_OUT:
            if (k.out_free || out.empty()) return false;
            out.pop_back();
            break;
        case MORE_OUT:
            if (k.out_free) return false;
            out.push_back(out.empty() ? S : out[0]);
            break;
        case TYPE_IN:
        {
            if (k.any_in || in.empty() || (k.lax_types && !debug_build())) return false;
            bad = r.range(0, int(in.size()) - 1);
            Ty o = in[bad].ty, n = o;
            while (n == o) n = Ty(r.range(0, 4));
            in[bad].ty = n;
            break;
        }
        case TYPE_OUT:
        {
            if (k.any_out || out.empty()) return false;
            badout = r.range(0, int(out.size()) - 1);
            Ty o = out[badout], n = o;
            while (n == o) n = Ty(r.range(0, 4));
            out[badout] = n;
            break;
        }
        case LABEL:
        {
            if (!labelled_needed) return false;
            std::vector<int> l;
            for (std::size_t i = 0; i < in.size(); i++) if (!in[i].label.empty()) l.push_back(int(i));
            static const char* alt[] = {"", "x", "Trigger", "delay_", "i", "initial2", "trigge"};
            in[r.pick(l)].label = alt[r.range(0, 6)];
            break;
        }
        case SIZE:
            if (!k.same_size || k.out[0] != A) return false;
            break;
        default: break;
        }
        // far too many: the number of signals must not be taken modulo anything
        std::size_t lots = 0, lotsout = 0;
        if ((m == MORE_IN || m == MORE_OUT) && r.chance(0.04))
        {
            (m == MORE_IN ? lots : lotsout) = (std::size_t(1) << (r.chance(0.6) ? (r.chance(0.3) ? 8 : 16) : r.range(4, 17))) * std::size_t(r.chance(0.8) ? 1 : 3);
            if (m == MORE_IN) in = k.in;
            else out = k.out;
        }
        // labels: needed ones, or arbitrary ones, or automatic ones; the order of purely labelled inputs is free
        std::vector<int> ord(in.size());
        for (std::size_t i = 0; i < ord.size(); i++) ord[i] = int(i);
        bool all_lab = labelled_needed;
        for (auto& i : k.in) all_lab = all_lab && !i.label.empty();
        if (all_lab) r.shuffle(ord);
        f.lab_in = labelled_needed || r.chance(0.3);
        for (int i : ord)
        {
            std::string l = !in[i].label.empty() ? in[i].label : f.lab_in ? strf("l%d", i) : strf("sig%d", int(f.in.size()));
            f.in.emplace_back(l, mk(in[i].ty, N, r.chance(0.7) ? strf("i%d", uid++) : ""));
            f.tin.push_back(in[i].ty);
        }
        for (std::size_t i = 0; i < out.size(); i++)
        {
            f.out.emplace_back(strf("sig%d", int(i)), mk(out[i], m == SIZE ? (r.chance(0.5) ? N + 1 : N - 1) : N, r.chance(0.7) ? strf("o%d", uid++) : ""));
            f.tout.push_back(out[i]);
        }
        if (lots)
        {
            c.count("buses with thousands of signals too many");
            const LabSig e("extra", f.in.empty() ? mk(S, N, "") : f.in[0].second);
            f.in.reserve(f.in.size() + lots);
            for (std::size_t i = 0; i < lots; i++) f.in.push_back(e), f.tin.push_back(f.tin.empty() ? S : f.tin[0]);
        }
        if (lotsout)
        {
            c.count("buses with thousands of signals too many");
            const LabSig e("extra", f.out.empty() ? mk(S, N, "") : f.out[0].second);
            f.out.reserve(f.out.size() + lotsout);
            for (std::size_t i = 0; i < lotsout; i++) f.out.push_back(e), f.tout.push_back(f.tout.empty() ? S : f.tout[0]);
        }
        // the same signal for two inputs of the same type, or a loop, is legal
        if (m == VALID && f.in.size() >= 2 && r.chance(0.15))
        {
            int a = r.range(0, int(f.in.size()) - 1), z = r.range(0, int(f.in.size()) - 1);
            if (f.tin[a] == f.tin[z]) f.in.at(a) = LabSig(f.in[a].first, f.in[z].second);
        }
        if (m == VALID && f.in.size() >= 1 && f.out.size() >= 1 && f.tin[0] == f.tout[0] && f.tin[0] != BUS && r.chance(0.05)) f.out.at(0) = LabSig(f.out[0].first, f.in[0].second);
        return true;
    };
    auto bus = [&](const std::vector<LabSig>& l, bool labelled)
    {
        if (labelled) return mk_bus(l);
        std::vector<Signal> s;
        for (auto& p : l) s.push_back(p.second);
        return mk_bus_auto(s);
    };
    auto attempt = [&](Conf& f, bool via, Bus& ib, Bus& ob, std::string& what) -> bool
    {
        try
        {
            if (via)
            {
                VH_CHECK(parent.add_block(*b, ib, ob), "add_block refused a block without another parent");
            }
            else VH_CHECK(b->connect(ib, ob), "connect returned false");
            return true;
        }
        catch (const std::exception& e)
        {
            what = e.what();
            return false;
        }
    };
    auto check_connected = [&](const Conf& f, const Bus& ib, const Bus& ob)
    {
        VH_CHECK(b->connected(), "not connected after a valid connection");
        VH_CHECK(b->ibus().size() == f.in.size() && b->obus().size() == f.out.size(), "%zu inputs and %zu outputs instead of %zu and %zu", b->ibus().size(), b->obus().size(), f.in.size(), f.out.size());
        std::map<SignalImpl*, uint32_t> want;
        for (std::size_t i = 0; i < f.in.size(); i++)
        {
            SignalImpl* p = &f.in[i].second.impl();
            VH_CHECK(&b->ibus().at(i).impl() == p, "input %zu is another signal", i);
            VH_CHECK(&b->ibus().at(f.in[i].first).impl() == p, "input '%s' is another signal", f.in[i].first.c_str());
            if (f.tin[i] == BUS) continue;
            bool req = true;
            if (!k.any_in && !k.var_in)
                for (std::size_t q = 0; q < k.in.size(); q++)
                    if (k.in[q].label.empty() ? q == i : k.in[q].label == f.in[i].first) req = k.in[q].req;
            want[p] |= Block::Input | (req ? uint32_t(Block::Required) : 0u);
        }
        for (std::size_t i = 0; i < f.out.size(); i++)
        {
            SignalImpl* p = &f.out[i].second.impl();
            VH_CHECK(&b->obus().at(i).impl() == p, "output %zu is another signal", i);
            if (f.tout[i] == BUS) continue;
            want[p] |= Block::Output | (k.out_req ? uint32_t(Block::Required) : 0u);
        }
        std::map<SignalImpl*, uint32_t> got;
        for (auto& l : b->linked_signals())
        {
            VH_CHECK(!got.count(l.first.get()), "signal %s is linked twice", l.first->name().str().c_str());
            got[l.first.get()] = l.second;
        }
        for (auto& w : want)
        {
            auto it = got.find(w.first);
            VH_CHECK(it != got.end(), "signal %s is not linked", w.first->name().str().c_str());
            VH_CHECK((it->second & (Block::Input | Block::Output | Block::Required)) == w.second, "signal %s is linked as %s%s%s", w.first->name().str().c_str(), it->second & Block::Input ? "input " : "", it->second & Block::Output ? "output " : "", it->second & Block::Required ? "required" : "not required");
            c.count("links compared");
        }
        VH_CHECK(got.size() == want.size(), "%zu signals linked instead of %zu", got.size(), want.size());
    };
    bool connected = false, dead = false;
    Conf fin;
    const int n = r.range(1, 5);
    std::vector<std::pair<Mut, bool>> prog;
    for (int a = 0; a < n && !dead; a++)
    {
        Conf f;
        Mut m = a + 1 == n && !connected && r.chance(0.6) ? VALID : Mut(r.range(0, NMUT - 1));
        if (!make(m, f)) continue;
        const bool via = pm != 2 && r.chance(0.3);
        d += strf(" [%s%s]", mname[m], via ? ", add_block" : "");
        Bus ib = bus(f.in, f.lab_in), ob = bus(f.out, false);
        std::string what;
        const std::vector<Block::SignalLinkPair> links0(b->linked_signals().begin(), b->linked_signals().end());
        const bool ok = attempt(f, via, ib, ob, what);
        c.count(strf("%s%s", connected ? "reconnections: " : "", mname[m]).c_str());
        if (connected)
        {
            VH_CHECK(!ok, "a second connection (%s) was accepted", mname[m]);
            check_connected(fin, fin.in.empty() ? ib : ib, ob);
            continue;
        }
        if (m == VALID)
        {
            VH_CHECK(ok, "a valid connection was refused: %s", what.c_str());
            connected = true;
            fin       = f;
            check_connected(f, ib, ob);
            continue;
        }
        VH_CHECK(!ok, "accepted with %s (%zu inputs, %zu outputs)", mname[m], f.in.size(), f.out.size());
        if (m <= MORE_OUT)
        {
            VH_CHECK(!b->connected(), "%s: refused, but marked as connected", mname[m]);
            VH_CHECK(b->linked_signals().empty() && b->ibus().size() == 0 && b->obus().size() == 0, "%s: refused, but signals are linked", mname[m]);
        }
        else
            dead = true; // what a connection refused for its signals leaves behind is not specified
    }
    c.nontrivial(hash_str(d, u64(c.caseno % (ks.size() + 3))));
}
} // namespace vh
