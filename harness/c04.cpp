#include "build.hpp"
#include "pooya_all.hpp"
#include <algorithm>
namespace vh
{
const char* suite_property = "C04";
const char* suite_rule = "random diagrams into which 0-3 defects are injected: an input rewired to a signal nobody drives, or to a signal further downstream (algebraic loops through one or several blocks and submodels); the set of determinable blocks is computed by an independent fixpoint, and compared with the processed flags, assigned signals, values, and (debug) the printed report of names; FastSimulator must throw exactly for the defective ones; non-trivial: something is undeterminable and something else is not, counted by distinct diagram";
static std::string emend(std::string s)
{
    for (auto& ch : s)
        if (!isalnum((unsigned char)ch) && ch != '_') ch = '_';
    return s;
}
static std::vector<int> req(const BlkS& b)
{
    if (b.k == K::TRIG) return {b.in[1]};
    return b.required();
}
struct Fix
{
    std::vector<char> sig, blk; // determined
    std::vector<std::vector<char>> pipe; // BUSPIPE: per pair
    bool bad = false;           // something is undetermined
};
static Fix fixpoint(const Spec& s)
{
    Fix f;
    f.sig.assign(s.sig.size(), 0);
    f.blk.assign(s.blk.size(), 0);
    f.pipe.resize(s.blk.size());
    for (std::size_t i = 0; i < s.sig.size(); i++)
        f.sig[i] = s.sig[i].prod == -1 || (s.sig[i].prod >= 0 && (s.blk[s.sig[i].prod].k == K::INTEG || s.blk[s.sig[i].prod].k == K::TRIG));
    for (bool ch = true; ch;)
    {
        ch = false;
        for (std::size_t i = 0; i < s.blk.size(); i++)
        {
            if (f.blk[i]) continue;
            auto& b = s.blk[i];
            if (b.k == K::BUSPIPE)
            {
                f.pipe[i].resize(b.in.size());
                for (std::size_t k = 0; k < b.in.size(); k++)
                    if (!f.pipe[i][k] && f.sig[b.in[k]]) f.pipe[i][k] = f.sig[b.out[k]] = 1, ch = true;
                continue;
            }
            bool ok = true;
            for (int g : req(b)) ok = ok && f.sig[g];
            if (!ok) continue;
            f.blk[i] = 1;
            ch       = true;
            for (int g : b.out) f.sig[g] = 1;
        }
    }
    for (std::size_t i = 0; i < s.blk.size(); i++)
    {
        if (s.blk[i].k == K::BUSPIPE)
        {
            f.blk[i] = 1; // the builder itself has nothing to compute
            for (char x : f.pipe[i]) f.bad = f.bad || !x;
        }
        else f.bad = f.bad || !f.blk[i];
    }
    return f;
}
// the last report printed, as a multiset of lines
static std::multiset<std::string> last_report(const std::string& out)
{
    std::multiset<std::string> r;
    auto p = out.rfind("-- unprocessed blocks detected:");
    if (p == std::string::npos) return r;
    std::istringstream is(out.substr(p));
    std::string l, blk;
    std::getline(is, l);
    while (std::getline(is, l))
    {
        if (l.rfind("- ", 0) == 0) r.insert(blk = l.substr(2));
        else if (l.rfind("  - ", 0) == 0) r.insert(blk + " lacks " + l.substr(4));
        else if (!l.empty() && l.find("Pooya") == std::string::npos) continue;
    }
    return r;
}
// many blocks that cannot be determined
static void crowd(Ctx& c)
{
    using namespace pooya;
    Rng& r = c.rng;
    const int mode = int(c.caseno / 200) % 3;
    const int bad  = r.chance(0.5) ? 256 * r.range(1, debug_build() ? 2 : 4) : r.range(1, debug_build() ? 300 : 1200), good = r.range(0, 200);
    c.desc = strf("%s, %d blocks on an undriven signal, %d others", sim_name[mode], bad, good);
    Submodel m(nullptr, "m"), a(&m, "a"), b(&a, "b");
    Submodel* par[] = {&m, &a, &b};
    ScalarSignal none("none"), x("x");
    Source src([](double t) { return t + 2; }, &m, "src");
    src.connect({}, {x});
    struct Q { std::unique_ptr<Gain> g; std::unique_ptr<ScalarSignal> y; bool ok; double k; };
    std::vector<Q> q;
    for (int i = 0; i < bad + good; i++)
    {
        Q e;
        e.ok = i >= bad;
        q.push_back(std::move(e));
    }
    r.shuffle(q);
    std::multiset<std::string> want;
    for (std::size_t i = 0; i < q.size(); i++)
    {
        q[i].k = r.uni(-2, 2);
        const int p = r.range(0, 2);
        q[i].g = std::make_unique<Gain>(q[i].k, par[p], strf("g%d", int(i)));
        q[i].y = std::make_unique<ScalarSignal>(strf("y%d", int(i)));
        if (q[i].ok) q[i].g->connect({x}, {*q[i].y});
        else
        {
            q[i].g->connect({none}, {*q[i].y});
            const std::string n = std::string(p == 0 ? "/m" : p == 1 ? "/m/a" : "/m/a/b") + strf("/g%d", int(i));
            want.insert(n);
            want.insert(n + " lacks none");
        }
    }
    if (mode == 2)
    {
        bool threw = false;
        FastSimulator f(m);
        try { f.init(0); }
        catch (const std::exception&) { threw = true; }
        VH_CHECK(threw, "FastSimulator accepted the model");
    }
    else
    {
        Simulator s(m, nullptr, nullptr, mode == 1);
        for (int k = 0; k < 2; k++)
        {
            std::string text;
            {
                CoutCapture cc;
                s.run(k);
                text = cc.os.str();
            }
            for (auto& e : q)
            {
                VH_CHECK((*e.y)->assigned() == e.ok && e.g->processed() == e.ok, "signal %s is %s", (*e.y)->name().str().c_str(), e.ok ? "not computed" : "computed");
                if (e.ok) VH_CHECK(double(*e.y) == e.k * (k + 2), "signal %s is %.17g", (*e.y)->name().str().c_str(), double(*e.y));
            }
            if (!debug_build()) continue;
            auto got = last_report(text);
            for (const char* n : {"/m", "/m/a", "/m/a/b"}) got.erase(n), got.erase(std::string(n) + " lacks none");
            VH_CHECK(got == want, "the report has %zu lines instead of %zu", got.size(), want.size());
        }
    }
    c.count("models with crowds of undeterminable blocks");
    c.nontrivial(hash_u(u64(bad), u64(good * 3 + mode)));
}
void suite_case(Ctx& c)
{
    if (c.caseno % 200 == 11) return crowd(c);
    GenOpt g;
    g.big = true;
    if (c.caseno % 300 == 7) g.deep = debug_build() ? 70 : 150;
    if (g.deep) c.count("long chains");
    g.max_blocks = 12;
    g.max_runs   = 3;
    g.adaptive   = false;
    if (c.rng.chance(0.3)) g.focus = {K(c.caseno % u64(K::COUNT_))};
    Spec s;
    int ninj = 0;
    bool reads = false;
    Fix f;
    for (int tries = 0;; tries++)
    {
        s    = generate(c.rng, g);
        ninj = c.rng.chance(0.15) ? 0 : c.rng.range(1, 3);
        for (int i = 0; i < ninj; i++)
        {
            int b = c.rng.range(0, int(s.blk.size()) - 1);
            if (s.blk[b].in.empty()) continue;
            int k     = c.rng.range(0, int(s.blk[b].in.size()) - 1);
            auto& old = s.sig[s.blk[b].in[k]];
            if (c.rng.chance(0.4))
            {
                SigS q = old;
                q.prod = -2;
                q.name = strf("u%d", int(s.sig.size()));
                s.sig.push_back(q);
                s.blk[b].in[k] = int(s.sig.size()) - 1;
            }
            else
            {
                std::vector<int> cand;
                for (std::size_t j = 0; j < s.sig.size(); j++)
                    if (s.sig[j].ty == old.ty && s.sig[j].n == old.n) cand.push_back(int(j));
                s.blk[b].in[k] = c.rng.pick(cand);
            }
        }
        // inputs of the model that lost their consumer get one again
        const std::size_t n0 = s.sig.size();
        for (std::size_t i = 0; i < n0; i++)
        {
            if (s.sig[i].prod != -1) continue;
            bool used = false;
            for (auto& b : s.blk) for (int x : b.in) used = used || x == int(i);
            if (used) continue;
            BlkS b;
            b.k = K::PIPE; b.ty = s.sig[i].ty; b.n = s.sig[i].n; b.in = {int(i)}; b.name = strf("p%d", int(i));
            SigS q = s.sig[i];
            q.prod = int(s.blk.size()); q.name = strf("s%d", int(s.sig.size()));
            b.out  = {int(s.sig.size())};
            s.sig.push_back(q);
            s.blk.push_back(b);
        }
        f     = fixpoint(s);
        reads = false; // does some block read an undetermined signal when a step ends, or as a derivative?
        for (auto& b : s.blk)
        {
            std::vector<int> rd;
            if (b.k == K::MEMORY || b.k == K::ACCUM || b.k == K::BUSMEM || b.k == K::INTEG || b.k == K::TRIG || b.k == K::DELAY || b.k == K::DERIV) rd = b.in;
            if (b.k == K::DERIV || b.k == K::DELAY) rd.push_back(b.out[0]);
            for (int x : rd) reads = reads || !f.sig[x];
        }
        if (!reads || tries > 40 || (debug_build() && c.caseno % 5 == 0)) break;
    }
    if (reads && !debug_build()) return;
    BuildOpt o;
    o.sim       = Sim(c.rng.range(0, 2));
    o.perm_seed = c.rng.chance(0.5) ? c.rng.next() | 1 : 0;
    o.flatten   = c.rng.chance(0.2);
    o.events    = false;
    o.snaps     = false;
    o.budget    = 300000;
    c.desc      = std::string(sim_name[int(o.sim)]) + (f.bad ? " (defective)" : " (sound)") + ": " + s.str();
    ModelPtr m  = build_model(s, o);
    if (o.sim == Sim::FAST && f.bad)
    {
        bool ok = do_run(*m, s.runs[0]);
        VH_CHECK(!ok, "FastSimulator accepted a model with undeterminable blocks");
        VH_CHECK(out(*m).err[0].find("FastSimulator") != std::string::npos || reads, "FastSimulator: unexpected exception %s", out(*m).err[0].c_str());
        c.count("models refused by FastSimulator");
        c.nontrivial(hash_u(s.hash(), 2));
        return;
    }
    bool thrown = false;
    u64 nun = 0, nok = 0;
    for (std::size_t i = 0; i < s.runs.size(); i++)
    {
        if (!do_run(*m, s.runs[i]))
        {
            VH_CHECK(reads, "unexpected exception: %s", out(*m).err.back().c_str());
            thrown = true;
        }
        auto vals = read_values(*m);
        for (std::size_t k = 0; k < s.sig.size(); k++)
        {
            if (thrown) break; // an exception may leave a later evaluation unfinished
            VH_CHECK(vals[k].empty() == !f.sig[k], "after call %d (t=%.17g): signal %s is %s, but it %s determinable", int(i), s.runs[i].t, s.sig[k].name.c_str(), vals[k].empty() ? "unassigned" : "assigned", f.sig[k] ? "is" : "is not");
        }
        auto pf = processed_flags(*m);
        for (std::size_t k = 0; k < s.blk.size(); k++)
        {
            if (thrown) break;
            if (s.blk[k].k == K::BUSMEM || s.blk[k].k == K::BUSPIPE) continue;
            (f.blk[k] ? nok : nun)++;
            if (o.sim != Sim::FAST) // the fast simulator does not maintain the flags
                VH_CHECK(pf[k] == bool(f.blk[k]), "after call %d: block %s (%s) is %s", int(i), s.blk[k].name.c_str(), kind_name[int(s.blk[k].k)], pf[k] ? "computed although it is not determinable" : "not computed although it is determinable");
        }
        if (debug_build() && o.sim != Sim::FAST)
        {
            // the report names exactly the uncomputed blocks and the required signals they miss
            std::multiset<std::string> want;
            std::vector<char> subbad(s.sub_parent.size(), 0);
            auto mark = [&](int p) { for (; p > 0; p = s.sub_parent[p]) subbad[p] = 1; subbad[0] = 1; };
            for (std::size_t k = 0; k < s.blk.size(); k++)
            {
                auto& b = s.blk[k];
                const int par = o.flatten ? 0 : b.parent;
                if (b.k == K::BUSPIPE)
                {
                    for (std::size_t j = 0; j < b.in.size(); j++)
                    {
                        if (f.pipe[k][j]) continue;
                        std::string path = b.group[j] == 0 ? strf("L%d", int(j)) : b.group[j] == 1 ? strf("g1.L%d", int(j)) : strf("g1.g2.L%d", int(j));
                        std::string n = sub_full_name(*m, par) + "/" + emend(path);
                        want.insert(n);
                        want.insert(n + " lacks " + s.sig[b.in[j]].name);
                        mark(par);
                    }
                    continue;
                }
                if (f.blk[k]) continue;
                std::string n = block_full_name(*m, int(k));
                want.insert(n);
                std::set<int> miss;
                for (int x : req(b)) if (!f.sig[x]) miss.insert(x);
                for (int x : miss) want.insert(n + " lacks " + s.sig[x].name);
                mark(par);
            }
            auto got = last_report(out(*m).out.back());
            // whether the submodels of uncomputed blocks are listed as well is not part of the property
            for (std::size_t k = 0; k < subbad.size(); k++)
            {
                if (!subbad[k]) continue;
                got.erase(sub_full_name(*m, int(k)));
                for (std::size_t x = 0; x < s.sig.size(); x++)
                    if (!f.sig[x]) got.erase(sub_full_name(*m, int(k)) + " lacks " + s.sig[x].name);
            }
            if (got != want)
            {
                std::string w, gt;
                for (auto& x : want) if (!got.count(x)) w += x + "; ";
                for (auto& x : got) if (!want.count(x)) gt += x + "; ";
                fail(strf("call %d: the report of unprocessed blocks misses [%s] and has unexpected [%s]", int(i), w.c_str(), gt.c_str()));
            }
            c.count("report lines checked", want.size());
        }
        if (thrown) break;
    }
    c.count("blocks left uncomputed, as they must", nun);
    c.count("blocks computed", nok);
    if (thrown) c.count("runs stopped by reading an undetermined signal (debug)");
    if (f.bad && nok + nun > 1) c.nontrivial(hash_u(s.hash(), u64(o.sim)));
}
} // namespace vh
