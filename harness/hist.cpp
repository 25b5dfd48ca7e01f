// History (C13) and its CSV export (C14) against a table.
#include "core.hpp"
#include "pooya_all.hpp"
#include <algorithm>
#include <fstream>
#include <locale>
#include <unistd.h>

namespace vh
{
bool debug_build()
{
#ifdef POOYA_DEBUG
    return true;
#else
    return false;
#endif
}
extern const bool csv_suite;
using namespace pooya;
namespace
{
struct Item
{
    Signal s;
    int ty; // 0 scalar, 1 int, 2 bool, 3 array, 4 bus
    int n;
    std::string name;
    bool tracked = false;
    std::vector<double> cur; // empty: unassigned
};
struct Row
{
    double t = 0;
    bool given = false;
    std::vector<std::vector<double>> v; // per item
};
Signal mk(int ty, int n, const std::string& name)
{
    switch (ty)
    {
    case 0: return ScalarSignal(name);
    case 1: return IntSignal(name);
    case 2: return BoolSignal(name);
    case 3: return ArraySignal(std::size_t(n), name);
    default: return mk_bus_auto({ScalarSignal("in_bus")}, name);
    }
}
double any(Rng& r)
{
    if (r.chance(0.03)) return r.chance(0.4) ? NAN : r.chance(0.5) ? INFINITY : -INFINITY;
    switch (r.range(0, 7))
    {
    case 0: return 0;
    case 1: return r.range(-1000, 1000);
    case 2: return r.uni(-1, 1) * 1e300;
    case 3: return r.uni(-1, 1) * 1e-300;
    case 4: return -0.0;
    case 5: return std::ldexp(1.0, r.range(-40, 40));
    default: return r.uni(-10, 10);
    }
}
void assign(Rng& r, Item& it)
{
    auto* p = dynamic_cast<ValueSignalImpl*>(&it.s.impl());
    p->clear();
    it.cur.clear();
    if (r.chance(0.15)) return; // left unassigned
    switch (it.ty)
    {
    case 0:
        it.cur = {any(r)};
        dynamic_cast<ScalarSignalImpl&>(*p).set_value(it.cur[0]);
        break;
    case 1:
    {
        int v  = r.chance(0.1) ? 2147483647 : r.chance(0.1) ? -2147483647 - 1 : r.range(-100000, 100000);
        it.cur = {double(v)};
        dynamic_cast<IntSignalImpl&>(*p).set_value(v);
        break;
    }
    case 2:
        it.cur = {double(r.chance(0.5))};
        dynamic_cast<BoolSignalImpl&>(*p).set_value(it.cur[0] != 0);
        break;
    default:
        it.cur.resize(it.n);
        for (auto& q : it.cur) q = any(r);
        dynamic_cast<ArraySignalImpl&>(*p).set_value(to_arr(it.cur));
        break;
    }
}
bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
struct Case
{
    Ctx& c;
    Rng& r;
    std::vector<Item> items;
    std::vector<Row> rows;
    History h;
    uint grow;
    bool started = false, shrunk = false;
    std::string log;
    explicit Case(Ctx& cc, uint g) : c(cc), r(cc.rng), h(g), grow(g) {}
    void note(const std::string& s)
    {
        if (log.size() < 1500) log += s + "; ";
        c.desc = log;
    }
    void compare()
    {
        VH_CHECK(h.nrows() == rows.size(), "nrows() is %u instead of %zu", h.nrows(), rows.size());
        if (!started) return;
        VH_CHECK(std::size_t(h.time().size()) >= rows.size(), "time() has %d entries for %zu rows", int(h.time().size()), rows.size());
        for (std::size_t k = 0; k < rows.size(); k++)
            VH_CHECK(same(h.time()(k), rows[k].t), "row %zu: time is %.17g instead of %.17g", k, h.time()(k), rows[k].t);
        for (std::size_t i = 0; i < items.size(); i++)
        {
            auto& it = items[i];
            if (it.ty == 4) continue;
            if (!it.tracked)
            {
                auto p = std::dynamic_pointer_cast<ValueSignalImpl>(it.s->shared_from_this());
                VH_CHECK(h.find(p) == h.end(), "untracked signal %s was recorded", it.name.c_str());
                continue;
            }
            const Eigen::MatrixXd& m = h[it.s];
            VH_CHECK(std::size_t(m.rows()) >= rows.size() && m.cols() == it.n, "signal %s: %dx%d values stored for %zu rows of %d components", it.name.c_str(), int(m.rows()), int(m.cols()), rows.size(), it.n);
            for (std::size_t k = 0; k < rows.size(); k++)
                for (int j = 0; j < it.n; j++)
                {
                    VH_CHECK(same(m(k, j), rows[k].v[i][j]), "%s row %zu of %zu, signal %s[%d]: recorded %.17g instead of %.17g", rows[k].given ? "updated" : "skipped", k, rows.size(), it.name.c_str(), j, m(k, j), rows[k].v[i][j]);
                    c.count("cells compared");
                }
        }
        std::size_t nt = 0;
        for (auto& it : items) nt += it.tracked;
        VH_CHECK(h.size() == nt, "%zu signals recorded instead of %zu", h.size(), nt);
    }
    void update(uint k, double t)
    {
        if (r.chance(0.8)) for (auto& it : items) if (it.ty != 4 && r.chance(0.8)) assign(r, it);
        h.update(k, t);
        note(strf("update(%u, %.6g)", k, t));
        std::size_t nt = 0;
        for (auto& it : items) nt += it.tracked;
        if (nt == 0) return; // nothing is recorded without tracked signals
        started = true;
        if (k > rows.size()) c.count("rows skipped", k - rows.size());
        while (rows.size() <= k) // rows that are skipped hold zeros
        {
            rows.emplace_back();
            for (auto& it : items) rows.back().v.emplace_back(it.n, 0.0);
        }
        rows[k].t     = t;
        rows[k].given = true;
        rows[k].v.clear();
        for (auto& it : items) rows[k].v.push_back(it.cur.empty() ? std::vector<double>(it.n, 0.0) : it.cur);
        c.count("updates");
    }
    void csv()
    {
        std::string f = strf("hist-%d.csv", int(getpid()));
        unlink(f.c_str());
        if (r.chance(0.15)) // a file of that name exists already
        {
            std::ofstream(f) << std::string(std::size_t(r.range(1, 20000)), '7') << "\n";
            c.count("exports over an existing file");
        }
        else if (r.chance(0.1)) h.export_csv(f);
        {
            // the program may run in another locale
            struct Punct : std::numpunct<char>
            {
                char do_decimal_point() const override { return ','; }
                char do_thousands_sep() const override { return '.'; }
                std::string do_grouping() const override { return "\3"; }
                std::string do_truename() const override { return "wahr"; }
            };
            const bool loc = r.chance(0.15);
            std::locale old;
            if (loc) { std::locale::global(std::locale(old, new Punct)); c.count("exports in another locale"); }
            try { h.export_csv(f); }
            catch (...) { std::locale::global(old); throw; }
            std::locale::global(old);
        }
        note("export_csv");
        std::ifstream is(f);
        if (!started)
        {
            unlink(f.c_str());
            return;
        }
        VH_CHECK(bool(is), "no file was written");
        std::string line;
        std::vector<std::vector<std::string>> tab;
        std::size_t pos = 0;
        while (std::getline(is, line))
        {
            tab.emplace_back();
            std::size_t b = 0;
            for (;;)
            {
                auto e = line.find(',', b);
                tab.back().push_back(line.substr(b, e == std::string::npos ? e : e - b));
                if (e == std::string::npos) break;
                b = e + 1;
            }
            pos++;
        }
        unlink(f.c_str());
        VH_CHECK(!tab.empty() && !tab[0].empty() && tab[0][0] == "time", "the header does not start with time");
        VH_CHECK(tab.size() == rows.size() + 1, "%zu lines after the header instead of %zu", tab.size() - 1, rows.size());
        // columns by name
        std::multimap<std::string, std::pair<int, int>> want;
        std::size_t nwant = 0;
        for (std::size_t i = 0; i < items.size(); i++)
            if (items[i].tracked)
                for (int j = 0; j < items[i].n; j++) want.emplace(items[i].ty == 3 ? items[i].name + strf("[%d]", j) : items[i].name, std::make_pair(int(i), j));
        nwant = want.size();
        VH_CHECK(tab[0].size() == nwant + 1, "%zu columns instead of %zu", tab[0].size() - 1, nwant);
        for (std::size_t k = 0; k < rows.size(); k++) VH_CHECK(tab[k + 1].size() == nwant + 1, "line %zu has %zu fields instead of %zu", k + 1, tab[k + 1].size(), nwant + 1);
        // six significant digits are printed
        auto close = [](double g, double v) { return same(g, v) || (std::isfinite(g) && std::isfinite(v) && std::fabs(g - v) <= 0.51e-5 * std::fabs(v)) || (std::fabs(v) < 1e-304 && std::fabs(g) < 1e-303); };
        std::vector<std::pair<int, int>> col{{-1, 0}};
        for (std::size_t q = 1; q < tab[0].size(); q++)
        {
            auto rg = want.equal_range(tab[0][q]);
            VH_CHECK(rg.first != rg.second, "unexpected (or repeated) column '%s'", tab[0][q].c_str());
            auto it = rg.first;
            // several signals of this name: the one whose values these are
            for (auto jt = rg.first; std::next(rg.first) != rg.second && jt != rg.second; ++jt)
            {
                bool ok = jt->second.second == 0 || col.back() == std::make_pair(jt->second.first, jt->second.second - 1);
                for (std::size_t k = 0; ok && k < rows.size(); k++) ok = close(strtod(tab[k + 1][q].c_str(), nullptr), rows[k].v[jt->second.first][jt->second.second]);
                if (ok && items[jt->second.first].ty == 3 && jt->second.second == 0)
                {
                    const std::size_t e = q + std::size_t(items[jt->second.first].n); // an array of another size?
                    ok = e > nwant || tab[0][e] != items[jt->second.first].name + strf("[%d]", items[jt->second.first].n);
                }
                if (ok && jt->second.second == 0 && items[jt->second.first].n > 1)
                    for (int j = 1; ok && j < items[jt->second.first].n; j++)
                        for (std::size_t k = 0; ok && k < rows.size(); k++) ok = q + j <= nwant && tab[0][q + j] == items[jt->second.first].name + strf("[%d]", j) && close(strtod(tab[k + 1][q + j].c_str(), nullptr), rows[k].v[jt->second.first][j]);
                if (ok)
                {
                    it = jt;
                    c.count("columns of equal name told apart");
                    break;
                }
            }
            if (it->second.second > 0) VH_CHECK(col.back() == std::make_pair(it->second.first, it->second.second - 1), "components of '%s' are not in order", tab[0][q].c_str());
            col.push_back(it->second);
            want.erase(it);
        }
        for (std::size_t k = 0; k < rows.size(); k++)
        {
            auto& l = tab[k + 1];
            VH_CHECK(l.size() == col.size(), "line %zu has %zu fields instead of %zu", k + 1, l.size(), col.size());
            for (std::size_t q = 0; q < col.size(); q++)
            {
                const double v = col[q].first < 0 ? rows[k].t : rows[k].v[col[q].first][col[q].second];
                char* e        = nullptr;
                const double g = strtod(l[q].c_str(), &e);
                VH_CHECK(e != l[q].c_str() && *e == 0, "line %zu, column %s: '%s' is not a number", k + 1, tab[0][q].c_str(), l[q].c_str());
                VH_CHECK(close(g, v), "line %zu, column %s: '%s' instead of %.17g", k + 1, tab[0][q].c_str(), l[q].c_str(), v);
                c.count("fields parsed back");
            }
        }
        c.count(shrunk ? "exports after shrinking" : "exports");
    }
};
} // namespace

void suite_case(Ctx& c)
{
    Rng& r = c.rng;
    static const uint grows[] = {0, 1, 2, 3, 5, 8, 16, 100, 1000};
    const bool dflt = r.chance(0.05);
    Case q(c, dflt ? 1000u : grows[r.chance(0.02) ? 0 : r.range(1, 8)]);
    const int ns = r.chance(0.004) ? r.range(9, 60) : r.range(1, 8);
    for (int i = 0; i < ns; i++)
    {
        const int ty = r.chance(0.1) ? 4 : r.range(0, 3);
        const int n  = ty == 3 ? (r.chance(0.004) ? r.range(6, 300) : r.range(1, 5)) : 1;
        std::string name = strf("%c%d_%s", "sibAZ"[ty], i, ty == 3 ? "arr" : "x");
        // names need not be unique
        if (i > 0 && r.chance(0.12)) name = r.pick(q.items).name;
        q.items.push_back({mk(ty, n, name), ty, n, name});
    }
    q.note(strf("grow=%u signals:", q.grow));
    for (auto& it : q.items) q.log += strf(" %s(%d)", it.name.c_str(), it.n);
    q.log += "; ";
    // tracking
    const int nt = r.range(1, 2 * ns);
    for (int i = 0; i < nt; i++)
    {
        Item& it = r.pick(q.items);
        if (r.chance(0.75))
        {
            const bool ok = q.h.track(it.s);
            q.note("track " + it.name);
            VH_CHECK(ok == (it.ty != 4 && !it.tracked), "track(%s) returned %d", it.name.c_str(), int(ok));
            it.tracked = it.ty != 4;
        }
        else
        {
            q.h.untrack(it.s);
            q.note("untrack " + it.name);
            it.tracked = false;
        }
    }
    q.compare();
    // updates
    const int ops = r.chance(0.1) ? r.range(50, 300) : r.range(1, 40);
    double t = r.uni(-5, 5);
    if (r.chance(0.0006)) // a long run
    {
        const int len = r.chance(0.2) && q.grow >= 100 && ns <= 8 ? r.range(5000, 70000) : r.range(300, 3000);
        for (int i = 0; i < len; i++)
        {
            t += r.uni(0, 1);
            q.update(uint(q.rows.size()), t);
        }
        c.count("long records");
    }
    for (int i = 0; i < ops; i++)
    {
        const int w = r.range(0, 19);
        if (w < 13 || q.rows.empty())
        {
            if (!r.chance(0.1)) t += r.uni(0, 1); // times may repeat
            q.update(uint(q.rows.size()), t);
        }
        else if (w < 16) q.update(uint(r.range(0, int(q.rows.size()) - 1)), r.uni(-100, 100)); // overwrite
        else if (w == 16)
        {
            q.h.shrink_to_fit();
            q.shrunk = true;
            q.note("shrink");
            if (q.started)
            {
                VH_CHECK(std::size_t(q.h.time().size()) == q.rows.size(), "after shrink_to_fit time() has %d entries for %zu rows", int(q.h.time().size()), q.rows.size());
            }
            q.compare();
        }
        else if (w == 17 && q.rows.size() > 0 && r.chance(0.3))
        {
            // a gap: rows in between are filled afterwards
            const uint k0 = uint(q.rows.size());
            const uint k1 = k0 + uint(r.range(1, 2 * int(q.grow > 50 ? 50 : q.grow) + 2));
            std::vector<uint> ks;
            for (uint k = k0; k < k1; k++) ks.push_back(k);
            q.update(k1, t + 1);
            r.shuffle(ks);
            if (r.chance(0.5)) ks.resize(r.range(0, int(ks.size()))); // some of them, or none
            for (uint k : ks) q.update(k, t + r.uni());
            q.compare();
        }
        else if (w == 18) q.compare();
        else if (csv_suite && r.chance(0.3)) q.csv();
    }
    q.compare();
    if (csv_suite)
    {
        q.csv();
        if (r.chance(0.5))
        {
            q.h.shrink_to_fit();
            q.shrunk = true;
            q.csv();
        }
        q.compare(); // exporting does not alter the record
    }
    if (q.started && !q.rows.empty()) c.nontrivial(hash_str(q.log, u64(c.caseno)));
}
} // namespace vh
