#include "core.hpp"
#include <fcntl.h>
#include <iostream>
#include <signal.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

// --status FILE: the number of the case being run (read by the driver after a crash)
namespace vh { std::string suite_arg; }
static int g_status_fd = -1;
static vh::u64 g_case  = 0;

static void on_timer(int)
{
    char b[64];
    int n = snprintf(b, sizeof b, "%llu HANG\n", (unsigned long long)g_case);
    if (g_status_fd >= 0) (void)!pwrite(g_status_fd, b, n, 0);
    _exit(97);
}

static std::string jesc(const std::string& s)
{
    std::string r;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += char(c);
        }
        else if (c == '\n')
            r += "\\n";
        else if (c < 0x20 || c >= 0x7f)
            r += vh::strf("\\u%04x", c);
        else
            r += char(c);
    }
    return r;
}

static double now()
{
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return double(ts.tv_sec) + 1e-9 * double(ts.tv_nsec);
}

int main(int argc, char** argv)
{
    using namespace vh;
    u64 seed = 1, from = 0, count = 1, stride = 1;
    double cap = 1e9, hang = 60;
    bool verbose = false, thorough = false;
    const char *out = nullptr, *status = nullptr, *dump = nullptr;
    std::map<u64, u64> digests;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto val      = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--seed") seed = strtoull(val(), nullptr, 10);
        else if (a == "--from") from = strtoull(val(), nullptr, 10);
        else if (a == "--stride") stride = strtoull(val(), nullptr, 10);
        else if (a == "--count") count = strtoull(val(), nullptr, 10);
        else if (a == "--arg") suite_arg = val();
        else if (a == "--cap") cap = atof(val());
        else if (a == "--hang") hang = atof(val());
        else if (a == "--out") out = val();
        else if (a == "--status") status = val();
        else if (a == "--dump") dump = val();
        else if (a == "--verbose") verbose = true;
        else if (a == "--thorough") thorough = true;
        else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 3; }
    }
    if (status) g_status_fd = open(status, O_RDWR | O_CREAT | O_TRUNC, 0644);
    signal(SIGPROF, on_timer);
    // an accidental write into a full disk or runaway file must not damage the sandbox
    rlimit rl{64u << 20, 64u << 20};
    setrlimit(RLIMIT_FSIZE, &rl);
    rlimit nocore{0, 0};
    setrlimit(RLIMIT_CORE, &nocore);

    Stats st;
    std::vector<std::pair<u64, std::string>> viol;
    const double t_start = now();
    for (u64 i = 0; i < count; i++)
    {
        if (now() - t_start > cap) break;
        const u64 cn = from + i * stride;
        g_case       = cn;
        if (g_status_fd >= 0)
        {
            char b[64];
            int n = snprintf(b, sizeof b, "%20llu RUN \n", (unsigned long long)cn);
            (void)!pwrite(g_status_fd, b, n, 0);
        }
        const long sec = long(hang);
        itimerval tv{{0, 0}, {sec, 0}};
        setitimer(ITIMER_PROF, &tv, nullptr);
        Ctx c{Rng(mix(seed * 1000003 + hash_str(suite_property)) ^ mix(cn)), cn, thorough, verbose, st, ""};
        std::string msg;
        try
        {
            suite_case(c);
        }
        catch (const Violation& v)
        {
            msg = v.msg.empty() ? "violation" : v.msg;
        }
        catch (const Budget& b)
        {
            msg = "unbounded work (does not terminate?): " + b.what;
        }
        catch (const std::exception& e)
        {
            msg = std::string("unexpected exception: ") + e.what();
        }
        st.cases++;
        if (!c.dig.empty()) digests[cn] = c.dig[0] == '!' ? 0 : hash_str(c.dig) | 1;
        if (dump)
            if (FILE* f = fopen(dump, "w"))
            {
                fwrite(c.dig.data(), 1, c.dig.size(), f);
                fclose(f);
            }
        if (st.samples.size() < 3 && !c.desc.empty() && (cn % 7 == 3 || st.samples.empty()))
            st.samples.push_back(strf("case %llu: ", (unsigned long long)cn) + c.desc);
        if (!msg.empty())
        {
            viol.emplace_back(cn, msg);
            fprintf(stderr, "CASE %llu FAILED: %s\n", (unsigned long long)cn, msg.c_str());
            if (verbose || viol.size() <= 2) fprintf(stderr, "  case: %s\n", c.desc.c_str());
            if (viol.size() >= 5) break;
        }
        else if (verbose)
            fprintf(stderr, "CASE %llu ok: %s\n", (unsigned long long)cn, c.desc.c_str());
    }
    itimerval tv{{0, 0}, {0, 0}};
    setitimer(ITIMER_PROF, &tv, nullptr);
    if (out)
    {
        FILE* f = fopen(out, "w");
        if (!f) return 3;
        fprintf(f, "{\"cases\": %llu, \"debug\": %s, \"counters\": {", (unsigned long long)st.cases,
                debug_build() ? "true" : "false");
        bool first = true;
        for (auto& [k, v] : st.counters)
        {
            fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", jesc(k).c_str(), (unsigned long long)v);
            first = false;
        }
        fprintf(f, "}, \"rule\": \"%s\", \"samples\": [", jesc(suite_rule).c_str());
        for (std::size_t i = 0; i < st.samples.size(); i++)
            fprintf(f, "%s\"%s\"", i ? ", " : "", jesc(st.samples[i].substr(0, 3000)).c_str());
        fprintf(f, "], \"violations\": [");
        for (std::size_t i = 0; i < viol.size(); i++)
            fprintf(f, "%s{\"case\": %llu, \"msg\": \"%s\"}", i ? ", " : "", (unsigned long long)viol[i].first,
                    jesc(viol[i].second.substr(0, 3000)).c_str());
        fprintf(f, "], \"distinct\": [");
        first = true;
        for (u64 h : st.distinct)
        {
            fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h);
            first = false;
        }
        fprintf(f, "], \"digests\": {");
        first = true;
        for (auto& [k, v] : digests)
        {
            fprintf(f, "%s\"%llu\": \"%llx\"", first ? "" : ", ", (unsigned long long)k, (unsigned long long)v);
            first = false;
        }
        fprintf(f, "}}\n");
        fclose(f);
    }
    if (g_status_fd >= 0) (void)!pwrite(g_status_fd, "                DONE      \n", 27, 0);
    return viol.empty() ? 0 : 1;
}
