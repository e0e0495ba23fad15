// Stateless / explicit-state exploration engine.
//
//  * MC_SCENARIO(name, depth)  { body using c.choose(n) }
//        Every call of c.choose(n) is a branching point; the engine runs the
//        body once per leaf of the choice tree (depth-first, full backtracking,
//        nothing sampled).  One leaf = one execution of the real code.
//  * MC_BFS(name, StateType, maxdepth)
//        Breadth-first search over operation sequences on a State that holds
//        the real objects next to their model; states are identified by key().
//
// A worker explores one shard (a residue class of the length-<depth> choice
// prefixes) and leaves its progress in an mmap'ed "crumb", so that the driver
// can name the execution that crashed or never came back.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>
#ifdef MC_COSTGUARD
#include <csetjmp>
#include <csignal>
#include <ctime>
#include <sys/resource.h>
#include <sys/time.h>
#endif

namespace mc {

struct Violation { std::string msg; };
struct SkipPrefix {};
struct Prune {};

static constexpr int MAXCH = 2000;
static constexpr int NOSPLIT = 1 << 20;

struct Crumb {
    volatile uint64_t execs;
    volatile uint64_t running;
    volatile uint32_t len;
    uint16_t trace[MAXCH];
};

inline bool verbose = false;
inline bool thorough = false;

struct Ctx {
    Crumb   *cr = nullptr;
    uint16_t width[MAXCH];
    int      pos = 0;
    int      len = 0;
    // sharding
    int      depth = 0, shard = 0, nshards = 1;
    uint64_t prefix_id = 0;
    bool     prefix_checked = false;
    bool     replay = false;
    // counters
    uint64_t execs = 0, nodes = 0, steps = 0, pruned = 0;
    // samples
    std::vector<std::vector<uint16_t>> samples;

    int choose(int n)
    {
        if (n <= 1) return 0;
        if (!replay && nshards > 1 && pos == depth && !prefix_checked)
        {
            prefix_checked = true;
            if (int(prefix_id % uint64_t(nshards)) != shard) throw SkipPrefix();
        }
        if (pos < len)
        {
            if (!replay && width[pos] != n)
            {
                fprintf(stderr, "engine: nondeterministic branching at %d: %d != %d\n",
                        pos, int(width[pos]), n);
                _exit(97);
            }
            if (replay && cr->trace[pos] >= n)
            {
                fprintf(stderr, "engine: replay trace does not fit\n");
                _exit(97);
            }
            return cr->trace[pos++];
        }
        if (pos >= MAXCH) { fprintf(stderr, "engine: too many choices\n"); _exit(97); }
        cr->trace[pos] = 0;
        width[pos] = uint16_t(n);
        ++nodes;
        len = ++pos;
        cr->len = uint32_t(len);
        return 0;
    }
    bool flip() { return choose(2) != 0; }
    // divides the work by the choices made so far (scenarios of depth NOSPLIT)
    bool split = false;
    void here()
    {
        if (replay || nshards == 1 || split) return;
        uint64_t h = 1469598103934665603ull;
        for (int i = 0; i < pos; ++i) { h ^= cr->trace[i] + 1; h *= 1099511628211ull; }
        h ^= h >> 29; h *= 0x9e3779b97f4a7c15ull; h ^= h >> 32;
        if (int(h % uint64_t(nshards)) != shard) throw SkipPrefix();
        split = true;
    }

    // next leaf; false when the tree is exhausted
    bool backtrack()
    {
        while (len > 0 && cr->trace[len - 1] + 1 >= width[len - 1]) --len;
        cr->len = uint32_t(len);
        if (len == 0) return false;
        ++cr->trace[len - 1];
        if (len - 1 < depth) { ++prefix_id; prefix_checked = false; }
        return true;
    }
};

inline Ctx *ctx = nullptr;
inline void step(uint64_t n = 1) { ctx->steps += n; }

template <class... A> std::string cat(A const &...a)
{
    std::ostringstream os;
    (os << ... << a);
    return os.str();
}
[[noreturn]] inline void fail(std::string m) { throw Violation{std::move(m)}; }
#define MC_CHECK(cond, ...) do { if (!(cond)) ::mc::fail(::mc::cat(__VA_ARGS__)); } while (0)
#define MC_SAY(...) do { if (::mc::verbose) std::cout << ::mc::cat(__VA_ARGS__) << "\n" << std::flush; } while (0)

struct BfsStats { uint64_t states = 0, transitions = 0; int depth = 0; bool fixpoint = false; };

struct Scenario {
    std::string name;
    int         depth;
    std::function<void(Ctx &)> body;                       // stateless
    std::function<BfsStats(Ctx &)> bfs;                    // explicit state
};
inline std::vector<Scenario> &registry() { static std::vector<Scenario> r; return r; }
struct Reg {
    Reg(std::string n, int d, std::function<void(Ctx &)> b) { registry().push_back({n, d, b, nullptr}); }
    Reg(std::string n, std::function<BfsStats(Ctx &)> b) { registry().push_back({n, 0, nullptr, b}); }
};
#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_SCENARIO(name, depth)                                              \
    static void MC_CAT(scn_, name)(::mc::Ctx & c);                            \
    static ::mc::Reg MC_CAT(reg_, name)(#name, depth, MC_CAT(scn_, name));    \
    static void MC_CAT(scn_, name)(::mc::Ctx & c)

// ---------------------------------------------------------------- explicit BFS
// State: default constructible/copyable; std::string key() const;
//        int nops() const; bool apply(int op) (false = not enabled; throws
//        Violation); static std::string opname(int)
template <class State>
BfsStats bfs(Ctx &c, State const &init, int maxdepth, uint64_t maxstates)
{
    BfsStats st;
    if (c.replay)
    {
        State s(init);
        for (int i = 0; i < c.len; ++i)
        {
            int op = c.cr->trace[i];
            MC_SAY("op ", i, ": ", State::opname(op));
            s.apply(op);
            MC_SAY("   -> ", s.key());
        }
        return st;
    }
    struct Node { int64_t parent; uint16_t op; uint16_t depth; };
    std::vector<Node> nodes;
    std::unordered_map<std::string, int64_t> seen;
    std::deque<std::pair<int64_t, State>> q;
    nodes.push_back({-1, 0, 0});
    seen.emplace(init.key(), 0);
    q.emplace_back(0, init);
    int const nops = init.nops();
    bool truncated = false;
    auto path_to = [&](int64_t id, int op) {
        std::vector<uint16_t> p;
        p.push_back(uint16_t(op));
        for (int64_t k = id; nodes[k].parent >= 0; k = nodes[k].parent) p.push_back(nodes[k].op);
        c.len = int(p.size());
        c.cr->len = uint32_t(p.size());
        for (size_t i = 0; i < p.size(); ++i) c.cr->trace[i] = p[p.size() - 1 - i];
    };
    while (!q.empty())
    {
        auto [id, s] = std::move(q.front());
        q.pop_front();
        if (nodes[id].depth >= maxdepth) { truncated = true; continue; }
        for (int op = 0; op < nops; ++op)
        {
            path_to(id, op);
            State t(s);
            c.cr->running = 1;
            bool en = t.apply(op);
            c.cr->running = 0;
            if (!en) continue;
            ++st.transitions;
            c.cr->execs = st.transitions;
            if (st.transitions == 500 || st.transitions == 20000)
                c.samples.emplace_back(c.cr->trace, c.cr->trace + c.len);
            auto k = t.key();
            if (seen.count(k)) continue;
            if (nodes.size() >= maxstates) { truncated = true; continue; }
            nodes.push_back({id, uint16_t(op), uint16_t(nodes[id].depth + 1)});
            st.depth = std::max(st.depth, int(nodes[id].depth) + 1);
            seen.emplace(std::move(k), int64_t(nodes.size()) - 1);
            q.emplace_back(int64_t(nodes.size()) - 1, std::move(t));
        }
    }
    st.states = nodes.size();
    st.fixpoint = !truncated;
    return st;
}

inline std::string jesc(std::string const &s)
{
    std::string o;
    for (char ch : s)
    {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch == '\n') o += "\\n";
        else if ((unsigned char)ch < 32 || (unsigned char)ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", (unsigned char)ch); o += b; }
        else o += ch;
    }
    return o;
}
inline std::string tracestr(uint16_t const *t, int n)
{
    std::string o;
    for (int i = 0; i < n; ++i) { if (i) o += ','; o += std::to_string(t[i]); }
    return o;
}

// MC_COSTGUARD: for objects so wide that an implementation may legitimately refuse
// or be slow to handle something as large as the width.  An execution that runs out
// of (limited) memory is skipped; one that takes seconds ends the scenario, which is
// then reported as incomplete.  Wrong results are still violations.
inline bool   cost_stop = false;
#ifdef MC_COSTGUARD
inline double     cost_spent = 0;
inline sigjmp_buf cost_jmp;
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline void arm_cost_guard()
{
    rlimit r{400ul << 20, 400ul << 20};
    setrlimit(RLIMIT_AS, &r);
    signal(SIGALRM, [](int) { siglongjmp(cost_jmp, 1); });
}
#endif
} // namespace mc

#ifndef MC_NO_MAIN
// ------------------------------------------------------------------------ main
int main(int argc, char **argv)
{
    using namespace mc;
    std::string mode, scen, tr, out, crumb;
    int shard = 0, nshards = 1;
    double limit = 1e9;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto nxt = [&] { if (i + 1 >= argc) _exit(96); return std::string(argv[++i]); };
        if (a == "--list") mode = "list";
        else if (a == "--run") { mode = "run"; scen = nxt(); }
        else if (a == "--replay") { mode = "replay"; scen = nxt(); tr = nxt(); }
        else if (a == "--shard") shard = atoi(nxt().c_str());
        else if (a == "--nshards") nshards = atoi(nxt().c_str());
        else if (a == "--out") out = nxt();
        else if (a == "--crumb") crumb = nxt();
        else if (a == "--thorough") thorough = true;
        else if (a == "--limit") limit = atof(nxt().c_str());
        else _exit(96);
    }
    (void)limit;
    if (mode == "list")
    {
        for (auto &s : registry()) printf("%s %s\n", s.name.c_str(), s.bfs ? "bfs" : "dfs");
        return 0;
    }
    Scenario *sc = nullptr;
    for (auto &s : registry()) if (s.name == scen) sc = &s;
    if (!sc) { fprintf(stderr, "no scenario %s\n", scen.c_str()); return 96; }

    Ctx c;
    ctx = &c;
    if (crumb.empty())
        c.cr = (Crumb *)calloc(1, sizeof(Crumb));
    else
    {
        int fd = open(crumb.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Crumb)) != 0) return 96;
        c.cr = (Crumb *)mmap(nullptr, sizeof(Crumb), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    }
    c.depth = sc->depth;
    c.shard = shard;
    c.nshards = sc->bfs ? 1 : nshards;

    std::string vmsg;
    bool        bad = false;
    BfsStats    bs;

    if (mode == "replay")
    {
        verbose = true;
        c.replay = true;
        if (!tr.empty() && tr != "-")
        {
            std::stringstream ss(tr);
            std::string       x;
            while (std::getline(ss, x, ',')) c.cr->trace[c.len++] = uint16_t(atoi(x.c_str()));
        }
        c.cr->len = uint32_t(c.len);
        // past the recorded trace (a crash during a choice) continue with 0s
        c.replay = true;
        try
        {
            if (sc->bfs) sc->bfs(c); else sc->body(c);
        }
        catch (Violation const &v) { bad = true; vmsg = v.msg; }
        catch (Prune const &) {}
        catch (std::exception const &e) { bad = true; vmsg = std::string("unexpected exception ") + e.what(); }
        catch (...) { bad = true; vmsg = "unexpected exception"; }
        if (bad) { std::cout << "FAIL: " << vmsg << std::endl; return 10; }
        std::cout << "OK" << std::endl;
        return 0;
    }

#ifdef MC_COSTGUARD
    arm_cost_guard();
#endif
    auto run1 = [&]() -> bool {
        try
        {
#ifdef MC_COSTGUARD
            if (sigsetjmp(cost_jmp, 1)) { cost_stop = true; return false; }
            itimerval on{{0, 0}, {4, 0}};
            double t0 = now();
            struct Off { ~Off() { itimerval z{{0, 0}, {0, 0}}; setitimer(ITIMER_REAL, &z, nullptr); } } at_end;
            setitimer(ITIMER_REAL, &on, nullptr);
            try { sc->body(c); }
            catch (std::bad_alloc const &) { throw Prune{}; }
            catch (std::length_error const &) { throw Prune{}; }
            if (now() - t0 > 0.05 && (cost_spent += now() - t0) > 10) cost_stop = true;
            return true;
#endif
            sc->body(c);
            return true;
        }
        catch (SkipPrefix const &) { return false; }
        catch (Prune const &) { ++c.pruned; return false; }
        catch (Violation const &v) { bad = true; vmsg = v.msg; }
        catch (std::exception const &e) { bad = true; vmsg = std::string("unexpected exception: ") + typeid(e).name(); }
        catch (...) { bad = true; vmsg = "unexpected exception"; }
        return true;
    };

    if (sc->bfs)
    {
        try { bs = sc->bfs(c); }
        catch (Violation const &v) { bad = true; vmsg = v.msg; }
        catch (std::exception const &e) { bad = true; vmsg = std::string("unexpected exception: ") + typeid(e).name(); }
        catch (...) { bad = true; vmsg = "unexpected exception"; }
    }
    else
    {
        uint64_t nextsample = 1;
        for (;;)
        {
            c.pos = 0;
            c.split = false;
            c.cr->running = 1;
            uint64_t steps0 = c.steps;
            bool counted = run1();
            c.cr->running = 0;
            if (bad) break;
            if (counted)
            {
                // a leaf above the sharding depth is reached by every shard
                if (c.nshards == 1 || c.split || c.pos > c.depth || shard == 0)
                {
                    ++c.execs;
                    steps0 = c.steps;
                    if (c.execs == nextsample && c.samples.size() < 4)
                    {
                        c.samples.emplace_back(c.cr->trace, c.cr->trace + c.pos);
                        nextsample = nextsample * 97 + 3;
                    }
                }
                c.cr->execs = c.execs;
            }
            c.steps = steps0;
            c.len = c.pos;
#ifdef MC_COSTGUARD
            if (cost_stop) break;
#endif
            if (!c.backtrack()) break;
        }
    }
    FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
    if (!f) return 96;
    fprintf(f, "{\"scenario\":\"%s\",\"shard\":%d,\"kind\":\"%s\",\"complete\":%s,"
               "\"executions\":%llu,\"choice_nodes\":%llu,\"steps\":%llu,\"pruned\":%llu,"
               "\"states\":%llu,\"transitions\":%llu,\"depth\":%d,\"fixpoint\":%s,\"samples\":[",
            scen.c_str(), shard, sc->bfs ? "bfs" : "dfs", bad || cost_stop ? "false" : "true",
            (unsigned long long)c.execs, (unsigned long long)c.nodes, (unsigned long long)c.steps,
            (unsigned long long)c.pruned, (unsigned long long)bs.states,
            (unsigned long long)bs.transitions, bs.depth, bs.fixpoint ? "true" : "false");
    for (size_t i = 0; i < c.samples.size(); ++i)
        fprintf(f, "%s\"%s\"", i ? "," : "", tracestr(c.samples[i].data(), int(c.samples[i].size())).c_str());
    fprintf(f, "]");
    if (bad)
        fprintf(f, ",\"violation\":\"%s\",\"trace\":\"%s\"", jesc(vmsg).c_str(),
                tracestr(c.cr->trace, sc->bfs ? c.len : std::max(c.pos, 0)).c_str());
    fprintf(f, "}\n");
    if (!out.empty()) fclose(f);
    return bad ? 10 : 0;
}
#endif
