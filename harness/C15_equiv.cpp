// C15: one program, two backends.  Each backend's build of C15_side.cpp is a
// shared object of its own; every program is run on both under the same
// choices and everything its caller can observe is compared.
#include "../mc/mc.hpp"
#include "C15_out.hpp"
#include <dlfcn.h>
#if 0
#include "C15_side.cpp"      // (for the driver: part of this check's sources)
#endif

struct Side {
    void *h = nullptr;
    void (*init)(bool, bool);
    int (*count)();
    char const *(*name)(int);
    int (*depth)(int);
    void (*run)(int, mc::Ctx &, Out &);
};
static Side load(char const *which)
{
    char    b[4096];
    ssize_t k = readlink("/proc/self/exe", b, sizeof b - 1);
    std::string f = std::string(b, k > 0 ? k : 0) + "." + which + ".so";
    Side s;
    s.h = dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!s.h) { fprintf(stderr, "%s\n", dlerror()); _exit(96); }
    auto get = [&](auto &p, char const *n) { p = reinterpret_cast<std::decay_t<decltype(p)>>(dlsym(s.h, n)); if (!p) { fprintf(stderr, "no %s\n", n); _exit(96); } };
    get(s.init, "side_init"); get(s.count, "side_count"); get(s.name, "side_name"); get(s.depth, "side_depth"); get(s.run, "side_run");
    return s;
}
static Side seq, opt;
static void body(int i, mc::Ctx &c)
{
    static Out a, b;
    static bool once = false;
    if (!once) { once = true; seq.init(mc::thorough, mc::verbose); opt.init(mc::thorough, mc::verbose); }
    int const pos0 = c.pos;
    a.clear(mc::verbose);
    seq.run(i, c, a);
    auto second = [&](Side &s, Out &o, bool want) {
        mc::Ctx d;
        d.cr = c.cr; d.pos = pos0; d.len = c.pos; d.replay = true;
        o.clear(want);
        s.run(i, d, o);
        return d.pos == c.pos;
    };
    bool fits = second(opt, b, mc::verbose);
    mc::step(a.n);
    if (fits && same(a, b)) { MC_SAY("both backends:\n", a.text); return; }
    second(seq, a, true);
    second(opt, b, true);
    mc::fail(mc::cat("the backends differ\nsequential:\n", a.text, "optimized_sequential:\n", b.text));
}
static bool const ready = [] {
    seq = load("seq"); opt = load("opt");
    for (int i = 0; i < seq.count(); ++i)
        mc::registry().push_back({seq.name(i), seq.depth(i), [i](mc::Ctx &c) { body(i, c); }, nullptr});
    return true;
}();
