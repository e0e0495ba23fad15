// What one execution of a program left behind, as seen by its caller.
#pragma once
#include <cmath>
#include <cstdint>
#include <string>
#include <vector>
struct Out {
    uint64_t            h = 1469598103934665603ull;   // everything exact
    std::vector<double> fp;                           // results of rounded arithmetic
    std::string         text;                         // only when asked for
    bool                want = false;
    unsigned            n = 0;
    void word(uint64_t x) { h = (h ^ x) * 1099511628211ull; h ^= h >> 29; }
    void clear(bool w) { h = 1469598103934665603ull; fp.clear(); text.clear(); want = w; n = 0; }
};
inline bool same(Out const &a, Out const &b)
{
    if (a.h != b.h || a.fp.size() != b.fp.size()) return false;
    for (size_t i = 0; i < a.fp.size(); ++i)
    {
        double x = a.fp[i], y = b.fp[i];
        if (x == y || (std::isnan(x) && std::isnan(y))) continue;
        if (!(std::fabs(x - y) <= 1e-9 * std::fmax(1, std::fmax(std::fabs(x), std::fabs(y))))) return false;
    }
    return true;
}
