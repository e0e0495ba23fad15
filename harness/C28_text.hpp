// What the text of an exception from a refused operation must say.
#include <cstring>
#include <exception>
template <class OP> std::string stem()
{
    if constexpr (std::is_same_v<OP, OpMxm>) return "mxm";
    else if constexpr (std::is_same_v<OP, OpMxv>) return "mxv";
    else if constexpr (std::is_same_v<OP, OpVxm>) return "vxm";
    else if constexpr (std::is_same_v<OP, OpKron>) return "kronecker";
    else if constexpr (std::is_same_v<OP, OpTr>) return "transpose";
    else if constexpr (std::is_same_v<OP, OpRed>) return "reduce";
    else if constexpr (is_ext<OP>) return "extract";
    else if constexpr (OP::SEQ) return "assign";
    else if constexpr (std::is_same_v<OP, OpAddM> || std::is_same_v<OP, OpAddV>) return "eWiseAdd";
    else if constexpr (std::is_same_v<OP, OpMultM> || std::is_same_v<OP, OpMultV>) return "eWiseMult";
    else return "apply";
}
// value of a name such as C.nrows or mask.size; -1 = not one of those
template <class OP> int value(std::string const &t, Dim const &d)
{
    auto k = t.find('.');
    if (k == std::string::npos) return -1;
    std::string o = t.substr(0, k), f = t.substr(k + 1);
    int r, c;
    bool vm = std::is_same_v<OP, OpVxm>, mv = std::is_same_v<OP, OpMxv>;
    if (o == "C" || o == "w") { r = d.cr; c = d.cc; }
    else if (o == "Mask" || o == "mask") { r = d.mr; c = OP::M == 'm' ? d.mc : d.mr; }
    else if (o == "A") { r = vm ? d.br : d.ar; c = vm ? d.bc : d.ac; }
    else if (o == "B" || o == "v") { r = d.br; c = d.bc; }
    else if (o == "u") { r = mv ? d.br : d.ar; c = 1; }
    else return -1;
    if (std::is_same_v<OP, OpKron> || OP::A == 'n') { if (o != "C" && o != "w" && o != "Mask" && o != "mask") return -1; }
    if (f == "nrows" || f == "size") return r;
    return f == "ncols" ? c : -1;
}
inline std::vector<std::string> words(std::string const &s) { std::istringstream is(s); std::vector<std::string> r; std::string w; while (is >> w) { while (!w.empty() && (w.back() == ',' || w.back() == ')')) w.pop_back(); while (!w.empty() && w[0] == '(') w.erase(0, 1); r.push_back(w); } return r; }
inline void scribble() { char volatile b[512]; for (auto &x : b) x = 'z'; std::vector<std::string> v; for (int i = 0; i < 8; ++i) v.push_back(std::string(20 * i + 10, '#')); }

template <class OP, class F> void check_text(F call, Dim const &d, P const &p)
{
    std::string name, text, again;
    std::exception_ptr keep;
    auto take = [&](char const *nm, std::exception const &e) { name = nm; char const *t = e.what(); text = t; scribble(); again = t; keep = std::current_exception(); };
    try { call(); }
    catch (grb::DimensionException const &e) { take("DimensionException", e); }
    catch (grb::IndexOutOfBoundsException const &e) { take("IndexOutOfBoundsException", e); }
    catch (grb::InvalidIndexException const &e) { take("InvalidIndexException", e); }
    MC_CHECK(!name.empty(), OP::name(), ": a call that must be refused was accepted");
    MC_CHECK(text == again, "the text changed while the exception was alive");
    scribble();
    try { std::rethrow_exception(keep); } catch (std::exception const &e) { MC_CHECK(text == e.what(), "the text changed on rethrow: ", e.what(), " was ", text); }
    MC_SAY("text: ", text);
    MC_CHECK(text.rfind(name + ": ", 0) == 0, "text does not start with the class: '", text, "' from ", name);
    MC_CHECK(text.find(stem<OP>()) != std::string::npos, "text does not name the operation: '", text, "' from ", OP::name());
    auto w = words(text);
    for (size_t i = 1; i + 1 < w.size(); ++i)
    {
        std::string const &op = w[i];
        if (op != "!=" && op != ">=" && op != ">") continue;
        auto holds = [&](long a, long b) { return op == "!=" ? a != b : op == ">=" ? a >= b : a > b; };
        int a = value<OP>(w[i - 1], d), b = value<OP>(w[i + 1], d);
        if (a >= 0 && b >= 0) MC_CHECK(holds(a, b), "the text gives a wrong cause: '", text, "' but ", w[i - 1], " is ", a, " and ", w[i + 1], " is ", b);
        auto num = [](std::string const &s) { return !s.empty() && s.find_first_not_of("0123456789") == std::string::npos; };
        if (num(w[i - 1]) && num(w[i + 1]))
        {
            long x = std::stol(w[i - 1]), y = std::stol(w[i + 1]);
            MC_CHECK(holds(x, y), "the text gives a wrong cause: '", text, "'");
            auto known = [&](long v) {
                for (int k : {d.cr, d.cc, d.mr, d.mc, d.ar, d.ac, d.br, d.bc, d.ar * d.br, d.ac * d.bc}) if (k == v) return true;
                return v == long(p.I.size()) || v == long(p.J.size()) || v == long(p.k);
            };
            MC_CHECK(known(x) && known(y), "the text has numbers that are not of this call: '", text, "'");
        }
    }
}
