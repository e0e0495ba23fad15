// C28: every exception can be read through std::exception for as long as it lives.
#define TEXT 1
#include "C13_errors.cpp"
#if PART == 9
template <class E> std::string cls();
#define N(x) template <> std::string cls<grb::x>() { return #x; }
N(IndexOutOfBoundsException) N(PanicException) N(InvalidValueException) N(InvalidIndexException) N(DimensionException) N(OutputNotEmptyException) N(NoValueException)

static std::string msg(mc::Ctx &c)
{
    static int const len[] = {0, 1, 2, 7, 14, 15, 16, 17, 31, 32, 63, 64, 200, 5000};
    int n = len[c.choose(14)];
    static char const fill[] = {'x', ' ', '%', '\n', ':', '\xe9'};
    char f = fill[c.choose(6)];
    std::string s(n, f); if (n > 1) { s[0] = 'a'; s[n - 1] = 'z'; }
    return s;
}
static void look(std::exception const &e, std::string const &want, char const *when)
{
    char const *t = e.what();
    MC_CHECK(t, "no text ", when);
    std::string a = t;
    MC_CHECK(a.find(want) != std::string::npos, "text ", when, ": '", a, "' lacks '", want, "'");
    scribble();
    MC_CHECK(a == t && a == e.what(), "text changes ", when);
    mc::step();
}
template <class E> void life(mc::Ctx &c)
{
    static_assert(std::is_base_of<std::exception, E>::value && std::is_convertible<E *, std::exception *>::value, "a standard exception");
    bool dflt = c.flip();
    std::string m = dflt ? std::string() : msg(c);
    int how = c.choose(7);
    MC_SAY(cls<E>(), dflt ? " default" : " with message of length ", m.size(), " way ", how);
    E *p = dflt ? new E() : new E(m);
    std::string save = m; m.assign(m.size(), '?');
    std::string const full = cls<E>();
    auto both = [&](std::exception const &e, char const *w) { look(e, save, w); look(e, full, w); };
    both(*p, "when made");
    if (how == 0) { E q(*p); delete p; p = nullptr; both(q, "of a copy that outlives its source"); }
    else if (how == 1) { E q("other"); q = *p; delete p; p = nullptr; both(q, "after assignment"); }
    else if (how == 2) { E q(std::move(*p)); delete p; p = nullptr; both(q, "after a move"); }
    else if (how == 3) { try { throw *p; } catch (std::exception const &e) { delete p; p = nullptr; both(e, "when caught as std::exception"); } }
    else if (how == 4) { std::exception_ptr k; try { throw *p; } catch (...) { k = std::current_exception(); } delete p; p = nullptr; scribble();
        for (int i = 0; i < 2; ++i) try { std::rethrow_exception(k); } catch (std::exception const &e) { both(e, "when rethrown later"); } }
    else if (how == 5) { bool got = false; try { try { throw *p; } catch (E const &) { throw; } } catch (E const &e) { got = true; both(e, "when caught as itself and passed on"); } MC_CHECK(got, "not caught as its own class"); }
    else { std::vector<E> v; for (int i = 0; i < 5; ++i) v.push_back(*p); delete p; p = nullptr; for (auto &e : v) both(e, "inside a grown vector"); }
    delete p;
}
MC_SCENARIO(classes, 3)
{
    switch (c.choose(7))
    {
    case 0: return life<grb::IndexOutOfBoundsException>(c);
    case 1: return life<grb::PanicException>(c);
    case 2: return life<grb::InvalidValueException>(c);
    case 3: return life<grb::InvalidIndexException>(c);
    case 4: return life<grb::DimensionException>(c);
    case 5: return life<grb::OutputNotEmptyException>(c);
    default: return life<grb::NoValueException>(c);
    }
}
// accessors and constructors that refuse: class and text agree
template <class F> void refused(char const *what, char const *cl, F f)
{
    MC_SAY(what, " must throw ", cl);
    std::string text;
    try { f(); }
    catch (std::exception const &e) { char const *t = e.what(); text = t; scribble(); MC_CHECK(text == t, "text changes"); }
    mc::step();
    MC_CHECK(!text.empty(), what, " was accepted");
    MC_CHECK(text.rfind(cl, 0) == 0, what, ": text '", text, "' expected a ", cl);
}
MC_SCENARIO(containers, 2)
{
    int r = 1 + c.choose(3), k = 1 + c.choose(3);
    int i = c.choose(r + 2), j = c.choose(k + 2);
    int fill = c.choose(3);
    grb::Matrix<int> A(r, k); grb::Vector<int> v(r);
    if (fill) for (int a = 0; a < r; ++a) { if (fill == 2 || a % 2) v.setElement(a, 1); for (int b = 0; b < k; ++b) if (fill == 2 || (a + b) % 2) A.setElement(a, b, 1); }
    bool mo = i >= r || j >= k, vo = i >= r;
    switch (c.choose(12))
    {
    case 0: if (mo) refused("Matrix::setElement", "IndexOutOfBoundsException", [&] { A.setElement(i, j, 3); }); break;
    case 1: if (mo) refused("Matrix::extractElement", "IndexOutOfBoundsException", [&] { A.extractElement(i, j); });
            else if (!A.hasElement(i, j)) refused("Matrix::extractElement", "NoValueException", [&] { A.extractElement(i, j); }); break;
    case 2: if (mo) refused("Matrix::removeElement", "IndexOutOfBoundsException", [&] { A.removeElement(i, j); }); break;
    case 3: if (vo) refused("Vector::setElement", "IndexOutOfBoundsException", [&] { v.setElement(i, 3); }); break;
    case 4: if (vo) refused("Vector::extractElement", "IndexOutOfBoundsException", [&] { v.extractElement(i); });
            else if (!v.hasElement(i)) refused("Vector::extractElement", "NoValueException", [&] { v.extractElement(i); }); break;
    case 5: if (vo) refused("Vector::removeElement", "IndexOutOfBoundsException", [&] { v.removeElement(i); }); break;
    case 6: if (vo) refused("Vector::hasElement", "IndexOutOfBoundsException", [&] { v.hasElement(i); }); break;
    case 7: if (i != j) refused("Matrix::build", "DimensionException", [&] { grb::IndexArrayType I(i, 0), J(j, 0); A.build(I, J, std::vector<int>(i, 1)); }); break;
    case 8: if (i != j) refused("Vector::build", "DimensionException", [&] { grb::IndexArrayType I(i, 0); v.build(I, std::vector<int>(j, 1)); }); break;
    case 9: if (!i || !j) refused("Matrix::resize", "InvalidValueException", [&] { A.resize(i, j); }); break;
    case 10: if (!i) refused("Vector::resize", "InvalidValueException", [&] { v.resize(i); }); break;
    default: if (!i) refused("Vector(size)", "InvalidValueException", [&] { grb::Vector<int> x(i); }); break;
    }
}
#endif
