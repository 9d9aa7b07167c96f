// parts: 3
// C29 - every value prints in its documented form, alone or nested, and leaves the stream as it was.
#include "support.hpp"
#include "pyincpp.hpp"
#include <iomanip>
using namespace pyincpp;
using mc::Ctx;
using mc::quote;

namespace c29
{
template <class T>
struct Spec; // all(): values with their documented text, ascending when the type is ordered
template <class T>
using Vals = std::vector<std::pair<T, std::string>>;

template <>
struct Spec<int>
{
    static Vals<int> all() { return {{-12, "-12"}, {0, "0"}, {345, "345"}}; }
};
template <>
struct Spec<std::string>
{
    static Vals<std::string> all() { return {{"", ""}, {"plain, text", "plain, text"}}; }
};
template <>
struct Spec<Int>
{
    static Vals<Int> all()
    {
        std::string n(30, '9'), z = "1" + std::string(25, '0'), m = "-1" + std::string(11, '0') + "7";
        return {{Int(m.c_str()), m}, {Int(-10), "-10"}, {Int(0), "0"}, {Int(7), "7"}, {Int(z.c_str()), z}, {Int(n.c_str()), n}};
    }
};
template <>
struct Spec<Str>
{
    static Vals<Str> all()
    {
        std::string q("q\"\\\n\0\xff z", 8);
        return {{Str(""), "\"\""}, {Str(" a, b"), "\" a, b\""}, {Str("["), "\"[\""}, {Str(q), "\"" + q + "\""}};
    }
};
template <>
struct Spec<Fraction>
{
    static Vals<Fraction> all()
    {
        return {{Fraction(-INT_MAX), "-2147483647"}, {Fraction(6, -4), "-3/2"}, {Fraction(0, -5), "0"}, {Fraction(1, INT_MAX), "1/2147483647"}, {Fraction(2, 4), "1/2"}, {Fraction(5), "5"}};
    }
};
template <>
struct Spec<Complex>
{
    static Vals<Complex> all()
    {
        return {{Complex(), "(0+0j)"}, {Complex(1, -2), "(1-2j)"}, {Complex(-1.5, 0.25), "(-1.5+0.25j)"}, {Complex(0.1, -1e20), "(0.1-1e+20j)"}, {Complex(123456789, 0), "(1.23457e+08+0j)"}, {Complex(0, -0.125), "(0-0.125j)"}};
    }
};
// Sequences up to length 2 in lexicographic order (over at most `cap` element values), plus one longer.
template <class C, class T>
Vals<C> seqs(char open, char close, std::size_t cap, bool shorter = false)
{
    Vals<T> e = Spec<T>::all();
    if (e.size() > cap)
    {
        Vals<T> f;
        for (std::size_t i = 0; i < cap; ++i)
            f.push_back(e[i * (e.size() - 1) / (cap - 1)]);
        e = f;
    }
    Vals<C> v;
    auto add = [&](std::vector<std::size_t> ix)
    {
        std::vector<T> x;
        std::string t(1, open);
        for (auto i : ix)
        {
            t += (x.empty() ? "" : ", ") + e[i].second;
            x.push_back(e[i].first);
        }
        v.push_back({C(x.begin(), x.end()), t + close});
    };
    add({});
    for (std::size_t i = 0; i < e.size(); ++i)
    {
        add({i});
        if (!shorter)
            for (std::size_t j = 0; j < e.size(); ++j)
            {
                add({i, j});
                if (i == 0 && j == e.size() - 1)
                    add({i, j, 0}), add({i, j, j, i});
            }
    }
    return v;
}
template <class T>
struct Spec<List<T>>
{
    static Vals<List<T>> all() { return seqs<List<T>, T>('[', ']', 6); }
};
template <class T>
struct Spec<Deque<T>>
{
    static Vals<Deque<T>> all() { return seqs<Deque<T>, T>('<', '>', 6); }
};
template <class T>
struct Spec<Set<T>>
{
    static Vals<Set<T>> all()
    {
        Vals<T> e = Spec<T>::all();
        Vals<Set<T>> v{{Set<T>(), "{}"}};
        std::size_t n = std::min<std::size_t>(e.size(), 12);
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = i; j < n; ++j)
                for (std::size_t k = j; k < n; ++k)
                {
                    if (j == i ? k != j : k == j && false)
                        continue;
                    Set<T> s;
                    s.add(e[k].first); // not in order
                    s.add(e[i].first);
                    s.add(e[j].first);
                    std::string t = "{" + e[i].second;
                    if (j != i)
                        t += ", " + e[j].second;
                    if (k != j)
                        t += ", " + e[k].second;
                    v.push_back({s, t + "}"});
                }
        return v;
    }
};
template <class K, class V>
struct Spec<Dict<K, V>>
{
    static Vals<Dict<K, V>> all()
    {
        Vals<K> e = Spec<K>::all();
        Vals<V> w = Spec<V>::all();
        Vals<Dict<K, V>> v{{Dict<K, V>(), "{}"}};
        std::size_t n = std::min<std::size_t>(e.size(), 6), m = std::min<std::size_t>(w.size(), 6);
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t a = 0; a < m; ++a)
            {
                Dict<K, V> d;
                d.add(e[i].first, w[a].first);
                v.push_back({d, "{" + e[i].second + ": " + w[a].second + "}"});
                for (std::size_t j = i + 1; j < n; ++j)
                    for (std::size_t b = 0; b < m; ++b)
                    {
                        Dict<K, V> d;
                        d.add(e[j].first, w[b].first);
                        d.add(e[i].first, w[a].first);
                        v.push_back({d, "{" + e[i].second + ": " + w[a].second + ", " + e[j].second + ": " + w[b].second + "}"});
                    }
            }
        return v;
    }
};
template <>
struct Spec<Tuple<>>
{
    static Vals<Tuple<>> all() { return {{Tuple<>(), "()"}}; }
};
template <class A>
struct Spec<Tuple<A>>
{
    static Vals<Tuple<A>> all()
    {
        Vals<Tuple<A>> v;
        for (auto& [x, t] : Spec<A>::all())
            v.push_back({Tuple<A>(x), "(" + t + ",)"});
        return v;
    }
};
template <class A, class B>
struct Spec<Tuple<A, B>>
{
    static Vals<Tuple<A, B>> all()
    {
        Vals<Tuple<A, B>> v;
        for (auto& [x, t] : Spec<A>::all())
            for (auto& [y, u] : Spec<B>::all())
                v.push_back({Tuple<A, B>(x, y), "(" + t + ", " + u + ")"});
        return v;
    }
};
template <class A, class B, class C>
struct Spec<Tuple<A, B, C>>
{
    static Vals<Tuple<A, B, C>> all()
    {
        Vals<Tuple<A, B, C>> v;
        for (auto& [x, t] : Spec<A>::all())
            for (auto& [y, u] : Spec<B>::all())
                for (auto& [z, w] : Spec<C>::all())
                    v.push_back({Tuple<A, B, C>(x, y, z), "(" + t + ", " + u + ", " + w + ")"});
        return v;
    }
};

// ---- a type-erased value ---------------------------------------------------------------------------------
struct Any
{
    std::string type, text;
    std::function<std::ostream&(std::ostream&)> print;
    std::function<bool()> intact; // still equal to what it was
    bool is_int = false;
};
typedef std::vector<Any> Pool;
template <class T>
Pool pool(const char* name)
{
    Pool p;
    for (auto& [v, t] : Spec<T>::all())
    {
        auto x = std::make_shared<T>(v);
        auto y = std::make_shared<T>(v);
        p.push_back({name, t, [x](std::ostream& o) -> std::ostream& { return o << std::as_const(*x); }, [x, y] { return *x == *y; }, std::is_same_v<T, Int>});
    }
    return p;
}
inline std::vector<Pool>& pools()
{
    static std::vector<Pool> v;
    return v;
}
static void fill_pools() // each compilation adds its share
{
#define POOL(...) pools().push_back(pool<__VA_ARGS__>(#__VA_ARGS__))
#if PART == 0
    POOL(Int);
    POOL(Complex);
    POOL(List<Str>);
    POOL(List<std::string>);
    POOL(Deque<Str>);
    POOL(Set<Int>);
    POOL(Dict<int, int>);
    POOL(Dict<Fraction, Complex>);
    POOL(Tuple<Str>);
    POOL(Tuple<Str, Int, Str>);
    POOL(List<Set<int>>);
    POOL(List<Tuple<>>);
    POOL(Deque<Tuple<Int, Str>>);
    POOL(Dict<Str, List<Int>>);
    POOL(Dict<List<int>, Set<int>>);
    POOL(Tuple<Tuple<>>);
    POOL(Tuple<List<Int>, Set<int>>);
    POOL(Dict<int, List<Tuple<int>>>);
#elif PART == 1
    POOL(Str);
    POOL(List<int>);
    POOL(List<Fraction>);
    POOL(Deque<int>);
    POOL(Deque<Complex>);
    POOL(Set<Str>);
    POOL(Dict<Str, Int>);
    POOL(Tuple<>);
    POOL(Tuple<Int, Str>);
    POOL(List<List<Int>>);
    POOL(List<Dict<int, int>>);
    POOL(Deque<List<Int>>);
    POOL(Set<List<int>>);
    POOL(Dict<int, Deque<int>>);
    POOL(Dict<Int, Tuple<Int>>);
    POOL(Tuple<Tuple<>, Tuple<>>);
    POOL(Tuple<Dict<int, int>, Deque<int>>);
    POOL(Tuple<List<Tuple<Int>>, int>);
#else
    POOL(Fraction);
    POOL(List<Int>);
    POOL(List<Complex>);
    POOL(Deque<Int>);
    POOL(Set<int>);
    POOL(Set<Fraction>);
    POOL(Dict<Int, Fraction>);
    POOL(Tuple<Int>);
    POOL(Tuple<int, Fraction, Complex>);
    POOL(List<Deque<int>>);
    POOL(List<Tuple<int>>);
    POOL(Deque<Deque<int>>);
    POOL(Set<Deque<Str>>);
    POOL(Dict<int, Dict<int, int>>);
    POOL(Tuple<List<Int>>);
    POOL(Tuple<Tuple<Int>, int>);
    POOL(List<Dict<Str, List<int>>>);
    POOL(Deque<List<Set<int>>>);
#endif
#undef POOL
}
inline const Pool& flat(std::size_t per_type)
{
    static std::map<std::size_t, Pool> m;
    Pool& p = m[per_type];
    if (p.empty())
        for (auto& q : pools())
        {
            std::size_t n = std::min(per_type, q.size());
            for (std::size_t i = 0; i < n; ++i)
                p.push_back(q[n == 1 ? q.size() / 2 : i * (q.size() - 1) / (n - 1)]);
        }
    return p;
}
struct State
{
    std::ios_base::fmtflags f;
    std::streamsize p;
    char fill;
    bool operator==(const State&) const = default;
};
inline State state(const std::ostream& o)
{
    return {o.flags(), o.precision(), o.fill()};
}
inline std::string show(const State& s)
{
    return "flags " + std::to_string(s.f) + " precision " + std::to_string(s.p) + " fill " + std::to_string(s.fill);
}
inline void preset(std::ostream& o, int k)
{
    switch (k)
    {
    case 1: o << std::setfill('*'); break;
    case 2: o << std::hex << std::showbase << std::uppercase; break;
    case 3: o << std::left << std::setfill('.'); break;
    case 4: o << std::showpos << std::internal; break;
    case 5: o << std::fixed << std::setprecision(2); break;
    case 6: o << std::boolalpha << std::scientific << std::setprecision(0) << std::oct; break;
    case 7: o << std::setprecision(17); break;
    case 8: o.imbue(std::locale(std::locale::classic(), new mc::ForeignLocale::Punct)); break;
    }
}
// a user's type whose look depends on a user's own entry in the stream
struct Styled
{
    int v = 0;
    static int slot()
    {
        static const int i = std::ios_base::xalloc();
        return i;
    }
    auto operator<=>(const Styled&) const = default;
    friend std::ostream& operator<<(std::ostream& o, const Styled& s) { return o.iword(slot()) ? o << "<b>" << s.v << "</b>" : o << s.v; }
};
// An element looks inside a container as it does alone on the same stream.
template <class T>
void inside(Ctx& c, const T& a, const T& b)
{
    int k = c.choose(10), depth = c.choose(2);
    auto make = [k](std::ostringstream& o)
    {
        preset(o, k);
        if (k == 9)
            o.iword(Styled::slot()) = 1;
    };
    auto text = [&](const auto& v) { std::ostringstream o; make(o); o << v; return o.str(); };
    std::string x = text(a), y = text(b), z = text(7);
    auto check = [&](const auto& v, const std::string& want, const char* what)
    {
        std::string got = text(v);
        CHECK(got == want, what << " on a stream of state " << k << ": printed " << quote(got) << ", expected " << quote(want));
        c.step();
    };
    const T array[] = {a, b};
    const T* both = array;
    List<T> l(both, both + 2);
    Deque<T> d(both, both + 2);
    Set<T> s(both, both + 2);
    Dict<T, T> m;
    m.add(a, b);
    m.add(b, a);
    if (!depth)
    {
        check(l, "[" + x + ", " + y + "]", "List");
        check(d, "<" + x + ", " + y + ">", "Deque");
        check(s, "{" + x + ", " + y + "}", "Set");
        check(m, "{" + x + ": " + y + ", " + y + ": " + x + "}", "Dict");
        check(m.keys(), "{" + x + ", " + y + "}", "keys");
        check(Tuple<T>(a), "(" + x + ",)", "Tuple");
        check(Tuple<T, int, T>(a, 7, b), "(" + x + ", " + z + ", " + y + ")", "Tuple");
    }
    else
    {
        List<List<T>> ll{l, List<T>(), l};
        check(ll, "[[" + x + ", " + y + "], [], [" + x + ", " + y + "]]", "List of List");
        Dict<int, Deque<T>> dd;
        dd.add(7, d);
        check(dd, "{" + z + ": <" + x + ", " + y + ">}", "Dict of Deque");
        check(Tuple<Set<T>, Dict<T, T>>(s, m), "({" + x + ", " + y + "}, {" + x + ": " + y + ", " + y + ": " + x + "})", "Tuple of Set and Dict");
    }
    c.state(x + y + char('0' + k) + char('0' + depth));
}
inline void alone(Ctx& c, const Any& a)
{
    std::ostringstream o;
    State s = state(o);
    std::ostream& r = a.print(o);
    LOG(c, a.type << " prints " << quote(o.str()));
    CHECK(&r == &o, a.type << ": the stream is not returned");
    CHECK(o.str() == a.text, a.type << ": printed " << quote(o.str()) << ", expected " << quote(a.text));
    CHECK(state(o) == s && o.width() == 0 && o.good(), a.type << " " << quote(a.text) << ": the stream had " << show(s) << ", now has " << show(state(o)) << " width " << o.width());
    CHECK(a.intact(), a.type << " " << quote(a.text) << ": changed by printing");
    a.print(o);
    CHECK(o.str() == a.text + a.text, a.type << " " << quote(a.text) << ": printed differently the second time: " << quote(o.str()));
    c.step(2);
    c.state(a.type + a.text);
}
} // namespace c29
using namespace c29;

MC_PART
{
    fill_pools();
#if PART == 1
    mc::scenario("elements in every stream state", 16, [](Ctx& c)
                 {
        switch (c.choose(4))
        {
        case 0: inside<int>(c, -12, 3456789); break;
        case 1: inside<double>(c, 1.0 / 3, 123456.789); break;
        case 2: inside<bool>(c, false, true); break;
        case 3: inside<Styled>(c, Styled{1}, Styled{12345}); break;
        } });
#elif PART == 2
    mc::scenario("values in every stream state", 16, [](Ctx& c)
                 {
        switch (c.choose(4))
        {
        case 0: inside<Fraction>(c, c.flip() ? Fraction(-1, 3) : Fraction(-1234567), c.flip() ? Fraction(20001, 2) : Fraction(3)); break;
        case 1: inside<Int>(c, -12, Int("12345678901234567890")); break;
        case 2: inside<Str>(c, "ab", "c"); break;
        case 3: inside<long double>(c, 1e-9L, 1e30L); break;
        } });
#else
    mc::scenario("every value alone", 54, [](Ctx& c)
                 { auto& p = c.of(pools()); alone(c, c.of(p)); });
    mc::scenario("two values on one stream", 32, [](Ctx& c)
                 {
        const Pool& p = flat(mc::G.tier ? 20 : 5);
        const Any& a = c.of(p);
        const Any& b = c.of(p);
        int k = c.choose(3);
        std::ostringstream o;
        if (k == 2)
            o << std::setfill('#');
        a.print(o);
        std::string want = a.text;
        if (k)
        {
            o << ' ' << std::setw(6) << 42 << std::setw(3) << 'x' << std::setw(4) << "s";
            want += k == 2 ? " ####42##x###s" : "     42  x   s";
        }
        b.print(o);
        want += b.text;
        o << std::setw(4) << -7 << ' ' << 0.5 << ' ' << 255;
        want += k == 2 ? "##-7 0.5 255" : "  -7 0.5 255";
        CHECK(o.str() == want, a.type << " " << quote(a.text) << ", then " << b.type << " " << quote(b.text) << " (variant " << k << "): printed " << quote(o.str()) << ", expected " << quote(want));
        CHECK(a.intact() && b.intact(), "changed by printing");
        c.step(2);
        c.state(a.type + a.text + b.type + b.text + char('0' + k)); });
    mc::scenario("every stream state", 16, [](Ctx& c)
                 {
        const Any& a = c.of(flat(12));
        int k = c.choose(7), w = c.choose(4) * 7;
        std::ostringstream o;
        preset(o, k);
        State s = state(o);
        o << std::setw(w);
        a.print(o);
        CHECK(state(o) == s && o.good(), a.type << " " << quote(a.text) << ": the stream had " << show(s) << ", now has " << show(state(o)));
        CHECK(o.width() == 0 || o.width() == w, "width changed to " << o.width());
        if (a.is_int) // decimal digits whatever the state
        {
            std::string t = o.str();
            while (t.size() > a.text.size() && t.back() == s.fill)
                t.pop_back();
            std::size_t i = 0;
            while (t.size() - i > a.text.size() && t[i] == s.fill)
                ++i;
            CHECK(t.substr(i) == a.text, "Int " << a.text << " with width " << w << " printed as " << quote(o.str()));
        }
        CHECK(a.intact(), "changed by printing");
        c.step();
        c.state(a.type + a.text + char('0' + k) + char('a' + w)); });
    mc::scenario("Complex components", 4, [](Ctx& c)
                 { // the sign is printed once, as a character between the parts; which one a zero or NaN has is left open
        static const double d[] = {0.0, -0.0, 1, -1, 0.5, -2.25, 1e20, -1e20, 1e-7, -1e-7, 123456789, -1.0 / 3, 5e-324, -1.7976931348623157e308, INFINITY, -INFINITY, NAN, -NAN};
        double re = c.of(d), im = c.of(d);
        Complex z(re, im);
        if (c.flip())
            z = Complex(re, -im).conjugate();
        auto num = [](double v) { std::ostringstream o; o << v; return o.str(); };
        std::string got = mc::str(z), mag = num(std::fabs(im)) + "j)";
        bool open = im == 0 || im != im;
        bool ok = got == "(" + num(re) + "+" + mag ? open || im > 0 : got == "(" + num(re) + "-" + mag ? open || im < 0 : false;
        CHECK(ok, "Complex with parts " << num(re) << " and " << num(im) << " printed as " << quote(got));
        c.step();
        c.state(got); });
    mc::scenario("failed stream", 4, [](Ctx& c)
                 {
        const Any& a = c.of(flat(8));
        std::ostringstream o;
        o.setstate(c.flip() ? std::ios::failbit : std::ios::badbit);
        a.print(o);
        CHECK(o.str().empty() && !o.good() && a.intact(), a.type << ": printing to a failed stream");
        c.step();
        c.state(a.type + a.text); });
    mc::scenario("very large values", 8, [](Ctx& c)
                 {
        int n = c.of(std::vector<int>{9, 10, 11, 99, 100, 255, 256, 257, 1000, 4096, 5000, 65535, 65536, 70000}), kind = c.choose(6);
        std::string want;
        std::ostringstream o;
        if (kind == 0)
        {
            for (int i = 0; i < n; ++i)
                want += char('0' + (i % 7 == 3 ? 0 : (i + 1) % 10));
            want[0] = '9';
            if (n & 1)
                want = "-" + want;
            o << Int(want.c_str());
        }
        else if (kind == 1)
        {
            for (int i = 0; i < n; ++i)
                want += char(i * 37);
            o << Str(want);
            want = "\"" + want + "\"";
        }
        else
        {
            List<int> l;
            Deque<int> d;
            Set<int> s;
            Dict<int, int> m;
            for (int i = 0; i < n; ++i)
            {
                want += (i ? ", " : "") + std::to_string(i * 3 - 50) + (kind == 5 ? ": " + std::to_string(long(i) * i % 99991) : "");
                l += i * 3 - 50;
                d.push_back(i * 3 - 50);
                s.add(i * 3 - 50);
                m.add(i * 3 - 50, int(long(i) * i % 99991));
            }
            want = (kind == 2 ? "[" : kind == 3 ? "<" : "{") + want + (kind == 2 ? "]" : kind == 3 ? ">" : "}");
            if (kind == 2)
                o << l;
            else if (kind == 3)
                o << d;
            else if (kind == 4)
                o << s;
            else
                o << m;
        }
        CHECK(o.str() == want, "printed " << quote(o.str()) << ", expected " << quote(want));
        c.step();
        c.state(kind * 100000 + n); });
    mc::scenario("derived values", 4, [](Ctx& c)
                 { // values that come out of operations, and the views of a dictionary
        Dict<Str, Int> d;
        auto ks = Spec<Str>::all();
        auto vs = Spec<Int>::all();
        int mask = c.choose(16);
        std::string kt, it;
        for (int i = 0; i < 4; ++i)
            if (mask >> i & 1)
            {
                d.add(ks[i].first, vs[i].first);
                kt += (kt.empty() ? "" : ", ") + ks[i].second;
                it += (it.empty() ? "" : ", ") + ks[i].second + ": " + vs[i].second;
            }
        CHECK(mc::str(d.keys()) == "{" + kt + "}", "keys print as " << quote(mc::str(d.keys())));
        CHECK(mc::str(d) == "{" + it + "}", "dictionary prints as " << quote(mc::str(d)));
        CHECK(mc::str(d.items()) == "{" + it + "}", "items print as " << quote(mc::str(d.items())));
        CHECK(mc::str(make_tuple(d, d.keys())) == "({" + it + "}, {" + kt + "})", "tuple of a dictionary and its keys");
        Int big = Int::pow(10, 20) + 5;
        CHECK(mc::str(big) == "100000000000000000005" && mc::str(-big) == "-100000000000000000005" && mc::str(big - big) == "0", "computed Int");
        CHECK(mc::str(Fraction(1, 2) + Fraction(1, 2)) == "1" && mc::str(-Fraction(1, 2)) == "-1/2", "computed Fraction");
        CHECK(mc::str(Complex(1, 2) - Complex(1, 5)) == "(0-3j)", "computed Complex");
        CHECK(mc::str(Str("ab") * 2 + 'c') == "\"ababc\"", "computed Str");
        c.step(6);
        c.state(mask); });
#endif
}
