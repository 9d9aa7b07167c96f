// parts: 6
// C39: values of every type act as elements and keys of every container.
// The operations of the containers run in lockstep on elements of every type and on native integer keys; every element
// is made anew from its key by one of several routes, so equal values do not share a history.
#include "confam.hpp"
#include "pyincpp.hpp"
#include <unordered_map>
#include <unordered_set>
#if __has_include(<eigen3/Eigen/Dense>)
#define HAVE_EIGEN 1
#endif
using namespace fam;
using namespace pyincpp;

namespace fam
{
inline int turn = 0;
inline int next_turn(int n) { return turn = (turn + 1) % (n * 60), turn % n; }
// keys 0..8; ascending for the ordered types
template <>
struct El<Int>
{
    static const char* text(int k)
    {
        static const char* t[] = {"-100000000000000000000", "-2", "-1", "0", "1", "9", "10", "99999999999999999999", "100000000000000000000"};
        return t[k];
    }
    static Int make(int k)
    {
        Int x(text(k));
        switch (next_turn(5))
        {
            case 0: return x;
            case 1: return Int((std::string(text(k)[0] == '-' ? "-000" : "+00") + (text(k) + (text(k)[0] == '-'))).c_str());
            case 2: return x - 7 + 7;
            case 3: ++x; return --x;
        }
        Int y = std::move(x);
        x = Int("123456789123456789");
        x = std::move(y);
        return x * 3 / 3;
    }
    static int key(const Int& x)
    {
        std::string s = mc::str(x);
        for (int k = 0; k < 9; ++k)
            if (s == text(k))
                return k;
        return -1;
    }
    static std::string shown(int k) { return text(k); }
    static const char* name() { return "Int"; }
    static constexpr bool ordered = true, hashed = true;
};
template <>
struct El<Str>
{
    static std::string text(int k)
    {
        static const std::string t[] = {"", std::string(1, '\0'), " ", "a", std::string("a\0b", 3), "ab", "b", "b and a long rest of it, on the heap", "\xff"};
        return t[k];
    }
    static Str make(int k)
    {
        std::string s = text(k);
        switch (next_turn(4))
        {
            case 0: return Str(s);
            case 1: return (Str("!") + Str(s)).erase(0, 1);
            case 2: return s.empty() ? Str("q").slice(-1, 0) : (Str(s) * 3).slice(0, int(s.size()));
        }
        Str x(s), y = std::move(x);
        x = Str("something else altogether, and long");
        x = std::move(y);
        return x.reverse().reverse();
    }
    static int key(const Str& x)
    {
        std::string s(x.begin(), x.end());
        for (int k = 0; k < 9; ++k)
            if (s == text(k))
                return k;
        return -1;
    }
    static std::string shown(int k) { return '"' + text(k) + '"'; }
    static const char* name() { return "Str"; }
    static constexpr bool ordered = true, hashed = true;
};
template <>
struct El<Fraction>
{
    static constexpr int num[] = {INT_MIN, -3, -1, -1, 0, 1, 1, INT_MAX, INT_MAX - 1}, den[] = {1, 2, 1, 3, 1, 3, 2, INT_MAX - 1, INT_MAX - 2}; // the last two are one double
    static Fraction make(int k)
    {
        bool big = k == 0 || k > 6;
        switch (next_turn(4))
        {
            case 0: return Fraction(num[k], den[k]);
            case 1: return big ? Fraction(num[k]) / Fraction(den[k]) : Fraction(num[k] * 6, den[k] * 6);
            case 2: return big ? Fraction(num[k]) / Fraction(3) * Fraction(3) / Fraction(den[k]) : Fraction(num[k], den[k]) - Fraction(1, 7) + Fraction(1, 7);
        }
        Fraction x(num[k], den[k]), y = std::move(x);
        x = Fraction(5, 7);
        x = std::move(y);
        return big ? x : Fraction(-num[k], -den[k]);
    }
    static int key(const Fraction& x)
    {
        for (int k = 0; k < 9; ++k)
            if (x.numerator() == num[k] && x.denominator() == den[k])
                return k;
        return -1;
    }
    static std::string shown(int k) { return std::to_string(num[k]) + (den[k] == 1 ? "" : "/" + std::to_string(den[k])); }
    static const char* name() { return "Fraction"; }
    static constexpr bool ordered = true, hashed = true;
};
template <>
struct El<Complex>
{
    static constexpr int re[] = {0, 1, -1, 0, 0, 2, -2, 1, 1}, im[] = {0, 0, 0, 1, -1, 2, -2, 1, -1};
    static Complex make(int k)
    {
        Complex x(re[k], im[k]);
        switch (next_turn(3))
        {
            case 0: return x;
            case 1: return x + Complex(3, -4) - Complex(3, -4);
        }
        Complex y = std::move(x);
        x = Complex(9, 9);
        x = std::move(y);
        return x;
    }
    static int key(const Complex& x)
    {
        for (int k = 0; k < 9; ++k)
            if (x.real() == re[k] && x.imag() == im[k])
                return k;
        return -1;
    }
    static std::string shown(int k)
    {
        return "(" + std::to_string(re[k]) + (im[k] < 0 ? "-" : "+") + std::to_string(std::abs(im[k])) + "j)";
    }
    static const char* name() { return "Complex"; }
    static constexpr bool ordered = false, hashed = true;
};
// lexicographic order of sequences over {0, 1}
inline const std::vector<Seq>& words()
{
    static const std::vector<Seq> w{{}, {0}, {0, 0}, {0, 0, 1}, {0, 1}, {1}, {1, 0, 0, 0}, {1, 0, 1}, {1, 1}};
    return w;
}
template <class C>
struct Sequences
{
    typedef std::decay_t<decltype(*std::declval<C>().begin())> E;
    static int inner(int x) { return x ? 5 : 2; } // keys of the elements inside
    static C make(int k)
    {
        std::vector<E> v;
        for (int x : words()[k])
            v.push_back(El<E>::make(inner(x)));
        switch (next_turn(2))
        {
            case 0: {
                C c;
                for (auto& e : v)
                    if constexpr (requires { c += e; })
                        c += e;
                    else
                        c.push_back(e);
                return c;
            }
        }
        C c, d(v.begin(), v.end());
        c = std::move(d);
        d = C{El<E>::make(1), El<E>::make(4)};
        std::swap(c, d);
        return d;
    }
    static int key(const C& c)
    {
        Seq s;
        for (auto& e : c)
            s.push_back(El<E>::key(e) == inner(0) ? 0 : El<E>::key(e) == inner(1) ? 1 : 2);
        for (int k = 0; k < 9; ++k)
            if (s == words()[k])
                return k;
        return -1;
    }
    static std::string inside(int k)
    {
        std::string s;
        for (int x : words()[k])
            s += (s.empty() ? "" : ", ") + El<E>::shown(inner(x));
        return s;
    }
    static constexpr bool ordered = true, hashed = false;
};
} // namespace fam
template <>
struct fam::El<char> // inside only
{
    static char make(int k) { return 'a' + k; }
    static int key(char c) { return c - 'a'; }
    static std::string shown(int k) { return std::string(1, char('a' + k)); }
};
namespace fam
{
template <class E>
struct El<List<E>> : Sequences<List<E>>
{
    static std::string shown(int k) { return "[" + Sequences<List<E>>::inside(k) + "]"; }
    static std::string name() { return std::string("List of ") + (std::is_same_v<E, char> ? "char" : std::is_same_v<E, Int> ? "Int" : "Str"); }
};
template <class E>
struct El<Deque<E>> : Sequences<Deque<E>>
{
    static std::string shown(int k) { return "<" + Sequences<Deque<E>>::inside(k) + ">"; }
    static std::string name() { return "Deque"; }
};
template <>
struct El<Set<Int>> // subsets of three values
{
    static Set<Int> make(int k)
    {
        Set<Int> s;
        bool down = next_turn(2);
        for (int j = 0; j < 3; ++j)
        {
            int i = down ? 2 - j : j;
            if ((k + 1) % 8 >> i & 1 || k == 8)
                s.add(El<Int>::make(k == 8 ? i + 1 : i * 3 + 1));
        }
        return s;
    }
    static int key(const Set<Int>& x)
    {
        for (int k = 0; k < 9; ++k)
            if (x == make(k))
                return k;
        return -1;
    }
    static std::string shown(int k)
    {
        std::string s;
        for (int i = 0; i < 3; ++i)
            if ((k + 1) % 8 >> i & 1 || k == 8)
                s += (s.empty() ? "" : ", ") + El<Int>::shown(k == 8 ? i + 1 : i * 3 + 1);
        return "{" + s + "}";
    }
    static const char* name() { return "Set of Int"; }
    static constexpr bool ordered = false, hashed = false;
};
template <>
struct El<Dict<Str, Fraction>>
{
    typedef Dict<Str, Fraction> D;
    static int value(int k, int i) { return k % 3 == 0 ? i : k % 3 == 1 ? 4 : 6; }
    static bool has(int k, int i) { return k < 3 ? i == 0 : k < 6 ? i == 1 : true; }
    static D make(int k)
    {
        D d;
        bool down = next_turn(2);
        for (int j = 0; j < 2; ++j)
        {
            int i = down ? 1 - j : j;
            if (has(k, i))
                d.add(El<Str>::make(i * 4 + 3), El<Fraction>::make(value(k, i)));
        }
        return d;
    }
    static int key(const D& x)
    {
        for (int k = 0; k < 9; ++k)
            if (x == make(k))
                return k;
        return -1;
    }
    static std::string shown(int k)
    {
        std::string s;
        for (int i = 0; i < 2; ++i)
            if (has(k, i))
                s += (s.empty() ? "" : ", ") + El<Str>::shown(i * 4 + 3) + ": " + El<Fraction>::shown(value(k, i));
        return "{" + s + "}";
    }
    static const char* name() { return "Dict of Str and Fraction"; }
    static constexpr bool ordered = false, hashed = false;
};
template <>
struct El<Tuple<Int, Str>>
{
    typedef Tuple<Int, Str> U;
    static U make(int k) { return U(El<Int>::make(k / 3 + 2), El<Str>::make(k % 3 + 3)); }
    static int key(const U& x)
    {
        int a = El<Int>::key(x.get<0>()), b = El<Str>::key(x.get<1>());
        return a < 2 || a > 4 || b < 3 || b > 5 ? -1 : (a - 2) * 3 + b - 3;
    }
    static std::string shown(int k) { return "(" + El<Int>::shown(k / 3 + 2) + ", " + El<Str>::shown(k % 3 + 3) + ")"; }
    static const char* name() { return "Tuple of Int and Str"; }
    static constexpr bool ordered = false, hashed = false;
};
} // namespace fam

namespace
{
template <class E>
std::string shown(const Seq& m, char open, char close)
{
    std::string s(1, open);
    for (std::size_t i = 0; i < m.size(); ++i)
        s += (i ? ", " : "") + El<E>::shown(m[i]);
    return s + close;
}
// spread four keys over the nine values
const int MAP4[] = {1, 3, 4, 7};
template <class E>
E mk(int k) { return El<E>::make(MAP4[k]); }
Seq real(const Seq& m)
{
    Seq r;
    for (int k : m)
        r.push_back(MAP4[k]);
    return r;
}
template <class E>
std::vector<E> made(const Seq& m)
{
    std::vector<E> v;
    for (int k : m)
        v.push_back(mk<E>(k));
    return v;
}
template <class C>
void holds(const C& c, const Seq& m, char open, char close, const char* what)
{
    typedef std::decay_t<decltype(*c.begin())> E;
    Seq r = real(m), g = keys(c);
    CHECK(g == r && c.size() == int(m.size()), what << ": keys " << show(g) << ", expected " << show(r));
    std::string t = mc::str(c), w = shown<E>(r, open, close);
    CHECK(t == w, what << ": prints " << mc::quote(t) << ", expected " << mc::quote(w));
}
template <class E>
void sequences()
{
    std::string n = El<E>::name();
    mc::scenario("List<" + n + ">", 32, [](Ctx& c)
                 {
        turn = 0;
        Seq m = seq(c, 4, mc::G.tier ? 5 : 4);
        auto v = made<E>(m);
        List<E> l = c.flip() ? List<E>(v) : List<E>();
        if (l.is_empty())
            for (auto& e : v)
                l += e;
        int len = m.size(), which = c.choose(18), k = c.choose(4), at = c.choose(3);
        int i = at == 0 ? 0 : at == 1 ? len / 2 : len;
        LOG(c, show(m) << " operation " << which << " key " << k << " position " << i);
        switch (which)
        {
            case 0: l.insert(i, mk<E>(k)); m.insert(m.begin() + i, k); break;
            case 1: if (i < len) { int g = El<E>::key(l.remove(i)); CHECK(g == MAP4[m[i]], "remove"); m.erase(m.begin() + i); } break;
            case 2: l += mk<E>(k); m.push_back(k); break;
            case 3: { l -= mk<E>(k); auto it = std::find(m.begin(), m.end(), k); if (it != m.end()) m.erase(it); break; }
            case 4: l /= mk<E>(k); m.erase(std::remove(m.begin(), m.end(), k), m.end()); break;
            case 5: l <<= i; if (len) std::rotate(m.begin(), m.begin() + i % len, m.end()); break;
            case 6: l.reverse(); std::reverse(m.begin(), m.end()); break;
            case 7: { l.uniquify(); Seq u; for (int x : m) if (std::find(u.begin(), u.end(), x) == u.end()) u.push_back(x); m = u; break; }
            case 8:
                if constexpr (El<E>::ordered)
                {
                    l.sort();
                    std::sort(m.begin(), m.end());
                }
                break;
            case 9:
                if constexpr (El<E>::ordered)
                {
                    l.sort([](const E& a, const E& b) { return a > b; });
                    std::sort(m.rbegin(), m.rend());
                }
                break;
            case 10: if (len) { l = l.slice(0, len, 2); Seq u; for (int x = 0; x < len; x += 2) u.push_back(m[x]); m = u; } break;
            case 11:
                if constexpr (std::is_default_constructible_v<E>)
                {
                    l = l * 2;
                    Seq u = m;
                    m.insert(m.end(), u.begin(), u.end());
                }
                break;
            case 12: if (i < len) { l[i] = mk<E>(k); m[i] = k; } break;
            case 13: if (len > 1) { std::swap(l[0], l[-1]); std::swap(m[0], m[len - 1]); } break;
            case 14: l.filter([k](const E& e) { return El<E>::key(e) != MAP4[k]; }); m.erase(std::remove(m.begin(), m.end(), k), m.end()); break;
            case 15: l += l; { Seq u = m; m.insert(m.end(), u.begin(), u.end()); } break;
            case 16: if (i < len) { E e = std::move(l[i]); l[i] = std::move(e); l.extend(l.begin(), l.begin() + i); Seq u(m.begin(), m.begin() + i); m.insert(m.end(), u.begin(), u.end()); } break;
            case 17: if (len) { l = l - l[0]; l.insert(0, mk<E>(k)); m.erase(std::find(m.begin(), m.end(), m[0])); m.insert(m.begin(), k); } break;
        }
        holds(l, m, '[', ']', "list");
        for (int x = 0; x < 4; ++x)
        {
            int first = std::find(m.begin(), m.end(), x) - m.begin(), size = m.size();
            E e = mk<E>(x);
            CHECK(l.index(e) == (first == size ? -1 : first) && l.find(e) - l.begin() == first && l.contains(e) == (first < size) && l.count(e) == std::count(m.begin(), m.end(), x), "searching for key " << x << " in " << show(m));
        }
        List<E> same(made<E>(m));
        CHECK(l == same && !(l != same), "equality");
        c.step();
        c.state(show(m) + std::to_string(which)); });
    mc::scenario("Deque<" + n + ">", 32, [](Ctx& c)
                 {
        turn = 0;
        Seq m = seq(c, 4, mc::G.tier ? 5 : 4);
        auto v = made<E>(m);
        Deque<E> d(v.begin(), v.end());
        int len = m.size(), which = c.choose(9), k = c.choose(4);
        LOG(c, show(m) << " operation " << which << " key " << k);
        switch (which)
        {
            case 0: d.push_back(mk<E>(k)); m.push_back(k); break;
            case 1: d.push_front(mk<E>(k)); m.insert(m.begin(), k); break;
            case 2: if (len) { CHECK(El<E>::key(d.pop_back()) == MAP4[m.back()], "pop_back"); m.pop_back(); } break;
            case 3: if (len) { CHECK(El<E>::key(d.pop_front()) == MAP4[m[0]], "pop_front"); m.erase(m.begin()); } break;
            case 4: d >>= k; if (len) std::rotate(m.begin(), m.end() - k % len, m.end()); break;
            case 5: d.reverse(); std::reverse(m.begin(), m.end()); break;
            case 6: d.extend_front(v.begin(), v.end()); { Seq u = m; m.insert(m.begin(), u.begin(), u.end()); } break;
            case 7: if (len) { d.front() = mk<E>(k); m[0] = k; d.back() = d.front(); m.back() = k; } break;
            case 8: { Deque<E> x = std::move(d); d.push_back(mk<E>(k)); d.extend_back(x.begin(), x.end()); m.insert(m.begin(), k); break; }
        }
        holds(d, m, '<', '>', "deque");
        auto w = made<E>(m);
        CHECK(d == Deque<E>(w.begin(), w.end()), "equality");
        c.step();
        c.state(show(m) + std::to_string(which)); });
    // lists long enough for the divided phases of the algorithms
    mc::scenario("long List<" + n + ">", 8, [](Ctx& c)
                 {
        turn = 0;
        int len = c.of(std::vector<int>{15, 16, 17, 18, 33, 65, 130, 300}), kind = c.choose(5);
        Seq m = structured(len, kind);
        for (int& x : m)
            x = (x % 4 + 4) % 4;
        auto v = made<E>(m);
        List<E> l(v);
        LOG(c, len << " elements of kind " << kind);
        Seq s = m, u, f;
        for (int x : m)
        {
            if (std::find(u.begin(), u.end(), x) == u.end())
                u.push_back(x);
            if (x != 2)
                f.push_back(x);
        }
        if constexpr (El<E>::ordered)
        {
            std::sort(s.begin(), s.end());
            holds(List<E>(l).sort(), s, '[', ']', "sorted");
            std::reverse(s.begin(), s.end());
            holds(List<E>(l).sort([](const E& a, const E& b) { return b < a; }), s, '[', ']', "sorted down");
        }
        holds(List<E>(l).uniquify(), u, '[', ']', "uniquified");
        holds(l / mk<E>(2), f, '[', ']', "without one value");
        Deque<E> d(v.begin(), v.end());
        d >>= len / 3;
        l >>= len / 3;
        std::rotate(m.begin(), m.end() - len / 3, m.end());
        holds(l, m, '[', ']', "rotated");
        holds(d, m, '<', '>', "rotated");
        d.reverse();
        l.reverse();
        std::reverse(m.begin(), m.end());
        holds(l, m, '[', ']', "reversed");
        holds(d, m, '<', '>', "reversed");
        c.step(8);
        c.state(len * 10l + kind); });
}
template <class E>
Set<E> set(const Seq& m, bool down)
{
    Set<E> s;
    for (std::size_t i = 0; i < m.size(); ++i)
        s.add(El<E>::make(m[down ? m.size() - 1 - i : i]));
    return s;
}
Seq subset(Ctx& c, int n)
{
    int x = c.choose(1 << n);
    Seq m;
    for (int i = 0; i < n; ++i)
        if (x >> i & 1)
            m.push_back(i);
    return m;
}
template <class E>
void is_set(const Set<E>& s, const Seq& m, const char* what)
{
    CHECK(keys(s) == m && s.size() == int(m.size()), what << ": keys " << show(keys(s)) << ", expected " << show(m));
    std::string t = mc::str(s), w = shown<E>(m, '{', '}');
    CHECK(t == w, what << ": prints " << mc::quote(t) << ", expected " << mc::quote(w));
}
// the ordered types
template <class E>
void keyed()
{
    std::string n = El<E>::name();
    mc::scenario("Set<" + n + ">", 64, [](Ctx& c)
                 {
        turn = 0;
        int N = mc::G.tier ? 8 : 6;
        Seq x = subset(c, N), y = subset(c, N), w;
        LOG(c, show(x) << " and " << show(y));
        Set<E> a = set<E>(x, false), b = set<E>(y, true);
        is_set(a, x, "first");
        auto in = std::back_inserter(w);
        std::set_intersection(x.begin(), x.end(), y.begin(), y.end(), in);
        is_set(a & b, w, "&"), w.clear();
        std::set_union(x.begin(), x.end(), y.begin(), y.end(), in);
        is_set(a | b, w, "|"), w.clear();
        std::set_difference(x.begin(), x.end(), y.begin(), y.end(), in);
        is_set(a - b, w, "-"), w.clear();
        std::set_symmetric_difference(x.begin(), x.end(), y.begin(), y.end(), in);
        is_set(a ^ b, w, "^"), w.clear();
        bool sub = std::includes(y.begin(), y.end(), x.begin(), x.end());
        CHECK((a <= b) == sub && (a < b) == (sub && x != y) && (b >= a) == sub && (b > a) == (sub && x != y) && (a == b) == (x == y) && (a != b) == (x != y), "relations");
        for (int k = 0; k < N; ++k)
        {
            bool has = std::count(x.begin(), x.end(), k);
            Set<E> s = a;
            CHECK(s.contains(El<E>::make(k)) == has && (s.find(El<E>::make(k)) != s.end()) == has, "contains " << k);
            CHECK(s.add(El<E>::make(k)) == !has && s.size() == int(x.size()) + !has, "add " << k);
            CHECK(s.remove(El<E>::make(k)) && !s.contains(El<E>::make(k)), "remove " << k);
        }
        if (!x.empty())
            CHECK(El<E>::key(a.min()) == x[0] && El<E>::key(a.max()) == x.back(), "min and max");
        c.step(12);
        c.state(show(x) + show(y)); });
    mc::scenario("Dict<" + n + ", " + n + ">", 64, [](Ctx& c)
                 {
        turn = 0;
        std::map<int, int> m;
        Dict<E, E> d;
        int len = mc::G.tier ? 5 : 4;
        std::string how;
        for (int i = 0; i < len; ++i)
        {
            int op = c.choose(4), k = c.choose(3) * 3 + 1, v = (k + i * 2) % 9;
            LOG(c, "operation " << op << " key " << k << " value " << v);
            how += char('a' + op * 9 + k);
            switch (op)
            {
                case 0: CHECK(d.add(El<E>::make(k), El<E>::make(v)) == m.insert({k, v}).second, "add"); break;
                case 1: CHECK(d.remove(El<E>::make(k)) == (m.erase(k) == 1), "remove"); break;
                case 2: {
                    std::string o = mc::outcome_of([&] { d[El<E>::make(k)] = El<E>::make(v); });
                    CHECK(o == (m.count(k) ? "ok" : "runtime_error"), "assignment is " << o);
                    if (m.count(k))
                        m[k] = v;
                    break;
                }
                case 3: {
                    Dict<E, E> other{{El<E>::make(k), El<E>::make(v)}, {El<E>::make(4), El<E>::make(8)}};
                    d.extend(other.begin(), other.end());
                    m.insert({k, v});
                    m.insert({4, k == 4 ? v : 8});
                    break;
                }
            }
            Seq ks, vs;
            std::set<int> distinct;
            std::string text;
            for (auto& [a, b] : m)
                ks.push_back(a), vs.push_back(b), distinct.insert(b), text += (text.empty() ? "" : ", ") + El<E>::shown(a) + ": " + El<E>::shown(b);
            Seq gk, gv;
            for (const auto& [a, b] : d)
                gk.push_back(El<E>::key(a)), gv.push_back(El<E>::key(b));
            CHECK(gk == ks && gv == vs && d.size() == int(m.size()), "content " << show(gk) << " -> " << show(gv) << ", expected " << show(ks) << " -> " << show(vs));
            CHECK(mc::str(d) == "{" + text + "}", "prints " << mc::quote(mc::str(d)) << ", expected " << mc::quote(text));
            is_set(d.keys(), ks, "keys()");
            is_set(d.values(), Seq(distinct.begin(), distinct.end()), "values()");
            E fallback = El<E>::make(0);
            for (int q = 0; q < 9; ++q)
                CHECK(d.contains(El<E>::make(q)) == (m.count(q) == 1) && El<E>::key(d.get(El<E>::make(q), fallback)) == (m.count(q) ? m[q] : 0), "key " << q);
            c.step();
        }
        c.state(how); });
}
template <class E>
void hashed()
{
    std::string n = El<E>::name();
    mc::scenario("unordered containers of " + n, 16, [](Ctx& c)
                 {
        turn = 0;
        Seq m;
        for (int i = 0; i < (mc::G.tier ? 5 : 4); ++i)
        {
            int k = c.choose(10);
            if (k == 9)
                break;
            m.push_back(k);
        }
        LOG(c, show(m));
        std::unordered_set<E> s;
        std::unordered_map<E, int> f;
        std::map<int, int> w;
        for (int k : m)
        {
            CHECK(s.insert(El<E>::make(k)).second == !w.count(k), "insert key " << k);
            ++f[El<E>::make(k)];
            ++w[k];
        }
        CHECK(s.size() == w.size() && f.size() == w.size(), "number of entries");
        for (int k = 0; k < 9; ++k)
        {
            auto it = f.find(El<E>::make(k));
            CHECK((s.count(El<E>::make(k)) == 1) == (w.count(k) == 1) && (it == f.end() ? 0 : it->second) == (w.count(k) ? w[k] : 0), "key " << k);
        }
        c.step(int(m.size()));
        c.state(show(m)); });
}
} // namespace
#ifdef HAVE_EIGEN
#include <eigen3/Eigen/Dense>
#endif

MC_PART
{
#if PART == 0
    sequences<Int>();
    keyed<Int>();
    hashed<Int>();
#elif PART == 1
    sequences<Str>();
    keyed<Str>();
    hashed<Str>();
#elif PART == 2
    sequences<Fraction>();
    keyed<Fraction>();
    hashed<Fraction>();
    sequences<Complex>();
    hashed<Complex>();
#elif PART == 3
    sequences<List<char>>();
    keyed<List<char>>();
    sequences<List<Int>>();
    keyed<List<Int>>();
#elif PART == 4
    sequences<Deque<Str>>();
    keyed<Deque<Str>>();
    sequences<Set<Int>>();
    sequences<Dict<Str, Fraction>>();
    sequences<Tuple<Int, Str>>();
#elif PART == 5
    // deep nesting: what is put in is what comes out
    mc::scenario("nested", 16, [](Ctx& c)
                 {
        turn = 0;
        Seq m = seq(c, 4, mc::G.tier ? 5 : 4);
        LOG(c, show(m));
        Dict<Str, List<Set<Int>>> d;
        std::map<int, std::vector<std::set<int>>> w;
        for (std::size_t i = 0; i < m.size(); ++i)
        {
            int k = m[i] * 2 + 1;
            if (!d.contains(El<Str>::make(k)))
                CHECK(d.add(El<Str>::make(k), List<Set<Int>>()), "add");
            auto& l = d[El<Str>::make(k)];
            if (i % 2 == 0 || l.is_empty())
                l += Set<Int>(), w[k].push_back({});
            l[-1].add(El<Int>::make(int(i))), w[k].back().insert(int(i));
            if (i == 3)
                l[0] |= l[-1], w[k][0].insert(w[k].back().begin(), w[k].back().end());
        }
        std::string text;
        for (auto& [k, v] : w)
        {
            text += (text.empty() ? "" : ", ") + El<Str>::shown(k) + ": [";
            for (std::size_t i = 0; i < v.size(); ++i)
                text += (i ? ", " : "") + shown<Int>(Seq(v[i].begin(), v[i].end()), '{', '}');
            text += "]";
        }
        CHECK(mc::str(d) == "{" + text + "}", "prints " << mc::quote(mc::str(d)) << ", expected " << mc::quote(text));
        auto e = d;
        CHECK(e == d && e.size() == int(w.size()), "copy");
        if (!e.is_empty())
        {
            e[e.min()].clear();
            CHECK(e != d && mc::str(d) == "{" + text + "}", "the copy is independent");
        }
        // the same through a list of pairs of fractions and tuples
        List<Tuple<Fraction, List<Str>>> t;
        std::string tt;
        for (int k : m)
        {
            t += Tuple<Fraction, List<Str>>(El<Fraction>::make(k), List<Str>{El<Str>::make(k + 3), El<Str>::make(k)});
            tt += (tt.empty() ? "(" : ", (") + El<Fraction>::shown(k) + ", [" + El<Str>::shown(k + 3) + ", " + El<Str>::shown(k) + "])";
        }
        CHECK(mc::str(t) == "[" + tt + "]", "prints " << mc::quote(mc::str(t)) << ", expected " << mc::quote(tt));
        auto u = t;
        CHECK(u.uniquify().size() == int(std::set<int>(m.begin(), m.end()).size()), "uniquify of tuples");
        c.step(2);
        c.state(show(m)); });
    // algorithms of the standard library over the containers' ranges
    mc::scenario("standard algorithms", 16, [](Ctx& c)
                 {
        turn = 0;
        Seq m = seq(c, 4, mc::G.tier ? 6 : 5);
        LOG(c, show(m));
        long sum = 0, wsum = 0;
        List<Int> l;
        Deque<Fraction> d;
        Int total = 0;
        Fraction mean = 0;
        for (int k : m)
        {
            l += Int(k - 1);
            d.push_back(Fraction(k - 1, 2));
            wsum += k - 1;
        }
        CHECK(mc::str(std::accumulate(l.begin(), l.end(), Int(0))) == std::to_string(wsum), "sum of Int");
        CHECK(std::accumulate(d.begin(), d.end(), Fraction(0)) == Fraction(wsum, 2), "sum of Fraction");
        auto lo = std::min_element(l.begin(), l.end());
        auto hi = std::max_element(d.begin(), d.end());
        if (!m.empty())
            CHECK(lo - l.begin() == std::min_element(m.begin(), m.end()) - m.begin() && hi - d.begin() == std::max_element(m.begin(), m.end()) - m.begin(), "extreme elements");
        CHECK(std::is_sorted(l.begin(), l.end()) == std::is_sorted(m.begin(), m.end()) && std::is_sorted(d.rbegin(), d.rend()) == std::is_sorted(m.rbegin(), m.rend()), "sorted");
        std::vector<Int> v(l.begin(), l.end());
        std::vector<Fraction> q(d.begin(), d.end());
        Seq w = m;
        auto run = [&](auto f)
        {
            f(v), f(q), f(w);
            for (std::size_t i = 0; i < w.size(); ++i)
                CHECK(v[i] == w[i] - 1 && q[i] == Fraction(w[i] - 1, 2), "after a standard algorithm, element " << i);
        };
        run([](auto& x) { std::next_permutation(x.begin(), x.end()); });
        run([](auto& x) { std::make_heap(x.begin(), x.end()); });
        run([](auto& x) { std::sort_heap(x.begin(), x.end()); });
        run([](auto& x) { std::nth_element(x.begin(), x.begin() + x.size() / 2, x.end()); });
        run([](auto& x) { std::sort(x.begin(), x.end()); });
        run([](auto& x) { std::inplace_merge(x.begin(), x.begin() + x.size() / 2, x.end()); });
        c.step(8);
        c.state(show(m)); });
#ifdef HAVE_EIGEN
    mc::scenario("Fraction in Eigen", 25, [](Ctx& c)
                 {
        typedef Eigen::Matrix<Fraction, 2, 2> M;
        static const int n[] = {-2, -1, 0, 1, 3}, q[] = {1, 2, 3};
        int a[4], b[4], s = c.choose(3);
        M x, y;
        for (int i = 0; i < 4; ++i)
        {
            a[i] = n[c.choose(5)];
            b[i] = n[(i * 2 + s) % 5];
            x(i / 2, i % 2) = Fraction(a[i], q[s]);
            y(i / 2, i % 2) = Fraction(b[i], q[(s + 1) % 3]);
        }
        int p = q[s], r = q[(s + 1) % 3];
        LOG(c, "[" << a[0] << " " << a[1] << "; " << a[2] << " " << a[3] << "] / " << p);
        M sum = x + y, prod = x * y, scaled = x * Fraction(2, 5);
        for (int i = 0; i < 2; ++i)
            for (int j = 0; j < 2; ++j)
            {
                int k = i * 2 + j;
                CHECK(sum(i, j) == Fraction(a[k] * r + b[k] * p, p * r), "sum");
                CHECK(prod(i, j) == Fraction(a[i * 2] * b[j] + a[i * 2 + 1] * b[2 + j], p * r), "product");
                CHECK(scaled(i, j) == Fraction(a[k] * 2, p * 5), "scaled");
            }
        int det = a[0] * a[3] - a[1] * a[2];
        CHECK(x.determinant() == Fraction(det, p * p), "determinant");
        CHECK(x.trace() == Fraction(a[0] + a[3], p) && x.sum() == Fraction(a[0] + a[1] + a[2] + a[3], p), "trace and sum");
        CHECK((x + M::Zero()) == x && (x * M::Identity()) == x && M(x.transpose())(0, 1) == x(1, 0), "zero and identity");
        if (det)
        {
            M inv = x.inverse();
            CHECK(inv(0, 0) == Fraction(a[3] * p, det) && inv(0, 1) == Fraction(-a[1] * p, det) && inv(1, 0) == Fraction(-a[2] * p, det) && inv(1, 1) == Fraction(a[0] * p, det), "inverse");
            CHECK(M(inv * x) == M(M::Identity()), "inverse times matrix");
        }
        c.step(8);
        std::string st;
        for (int v : a)
            st += std::to_string(v) + ",";
        c.state(st + std::to_string(s)); });
#endif
#endif
}
