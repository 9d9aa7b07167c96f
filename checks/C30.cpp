// C30 - equal values have equal hashes and act as one key.
#include "intfam.hpp"
#include "strfam.hpp"
#include "fracfam.hpp"
#include "complex.hpp"
#include "list.hpp"
#include <map>
#include <unordered_map>
#include <unordered_set>
using namespace fam;
using pyincpp::Complex;
using pyincpp::List;

namespace
{
// A pool of values; make(i) builds value i by route r; eq(i, j) is the reference equality.
template <class T>
std::size_t h(const T& v)
{
    return std::hash<T>{}(v);
}
template <class T>
void route_pair(Ctx& c, const T& a, const T& b, bool want, const std::string& what)
{
    bool eq = a == b;
    CHECK(eq == want, what << ": == gives " << eq);
    std::size_t x = h(a), y = h(b);
    CHECK(!eq || x == y, what << ": equal, but the hashes are " << x << " and " << y);
    CHECK(h(a) == x && h(b) == y, what << ": the hash of a value changes");
    std::unordered_set<T> s;
    s.insert(a);
    s.insert(b);
    CHECK(s.size() == (want ? 1u : 2u) && s.count(a) == 1 && s.count(b) == 1, what << ": an unordered set holds " << s.size() << " of them");
    c.step(2);
}

// ---- Int: routes to the same value
constexpr int INT_ROUTES = 16;
Int int_by(const std::string& t, int r)
{
    Int v(t.c_str());
    std::string pad = (t[0] == '-' ? "-000" + t.substr(1) : "+00" + t);
    switch (r)
    {
    case 0: return v;
    case 1: return Int(pad.c_str());
    case 2: { Int x = v; ++x; --x; return x; }
    case 3: { Int x = v; --x; ++x; return x; }
    case 4: return -(-v);
    case 5: return v + Int("99999999999999999999999") - Int("99999999999999999999999");
    case 6: return (v * Int("1000000007")) / Int("1000000007");
    case 7: { Int x = v; Int y = std::move(x); x = y; return x; }
    case 8: { Int x("123456789012345678901234567890"); x = v; return x; }
    case 9: { Int x("-5"); std::swap(x, v); return x; }
    case 10: { std::istringstream s(t + " "); Int x(77); s >> x; return x; }
    case 11: { Int x = v; x -= x; x += v; return x; }
    case 12: return v % (v.abs() + 1);
    case 13: { Int x = v * 10; x /= 10; return x; }
    case 14: { Int x = v + v; x -= v; return x; }
    default: return v.is_negative() ? -v.abs() : v.abs();
    }
}
const std::vector<std::string>& int_texts()
{
    static std::vector<std::string> v = []
    {
        std::vector<std::string> t;
        for (int i = -30; i <= 30; ++i)
            t.push_back(std::to_string(i));
        for (auto& s : edges(24, 1))
            if (s.size() % 3 == 1)
                t.push_back(s);
        for (const char* s : {"12", "21", "112", "121", "211", "1001", "1010", "1100", "-1001", "-1100", "99", "9999", "11", "1111"}) // same digits, other order; pairs cancel in a xor
            t.push_back(s);
        dedup(t);
        return t;
    }();
    return v;
}
// ---- Str
Str cut(const Str& s, int a, int b)
{
    return a < b ? s.slice(a, b) : Str();
}
constexpr int STR_ROUTES = 12;
Str str_by(const std::string& t, int r)
{
    Str v(t);
    switch (r)
    {
    case 0: return v;
    case 1: return Str("") + v;
    case 2: return v.reverse().reverse();
    case 3: return cut(v + 'x', 0, t.size());
    case 4: return cut(v * 3, t.size(), 2 * t.size());
    case 5: { Str x = v; Str y = std::move(x); x = y; return x; }
    case 6: { Str x("some longer text than a short buffer can hold"); x = v; return x; }
    case 7: { Str x("q"); std::swap(x, v); return x; }
    case 8: return (v >> 3) << 3;
    case 9: { std::istringstream s(t); Str x("old"); s >> x; return t.find('\n') == std::string::npos ? x : v; }
    case 10: return Str("").join(List<Str>{cut(v, 0, t.size() / 2), cut(v, t.size() / 2, t.size())});
    default: { Str p("longer than sixteen characters"); Str q = std::move(p); p = v; return p; }
    }
}
const std::vector<std::string>& str_texts()
{
    static std::vector<std::string> v = []
    {
        std::vector<std::string> t{""};
        std::string alpha("ab\0\xff A", 6);
        for (char a : alpha)
        {
            t.push_back(std::string(1, a));
            for (char b : alpha)
            {
                t.push_back(std::string() + a + b);
                for (char d : std::string("a\0", 2))
                    t.push_back(std::string() + a + b + d);
            }
        }
        for (int n : {7, 15, 16, 17, 31, 32, 64, 200})
        {
            t.push_back(std::string(n, 'a'));
            t.push_back(std::string(n - 1, 'a') + "b");
            t.push_back("b" + std::string(n - 1, 'a'));
            t.push_back(std::string(n - 1, 'a') + '\0');
        }
        dedup(t);
        return t;
    }();
    return v;
}
// ---- Fraction
constexpr int FR_ROUTES = 12;
Fraction fr_by(std::pair<int, int> p, int r)
{
    auto [n, d] = p;
    Fraction v(n, d);
    bool tiny = std::abs((long)n) < 10000 && d < 10000;
    switch (r)
    {
    case 0: return v;
    case 1: return tiny ? Fraction(n * 6, d * 6) : v;
    case 2: return n != INT_MIN ? Fraction(-n, -d) : v;
    case 3: return tiny ? v + Fraction(5, 7) - Fraction(5, 7) : v;
    case 4: return tiny ? v * Fraction(-3, 8) / Fraction(-3, 8) : v;
    case 5: return tiny ? -(-v) : v;
    case 6: { Fraction x = v; Fraction y = std::move(x); x = y; return x; }
    case 7: { Fraction x(3, 4); x = v; return x; }
    case 8: { Fraction x(3, 4); std::swap(x, v); return x; }
    case 9: { std::istringstream s(std::to_string(n) + "/" + std::to_string(d) + " "); Fraction x; s >> x; return x; }
    case 10: if (tiny) { Fraction x = v; ++x; --x; return x; } return v;
    default: return tiny ? v % (v.abs() + Fraction(1)) : v;
    }
}
const std::vector<std::pair<int, int>>& fr_pool()
{
    static auto v = []
    {
        auto a = small(12);
        auto& b = big();
        for (std::size_t i = 0; i < b.size(); i += 9)
            if (std::find(a.begin(), a.end(), b[i]) == a.end())
                a.push_back(b[i]);
        return a;
    }();
    return v;
}
// ---- Complex
constexpr int CX_ROUTES = 15;
Complex cx_by(double re, double im, int r)
{
    Complex v(re, im);
    switch (r)
    {
    case 0: return v;
    case 1: return -(-v);
    case 2: return v.conjugate().conjugate();
    case 3: return v + Complex(4, -8) - Complex(4, -8);
    case 4: return v * Complex(2, 0) / Complex(2, 0);
    case 5: { Complex x = v; Complex y = std::move(x); x = y; return x; }
    case 6: { Complex x(1, 1); x = v; return x; }
    case 7: { Complex x(1, 1); std::swap(x, v); return x; }
    case 8: return v - Complex();
    // these have negative zeros where the components are 0
    case 9: return -Complex(0 - re, 0 - im);
    case 10: return Complex(re, 0 - im).conjugate();
    case 11: return v * Complex(-1, 0) * Complex(-1, -0.0);
    case 12: return v / Complex(-2, 0) * Complex(-2, 0);
    case 13: return Complex(re == 0 ? -0.0 : re, im == 0 ? -0.0 : im);
    default: return Complex() - (-v);
    }
}
// Histories of an unordered map keyed by T, next to a model keyed by the value's number.
template <class T, class F>
void history(Ctx& c, int n, int depth, F make)
{
    std::unordered_map<T, int> m;
    std::map<int, int> ref;
    m.max_load_factor(c.flip() ? 1 : 8);
    for (int step = 0; step < depth; ++step)
    {
        int op = c.choose(4);
        if (op == 3)
            break;
        int k = c.choose(n), r = c.choose(2);
        T key = make(k, r);
        if (op == 0)
        {
            m[key] = step;
            ref[k] = step;
        }
        else if (op == 1)
            CHECK(m.erase(key) == ref.erase(k), "erase of key " << k);
        else
        {
            auto it = m.find(key);
            CHECK((it != m.end()) == (ref.count(k) == 1) && (it == m.end() || it->second == ref[k]), "lookup of key " << k);
        }
        c.step();
    }
    CHECK(m.size() == ref.size(), "size " << m.size() << ", expected " << ref.size());
    for (int k = 0; k < n; ++k)
    {
        auto it = m.find(make(k, 1));
        CHECK((it != m.end()) == (ref.count(k) == 1) && (it == m.end() || it->second == ref[k]), "final lookup of key " << k);
    }
}
// Two objects go through every sequence of assignments, moves, swaps, stream reads and compound operators; their
// hashes may be asked for before any of them. In the end each has the hash of a fresh object of its value.
template <class T>
struct Mut
{
    std::string name;
    std::function<void(T&, T&)> f; // may change both; a moved-from object is assigned anew
};
template <class T>
void mutators(Ctx& c, const std::vector<std::function<T()>>& init, const std::vector<Mut<T>>& ms, const std::function<T(const T&)>& fresh, int depth)
{
    T a = c.of(init)(), b = c.of(init)();
    std::string log;
    int seen = c.choose(4);
    for (int step = 0; step < depth; ++step)
    {
        if (seen & 1)
            h(a);
        if (seen & 2)
            h(b);
        auto& m = c.of(ms);
        bool other = c.flip();
        log += " " + m.name + (other ? " (b)" : " (a)");
        other ? m.f(b, a) : m.f(a, b);
        seen = c.choose(2) * 3;
        c.step();
    }
    LOG(c, log);
    T x = fresh(a), y = fresh(b);
    route_pair(c, a, x, true, "after" + log + ": a and a fresh object of its value");
    route_pair(c, b, y, true, "after" + log + ": b and a fresh object of its value");
    bool eq = x == y;
    CHECK((a == b) == eq && (!eq || h(a) == h(b)), "after" + log + ": a and b");
}
template <class T>
std::vector<Mut<T>> common(std::function<T()> value, std::vector<const char*> texts)
{
    std::vector<Mut<T>> m{
        {"copy-assigned from the other", [](T& a, T& b) { a = b; }},
        {"move-assigned from the other", [](T& a, T& b) { T k = b; a = std::move(b); b = k; }},
        {"move-assigned from the other, which is read anew", [texts](T& a, T& b) { a = std::move(b); std::istringstream s(texts[0]); s >> b; }},
        {"swapped", [](T& a, T& b) { std::swap(a, b); }},
        {"assigned a temporary", [value](T& a, T&) { a = value(); }},
        {"assigned a value", [value](T& a, T&) { const T k = value(); a = k; }},
        {"assigned itself", [](T& a, T&) { const T& s = a; a = s; }},
        {"moved through others", [](T& a, T&) { T k = std::move(a); T l = std::move(k); a = std::move(l); }},
    };
    for (const char* t : texts)
        m.push_back({std::string("read from ") + t, [t](T& a, T&) { std::istringstream s(t); s >> a; }});
    return m;
}
template <class T>
void arithmetic(std::vector<Mut<T>>& m)
{
    m.push_back({"+= other", [](T& a, T& b) { a += b; }});
    m.push_back({"-= other", [](T& a, T& b) { a -= b; }});
    m.push_back({"*= other", [](T& a, T& b) { a *= b; }});
    m.push_back({"-= itself", [](T& a, T&) { a -= a; }});
    m.push_back({"= -other", [](T& a, T& b) { a = -b; }});
}
template <class T>
void steps(std::vector<Mut<T>>& m)
{
    m.push_back({"++", [](T& a, T&) { ++a; }});
    m.push_back({"--", [](T& a, T&) { --a; }});
    m.push_back({"/= 2", [](T& a, T&) { a /= T(2); }});
    m.push_back({"%= 3", [](T& a, T&) { a %= T(3); }});
}
} // namespace

void register_scenarios()
{
    bool T = mc::G.tier;
    mc::scenario("Int, all routes", 16, [](Ctx& c)
                 {
        const std::string& t = c.of(int_texts());
        int r = c.choose(INT_ROUTES), q = c.choose(INT_ROUTES);
        route_pair(c, int_by(t, r), int_by(t, q), true, "Int " + t + " by routes " + std::to_string(r) + " and " + std::to_string(q));
        c.state(t); });
    mc::scenario("Int, all pairs of values", 16, [](Ctx& c)
                 {
        int i = c.choose(int_texts().size()), j = c.choose(int_texts().size());
        int r = c.choose(INT_ROUTES / 4) * 4 + 1;
        route_pair(c, int_by(int_texts()[i], 0), int_by(int_texts()[j], r), i == j, "Int " + int_texts()[i] + " and " + int_texts()[j]);
        c.state(i * 10000 + j); });
    mc::scenario("Str, all routes", 8, [](Ctx& c)
                 {
        const std::string& t = c.of(str_texts());
        int r = c.choose(STR_ROUTES), q = c.choose(STR_ROUTES);
        Str a = str_by(t, r), b = str_by(t, q);
        route_pair(c, a, b, true, "Str " + quote(t) + " by routes " + std::to_string(r) + " and " + std::to_string(q));
        c.state(t); });
    mc::scenario("Str, all pairs of values", 16, [](Ctx& c)
                 {
        int i = c.choose(str_texts().size()), j = c.choose(str_texts().size());
        route_pair(c, Str(str_texts()[i]), Str(str_texts()[j]), i == j, "Str " + quote(str_texts()[i]) + " and " + quote(str_texts()[j]));
        c.state(i * 10000 + j); });
    mc::scenario("Fraction, all routes", 16, [](Ctx& c)
                 {
        auto p = c.of(fr_pool());
        int r = c.choose(FR_ROUTES), q = c.choose(FR_ROUTES);
        route_pair(c, fr_by(p, r), fr_by(p, q), true, "Fraction " + std::to_string(p.first) + "/" + std::to_string(p.second) + " by routes " + std::to_string(r) + " and " + std::to_string(q));
        c.state((std::uint64_t(p.first) << 32) ^ p.second); });
    mc::scenario("Fraction, all pairs of values", 16, [](Ctx& c)
                 {
        int i = c.choose(fr_pool().size()), j = c.choose(fr_pool().size());
        auto p = fr_pool()[i], q = fr_pool()[j];
        route_pair(c, Fraction(p.first, p.second), Fraction(q.first, q.second), i == j, "Fraction no. " + std::to_string(i) + " and " + std::to_string(j));
        c.state(i * 100000ull + j); });
    static const std::vector<double> grid{0, 1, -1, 2, -3, 0.5, -0.25, 0.75, 8, 100, -1024, 1048576, 1.0 / 1024, 3.5};
    mc::scenario("Complex, all routes", 8, [](Ctx& c)
                 {
        double x = c.of(grid), y = c.of(grid);
        int r = c.choose(CX_ROUTES), q = c.choose(CX_ROUTES);
        Complex a = cx_by(x, y, r), b = cx_by(x, y, q);
        std::ostringstream o;
        o << "Complex " << x << "," << y << " by routes " << r << " and " << q;
        route_pair(c, a, b, true, o.str()); // signed zeros included: 0 == -0
        c.state(o.str()); });
    mc::scenario("Complex, all pairs of values", 16, [](Ctx& c)
                 {
        double x = c.of(grid), y = c.of(grid), u = c.of(grid), v = c.of(grid);
        std::ostringstream o;
        o << "Complex " << x << "," << y << " and " << u << "," << v;
        route_pair(c, Complex(x, y), Complex(u, v), x == u && y == v, o.str());
        c.state(o.str()); });
    mc::scenario("Complex, within the tolerance of equality", 1, [](Ctx& c)
                 { // values computed by different routes can be equal without being identical
        static const double d[] = {0.0, 1e-16, -2e-16, 1.1e-16};
        double x = c.of(std::vector<double>{0.1, 0.3, 0.5, 1.0}), dx = c.of(d), dy = c.of(d);
        Complex a(x, 0.25), b(x + dx, 0.25 + dy);
        if (c.flip())
        {
            a = Complex(0.1, 0.25) + Complex(0.2, 0);
            b = Complex(0.3, 0.25);
        }
        c.step();
        if (a == b && h(a) != h(b))
            c.fail_unless_known("complex-tolerance", "Complex values that compare equal (components differ by less than the double epsilon) have different hashes"); });
    mc::scenario("Int, histories of an unordered map", 8, [T](Ctx& c)
                 {
        static const char* v[] = {"0", "11", "-11", "110"};
        history<Int>(c, 4, T ? 5 : 4, [](int k, int r) { return int_by(v[k], r ? 5 : 1); }); });
    mc::scenario("Str, histories of an unordered map", 8, [T](Ctx& c)
                 {
        static const std::string v[] = {"", "a", std::string("a\0", 2), "aa"};
        history<Str>(c, 4, T ? 5 : 4, [](int k, int r) { return str_by(v[k], r ? 4 : 3); }); });
    mc::scenario("Fraction, histories of an unordered map", 8, [T](Ctx& c)
                 {
        static const std::pair<int, int> v[] = {{0, 1}, {1, 2}, {2, 1}, {-1, 2}};
        history<Fraction>(c, 4, T ? 5 : 4, [](int k, int r) { return fr_by(v[k], r ? 3 : 2); }); });
    mc::scenario("Complex, histories of an unordered map", 8, [T](Ctx& c)
                 {
        static const double v[] = {0, 1, -1, 0.5};
        history<Complex>(c, 4, T ? 5 : 4, [](int k, int r) { return cx_by(v[k], v[3 - k], r ? 2 : 3); }); });
    mc::scenario("large unordered sets", 4, [](Ctx& c)
                 {
        int kind = c.choose(4), n = c.of(std::vector<int>{10, 100, 1000, 20000});
        auto run = [&](auto make)
        {
            typedef decltype(make(0)) V;
            std::unordered_set<V> s;
            for (int i = 0; i < n; ++i)
                CHECK(s.insert(make(i)).second, "value " << i << " taken for another one");
            for (int i = n; i-- > 0;)
                CHECK(!s.insert(make(i)).second && s.count(make(i)) == 1, "value " << i << " not found");
            CHECK((int)s.size() == n && s.count(make(n)) == 0, "size " << s.size());
        };
        if (kind == 0)
            run([](int i) { return Int(i * 37) - 500; });
        else if (kind == 1)
            run([](int i) { return Str(std::to_string(i)); });
        else if (kind == 2)
            run([](int i) { return Fraction(i, 7); });
        else
            run([](int i) { return Complex(i, -i); });
        c.step(n);
        c.state(kind * 10000 + n); });
    mc::scenario("very long values", 8, [](Ctx& c)
                 {
        int n = c.of(std::vector<int>{4096, 32769, 65535, 65536, 65537, 131073, 1048577}), kind = c.choose(3);
        std::string d(n, '7');
        LOG(c, "length " << n << " kind " << kind);
        if (kind < 2)
        {
            if (kind)
                d = "-" + d;
            const Int a(d.c_str());
            Int b = a * 2 - a, e = a + 1, f = a;
            e -= 1;
            f += Int(1) - 1;
            const Int g = -(-a);
            std::hash<Int> h;
            CHECK(a == b && a == e && a == f && a == g, "equal by other routes");
            CHECK(h(a) == h(b) && h(a) == h(e) && h(a) == h(f) && h(a) == h(g), "equal integers of " << n << " digits hash differently");
        }
        else
        {
            const Str a(d);
            Str b(d + "tail"), e(std::string(n / 2, '7'));
            b = b.replace("tail", "");
            e = e + Str(std::string(n - n / 2, '7'));
            std::hash<Str> h;
            CHECK(a == b && a == e && h(a) == h(b) && h(a) == h(e), "equal strings of " << n << " characters hash differently");
        }
        c.step();
        c.state(n * 3l + kind); });
    int depth = T ? 3 : 2;
    mc::scenario("Int, one object through its mutators", 32, [depth](Ctx& c)
                 {
        static const auto ms = []
        {
            auto m = common<Int>([] { return Int("1000000007"); }, {"-12 ", "10000000000000000000000000000000000000000 "});
            arithmetic(m);
            steps(m);
            return m;
        }();
        static const std::vector<std::function<Int()>> init{[] { return Int(); }, [] { return Int("-9999999999999999999999"); }};
        mutators<Int>(c, init, ms, [](const Int& x) { std::ostringstream o; o << x; return Int(o.str().c_str()); }, depth); });
    mc::scenario("Str, one object through its mutators", 16, [depth](Ctx& c)
                 {
        static const auto ms = []
        {
            auto m = common<Str>([] { return Str("some text longer than a short buffer"); }, {"ab\n", "a line longer than a short buffer is\n"});
            m.push_back({"= other + x", [](Str& a, Str& b) { a = b + 'x'; }});
            m.push_back({"= reversed", [](Str& a, Str&) { a = a.reverse(); }});
            return m;
        }();
        static const std::vector<std::function<Str()>> init{[] { return Str(); }, [] { return Str("twelve chars"); }};
        mutators<Str>(c, init, ms, [](const Str& x) { return Str(std::string(x.begin(), x.end())); }, depth); });
    mc::scenario("Fraction, one object through its mutators", 32, [depth](Ctx& c)
                 {
        static const auto ms = []
        {
            auto m = common<Fraction>([] { return Fraction(7, 3); }, {"-1/2 ", "6/4 "});
            arithmetic(m);
            steps(m);
            return m;
        }();
        static const std::vector<std::function<Fraction()>> init{[] { return Fraction(); }, [] { return Fraction(-5, 6); }};
        mutators<Fraction>(c, init, ms, [](const Fraction& x) { return Fraction(x.numerator(), x.denominator()); }, depth); });
    mc::scenario("Complex, one object through its mutators", 32, [depth](Ctx& c)
                 {
        static const auto ms = []
        {
            auto m = common<Complex>([] { return Complex(0.5, -2); }, {"1+2j ", "-0-4j "});
            arithmetic(m);
            m.push_back({"= conjugate", [](Complex& a, Complex&) { a = a.conjugate(); }});
            return m;
        }();
        static const std::vector<std::function<Complex()>> init{[] { return Complex(); }, [] { return Complex(-0.25, 8); }};
        mutators<Complex>(c, init, ms, [](const Complex& x) { return Complex(x.real(), x.imag()); }, depth); });
}
