// C15: Str.to_decimal accepts exactly decimal literals and is accurate.
#include "strfam.hpp"
#include <cfloat>
using namespace fam;

static bool blank(char ch)
{
    return ch == ' ' || ch == '\t' || ch == '\r' || ch == '\n';
}
static bool isd(char ch)
{
    return ch >= '0' && ch <= '9';
}
static bool special(const std::string& t, double& v)
{
    static const std::set<std::string> pos{"inf", "INF", "Inf", "+inf", "+INF", "+Inf", "infinity", "INFINITY", "Infinity", "+infinity", "+INFINITY", "+Infinity"};
    static const std::set<std::string> neg{"-inf", "-INF", "-Inf", "-infinity", "-INFINITY", "-Infinity"};
    static const std::set<std::string> nan{"nan", "NaN", "NAN", "+nan", "+NaN", "+NAN", "-nan", "-NaN", "-NAN"};
    if (pos.count(t))
        v = HUGE_VAL;
    else if (neg.count(t))
        v = -HUGE_VAL;
    else if (nan.count(t))
        v = NAN;
    else
        return false;
    return true;
}
// Reference automaton: blanks, sign?, digits with at most one point and at least one digit, exponent?, blanks.
static bool parse(const std::string& t, double& v)
{
    if (special(t, v))
        return true;
    std::size_t i = 0, e = t.size();
    while (i < e && blank(t[i]))
        ++i;
    while (e > i && blank(t[e - 1]))
        --e;
    std::string lit = t.substr(i, e - i);
    i = 0;
    e = lit.size();
    if (i < e && (lit[i] == '+' || lit[i] == '-'))
        ++i;
    int nd = 0;
    while (i < e && isd(lit[i]))
        ++i, ++nd;
    if (i < e && lit[i] == '.')
        ++i;
    while (i < e && isd(lit[i]))
        ++i, ++nd;
    if (nd == 0)
        return false;
    if (i < e && (lit[i] == 'e' || lit[i] == 'E'))
    {
        ++i;
        if (i < e && (lit[i] == '+' || lit[i] == '-'))
            ++i;
        int k = 0;
        while (i < e && isd(lit[i]))
            ++i, ++k;
        if (k == 0)
            return false;
    }
    if (i != e)
        return false;
    v = std::strtod(lit.c_str(), nullptr); // glibc: correctly rounded
    return true;
}
static bool close(double g, double w)
{
    if (std::isnan(w))
        return std::isnan(g);
    if (std::isnan(g))
        return false;
    if (std::isinf(w))
        return g == w || (std::fabs(g) >= DBL_MAX * (1 - 1e-14) && std::signbit(g) == std::signbit(w) && false);
    if (std::isinf(g))
        return std::fabs(w) >= DBL_MAX * (1 - 1e-14) && std::signbit(g) == std::signbit(w);
    return std::fabs(g - w) <= std::fabs(w) * 1e-14 || std::fabs(g - w) <= 1e-320;
}
static void check(Ctx& c, const std::string& t)
{
    const Str s(t);
    double w = 0, g = 7.25;
    bool ok = parse(t, w);
    LOG(c, quote(t) << (ok ? " is a literal" : " is not a literal"));
    std::string o = mc::outcome_of([&] { g = s.to_decimal(); });
    if (ok)
    {
        CHECK(o == "ok", quote(t) << ".to_decimal() must be accepted, outcome: " << o);
        char b[100];
        std::snprintf(b, sizeof b, " got %.17g, expected %.17g", g, w);
        CHECK(close(g, w), quote(t) << ".to_decimal()" << b);
        if (w != 0 && std::fabs(w) > 1e-300)
            CHECK(std::isnan(w) || std::signbit(g) == std::signbit(w), "sign of " << quote(t));
    }
    else
        CHECK(o == "runtime_error", quote(t) << ".to_decimal() must raise a runtime error, outcome: " << o << " value " << g);
    is(s, t, "string unchanged");
    c.outcome(o);
    c.step();
    c.state(t);
}

void register_scenarios()
{
    bool T = mc::G.tier;
    mc::scenario("words", 9, [T](Ctx& c) { check(c, word(c, " +-07.eE", T ? 8 : 6)); });
    mc::scenario("words-wide", 13, [T](Ctx& c) { check(c, word(c, std::string(" \t\n\r+-09.ex\0", 13), T ? 6 : 5)); });
    mc::scenario("every-byte", 16, [](Ctx& c)
                 {
                     int b = c.choose(256);
                     static const std::vector<std::string> pre{"", "1", "-", " ", "1 ", "1.", ".", "1e", "1e+", "1e1", "inf", "nan"}, post{"", "1", " ", ".5", "e2"};
                     std::string t = c.of(pre) + char(b);
                     check(c, t + c.of(post));
                 });
    // every spelling (letter case, sign, surrounding character) of the special values; only the listed ones count
    mc::scenario("special", 16, [](Ctx& c)
                 {
                     static const std::vector<std::string> sg{"", "+", "-"}, ns{"inf", "nan", "infinity"}, around{"", " ", "x", "+", "0", "i", std::string("\0", 1)};
                     std::string n = c.of(ns);
                     int m = c.choose(1u << n.size());
                     for (std::size_t i = 0; i < n.size(); ++i)
                         if (m >> i & 1)
                             n[i] -= 32;
                     std::string t = c.of(sg) + n;
                     t = c.of(around) + t;
                     check(c, t + c.of(around));
                     if (m == 0)
                         check(c, t.substr(0, t.size() - 1));
                 });
    mc::scenario("another locale", 8, [](Ctx& c)
                 {
                     static const std::vector<std::string> ts{"0", "1", "-1.5", "1,5", "1.000", "1.000.000", "1000000", "12.5e3", "1,000", "1.0e-3", ".5", "5.", "\xa0" "1", "1\xa0", "1\xb2", "123456789.123456789", "1.7976931348623157e308", "1e400", "-1e-400", "inf", "nan", "x"};
                     const std::string& t = c.of(ts);
                     mc::ForeignLocale l;
                     check(c, t);
                     check(c, " " + t + "\n");
                 });
    // mantissa digits x exponent over the whole range of double and beyond
    mc::scenario("values", 32, [T](Ctx& c)
                 {
                     static const std::vector<std::string> man{"1", "9", "2.5", "0.1", "0.3", "123456789", "1.7976931348623157", "4.9406564584124654", "2.2250738585072014", "9007199254740993", "0.000123", "99999999999999999999", "3.141592653589793238462643383279502884", "0", "0.0", "00012.500", ".5", "5.", "123456789012345678901234567890.123456789"};
                     const auto& m = c.of(man);
                     int e = c.pick(-345, 330);
                     if (!T && e % 3 != 0 && e > -300 && e < 280 && (e < -40 || e > 40))
                         return;
                     static const std::vector<std::string> sg{"", "-"};
                     std::string t = c.of(sg) + m;
                     t += (c.flip() ? "E" : "e") + std::to_string(e);
                     check(c, t);
                 });
    mc::scenario("small-decimals", 16, [T](Ctx& c)
                 {
                     int n = c.choose(T ? 200000 : 20000);
                     int p = c.choose(7);
                     std::string d = std::to_string(n);
                     if ((int)d.size() <= p)
                         d = std::string(p + 1 - d.size(), '0') + d;
                     check(c, d.substr(0, d.size() - p) + "." + d.substr(d.size() - p));
                 });
    // many digits on either side of the point, huge exponents that compensate
    mc::scenario("many-digits", 16, [](Ctx& c)
                 {
                     static const std::vector<int> ns{1, 15, 16, 17, 18, 19, 20, 22, 23, 50, 100, 300, 308, 309, 310, 323, 324, 325, 400, 700, 1000};
                     int a = c.of(ns), b = c.of(ns);
                     static const std::vector<char> ds{'0', '1', '9'};
                     std::string t = std::string(a, c.of(ds));
                     int k = c.choose(3);
                     if (k == 1)
                         t += "." + std::string(b, c.of(ds));
                     if (k == 2)
                         t += std::string(b, '0') + "e-" + std::to_string(b + (int)c.choose(3) * 100);
                     check(c, t);
                     check(c, "-0." + t.substr(0, t.find_first_of(".e")));
                 });
    mc::scenario("huge-exponents", 8, [](Ctx& c)
                 {
                     static const std::vector<std::string> man{"0", "1", "0.0", "-0", "-1", ".000001", "123456", std::string(40, '9')};
                     static const std::vector<std::string> ex{"308", "309", "323", "324", "330", "400", "1000", "9999", "32768", "65536", "99999", "2147483646", "2147483647", "2147483648", "2147483649", "4294967295", "4294967296", "4294967297", "4294967300", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551618", "99999999999999999999", "1000000000000000000000000000000", "0000000000000000000001", "000000000000000000000000002"};
                     const auto& m = c.of(man);
                     static const std::vector<std::string> sg{"", "+", "-"};
                     std::string t = m + "e" + c.of(sg);
                     check(c, t + c.of(ex));
                 });
    mc::scenario("very long", 16, [](Ctx& c)
                 {
                     int n = c.of(std::vector<int>{4095, 4096, 32767, 32768, 65535, 65536, 70001}), kind = c.choose(10);
                     const std::string N(n, '9'), Z(n, '0');
                     const std::string t[] = {N, Z + "1.5", "1." + Z + "1", "-0." + Z + "1e" + std::to_string(n), "1" + Z + "e-" + std::to_string(n), std::string(n, ' ') + "2.5" + std::string(n, '\t'), "1e" + Z + "7", "1e-" + Z + "7", N + "x", "0." + N};
                     LOG(c, "length " << n << " kind " << kind);
                     check(c, t[kind]);
                 });
    mc::scenario("compensated", 8, [](Ctx& c)
                 {
                     // 0.000...1e+n and 1000...e-n
                     static const std::vector<int> ns{10, 100, 300, 308, 309, 320, 324, 330, 500, 1000};
                     int n = c.of(ns);
                     int d = c.pick(-2, 2);
                     if (c.flip())
                         check(c, "0." + std::string(n - 1, '0') + "1e" + std::to_string(n + d));
                     else
                         check(c, "1" + std::string(n, '0') + "e-" + std::to_string(n + d));
                 });
}
