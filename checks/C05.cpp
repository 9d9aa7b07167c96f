// C05: Int sqrt, log, gcd and lcm are exact and terminate.
#include "intfam.hpp"
using namespace fam;
using mc::Ctx;

static void sqrt_check(Ctx& c, const std::string& s)
{
    LOG(c, "sqrt(" << cut(s) << ")");
    const Int n(s.c_str());
    if (s[0] == '-')
    {
        CHECK(mc::throws_runtime([&] { Int::sqrt(n); }), "sqrt of " << cut(s) << " must raise a runtime error");
    }
    else
    {
        Ref r(s);
        is(Int::sqrt(n), Ref(boost::multiprecision::sqrt(r)), "sqrt(" + cut(s) + ")");
    }
    is(n, s, "operand unchanged");
    c.step();
    c.state("sqrt" + s);
}
static void log_check(Ctx& c, const std::string& s, const std::string& sb)
{
    LOG(c, "log(" << cut(s) << ", " << cut(sb) << ")");
    const Int n(s.c_str()), b(sb.c_str());
    Ref rn(s), rb(sb);
    if (rn <= 0 || rb < 2)
        CHECK(mc::throws_runtime([&] { Int::log(n, b); }), "log(" << cut(s) << ", " << cut(sb) << ") must raise a runtime error");
    else
    {
        Ref p = rb;
        long k = 0;
        while (p <= rn)
            p *= rb, ++k;
        is(Int::log(n, b), std::to_string(k), "log(" + cut(s) + ", " + cut(sb) + ")");
    }
    is(n, s, "operand unchanged");
    is(b, sb, "base unchanged");
    c.step();
    c.state("log" + s + "," + sb);
}
static void gcd_check(Ctx& c, const std::string& sa, const std::string& sb)
{
    LOG(c, "gcd/lcm(" << cut(sa) << ", " << cut(sb) << ")");
    const Int a(sa.c_str()), b(sb.c_str());
    Ref ra(sa), rb(sb);
    Ref g = boost::multiprecision::gcd(ra, rb);
    if (g < 0)
        g = -g;
    Ref l = ra == 0 || rb == 0 ? Ref(0) : Ref(boost::multiprecision::abs(Ref(ra * rb)) / g);
    is(Int::gcd(a, b), g, "gcd(" + cut(sa) + ", " + cut(sb) + ")");
    is(Int::lcm(a, b), l, "lcm(" + cut(sa) + ", " + cut(sb) + ")");
    is(a, sa, "operand unchanged");
    is(b, sb, "operand unchanged");
    c.step(2);
    c.state("gcd" + sa + "," + sb);
}

void register_scenarios()
{
    bool T = mc::G.tier;
    int n = MC_SAN ? (T ? 60000 : 12000) : (T ? 1500000 : 150000);
    mc::scenario("sqrt-dense", 16, [n](Ctx& c) { sqrt_check(c, std::to_string(c.pick(-20, n))); });
    // squares and their neighbours
    int sq = MC_SAN ? (T ? 20000 : 3000) : (T ? 300000 : 40000);
    mc::scenario("sqrt-squares", 16, [sq](Ctx& c)
                 {
                     long long k = c.pick(1, sq), d = c.pick(-1, 2) ;
                     sqrt_check(c, std::to_string(k * k + (d == 2 ? 2 * k : d)));
                 });
    static auto roots = runs3(MC_SAN ? "19" : "0159", {1, 2, 5}, MC_SAN ? 10 : 15);
    static auto eroots = edges(MC_SAN ? 25 : (T ? 120 : 45), 2);
    mc::scenario("sqrt-long-squares", 16, [](Ctx& c)
                 {
                     const auto& f = c.flip() ? roots : eroots;
                     Ref k(c.of(f));
                     static const std::vector<int> ds{-2, -1, 0, 1};
                     Ref x = k * k;
                     int o = c.choose(6);
                     x += o < 4 ? Ref(ds[o]) : o == 4 ? Ref(2 * k) : Ref(2 * k + 2);
                     sqrt_check(c, rs(x));
                 });
    static auto ev = edges(MC_SAN ? 40 : (T ? 250 : 90), 2);
    mc::scenario("sqrt-edges", 16, [](Ctx& c) { sqrt_check(c, c.of(ev)); });

    int ln = MC_SAN ? (T ? 2500 : 400) : (T ? 8000 : 2000);
    mc::scenario("log-dense", 16, [ln](Ctx& c)
                 {
                     int v = c.pick(-3, ln);
                     int b = c.pick(-3, 60);
                     log_check(c, std::to_string(v), std::to_string(b));
                 });
    int lk = MC_SAN ? (T ? 60 : 25) : (T ? 250 : 60);
    mc::scenario("log-powers", 16, [lk](Ctx& c)
                 {
                     static const std::vector<int> bs{2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 32, 36, 64, 99, 100, 101, 128, 255, 256, 1000, 1024, 9999, 10000, 10001, 65536, 1000000, 2147483647};
                     int b = c.of(bs);
                     int k = c.pick(0, lk), d = c.pick(-1, 1);
                     log_check(c, rs(Ref(boost::multiprecision::pow(Ref(b), k) + d)), std::to_string(b));
                 });
    static auto le = edges(MC_SAN ? 12 : 25, 1);
    mc::scenario("log-edges", 16, [](Ctx& c)
                 {
                     const auto &a = c.of(le), &b = c.of(le);
                     log_check(c, a, b);
                 });
    int gn = MC_SAN ? (T ? 150 : 60) : (T ? 700 : 230);
    mc::scenario("gcd-dense", 16, [gn](Ctx& c)
                 {
                     int a = c.pick(-gn, gn), b = c.pick(-gn, gn);
                     gcd_check(c, std::to_string(a), std::to_string(b));
                 });
    static auto ge = edges(MC_SAN ? 12 : (T ? 26 : 18), 1);
    mc::scenario("gcd-edges", 16, [](Ctx& c)
                 {
                     const auto &a = c.of(ge), &b = c.of(ge);
                     gcd_check(c, a, b);
                 });
    // common factor x small cofactors, consecutive Fibonacci numbers (longest Euclid runs), equal and dividing operands
    mc::scenario("gcd-structured", 16, [T](Ctx& c)
                 {
                     static const std::vector<std::string> gs{"1", "2", "9", "10", "12", "97", "1000", "65536", "999999937", "1000000000000", "123456789012345678901234567890", "340282366920938463463374607431768211456"};
                     if (c.flip())
                     {
                         int k = c.pick(1, MC_SAN ? 90 : 300);
                         Ref a = 0, b = 1;
                         for (int i = 0; i < k; ++i)
                         {
                             Ref t = a + b;
                             a = b;
                             b = t;
                         }
                         Ref g(c.of(gs));
                         a *= g, b *= g;
                         if (c.flip())
                             std::swap(a, b);
                         gcd_check(c, rs(a), rs(b));
                     }
                     else
                     {
                         Ref g(c.of(gs));
                         int x = c.pick(-14, 14), y = c.pick(-14, 14);
                         gcd_check(c, rs(Ref(g * x)), rs(Ref(g * y)));
                     }
                 });
    mc::scenario("gcd-self", 4, [](Ctx& c)
                 {
                     const auto& s = c.of(ge);
                     Int a(s.c_str());
                     Ref r = boost::multiprecision::abs(Ref(s));
                     is(Int::gcd(a, a), r, "gcd(a, a)");
                     is(Int::lcm(a, a), r, "lcm(a, a)");
                     is(Int::gcd(a, -a), r, "gcd(a, -a)");
                     is(Int::gcd(a, 0), r, "gcd(a, 0)");
                     is(Int::gcd(0, a), r, "gcd(0, a)");
                     is(Int::lcm(a, 0), Ref(0), "lcm(a, 0)");
                     is(Int::lcm(0, a), Ref(0), "lcm(0, a)");
                     is(Int::lcm(a, 1), r, "lcm(a, 1)");
                     is(a, s, "operand unchanged");
                     c.step(8);
                     c.state(s);
                 });
}
