// C06: Int powers and factorials are exact.
#include "intfam.hpp"
using namespace fam;
using mc::Ctx;

static Ref ipow(Ref b, long e)
{
    Ref r = 1;
    for (; e > 0; e /= 2, b *= b)
        if (e % 2)
            r *= b;
    return r;
}
static Ref rpow(const Ref& b, long e)
{
    if (e >= 0)
        return ipow(b, e);
    if (b == 1)
        return 1;
    if (b == -1)
        return e % 2 ? -1 : 1;
    return 0;
}
// (b^e) % m, remainder with the sign of b^e, without forming b^e.
static Ref rpowmod(const Ref& b, const Ref& e, const Ref& m)
{
    Ref am = boost::multiprecision::abs(m), ab = boost::multiprecision::abs(b);
    Ref r = boost::multiprecision::powm(Ref(ab % am), e, am);
    if (am == 1)
        r = 0;
    return b < 0 && e % 2 == 1 ? Ref(-r) : r;
}

static void pow_check(Ctx& c, const std::string& sb, long e)
{
    LOG(c, "pow(" << cut(sb) << ", " << e << ")");
    const Int b(sb.c_str()), ei(static_cast<int>(e));
    Ref rb(sb);
    if (rb == 0 && e < 0)
        CHECK(mc::throws_runtime([&] { Int::pow(b, ei); }), "0 to a negative power must raise a runtime error");
    else
        is(Int::pow(b, ei), rpow(rb, e), "pow(" + cut(sb) + ", " + std::to_string(e) + ")");
    is(b, sb, "base unchanged");
    is(ei, std::to_string(e), "exponent unchanged");
    c.step();
    c.state("p" + sb + "," + std::to_string(e));
}
static void powmod_check(Ctx& c, const std::string& sb, const std::string& se, const std::string& sm)
{
    LOG(c, "pow(" << cut(sb) << ", " << cut(se) << ", " << cut(sm) << ")");
    const Int b(sb.c_str()), e(se.c_str()), m(sm.c_str());
    Ref rb(sb), re(se), rm(sm);
    is(Int::pow(b, e, m), rpowmod(rb, re, rm), "pow(" + cut(sb) + ", " + cut(se) + ", " + cut(sm) + ")");
    is(b, sb, "base unchanged");
    is(e, se, "exponent unchanged");
    is(m, sm, "modulus unchanged");
    c.step();
    c.state("m" + sb + "," + se + "," + sm);
}

void register_scenarios()
{
    bool T = mc::G.tier;
    int nb = MC_SAN ? (T ? 130 : 45) : (T ? 400 : 130), ne = MC_SAN ? (T ? 90 : 45) : (T ? 140 : 90);
    mc::scenario("pow-dense", 16, [nb, ne](Ctx& c)
                 {
                     int b = c.pick(-nb, nb), e = c.pick(-6, ne);
                     pow_check(c, std::to_string(b), e);
                 });
    mc::scenario("pow-unit-bases", 4, [](Ctx& c)
                 {
                     static const std::vector<int> es{INT_MAX, INT_MAX - 1, INT_MIN, INT_MIN + 1, 1000000000, 999999999, -1000000000, -1000000001, 100, 101, -100, -101};
                     static const std::vector<std::string> bs{"1", "-1", "0"};
                     const auto& b = c.of(bs);
                     long e = c.of(es);
                     if (b == "0" && e > 0)
                     {
                         is(Int::pow(0, int(e)), Ref(0), "0^e");
                         return;
                     }
                     pow_check(c, b, e);
                 });
    // negative exponents of long bases, also exponents longer than any native type
    mc::scenario("pow-negative-long", 4, [](Ctx& c)
                 {
                     static const std::vector<std::string> bs{"2", "-2", "10", "-10", "11", "100", "1000000000000000000000", "-1000000000000000000001", "1", "-1"};
                     static const std::vector<std::string> es{"-1", "-2", "-10", "-100000000000000000000", "-100000000000000000001"};
                     const auto &b = c.of(bs), &e = c.of(es);
                     Ref w = b == "1" ? 1 : b == "-1" ? ((e.back() - '0') % 2 ? -1 : 1) : 0;
                     is(Int::pow(Int(b.c_str()), Int(e.c_str())), w, "pow(" + b + ", " + e + ")");
                     c.step();
                     c.state(b + "," + e);
                 });
    static auto pb = edges(MC_SAN ? 10 : (T ? 40 : 22), 1);
    static auto pr = runs3(MC_SAN ? "19" : "0159", {1, 4}, 12);
    int le = MC_SAN ? (T ? 12 : 7) : (T ? 24 : 12);
    mc::scenario("pow-long-bases", 16, [le](Ctx& c)
                 {
                     const auto& f = c.flip() ? pb : pr;
                     const auto& b = c.of(f);
                     pow_check(c, b, c.pick(0, le));
                 });
    mc::scenario("pow-large-exponents", 16, [](Ctx& c)
                 {
                     int b = c.pick(-13, 13);
                     static const std::vector<int> es{63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300};
                     static const std::vector<int> more{511, 512, 513, 1000};
                     int e = MC_SAN || b * b > 9 ? c.of(es) : c.flip() ? c.of(es) : c.of(more);
                     pow_check(c, std::to_string(b), e);
                 });
    int mb = MC_SAN ? (T ? 30 : 13) : (T ? 110 : 40), me = MC_SAN ? (T ? 40 : 18) : (T ? 80 : 40), mm = MC_SAN ? (T ? 45 : 22) : (T ? 110 : 45);
    mc::scenario("powmod-dense", 16, [mb, me, mm](Ctx& c)
                 {
                     int b = c.pick(-mb, mb);
                     int e = c.pick(0, me);
                     int m = c.pick(1, mm);
                     if (c.flip())
                         m = -m;
                     powmod_check(c, std::to_string(b), std::to_string(e), std::to_string(m));
                 });
    static std::vector<std::string> lb{"0", "1", "-1", "2", "-2", "9", "10", "-10", "99", "123456789", "-2147483648", "18446744073709551616", "-99999999999999999999", "100000000000000000000", "123456789012345678901234567890"};
    static std::vector<std::string> lx{"0", "1", "2", "3", "9", "10", "64", "65", "255", "1024", "1000000007", "18446744073709551616", "99999999999999999999", "340282366920938463463374607431768211455"};
    static std::vector<std::string> lm{"1", "-1", "2", "-2", "3", "9", "10", "-10", "97", "256", "1000000007", "-1000000007", "2147483648", "18446744073709551616", "-100000000000000000000", "170141183460469231731687303715884105727"};
    mc::scenario("powmod-long", 15, [](Ctx& c)
                 {
                     const auto &b = c.of(lb), &e = c.of(lx), &m = c.of(lm);
                     powmod_check(c, b, e, m);
                 });
    // every small modulus and the round ones, composite as well as prime, with exponents far beyond any period
    static std::vector<int> pm = []
    {
        std::vector<int> v;
        for (int i = 2; i <= (MC_SAN ? 40 : 300); ++i)
            v.push_back(i);
        for (int i : {343, 500, 512, 561, 625, 729, 999, 1000, 1001, 1024, 1105, 4096, 9973, 10000, 19683, 65536, 65537, 100000, 1000000})
            v.push_back(i);
        return v;
    }();
    mc::scenario("powmod-periods", 20, [T](Ctx& c)
                 {
                     static const std::vector<std::string> es{"1000000", "1000003", "100000000", "2147483647", "2147483648", "4294967296", "10000000000000000000000"};
                     int m = c.of(pm), e = c.choose(T ? 7 : 5);
                     for (int b = T ? -30 : -6; b <= (T ? 60 : 30); ++b)
                         powmod_check(c, std::to_string(b), es[e], std::to_string(m));
                 });
    // around every machine word: what fits a word must not be squared in it
    mc::scenario("powmod-words", 32, [T](Ctx& c)
                 {
                     static std::vector<Ref> ws = []
                     {
                         std::vector<Ref> v;
                         for (int k : {8, 15, 16, 17, 24, 30, 31, 32, 33, 34, 47, 48, 52, 53, 62, 63, 64, 65, 96, 127, 128})
                             v.push_back(Ref(1) << k);
                         for (int k : {4, 5, 8, 9, 10, 17, 18, 19, 20})
                             v.push_back(Ref(boost::multiprecision::pow(Ref(10), k)));
                         v.push_back(Ref("4000000007"));
                         v.push_back(Ref("9999999967"));
                         v.push_back(Ref("3037000500"));
                         return v;
                     }();
                     int i = c.choose(ws.size()), j = c.choose(T ? ws.size() : 3);
                     static const std::vector<std::string> es{"2", "3", "5", "64", "65537"};
                     const auto& e = c.of(es);
                     for (int d : {-1, 0, 1})
                     {
                         Ref m = ws[i] + d;
                         const Ref cand[] = {m - 1, m / 2 + 1, m - 2};
                         for (int o : {-1, 0, 1})
                             powmod_check(c, (T ? Ref(ws[j] + o) : Ref(cand[j] + (j == 1 ? o : 0))).str(), e, m.str());
                     }
                 });
    mc::scenario("pow-aliased", 4, [](Ctx& c)
                 {
                     int v = c.pick(1, 20);
                     Int a(v);
                     is(Int::pow(a, a), ipow(v, v), "pow(a, a)");
                     is(Int::pow(a, a, a), rpowmod(v, v, v), "pow(a, a, a)");
                     is(a, Ref(v), "operand unchanged");
                     a = Int::pow(a, a);
                     is(a, ipow(v, v), "a = pow(a, a)");
                     c.step(3);
                     c.state(std::to_string(v));
                 });
    int nf = MC_SAN ? (T ? 500 : 250) : (T ? 1500 : 700);
    mc::scenario("factorial", 16, [nf](Ctx& c)
                 {
                     int n = c.pick(-5, nf);
                     LOG(c, n << "!");
                     const Int a(n);
                     if (n < 0)
                         CHECK(mc::throws_runtime([&] { a.factorial(); }), "factorial of " << n);
                     else
                     {
                         Ref r = 1;
                         for (int i = 2; i <= n; ++i)
                             r *= i;
                         is(a.factorial(), r, std::to_string(n) + "!");
                     }
                     is(a, std::to_string(n), "operand unchanged");
                     c.step();
                     c.state(std::to_string(n));
                 });
    mc::scenario("factorial-negative-long", 2, [](Ctx& c)
                 {
                     static const std::vector<std::string> v{"-2147483648", "-10000000000000000000000", "-100"};
                     Int a(c.of(v).c_str());
                     CHECK(mc::throws_runtime([&] { a.factorial(); }), "factorial of a negative integer");
                     c.step();
                 });
}
