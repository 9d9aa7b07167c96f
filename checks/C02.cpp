// C02: Int division and remainder satisfy the division identity.
#include "intfam.hpp"
using namespace fam;
using mc::Ctx;

static void dense(Ctx& c, int n)
{
    long long a = c.pick(-n, n), b = c.pick(-n, n);
    LOG(c, "a=" << a << " b=" << b);
    const Int x(static_cast<int>(a)), y(static_cast<int>(b));
    Int z = x, w = x;
    if (b == 0)
    {
        CHECK(mc::throws_runtime([&] { x / y; }), "a / 0 must raise a runtime error, a=" << a);
        CHECK(mc::throws_runtime([&] { x % y; }), "a % 0 must raise a runtime error, a=" << a);
        CHECK(mc::throws_runtime([&] { z /= y; }), "a /= 0 must raise a runtime error, a=" << a);
        CHECK(mc::throws_runtime([&] { w %= y; }), "a %= 0 must raise a runtime error, a=" << a);
        is_fast(z, a, "unchanged after a /= 0", a, b);
        is_fast(w, a, "unchanged after a %= 0", a, b);
    }
    else
    {
        is_fast(x / y, a / b, "a/b", a, b);
        is_fast(x % y, a % b, "a%b", a, b);
        CHECK(&(z /= y) == &z, "");
        is_fast(z, a / b, "a/=b", a, b);
        CHECK(&(w %= y) == &w, "");
        is_fast(w, a % b, "a%=b", a, b);
        is_fast(z * y + w, a, "(a/b)*b + a%b", a, b);
    }
    is_fast(x, a, "left operand unchanged", a, b);
    is_fast(y, b, "right operand unchanged", a, b);
    c.step(5);
    c.state(mc::hash_str(std::to_string(a) + "," + std::to_string(b)));
}

static void pair_check(Ctx& c, const std::string& sa, const std::string& sb)
{
    LOG(c, "a=" << cut(sa) << " b=" << cut(sb));
    const Ref ra(sa), rb(sb);
    const Int x(sa.c_str()), y(sb.c_str());
    Int z = x, w = x;
    if (rb == 0)
    {
        CHECK(mc::throws_runtime([&] { z /= y; }) && mc::throws_runtime([&] { w %= y; }), "division by zero must raise a runtime error");
        CHECK(mc::throws_runtime([&] { x / y; }) && mc::throws_runtime([&] { x % y; }), "division by zero must raise a runtime error");
        is(z, sa, "unchanged after /= 0");
        is(w, sa, "unchanged after %= 0");
        return;
    }
    const Ref q = ra / rb, r = ra % rb;
    is(x / y, q, "a/b");
    is(x % y, r, "a%b");
    z /= y;
    is(z, q, "a/=b");
    w %= y;
    is(w, r, "a%=b");
    is(x, sa, "left operand unchanged");
    is(y, sb, "right operand unchanged");
    // the results are usable as operands
    z *= y;
    z += w;
    is(z, ra, "(a/b)*b + a%b");
    c.step(6);
    c.state(mc::hash_str(sa + "," + sb));
}

static void self_check(Ctx& c, const std::string& s)
{
    LOG(c, "a=" << cut(s));
    const Int x(s.c_str());
    Int a = x, b = x;
    if (x.is_zero())
    {
        CHECK(mc::throws_runtime([&] { a /= a; }), "0 /= 0");
        CHECK(mc::throws_runtime([&] { b %= b; }), "0 %= 0");
        is(a, s, "unchanged");
        is(b, s, "unchanged");
    }
    else
    {
        a /= a;
        is(a, Ref(1), "a/=a");
        b %= b;
        is(b, Ref(0), "a%=a");
        is(x / x, Ref(1), "a/a");
        is(x % x, Ref(0), "a%a");
        is(x / -x, Ref(-1), "a/-a");
        is(x % -x, Ref(0), "a%-a");
    }
    is(x, s, "operand unchanged");
    c.step(6);
    c.state(mc::hash_str(s));
}

void register_scenarios()
{
    bool T = mc::G.tier;
#if MC_SAN
    int n = T ? 400 : 150;
    static auto ed = edges(T ? 30 : 16, 1);
    static auto num = runs3(T ? "0159" : "019", {1, 3, 8}, T ? 20 : 16);
    static auto qs = runs3(T ? "0129" : "019", T ? std::vector<int>{1, 2, 5} : std::vector<int>{1, 4}, T ? 15 : 9);
    static auto dv = edges(T ? 14 : 8, 1);
    static auto lg = longs(T ? std::vector<int>{19, 20, 33, 64, 65, 128, 129} : std::vector<int>{19, 20, 33, 65, 129});
#else
    int n = T ? 2100 : 700;
    static auto ed = edges(T ? 50 : 32, 2);
    static auto num = runs3("0159", {1, 2, 3, 8}, T ? 24 : 20);
    static auto qs = runs3(T ? "01289" : "0129", T ? std::vector<int>{1, 2, 5} : std::vector<int>{1, 4}, T ? 15 : 10);
    static auto dv = edges(T ? 20 : 12, 2);
    static auto lg = longs(T ? std::vector<int>{9, 10, 18, 19, 20, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300, 512, 513} : std::vector<int>{10, 18, 19, 20, 33, 64, 65, 128, 129, 256, 257});
#endif
    static auto selfs = edges(T ? 300 : 80, 3);
    mc::scenario("dense-pairs", 16, [n](Ctx& c) { dense(c, n); });
    mc::scenario("edge-pairs", 16, [](Ctx& c) { const auto& a = c.of(ed); const auto& b = c.of(ed); pair_check(c, a, b); });
    mc::scenario("digit-run-pairs", 32, [](Ctx& c)
                 {
                     static const std::vector<std::string> part = runs3("0129", {1, 4}, 8);
                     const auto& a = c.of(num);
                     const auto& b = c.of(part);
                     pair_check(c, a, b);
                 });
    // dividends built from a chosen quotient, divisor and remainder: every quotient digit pattern with 0 and 9 runs,
    // remainders 0, 1, |b|-1, around the middle
    mc::scenario("composed", 32, [](Ctx& c)
                 {
                     Ref q(c.of(qs)), b(c.of(dv));
                     Ref m = boost::multiprecision::abs(b), r;
                     switch (c.choose(4))
                     {
                         case 0: r = 0; break;
                         case 1: r = m > 1 ? 1 : 0; break;
                         case 2: r = m > 0 ? Ref(m - 1) : 0; break;
                         case 3: r = m / 2; break;
                     }
                     Ref a = q * b;
                     a += a < 0 ? Ref(-r) : r;
                     pair_check(c, rs(a), rs(b));
                 });
    mc::scenario("long-pairs", 16, [](Ctx& c) { const auto& a = c.of(lg); const auto& b = c.of(lg); pair_check(c, a, b); });
    mc::scenario("long-short-pairs", 16, [](Ctx& c)
                 {
                     static const std::vector<std::string> sh{"0", "1", "-1", "2", "7", "-9", "10", "-10", "99", "-101", "500000000", "999999999", "-1000000000", "2147483647", "-2147483648", "12345678901234567890"};
                     const auto& a = c.of(lg);
                     const auto& b = c.of(sh);
                     if (c.flip())
                         pair_check(c, a, b);
                     else
                         pair_check(c, b, a);
                 });
    // longer than any 16-bit counter: divisors of almost the same length, so that the quotient is short
    mc::scenario("very long", 32, [T](Ctx& c)
                 {
                     int n = c.of(T ? wide() : std::vector<int>{32769, 65536}), kind = c.choose(3), q = std::vector<int>{1, 10, 37, 9, 999}[c.choose(T ? 5 : 3)];
                     int s = c.choose(4);
                     const std::string b = wide_number(n, kind), r = std::vector<std::string>{"0", "1", dsub(b, "1"), b.substr(0, n / 2)}[c.choose(T ? 4 : 3)];
                     const std::string a = dadd(dmul(b, q), r);
                     LOG(c, "divisor of " << n << " digits, kind " << kind << ", quotient " << q);
                     const Int x((s & 1 ? "-" + a : a).c_str()), y((s & 2 ? "-" + b : b).c_str());
                     const std::string wq = ((s & 1) ^ (s >> 1) ? "-" : "") + std::to_string(q), wr = (s & 1) && r != "0" ? "-" + r : r;
                     is_text(x / y, wq, "a/b");
                     is_text(x % y, wr, "a%b");
                     is_text(y / (x * 1000), "0", "b/(1000*a)");
                     is_text(y % (x * 1000), s & 2 ? "-" + b : b, "b%(1000*a)");
                     Int z = x;
                     z /= y;
                     z *= y;
                     z += x % y;
                     is_text(z, s & 1 ? "-" + a : a, "(a/b)*b + a%b");
                     c.step(6);
                     c.state(n * 1000l + kind * 100 + q * 10 + s);
                 });
    mc::scenario("self", 16, [](Ctx& c) { self_check(c, c.of(selfs)); });
    mc::scenario("self-long", 16, [](Ctx& c) { self_check(c, c.of(lg)); });
}
