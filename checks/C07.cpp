// C07: Int primality and next prime are right for every integer.
#include "intfam.hpp"
using namespace fam;
using mc::Ctx;

static bool prime(long long n)
{
    if (n < 2)
        return false;
    for (long long i = 2; i * i <= n; ++i)
        if (n % i == 0)
            return false;
    return true;
}
static void check(Ctx& c, long long v)
{
    LOG(c, v);
    const Int a(std::to_string(v).c_str());
    CHECK(a.is_prime() == prime(v), "is_prime of " << v << " is " << a.is_prime());
    is(a, std::to_string(v), "operand unchanged");
    c.step();
    c.state(std::to_string(v));
    c.outcome(prime(v) ? "prime" : "composite");
}
static void next(Ctx& c, long long v)
{
    LOG(c, v);
    const Int a(std::to_string(v).c_str());
    long long p = std::max(v + 1, 2ll);
    while (!prime(p))
        ++p;
    is(a.next_prime(), std::to_string(p), "next_prime of " + std::to_string(v));
    is(a, std::to_string(v), "operand unchanged");
    c.step();
    c.state("n" + std::to_string(v));
}

void register_scenarios()
{
    bool T = mc::G.tier;
    int n = MC_SAN ? (T ? 60000 : 12000) : (T ? 1000000 : 200000);
    mc::scenario("is_prime-dense", 16, [n](Ctx& c) { check(c, c.pick(-200, n)); });
    int m = MC_SAN ? (T ? 20000 : 4000) : (T ? 400000 : 60000);
    mc::scenario("next_prime-dense", 16, [m](Ctx& c) { next(c, c.pick(-200, m)); });
    // squares of primes and products of neighbouring primes: the last divisor tried decides
    int k = MC_SAN ? 60 : (T ? 300 : 150);
    mc::scenario("prime-products", 16, [k](Ctx& c)
                 {
                     int i = c.choose(k), d = c.choose(3);
                     std::vector<long long> p;
                     for (long long x = 2; (int)p.size() < i + 3; ++x)
                         if (prime(x))
                             p.push_back(x);
                     check(c, p[i] * p[i + d]);
                     if (c.flip())
                         next(c, p[i] * p[i + d] - c.choose(3));
                 });
    mc::scenario("long", 16, [T](Ctx& c)
                 {
                     // primes, strong pseudoprimes, Carmichael numbers and neighbours of native limits
                     static const std::vector<long long> v{561, 1105, 1729, 2047, 3277, 4033, 6601, 8911, 65535, 65536, 65537, 99991, 100003, 131071, 524287, 1000003, 1002001, 999983ll, 9999991, 9998244, 25326001 % 10000019, 3215031751ll % 10000019};
                     long long x = c.of(v) + c.pick(-2, 2);
                     if (MC_SAN && x > 200000)
                         return;
                     check(c, x);
                     next(c, x);
                 });
    // composites that probabilistic tests take for primes: all Fermat pseudoprimes to base 2, 3, 5 or 7 up to a bound, known
    // strong pseudoprimes to several bases at once, and the neighbourhood of native limits
    static const auto pseudo = []
    {
        std::vector<long long> v{1373653, 25326001, 3215031751, 1050535501, 2152302898747, 3474749660383, 27278026129 % 1000003, 321197185, 5394826801, 232250619601, 9746347772161,
                                 271441, 904631, 16532714, 24658561, 46340ll * 46340, 46341ll * 46341, 46337ll * 46337, 2147395600, 2147483629, 2147483647, 2147483648, 2147483659, 4294967291, 4294967296, 4294967297, 65521ll * 65521, 65537ll * 65537};
        auto power = [](unsigned long long b, long long e, long long n)
        {
            unsigned long long r = 1;
            for (; e; e >>= 1, b = b * b % n)
                if (e & 1)
                    r = r * b % n;
            return r;
        };
        long long limit = mc::G.tier ? 20000000 : 3000000;
        for (long long n = 9; n < limit; n += 2)
            for (int b : {2, 3, 5, 7})
                if (power(b, n - 1, n) == 1 && !prime(n))
                {
                    v.push_back(n);
                    break;
                }
        return v;
    }();
    if (!MC_SAN)
        mc::scenario("pseudoprimes", 64, [](Ctx& c) { check(c, c.of(pseudo)); });
    mc::scenario("negative-long", 4, [](Ctx& c)
                 {
                     static const std::vector<std::string> v{"-1", "-2", "-3", "-7", "-13", "-2147483648", "-2147483647", "-100000000000000000000", "-99999999999999999989"};
                     const auto& s = c.of(v);
                     Int a(s.c_str());
                     CHECK(!a.is_prime(), s << " is not prime");
                     is(a.next_prime(), "2", "next_prime of " + s);
                     c.step(2);
                     c.state(s);
                 });
    // even numbers of any size are composite and this is decided at once
    mc::scenario("even-long", 4, [](Ctx& c)
                 {
                     static const auto e = edges(MC_SAN ? 30 : 60, 2);
                     const auto& s = c.of(e);
                     if ((s.back() - '0') % 2 || s.size() < 2)
                         return;
                     CHECK(!Int(s.c_str()).is_prime(), s << " is not prime");
                     c.step();
                     c.state(s);
                 });
}
