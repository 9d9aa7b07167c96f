// C25: Fraction remainder, gcd and lcm follow their definitions.
#include "fracfam.hpp"
using namespace fam;

// gcd(a/b, c/d) = gcd(ad, cb)/(bd) and lcm = |a/b * c/d| / gcd, over 128-bit integers
static Q rgcd(Q a, Q b) { return Q(wgcd(a.n * b.d, b.n * a.d), a.d * b.d); }
static Q rlcm(Q a, Q b)
{
    if (a.n == 0 || b.n == 0)
        return Q(0);
    W g = wgcd(a.n, b.n); // lcm of numerators over gcd of denominators
    return Q(wabs(a.n / g * b.n), wgcd(a.d, b.d));
}
static bool multiple(Q a, Q of) // a is an integer multiple of `of`
{
    return of.n == 0 ? a.n == 0 : (a / of).d == 1;
}
static void pair(Ctx& c, std::pair<int, int> x, std::pair<int, int> y)
{
    const Fraction a(x.first, x.second), b(y.first, y.second);
    const Q p(x.first, x.second), q(y.first, y.second);
    LOG(c, sf(a) << ", " << sf(b));
    std::string what = sf(a) + " % " + sf(b);
    if (q.n == 0)
    {
        CHECK(outcome_of([&] { a % b; }) == "runtime_error", what << ": zero divisor accepted");
        Fraction g = a;
        CHECK(outcome_of([&] { g %= b; }) == "runtime_error", what << ": zero divisor accepted by %=");
        is(g, p, "dividend after a rejected %=");
    }
    else
    {
        Q w = p - Q(trunc(p / q)) * q;
        gives(c, [&] { return a % b; }, w, what);
        Fraction g = a;
        Fraction* r = &g;
        std::string o = outcome_of([&] { r = &(g %= b); });
        CHECK(r == &g && o == (w.fits() ? "ok" : "runtime_error"), what << ": %= " << o);
        is(g, w.fits() ? w : p, what + " by %=");
    }
    Q wg = rgcd(p, q), wl = rlcm(p, q);
    CHECK(multiple(p, wg) && multiple(q, wg) && multiple(wl, p) && multiple(wl, q), "the reference is wrong");
    gives(c, [&] { return Fraction::gcd(a, b); }, wg, "gcd(" + sf(a) + "," + sf(b) + ")");
    gives(c, [&] { return Fraction::lcm(a, b); }, wl, "lcm(" + sf(a) + "," + sf(b) + ")");
    is(a, p, "first argument");
    is(b, q, "second argument");
    c.state(sf(a) + sf(b));
}

void register_scenarios()
{
    bool T = mc::G.tier, fast = !MC_SAN;
    mc::scenario("pairs/small", 32, [T, fast](Ctx& c)
                 { const auto& v = small(T || fast ? 16 : 10); auto x = c.of(v); pair(c, x, c.of(v)); });
    mc::scenario("pairs/grid", 64, [T, fast](Ctx& c)
                 {
                     auto x = c.of(big());
                     std::size_t n = big().size();
                     if (T || fast)
                         pair(c, x, c.of(big()));
                     else
                         pair(c, x, big()[std::min<std::size_t>(n - 1, c.choose((n + 3) / 4) * 4 + ((unsigned)x.first + (unsigned)x.second) % 4)]);
                 });
    // integers of every sign as fractions
    mc::scenario("integers", 16, [T](Ctx& c)
                 { int k = T ? 80 : 40, x = c.pick(-k, k); pair(c, {x, 1}, {int(c.pick(-k, k)), 1}); });
    mc::scenario("itself", 8, [](Ctx& c)
                 {
                     auto x = c.of(big());
                     Fraction f(x.first, x.second), g = f;
                     Q q(x.first, x.second);
                     std::string o = outcome_of([&] { g %= g; });
                     CHECK(o == (q.n ? "ok" : "runtime_error"), "f %= f " << o);
                     is(g, q.n ? Q(0) : q, "f %= f");
                     gives(c, [&] { return Fraction::gcd(f, f); }, Q(wabs(q.n), q.d), "gcd(f,f)");
                     gives(c, [&] { return Fraction::lcm(f, f); }, Q(wabs(q.n), q.d), "lcm(f,f)");
                 });
    // Fibonacci neighbours: the longest Euclid runs
    mc::scenario("fibonacci", 8, [](Ctx& c)
                 {
                     std::vector<int> f{1, 1};
                     while ((long)f.back() + f[f.size() - 2] <= INT_MAX)
                         f.push_back(f.back() + f[f.size() - 2]);
                     int i = c.choose(f.size() - 1), j = c.choose(f.size() - 1);
                     int s = c.choose(4);
                     int a = s & 1 ? -f[i] : f[i], b = s & 2 ? -f[i + 1] : f[i + 1];
                     pair(c, {a, f[j]}, {b, f[j]});
                     pair(c, {a, f[j]}, {b, f[j + 1]});
                 });
}
