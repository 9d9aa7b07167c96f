// C24: Fraction comparison is the order of the rationals.
#include "fracfam.hpp"
using namespace fam;

static void pair(Ctx& c, std::pair<int, int> x, std::pair<int, int> y)
{
    const Fraction a(x.first, x.second), b(y.first, y.second);
    int w = cmp(Q(x.first, x.second), Q(y.first, y.second));
    LOG(c, sf(a) << " ? " << sf(b));
    bool eq = a == b, ne = a != b, lt = a < b, le = a <= b, gt = a > b, ge = a >= b;
    CHECK(eq == (w == 0), sf(a) << " == " << sf(b) << " is " << eq);
    CHECK(ne == (w != 0), sf(a) << " != " << sf(b) << " is " << ne);
    CHECK(lt == (w < 0), sf(a) << " < " << sf(b) << " is " << lt);
    CHECK(le == (w <= 0), sf(a) << " <= " << sf(b) << " is " << le);
    CHECK(gt == (w > 0), sf(a) << " > " << sf(b) << " is " << gt);
    CHECK(ge == (w >= 0), sf(a) << " >= " << sf(b) << " is " << ge);
    auto t = a <=> b;
    CHECK((t < 0) == (w < 0) && (t > 0) == (w > 0) && (t == 0) == (w == 0), sf(a) << " <=> " << sf(b));
    CHECK(eq == (a.numerator() == b.numerator() && a.denominator() == b.denominator()), "equal fractions have equal terms");
    c.step(7);
    c.state(sf(a) + sf(b));
}

void register_scenarios()
{
    bool T = mc::G.tier, fast = !MC_SAN;
    mc::scenario("pairs/small", 32, [T](Ctx& c)
                 { const auto& v = small(T ? 16 : 12); auto x = c.of(v); pair(c, x, c.of(v)); });
    mc::scenario("pairs/grid", 64, [T, fast](Ctx& c)
                 {
                     auto x = c.of(big());
                     std::size_t n = big().size();
                     if (T || fast)
                         pair(c, x, c.of(big()));
                     else
                         pair(c, x, big()[std::min<std::size_t>(n - 1, c.choose((n + 3) / 4) * 4 + ((unsigned)x.first + (unsigned)x.second) % 4)]);
                 });
    // neighbours: fractions that differ by less than any floating point type of fewer than 62 bits resolves
    mc::scenario("neighbours", 64, [T](Ctx& c)
                 {
                     static const std::vector<long> base{2, 3, 10, 1000, 32767, 32768, 46340, 46341, 65535, 65536, 94906265, 94906266, 134217728, 1073741823, 1073741824, 1518500249, 2147483629, 2147483640, 2147483646, 2147483647};
                     long p = c.of(base) + c.pick(-2, 0), q = c.of(base) + c.pick(-2, 0);
                     long dp = c.pick(-3, 3), dq = c.pick(-3, 3);
                     bool neg = c.flip();
                     long r = p + dp, s = q + dq;
                     if (q <= 0 || s <= 0 || r > INT_MAX || s > INT_MAX || p > INT_MAX || q > INT_MAX)
                         return;
                     pair(c, {int(neg ? -p : p), int(q)}, {int(neg ? -r : r), int(s)});
                 });
    // equal values however they were computed
    mc::scenario("equal by different routes", 16, [](Ctx& c)
                 {
                     auto x = c.of(big());
                     Fraction a(x.first, x.second);
                     Fraction b = a;
                     switch (c.choose(5))
                     {
                         case 0: b = Fraction(x.first) / Fraction(x.second); break;
                         case 1: b = Fraction(1, x.second) * Fraction(x.first); break;
                         case 2: b = a + Fraction(0); break;
                         case 3: b = std::move(Fraction(a)); break;
                         case 4: std::istringstream(sf(a)) >> b; break;
                     }
                     CHECK(a == b && !(a != b) && !(a < b) && !(a > b) && a <= b && a >= b, sf(a) << " and " << sf(b) << " are the same value");
                     c.step();
                 });
    // chains: sorting by < gives the exact order, equality is an equivalence
    mc::scenario("triples", 32, [](Ctx& c)
                 {
                     static const std::vector<std::pair<int, int>> v{{0, 1}, {1, 1}, {-1, 1}, {1, 2}, {1, 3}, {2, 3}, {-2, 3}, {INT_MAX, 1}, {INT_MAX, 2}, {INT_MIN, 1}, {INT_MIN, 3}, {1, INT_MAX}, {-1, INT_MAX}, {2, INT_MAX}, {2147483646, INT_MAX}, {2147483645, 2147483646}, {2147483644, 2147483645}, {INT_MAX, 2147483646}, {2147483646, 2147483645}, {46341, 46340}, {46342, 46341}, {65536, 65537}, {65535, 65536}, {1073741824, 1073741823}, {-1073741824, 1073741823}};
                     auto x = c.of(v), y = c.of(v), z = c.of(v);
                     Fraction a(x.first, x.second), b(y.first, y.second), d(z.first, z.second);
                     CHECK(!(a < b && b < d) || a < d, "transitivity of <");
                     CHECK(!(a <= b && b <= d) || a <= d, "transitivity of <=");
                     CHECK(!(a == b && b == d) || a == d, "transitivity of ==");
                     CHECK((a < b) + (a == b) + (a > b) == 1, "trichotomy");
                     c.step(4);
                 });
}
