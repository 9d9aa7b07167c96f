// C23: Fraction arithmetic is exact and canonical.
#include "fracfam.hpp"
using namespace fam;

static void construct(Ctx& c, int n, int d)
{
    LOG(c, "Fraction(" << n << "," << d << ")");
    if (d == 0)
    {
        CHECK(outcome_of([&] { Fraction f(n, d); }) == "runtime_error", "zero denominator accepted");
        return;
    }
    Q q(n, d);
    gives(c, [&] { return Fraction(n, d); }, q, "Fraction(" + std::to_string(n) + "," + std::to_string(d) + ")");
    if (!q.fits())
        return;
    const Fraction f(n, d);
    double w = double(int(q.n)) / double(int(q.d));
    CHECK(double(f) == w, "double(" << sf(f) << ") is " << double(f));
    gives(c, [&] { return +f; }, q, "+f");
    gives(c, [&] { return -f; }, Q(-q.n, q.d), "-" + sf(f));
    gives(c, [&] { return f.abs(); }, Q(wabs(q.n), q.d), "abs of " + sf(f));
    is(f, q, "f after unary operators");
    for (int s : {1, -1})
    {
        Fraction g = f;
        Q r = q + Q(s);
        Fraction* p = &g;
        std::string o = outcome_of([&] { p = s > 0 ? &++g : &--g; });
        CHECK(o == (r.fits() ? "ok" : "runtime_error") && p == &g, (s > 0 ? "++" : "--") << sf(f) << " outcome " << o);
        is(g, r.fits() ? r : q, std::string(s > 0 ? "++" : "--") + sf(f));
    }
    Fraction cp(f), as(3, 7), mv(std::move(cp));
    is(mv, q, "moved");
    is(cp, Q(0), "moved from");
    as = f;
    is(as, q, "assigned");
    cp = std::move(as);
    is(cp, q, "move-assigned");
    is(as, Q(0), "move-assigned from");
    if (n == (int)q.n && d == (int)q.d && d == 1)
        is(Fraction(n), q, "Fraction(n)");
    c.state(sf(f));
}
static void binary(Ctx& c, std::pair<int, int> x, std::pair<int, int> y)
{
    const Fraction a(x.first, x.second), b(y.first, y.second);
    const Q p(x.first, x.second), q(y.first, y.second);
    LOG(c, sf(a) << " and " << sf(b));
    static const char* ops[] = {"+", "-", "*", "/"};
    for (int k = 0; k < 4; ++k)
    {
        std::string what = sf(a) + ops[k] + sf(b);
        bool zero = k == 3 && q.n == 0;
        Q r = zero ? Q(0) : k == 0 ? p + q : k == 1 ? p - q : k == 2 ? p * q : p / q;
        auto f = [&] { return k == 0 ? a + b : k == 1 ? a - b : k == 2 ? a * b : a / b; };
        if (zero)
            CHECK(outcome_of([&] { f(); }) == "runtime_error", what << ": division by zero");
        else
            gives(c, f, r, what);
        Fraction g = a;
        Fraction* ret = &g;
        std::string o = outcome_of([&] { ret = k == 0 ? &(g += b) : k == 1 ? &(g -= b) : k == 2 ? &(g *= b) : &(g /= b); });
        CHECK(ret == &g, "compound operators return the fraction");
        bool ok = !zero && r.fits();
        CHECK(o == (ok ? "ok" : "runtime_error"), what << " compound, outcome " << o);
        is(g, ok ? r : p, what + " compound");
        c.step();
    }
    is(a, p, "left operand");
    is(b, q, "right operand");
}
static void self(Ctx& c, std::pair<int, int> x)
{
    const Q p(x.first, x.second);
    for (int k = 0; k < 4; ++k)
    {
        Fraction g(x.first, x.second);
        bool zero = k == 3 && p.n == 0;
        Q r = zero ? Q(0) : k == 0 ? p + p : k == 1 ? p - p : k == 2 ? p * p : p / p;
        std::string o = outcome_of([&] { k == 0 ? g += g : k == 1 ? g -= g : k == 2 ? g *= g : g /= g; });
        bool ok = !zero && r.fits();
        CHECK(o == (ok ? "ok" : "runtime_error"), sf(g) << " op itself, outcome " << o);
        is(g, ok ? r : p, "op itself");
        Fraction h(x.first, x.second);
        h = std::move(h) + Fraction(0);
        is(h, p, "moved through +");
        Fraction& alias = h;
        h = alias;
        is(h, p, "self-assigned");
        c.step();
    }
}

void register_scenarios()
{
    bool T = mc::G.tier, fast = !MC_SAN;
    mc::scenario("constructor/small", 8, [](Ctx& c)
                 { int n = c.pick(-40, 40); construct(c, n, c.pick(-40, 40)); });
    mc::scenario("constructor/grid", 16, [](Ctx& c)
                 {
                     int n = c.of(nums());
                     int i = c.choose(2 * nums().size());
                     int d = nums()[i / 2];
                     construct(c, n, i % 2 && d != INT_MIN ? -d : d);
                 });
    mc::scenario("constructor/common factors", 16, [](Ctx& c)
                 {
                     static const std::vector<int> f{1, 2, 3, 7, 64, 1000, 46340, 65536, 1000003, 33554432, 715827882};
                     long g = c.of(f);
                     static const std::vector<int> t{0, 1, 2, 3, 5, 31, 32, 33, 2147, 32767};
                     long n = c.of(t) * g, d = c.of(t) * g;
                     int s = c.choose(4);
                     n = s & 1 ? -n : n;
                     d = s & 2 ? -d : d;
                     if (std::labs(n) <= INT_MAX && std::labs(d) <= INT_MAX)
                         construct(c, n, d);
                 });
    mc::scenario("pairs/small", 32, [T, fast](Ctx& c)
                 { const auto& v = small(T || fast ? 16 : 9); auto x = c.of(v); binary(c, x, c.of(v)); });
    mc::scenario("pairs/grid", 64, [T, fast](Ctx& c)
                 {
                     auto x = c.of(big());
                     std::size_t n = big().size();
                     // quick with sanitizers: every fourth partner, offset by the left operand
                     if (T || fast)
                         binary(c, x, c.of(big()));
                     else
                         binary(c, x, big()[std::min<std::size_t>(n - 1, c.choose((n + 3) / 4) * 4 + ((unsigned)x.first + (unsigned)x.second) % 4)]);
                 });
    mc::scenario("self", 8, [](Ctx& c)
                 { self(c, c.flip() ? c.of(big()) : c.of(small(9))); });
    // histories: a running value against the reference
    mc::scenario("histories", 32, [T](Ctx& c)
                 {
                     static const std::vector<std::pair<int, int>> v{{1, 2}, {-2, 3}, {5, 6}, {0, 1}, {46341, 46340}, {INT_MAX, 2}, {1, INT_MAX}};
                     Fraction f;
                     Q q;
                     for (int i = 0; i < (T ? 4 : 3); ++i)
                     {
                         int k = c.choose(6);
                         auto y = k < 4 ? c.of(v) : v[0];
                         Fraction g(y.first, y.second);
                         Q r(y.first, y.second), w = q;
                         bool zero = k == 3 && r.n == 0;
                         LOG(c, "+-*/id"[k] << " " << sf(g));
                         if (!zero)
                             w = k == 0 ? q + r : k == 1 ? q - r : k == 2 ? q * r : k == 3 ? q / r : k == 4 ? q + Q(1) : q - Q(1);
                         std::string o = outcome_of([&] { k == 0 ? f += g : k == 1 ? f -= g : k == 2 ? f *= g : k == 3 ? f /= g : k == 4 ? ++f : --f; });
                         bool ok = !zero && w.fits();
                         CHECK(o == (ok ? "ok" : "runtime_error"), "outcome " << o << " for " << sq(w));
                         if (ok)
                             q = w;
                         is(f, q, "running value");
                         c.step();
                         c.state(sf(f));
                     }
                 });
}
