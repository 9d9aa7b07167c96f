// C26: Complex arithmetic obeys the complex field.
#include "support.hpp"
#include "complex.hpp"
#include <complex>
using mc::Ctx;
using mc::outcome_of;
using pyincpp::Complex;
typedef std::complex<long double> R;

static std::string sc(const Complex& z)
{
    char b[100];
    std::snprintf(b, sizeof b, "(%.17g,%.17g)", z.real(), z.imag());
    return b;
}
static std::string sr(R z)
{
    char b[100];
    std::snprintf(b, sizeof b, "(%.18Lg,%.18Lg)", z.real(), z.imag());
    return b;
}
static R mul(R a, R b) { return R(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
static R quo(R a, R b)
{
    long double d = b.real() * b.real() + b.imag() * b.imag();
    return R((a.real() * b.real() + a.imag() * b.imag()) / d, (a.imag() * b.real() - a.real() * b.imag()) / d);
}
static void exact(const Complex& z, R w, const std::string& what)
{
    CHECK(z.real() == w.real() && z.imag() == w.imag(), what << ": got " << sc(z) << ", expected " << sr(w));
}
// normwise relative error
static void close(const Complex& z, R w, long double tol, const std::string& what)
{
    long double e = std::hypot(z.real() - w.real(), z.imag() - w.imag()), m = std::hypot(w.real(), w.imag());
    CHECK(e <= tol * m, what << ": got " << sc(z) << ", expected " << sr(w));
}
static void number(long double g, long double w, long double tol, const std::string& what)
{
    CHECK(std::fabs(g - w) <= tol * std::fabs(w), what << ": got " << (double)g << ", expected " << (double)w);
}
static bool zero(const Complex& z) { return z.real() == 0 && z.imag() == 0; }

static void unary(Ctx& c, double x, double y)
{
    const Complex z(x, y);
    std::string s = sc(z);
    LOG(c, s);
    CHECK(z.real() == x && z.imag() == y, "components of " << s);
    exact(+z, R(x, y), "+" + s);
    exact(-z, R(-x, -y), "-" + s);
    exact(z.conjugate(), R(x, -y), "conjugate of " + s);
    number(z.abs(), std::hypot((long double)x, (long double)y), 1e-12, "abs of " + s);
    number(z.arg(), std::atan2((long double)y, (long double)x), 1e-12, "arg of " + s);
    CHECK(z == z && !(z != z) && z == Complex(x, y), s << " equals itself");
    Complex cp(z), as(1, 2);
    Complex mv(std::move(cp));
    exact(mv, R(x, y), "moved");
    exact(cp, R(0, 0), "moved from");
    as = z;
    exact(as, R(x, y), "assigned");
    cp = std::move(as);
    exact(cp, R(x, y), "move-assigned");
    exact(as, R(0, 0), "move-assigned from");
    if (y == 0)
        CHECK(Complex(x) == z && Complex(x).imag() == 0, "Complex(x)");
    // the aliased compound forms
    const R w(x, y);
    Complex t = z;
    CHECK(&(t += t) == &t, "+= returns the complex");
    close(t, w + w, 1e-12, s + " += itself");
    t = z;
    t -= t;
    exact(t, R(0, 0), s + " -= itself");
    if (std::hypot(x, y) < 1e100 && (zero(z) || std::hypot(x, y) > 1e-9))
    {
        t = z;
        t *= t;
        close(t, mul(w, w), 1e-12, s + " *= itself");
        t = z;
        std::string o = outcome_of([&] { t /= t; });
        CHECK(o == (zero(z) ? "runtime_error" : "ok"), s << " /= itself " << o);
        close(t, zero(z) ? R(0, 0) : R(1, 0), 1e-12, s + " /= itself");
    }
    exact(z, w, "operand");
    c.step(8);
    c.state(s);
}
static void binary(Ctx& c, Complex a, Complex b, bool ex)
{
    const R p(a.real(), a.imag()), q(b.real(), b.imag());
    std::string s = sc(a) + " and " + sc(b);
    LOG(c, s);
    auto is = [&](const Complex& z, R w, const char* op)
    {
        if (ex)
            exact(z, w, s + op);
        else if (op[1] == '+' || op[1] == '-')
        {
            number(z.real(), w.real(), 1e-12, s + op);
            number(z.imag(), w.imag(), 1e-12, s + op);
        }
        else
            close(z, w, 1e-12, s + op);
    };
    is(a + b, p + q, " +");
    is(a - b, p - q, " -");
    is(a * b, mul(p, q), " *");
    Complex t = a;
    CHECK(&(t += b) == &t, "+= returns the complex");
    is(t, p + q, " +=");
    t = a;
    CHECK(&(t -= b) == &t, "-= returns the complex");
    is(t, p - q, " -=");
    t = a;
    CHECK(&(t *= b) == &t, "*= returns the complex");
    is(t, mul(p, q), " *=");
    t = a;
    Complex r(5, 7);
    std::string o = outcome_of([&] { r = a / b; }), o2 = outcome_of([&] { t /= b; });
    CHECK(o == (zero(b) ? "runtime_error" : "ok") && o2 == o, s << " / outcome " << o << " " << o2);
    if (zero(b))
    {
        exact(t, p, s + " rejected /=");
        exact(r, R(5, 7), "target of a rejected division");
    }
    else
    {
        close(r, quo(p, q), 1e-12, s + " /");
        close(t, quo(p, q), 1e-12, s + " /=");
    }
    exact(a, p, "left operand");
    exact(b, q, "right operand");
    bool same = p == q;
    CHECK((a == b) == same && (a != b) == !same && (b == a) == same, s << " equality");
    c.step(8);
    c.state(s);
}
static void power(Ctx& c, Complex b, int e)
{
    LOG(c, sc(b) << " ** " << e);
    const R p(b.real(), b.imag());
    Complex r(5, 7);
    std::string o = outcome_of([&] { r = Complex::pow(b, e); });
    bool bad = zero(b) && e != 0;
    CHECK(o == (bad ? "runtime_error" : "ok"), "pow(" << sc(b) << "," << e << ") outcome " << o);
    if (!bad)
    {
        R w(1, 0);
        for (int i = 0; i < std::abs(e); ++i)
            w = mul(w, p);
        if (e < 0)
            w = quo(R(1, 0), w);
        close(r, w, 1e-9, "pow(" + sc(b) + "," + std::to_string(e) + ")");
        if (e == 0)
            exact(r, R(1, 0), "power 0");
    }
    exact(b, p, "base");
    c.step();
    c.state(sc(b) + std::to_string(e));
}

static const std::vector<double> AXIS{0, 1, -1, 2, -3, 0.5, -0.25, 7, 1024, -1000, 0.03125, 123, 3.75};
static const std::vector<double> ANY{0, 0.1, -0.3, 1.0 / 3, -2.0 / 7, 3.14159265358979, -2.718281828, 1e-6, -1e-8, 1e5, -1e10, 1e20, -1e50, 1e90, 123456.789, 1};

void register_scenarios()
{
    bool T = mc::G.tier;
    mc::scenario("unary", 16, [](Ctx& c)
                 {
                     bool k = c.flip();
                     double x = c.of(k ? AXIS : ANY), y = c.of(k ? AXIS : ANY);
                     unary(c, x, y);
                 });
    mc::scenario("integers", 64, [T](Ctx& c)
                 {
                     int k = T ? 7 : 4;
                     Complex a(c.pick(-k, k), c.pick(-k, k));
                     double x = c.pick(-k, k);
                     binary(c, a, Complex(x, c.pick(-k, k)), true);
                 });
    mc::scenario("dyadic", 32, [](Ctx& c)
                 {
                     double a = c.of(AXIS), b = c.of(AXIS), x = c.of(AXIS);
                     binary(c, Complex(a, b), Complex(x, c.of(AXIS)), true);
                 });
    mc::scenario("real numbers", 32, [](Ctx& c)
                 {
                     double a = c.of(ANY), b = c.of(ANY), x = c.of(ANY);
                     binary(c, Complex(a, b), Complex(x, c.of(ANY)), false);
                 });
    mc::scenario("integer powers", 32, [T](Ctx& c)
                 {
                     static const std::vector<double> v{0, 1, -1, 2, -2, 3, -5, 0.5, -0.25, 10, 1.1, -0.3, 100, -7.75};
                     double x = c.of(v), y = c.of(v);
                     int k = T ? 40 : 20;
                     power(c, Complex(x, y), c.pick(-k, k));
                 });
    mc::scenario("powers", 32, [](Ctx& c)
                 {
                     static const std::vector<double> v{0, 1, 2, -3, 0.5, -0.7, 12.5}, w{0, 1, -1, 0.5, -0.5, 1.0 / 3, 2, -2.5, 3.25};
                     double a = c.of(v), b = c.of(v), x = c.of(w);
                     Complex base(a, b), e(x, c.of(w)), r(5, 7);
                     LOG(c, sc(base) << " ** " << sc(e));
                     std::string o = outcome_of([&] { r = Complex::pow(base, e); });
                     bool bad = zero(base) && !zero(e);
                     CHECK(o == (bad ? "runtime_error" : "ok"), "pow(" << sc(base) << "," << sc(e) << ") outcome " << o);
                     if (zero(e))
                         exact(r, R(1, 0), "power 0");
                     else if (!bad)
                     {
                         R l(std::log(std::hypot((long double)a, (long double)b)), std::atan2((long double)b, (long double)a));
                         R t = mul(l, R(e.real(), e.imag()));
                         long double m = std::exp(t.real());
                         close(r, R(m * std::cos(t.imag()), m * std::sin(t.imag())), 1e-9, "pow(" + sc(base) + "," + sc(e) + ")");
                     }
                     c.step();
                 });
    // abs and arg over every magnitude
    mc::scenario("magnitudes", 16, [](Ctx& c)
                 {
                     int e = c.pick(-300, 305), d = c.pick(-3, 3);
                     static const std::vector<double> m{1, 3, 4, 9.99};
                     double x = c.of(m), y = c.of(m);
                     if (e + d > 305)
                         return;
                     int s = c.choose(4);
                     x *= std::pow(10.0, e) * (s & 1 ? -1 : 1);
                     y *= std::pow(10.0, e + d) * (s & 2 ? -1 : 1);
                     Complex z(x, y);
                     number(z.abs(), std::hypot((long double)x, (long double)y), 1e-12, "abs of " + sc(z));
                     number(z.arg(), std::atan2((long double)y, (long double)x), 1e-12, "arg of " + sc(z));
                     exact(-z, R(-x, -y), "-z");
                     exact(z.conjugate(), R(x, -y), "conjugate");
                     CHECK(z == z, "equals itself");
                     c.step(3);
                 });
    mc::scenario("equality", 16, [](Ctx& c)
                 {
                     static const std::vector<double> base{0, 1, -1, 0.1, 3.5, 1e6, -1e15, 1e300, INFINITY, -INFINITY}, diff{1e-15, -1e-15, 1e-14, 1e-9, 1e-3, 1, -1, 1e10, 1e299};
                     double a = c.of(base), b = c.of(base);
                     Complex z(a, b), same(a, b);
                     CHECK(z == same && same == z && !(z != same), sc(z) << " equals itself");
                     double d = c.of(diff);
                     bool im = c.flip();
                     double a2 = im ? a : a + d, b2 = im ? b + d : b;
                     if ((im ? b2 == b : a2 == a) || !(std::abs(im ? b2 - b : a2 - a) >= 0.99e-15))
                         return; // the difference is below the precision
                     Complex other(a2, b2);
                     CHECK(!(z == other) && z != other && other != z, sc(z) << " and " << sc(other) << " differ");
                     c.step(2);
                 });
    mc::scenario("laws", 32, [](Ctx& c)
                 {
                     int k = 1;
                     Complex a(c.pick(-2, 2), c.pick(-k, 2)), b(c.pick(-2, 2), c.pick(-k, k)), d(c.pick(-2, 2), c.pick(-k, k));
                     CHECK((a + b) + d == a + (b + d) && (a * b) * d == a * (b * d) && a * (b + d) == a * b + a * d && a + b == b + a && a * b == b * a, "ring laws");
                     CHECK((a * b).conjugate() == a.conjugate() * b.conjugate() && a - b == a + -b, "conjugation");
                     c.step(6);
                 });
}
