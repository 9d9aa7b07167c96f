// C03: Int comparison is the order of the integers.
#include "intfam.hpp"
using namespace fam;
using mc::Ctx;

static const int ROUTES = 18;
// The value denoted by s, produced by route k.
static Int make(const std::string& s, int k)
{
    const Int v(s.c_str());
    bool ng = s[0] == '-';
    std::string d = ng ? s.substr(1) : s;
    switch (k)
    {
        case 0: return v;
        case 1: return Int((std::string(ng ? "-" : "+") + "000" + d).c_str());
        case 2: { Int x = v + 1; --x; return x; }
        case 3: { Int x = v - 1; ++x; return x; }
        case 4: return -(-v);
        case 5: return v * 1000000007 / 1000000007;
        case 6: { Int x = v; x -= x; x += v; return x; }
        case 7: { Int big("123456789012345678901234567890123"); return (v + big) - big; }
        case 8: { Int x("-99999999999999999999999999999999999999999999999999"); x = v; return x; }
        case 9: { Int y = v, x("1000000000000000000000000"); x = std::move(y); CHECK(y.is_zero(), "moved-from Int is zero"); return x; }
        case 10: { Int m("1" + std::string(d.size(), '0') == "" ? "1" : ("1" + std::string(d.size(), '0')).c_str()); return v % m; }
        case 11: { Int x = v; x /= 1; return x; }
        case 12: { Int x = v.abs(); return ng ? -x : +x; }
        case 13: { Int x = v * v; x = Int::sqrt(x); return ng ? -x : x; }
        case 14: { Int x = Int::gcd(v, 0); return ng ? -x : x; }
        case 15: { Int x = v; x *= -1; x *= Int(-1); return x; }
        case 16: { std::istringstream i("  " + s + " 5"); Int x = 77; i >> x; return x; }
        case 17: { Int x = 3, y = v; std::swap(x, y); CHECK(y == 3, "swap"); return x; }
    }
    return v;
}

static void compare(const Int& x, const Int& y, int ord)
{
    CHECK((x == y) == (ord == 0), "==");
    CHECK((x != y) == (ord != 0), "!=");
    CHECK((x < y) == (ord < 0), "<");
    CHECK((x <= y) == (ord <= 0), "<=");
    CHECK((x > y) == (ord > 0), ">");
    CHECK((x >= y) == (ord >= 0), ">=");
    CHECK(((x <=> y) < 0) == (ord < 0) && ((x <=> y) > 0) == (ord > 0) && ((x <=> y) == 0) == (ord == 0), "<=>");
}
static void predicates(const Int& x, const std::string& s)
{
    bool ng = s[0] == '-', z = s == "0";
    CHECK(mc::str(x) == s, "text " << cut(s));
    CHECK(x.is_zero() == z && x.is_negative() == ng && x.is_positive() == (!z && !ng), "sign predicates of " << cut(s));
    bool odd = (s.back() - '0') & 1;
    CHECK(x.is_odd() == odd && x.is_even() == !odd, "parity of " << cut(s));
    int len = z ? 0 : int(s.size()) - ng;
    CHECK(x.digits() == len, "digits() of " << cut(s) << " is " << x.digits());
}
static int order(const std::string& a, const std::string& b)
{
    bool na = a[0] == '-', nb = b[0] == '-';
    if (na != nb)
        return na ? -1 : 1;
    int o = a.size() != b.size() ? (a.size() < b.size() ? -1 : 1) : a.compare(b);
    o = o < 0 ? -1 : o > 0 ? 1 : 0;
    return na ? -o : o;
}

void register_scenarios()
{
    bool T = mc::G.tier;
    int n = MC_SAN ? (T ? 500 : 200) : (T ? 3000 : 1200);
    mc::scenario("dense-pairs", 16, [n](Ctx& c)
                 {
                     int a = c.pick(-n, n), b = c.pick(-n, n);
                     LOG(c, "a=" << a << " b=" << b);
                     const Int x(a), y(b);
                     compare(x, y, a < b ? -1 : a > b);
                     compare(x, Int(std::to_string(b).c_str()), a < b ? -1 : a > b);
                     // comparison with a native integer
                     CHECK((x == b) == (a == b) && (x < b) == (a < b) && (x > b) == (a > b) && (a < y) == (a < b) && (a <= y) == (a <= b), "comparison with a native int");
                     c.step(12);
                     c.state(std::to_string(a) + "," + std::to_string(b));
                 });
    static auto ed = edges(MC_SAN ? (T ? 40 : 20) : (T ? 60 : 40), 2);
    static auto run = runs3("019", {1, 2, 4}, 12);
    static auto lg = longs(T ? std::vector<int>{16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4300} : std::vector<int>{16, 17, 32, 33, 64, 65, 128, 129, 256, 257, 1025});
    auto pairs = [](const std::vector<std::string>& f)
    {
        return [&f](Ctx& c)
        {
            const auto &a = c.of(f), &b = c.of(f);
            LOG(c, "a=" << cut(a) << " b=" << cut(b));
            const Int x(a.c_str()), y(b.c_str());
            compare(x, y, order(a, b));
            predicates(x, a);
            c.step(8);
            c.state(a + "," + b);
        };
    };
    mc::scenario("edge-pairs", 16, pairs(ed));
    mc::scenario("digit-run-pairs", 16, pairs(run));
    mc::scenario("long-pairs", 16, pairs(lg));
    // long values that differ in exactly one digit, at every position
    mc::scenario("one-digit-apart", 16, [T](Ctx& c)
                 {
                     static const std::vector<int> lens{1, 2, 3, 9, 10, 18, 19, 32, 33, 64, 65, 129, 256, 257};
                     int len = c.of(lens);
                     int pos = c.choose(len);
                     static const std::string base = "1357246";
                     std::string a, b;
                     for (int i = 0; i < len; ++i)
                         a += base[i % 7];
                     b = a;
                     b[pos] += 1;
                     if (c.flip())
                         a = "-" + a, b = "-" + b;
                     if (c.flip())
                         std::swap(a, b);
                     LOG(c, "a=" << cut(a) << " b=" << cut(b));
                     compare(Int(a.c_str()), Int(b.c_str()), order(a, b));
                     c.step(7);
                     c.state(a + "," + b);
                 });
    // values that came about differently
    static std::vector<std::string> rv{"0", "1", "-1", "2", "-2", "9", "-9", "10", "-10", "11", "99", "-99", "100", "-100", "101", "999999999", "-1000000000", "2147483647", "-2147483648", "18446744073709551616", "-99999999999999999999", "100000000000000000000"};
    mc::scenario("routes", 32, [](Ctx& c)
                 {
                     const auto &a = c.of(rv);
                     int ka = c.choose(ROUTES);
                     const auto &b = c.of(rv);
                     int kb = c.choose(ROUTES);
                     LOG(c, "a=" << a << " by route " << ka << ", b=" << b << " by route " << kb);
                     const Int x = make(a, ka), y = make(b, kb);
                     compare(x, y, order(a, b));
                     predicates(x, a);
                     predicates(y, b);
                     // and an increment later
                     Int x1 = x, y1 = y;
                     ++x1, ++y1;
                     compare(x1, y1, order(a, b));
                     c.step(12);
                     c.state(a + "," + b + "," + std::to_string(ka * 100 + kb));
                 });
    // lengths whose difference does not fit 8 or 16 bits
    mc::scenario("very long", 16, [](Ctx& c)
                 {
                     static const std::vector<int> ls{1, 2, 127, 128, 129, 130, 255, 256, 257, 258, 32767, 32768, 32769, 32770, 65535, 65536, 65537, 65538, 70000, 131073};
                     int n = c.of(ls), m = c.of(ls);
                     LOG(c, n << " and " << m << " digits");
                     for (int ka : {0, 1, 2})
                         for (int kb : {0, 1, 2})
                             for (int s = 0; s < 4; ++s)
                             {
                                 const std::string a = (s & 1 ? "-" : "") + wide_number(n, ka), b = (s & 2 ? "-" : "") + wide_number(m, kb);
                                 compare(Int(a.c_str()), Int(b.c_str()), order(a, b));
                             }
                     predicates(Int(wide_number(n, 2).c_str()), wide_number(n, 2));
                     c.step(37);
                     c.state(n * 200000l + m);
                 });
    static auto pv = edges(T ? 500 : 200, 3);
    mc::scenario("predicates", 16, [](Ctx& c)
                 {
                     const auto& s = c.of(pv);
                     for (int k = 0; k < 13; ++k)
                         predicates(make(s, k), s);
                     c.step(13);
                     c.state(s);
                 });
    mc::scenario("zero-routes", 8, [](Ctx& c)
                 {
                     const auto& s = c.of(ed);
                     const Int v(s.c_str());
                     std::vector<Int> z;
                     z.push_back(v - v);
                     z.push_back(v + -v);
                     z.push_back(v * 0);
                     z.push_back(Int(0) * v);
                     if (s != "0")
                     {
                         z.push_back(v % v);
                         z.push_back(Int(0) / v);
                         z.push_back(Int(0) % v);
                         z.push_back(v / (v * 10));
                     }
                     z.push_back(Int("-0"));
                     z.push_back(Int("+000"));
                     z.push_back(-Int(0));
                     Int x = v;
                     x -= x;
                     z.push_back(x);
                     x = v;
                     x *= Int();
                     z.push_back(x);
                     for (auto& a : z)
                     {
                         predicates(a, "0");
                         for (auto& b : z)
                             compare(a, b, 0);
                         compare(a, v, order("0", s));
                     }
                     c.step(z.size() * z.size());
                     c.state(s);
                 });
}
