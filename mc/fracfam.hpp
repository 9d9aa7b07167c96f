// fracfam.hpp - Fraction helpers: an exact rational reference over __int128.
#pragma once
#include "support.hpp"
#include "fraction.hpp"

namespace fam
{
using mc::Ctx;
using mc::outcome_of;
using pyincpp::Fraction;
typedef __int128 W;

inline W wabs(W a) { return a < 0 ? -a : a; }
inline W wgcd(W a, W b)
{
    a = wabs(a);
    b = wabs(b);
    while (b)
    {
        W t = a % b;
        a = b;
        b = t;
    }
    return a;
}
struct Q // in lowest terms, denominator positive
{
    W n = 0, d = 1;
    Q(W a = 0, W b = 1)
    {
        if (b < 0)
            a = -a, b = -b;
        W g = wgcd(a, b);
        n = a / g;
        d = b / g;
    }
    bool fits() const { return n >= INT_MIN && n <= INT_MAX && d <= INT_MAX; }
    bool operator==(const Q& o) const = default;
};
inline Q operator+(Q a, Q b) { return Q(a.n * b.d + b.n * a.d, a.d * b.d); }
inline Q operator-(Q a, Q b) { return Q(a.n * b.d - b.n * a.d, a.d * b.d); }
inline Q operator*(Q a, Q b) { return Q(a.n * b.n, a.d * b.d); }
inline Q operator/(Q a, Q b) { return Q(a.n * b.d, a.d * b.n); }
inline W trunc(Q a) { return a.n / a.d; }
inline int cmp(Q a, Q b)
{
    W x = a.n * b.d - b.n * a.d;
    return x < 0 ? -1 : x > 0;
}
inline std::string sw(W v)
{
    if (v == 0)
        return "0";
    std::string s;
    bool neg = v < 0;
    for (; v; v /= 10)
        s = char('0' + int(wabs(v % 10))) + s;
    return (neg ? "-" : "") + s;
}
inline std::string sq(Q q) { return sw(q.n) + "/" + sw(q.d); }
inline std::string sf(const Fraction& f) { return std::to_string(f.numerator()) + "/" + std::to_string(f.denominator()); }
inline void is(const Fraction& f, Q q, const std::string& what)
{
    CHECK(f.numerator() == (int)q.n && f.denominator() == (int)q.d && q.fits(), what << ": got " << sf(f) << ", expected " << sq(q));
}
// f() has to give q, or raise a runtime error when q has no representation.
template <class F>
void gives(Ctx& c, F&& f, Q q, const std::string& what)
{
    Fraction r(7, 13);
    std::string o = outcome_of([&] { r = f(); });
    if (!q.fits())
        CHECK(o == "runtime_error", what << " = " << sq(q) << " does not fit, but the outcome is " << o << " " << sf(r));
    else
    {
        CHECK(o == "ok", what << " = " << sq(q) << ", but the outcome is " << o);
        is(r, q, what);
    }
    c.step();
}
inline const std::vector<int>& nums()
{
    static const std::vector<int> v{0, 1, -1, 2, -2, 3, -3, 5, 6, -7, 10, 12, 100, -360, 32767, -32768, 46340, 46341, -46341, 65535, 65536, -65536, 65537, 720720, 1000003, 16777216, 16777217, 67108863, 67108864, -67108865, 536870911, 536870912, 1000000007, 1073741823, 1073741824, -1073741824, 1073741825, 1500000000, 2147483629, 2147483645, 2147483646, INT_MAX, -2147483645, -2147483646, -INT_MAX, INT_MIN};
    return v;
}
inline const std::vector<int>& dens()
{
    static const std::vector<int> v{1, 2, 3, 4, 6, 7, 10, 12, 1024, 32768, 46340, 46341, 65535, 65536, 65537, 720720, 999983, 16777217, 67108864, 67108865, 1000000007, 1073741823, 1073741824, 1073741825, 2147483629, 2147483645, 2147483646, INT_MAX};
    return v;
}
struct Pool
{
    std::vector<int> n, d;
};
// Distinct fractions in lowest terms out of a grid.
inline std::vector<std::pair<int, int>> pool(const std::vector<int>& ns, const std::vector<int>& ds)
{
    std::vector<std::pair<int, int>> v;
    std::set<std::pair<int, int>> seen;
    for (int n : ns)
        for (int d : ds)
        {
            Q q(n, d);
            std::pair<int, int> p{int(q.n), int(q.d)};
            if (q.fits() && seen.insert(p).second)
                v.push_back(p);
        }
    return v;
}
inline const std::vector<std::pair<int, int>>& big()
{
    static const auto v = pool(nums(), dens());
    return v;
}
inline const std::vector<std::pair<int, int>>& small(int k)
{
    static std::map<int, std::vector<std::pair<int, int>>> m;
    auto& v = m[k];
    if (v.empty())
    {
        std::vector<int> ns, ds;
        for (int i = 0; i <= k; ++i)
        {
            ns.push_back(i);
            if (i)
                ns.push_back(-i), ds.push_back(i);
        }
        v = pool(ns, ds);
    }
    return v;
}
} // namespace fam
