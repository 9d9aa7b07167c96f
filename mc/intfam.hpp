// intfam.hpp - operand families and the reference for big integers.
#pragma once
#include "support.hpp"
#include "int.hpp"
#include <boost/multiprecision/cpp_int.hpp>

namespace fam
{
using pyincpp::Int;
using Ref = boost::multiprecision::cpp_int;

inline std::string rs(const Ref& r)
{
    return r.str();
}
inline std::string cut(const std::string& s)
{
    return s.size() <= 80 ? s : s.substr(0, 40) + "..." + s.substr(s.size() - 20) + "(" + std::to_string(s.size()) + " chars)";
}
// The value must print as `want`, equal the integer read from that text, and be observed consistently.
inline void is(const Int& v, const std::string& want, const std::string& what)
{
    std::string got = mc::str(v);
    CHECK(got == want, what << ": got " << cut(got) << ", expected " << cut(want));
    Int w(want.c_str());
    CHECK(v == w && w == v && !(v != w), what << ": result " << cut(want) << " differs from the integer read from its text");
    CHECK(!(v < w) && !(w < v) && v <= w && v >= w, what << ": result " << cut(want) << " is ordered away from the integer read from its text");
}
inline void is(const Int& v, const Ref& want, const std::string& what)
{
    is(v, rs(want), what);
}
// Light form: text and sign only.
inline void is_fast(const Int& v, long long want, const char* what, long long a, long long b)
{
    std::string got = mc::str(v);
    std::string w = std::to_string(want);
    CHECK(got == w, what << " with operands " << a << ", " << b << ": got " << got << ", expected " << w);
    CHECK(v.is_zero() == (want == 0) && v.is_positive() == (want > 0) && v.is_negative() == (want < 0), what << " with operands " << a << ", " << b << ": sign predicates wrong for " << w);
    CHECK(v == Int(int(want)) || want > INT_MAX || want < -INT_MAX, what << " with operands " << a << ", " << b << ": result " << w << " differs from the native integer");
}

inline std::string neg(const std::string& s)
{
    return s == "0" ? s : s[0] == '-' ? s.substr(1) : "-" + s;
}
inline void add_signed(std::vector<std::string>& v, const std::string& digits)
{
    std::size_t p = digits.find_first_not_of('0');
    std::string d = p == std::string::npos ? "0" : digits.substr(p);
    v.push_back(d);
    if (d != "0")
        v.push_back("-" + d);
}
inline void dedup(std::vector<std::string>& v)
{
    std::set<std::string> seen;
    std::vector<std::string> o;
    for (auto& s : v)
        if (seen.insert(s).second)
            o.push_back(s);
    v = o;
}
// All digit strings a^i b^j c^k with digits from `ds` and run lengths from `runs` (length at most maxlen).
inline std::vector<std::string> runs3(const std::string& ds, const std::vector<int>& runs, int maxlen)
{
    std::vector<std::string> v;
    for (char a : ds)
        for (int i : runs)
        {
            if (a == '0')
                continue;
            std::string x(i, a);
            if ((int)x.size() <= maxlen)
                add_signed(v, x);
            for (char b : ds)
                for (int j : runs)
                {
                    std::string y = x + std::string(j, b);
                    if (b == a || (int)y.size() > maxlen)
                        continue;
                    add_signed(v, y);
                    for (char c : ds)
                        for (int k : runs)
                        {
                            std::string z = y + std::string(k, c);
                            if (c == b || (int)z.size() > maxlen)
                                continue;
                            add_signed(v, z);
                        }
                }
        }
    dedup(v);
    return v;
}
// Boundary values around powers of ten, of two and of native limits, up to the given number of digits.
inline std::vector<std::string> edges(int maxdigits, int delta)
{
    std::vector<std::string> v;
    v.push_back("0");
    auto around = [&](const Ref& r)
    {
        for (int d = -delta; d <= delta; ++d)
        {
            Ref x = r + d;
            if (x > 0)
                add_signed(v, rs(x));
        }
    };
    Ref p = 1;
    for (int k = 0; k <= maxdigits; ++k, p *= 10)
    {
        around(p);
        for (int m = 2; m <= 9; ++m)
            if (k < maxdigits)
                add_signed(v, rs(p * m));
    }
    Ref t = 1;
    for (int k = 0; k <= maxdigits * 3; ++k, t *= 2)
        if (k % 8 == 0 || (k % 8) == 7 || k % 32 == 31)
            around(t);
    dedup(v);
    return v;
}
// Long values: pattern x length.
inline std::vector<std::string> longs(const std::vector<int>& lens)
{
    std::vector<std::string> v;
    for (int n : lens)
    {
        add_signed(v, std::string(n, '9'));
        add_signed(v, "1" + std::string(n - 1, '0'));
        add_signed(v, "1" + std::string(n - 2, '0') + "1");
        add_signed(v, std::string(n - 1, '9') + "8");
        add_signed(v, "4" + std::string(n - 1, '9'));
        add_signed(v, std::string(n / 2, '9') + std::string(n - n / 2, '0'));
        add_signed(v, "1" + std::string(n / 2, '0') + std::string(n - 1 - n / 2, '9'));
        std::string s, t;
        unsigned x = 12345u + n;
        for (int i = 0; i < n; ++i)
        {
            s += char('0' + (i % 9 + 1));
            x = x * 1103515245u + 12345u;
            t += char('0' + (x >> 16) % 10);
        }
        t[0] = '7';
        add_signed(v, s);
        add_signed(v, t);
    }
    dedup(v);
    return v;
}
// ---- lengths around and beyond 16 bits, with arithmetic on decimal text that is linear in them ------------------
inline const std::vector<int>& wide()
{
    static const std::vector<int> v{32767, 32768, 32769, 65535, 65536, 65537, 131073};
    return v;
}
inline std::string strip0(const std::string& d)
{
    std::size_t p = d.find_first_not_of('0');
    return p == std::string::npos ? "0" : d.substr(p);
}
inline int dcmp(const std::string& a, const std::string& b) // without leading zeros
{
    return a.size() != b.size() ? (a.size() < b.size() ? -1 : 1) : a.compare(b);
}
inline std::string dadd(const std::string& a, const std::string& b)
{
    std::string r;
    int carry = 0;
    for (std::size_t i = 0; i < std::max(a.size(), b.size()) || carry; ++i)
    {
        carry += (i < a.size() ? a[a.size() - 1 - i] - '0' : 0) + (i < b.size() ? b[b.size() - 1 - i] - '0' : 0);
        r += char('0' + carry % 10);
        carry /= 10;
    }
    std::reverse(r.begin(), r.end());
    return r.empty() ? "0" : strip0(r);
}
inline std::string dsub(const std::string& a, const std::string& b) // a >= b
{
    std::string r;
    int borrow = 0;
    for (std::size_t i = 0; i < a.size(); ++i)
    {
        int d = a[a.size() - 1 - i] - '0' - borrow - (i < b.size() ? b[b.size() - 1 - i] - '0' : 0);
        borrow = d < 0;
        r += char('0' + d + 10 * borrow);
    }
    std::reverse(r.begin(), r.end());
    return strip0(r);
}
inline std::string dmul(const std::string& a, int k) // 0 <= k < 10^8
{
    std::string r;
    long carry = 0;
    for (std::size_t i = 0; i < a.size() || carry; ++i)
    {
        carry += i < a.size() ? long(a[a.size() - 1 - i] - '0') * k : 0;
        r += char('0' + carry % 10);
        carry /= 10;
    }
    std::reverse(r.begin(), r.end());
    return r.empty() ? "0" : strip0(r);
}
// n digits of several shapes
inline std::string wide_number(int n, int kind)
{
    std::string s(n, kind == 0 ? '9' : '0');
    s[0] = kind == 2 ? '4' : kind == 0 ? '9' : '1';
    if (kind == 2)
        for (int i = 1; i < n; ++i)
            s[i] = char('0' + (i * 7 + i / 11) % 10);
    return s;
}
inline void is_text(const Int& v, const std::string& w, const std::string& what)
{
    std::string g = mc::str(v);
    CHECK(g == w, what << ": got " << cut(g) << " (" << g.size() << " characters), expected " << cut(w) << " (" << w.size() << " characters)");
    int len = w == "0" ? 0 : int(w.size()) - (w[0] == '-');
    CHECK(v.digits() == len, what << ": digits() is " << v.digits() << " of " << len);
    CHECK(v.is_zero() == (w == "0") && v.is_negative() == (w[0] == '-') && v.is_even() == ((w.back() - '0') % 2 == 0), what << ": sign or parity");
}
} // namespace fam
