// strfam.hpp - helpers for Str checks.
#pragma once
#include "support.hpp"
#include "str.hpp"

namespace fam
{
using pyincpp::Str;
using mc::Ctx;
using mc::quote;

inline std::string raw(const Str& s)
{
    return std::string(s.begin(), s.end());
}
// The string is exactly `want`, by every observer.
inline void is(const Str& s, const std::string& want, const std::string& what)
{
    CHECK(s.size() == (int)want.size(), what << ": size " << s.size() << ", expected " << want.size() << " " << quote(want) << ", got " << quote(raw(s)));
    CHECK(raw(s) == want, what << ": got " << quote(raw(s)) << ", expected " << quote(want));
    CHECK(s.is_empty() == want.empty(), what << ": is_empty");
    CHECK(std::memcmp(s.data(), want.data(), want.size()) == 0, what << ": data()");
    CHECK(s == Str(want) && !(s != Str(want)), what << ": equality");
}
// Every word over alpha of length 0..maxlen.
inline std::string word(Ctx& c, const std::string& alpha, int maxlen)
{
    std::string t;
    for (int i = 0; i < maxlen; ++i)
    {
        int k = c.choose(alpha.size() + 1);
        if (k == 0)
            break;
        t += alpha[k - 1];
    }
    return t;
}
// A position argument: everything around the bounds of n, and the extreme ints.
inline int position(Ctx& c, int n, int margin = 2)
{
    static const int ext[] = {INT_MIN, INT_MIN + 1, INT_MAX - 1, INT_MAX, -1000000000, 1000000000};
    int span = 2 * (n + margin) + 1;
    int k = c.choose(span + 6);
    return k < span ? k - (n + margin) : ext[k - span];
}
// Longer strings with structure (heap allocated, periodic, one odd character).
inline std::vector<std::string> long_strings(const std::vector<int>& lens)
{
    std::vector<std::string> v;
    for (int n : lens)
    {
        v.push_back(std::string(n, 'a'));
        std::string p, q, r;
        for (int i = 0; i < n; ++i)
        {
            p += "ab"[i % 2];
            q += "aab"[i % 3];
            r += char('A' + i % 26);
        }
        v.push_back(p);
        v.push_back(q);
        v.push_back(r);
        v.push_back(std::string(n - 1, 'a') + "b");
        v.push_back("b" + std::string(n - 1, 'a'));
        std::string m(n, 'a');
        m[n / 2] = 'b';
        v.push_back(m);
        m[n / 2] = 0;
        v.push_back(m);
    }
    return v;
}
// Pairs of different strings of the same length that a polynomial hash (base b, modulo m or not at all), a sum or an
// exclusive or of the bytes cannot tell apart: the digits of m in base b, each of at most half of b, make the difference.
inline std::vector<std::pair<std::string, std::string>> collisions()
{
    std::vector<std::pair<std::string, std::string>> v;
    auto put = [&](const std::vector<long>& d)
    {
        for (int mid : {100, 128})
        {
            std::string s, t;
            for (long x : d)
            {
                int a = mid - x / 2, b = a + x;
                if (a < 0 || a > 255 || b < 0 || b > 255)
                    return;
                s += char(a), t += char(b);
            }
            v.emplace_back(s, t);
            std::reverse(s.begin(), s.end()); // the other end is the most significant one
            std::reverse(t.begin(), t.end());
            v.emplace_back(s, t);
        }
    };
    for (int b = 2; b < 512; ++b)
    {
        static const std::vector<int> odd{31, 33, 37, 53, 65, 97, 101, 127, 128, 129, 131, 137, 139, 191, 193, 211, 233, 239, 251, 256, 257, 263, 269, 271, 307, 311, 313, 397, 401, 499, 509};
        bool some = std::find(odd.begin(), odd.end(), b) != odd.end();
        if (b < 256)
            put({1, -b});
        for (unsigned long long m : {101ull, 103ull, 127ull, 251ull, 997ull, 1009ull, 8191ull, 9973ull, 10007ull, 65521ull, 65536ull, 65537ull, 99991ull, 100003ull, 1000003ull, 999983ull, 16777619ull, 2147483647ull, 2147483648ull, 4294967291ull, 4294967296ull, 1000000007ull, 1000000009ull, 998244353ull, 1000000000039ull, (1ull << 61) - 1})
        {
            if (!some)
                continue;
            std::vector<long> d;
            for (__int128 x = m; x != 0;)
            {
                long r = long(x % b);
                if (r > b / 2)
                    r -= b;
                d.insert(d.begin(), r);
                x = (x - r) / b;
            }
            put(d);
        }
    }
    put({1, -1});
    put({1, 0, -1});
    put({1, 0, 0, 0, -1});
    put({1, -2, 1});
    for (int bit = 1; bit < 256; bit *= 2) // exclusive or
    {
        v.emplace_back(std::string("xy"), std::string{char('x' ^ bit), char('y' ^ bit)});
        v.emplace_back(std::string("abcdefgh"), std::string{char('a' ^ bit), 'b', 'c', 'd', 'e', 'f', 'g', char('h' ^ bit)});
    }
    for (std::size_t n : {2, 4, 8, 16, 32}) // Thue-Morse: overflow modulo a power of two, any base
    {
        std::string s, t;
        for (std::size_t i = 0; i < 64 * n && i < 2048; ++i)
            s += __builtin_popcount(i) % 2 ? 'a' : 'b', t += __builtin_popcount(i) % 2 ? 'b' : 'a';
        v.emplace_back(s, t);
    }
    return v;
}
} // namespace fam
