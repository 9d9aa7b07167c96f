// C09: Str searches agree with a naive scan in every range.
#include "strfam.hpp"
using namespace fam;

static int clampn(long x, int n)
{
    if (x < 0)
        x = std::max(x + n, 0l);
    return int(std::min<long>(x, n));
}
static int ref_find(const std::string& s, const std::string& p, int start, int stop)
{
    int n = s.size(), m = p.size();
    long st = start < 0 ? std::max<long>(long(start) + n, 0) : start;
    int e = clampn(stop, n);
    for (long i = st; i + m <= e; ++i)
        if (s.compare(i, m, p) == 0)
            return i;
    return -1;
}
static int ref_count(const std::string& s, const std::string& p)
{
    if (p.empty())
        return s.size() + 1;
    int k = 0;
    for (std::size_t i = 0; i + p.size() <= s.size();)
        if (s.compare(i, p.size(), p) == 0)
            ++k, i += p.size();
        else
            ++i;
    return k;
}
static void ranged(Ctx& c, const Str& s, const Str& p, const std::string& rs, const std::string& rp, int a, int b)
{
    int w = ref_find(rs, rp, a, b), g = s.find(p, a, b);
    CHECK(g == w, quote(rs) << ".find(" << quote(rp) << ", " << a << ", " << b << ") is " << g << ", expected " << w);
    CHECK(s.contains(p, a, b) == (w != -1), quote(rs) << ".contains(" << quote(rp) << ", " << a << ", " << b << ")");
    c.step(2);
}
static void whole(Ctx& c, const Str& s, const Str& p, const std::string& rs, const std::string& rp)
{
    int w = ref_find(rs, rp, 0, INT_MAX);
    CHECK(s.find(p) == w, quote(rs) << ".find(" << quote(rp) << ") is " << s.find(p));
    CHECK(s.contains(p) == (w != -1), "contains");
    CHECK(s.count(p) == ref_count(rs, rp), quote(rs) << ".count(" << quote(rp) << ") is " << s.count(p) << ", expected " << ref_count(rs, rp));
    bool sw = rp.size() <= rs.size() && rs.compare(0, rp.size(), rp) == 0;
    bool ew = rp.size() <= rs.size() && rs.compare(rs.size() - rp.size(), rp.size(), rp) == 0;
    CHECK(s.starts_with(p) == sw, quote(rs) << ".starts_with(" << quote(rp) << ")");
    CHECK(s.ends_with(p) == ew, quote(rs) << ".ends_with(" << quote(rp) << ")");
    c.step(5);
}

void register_scenarios()
{
    bool T = mc::G.tier;
    int ls = T ? 6 : 5, lp = 3;
    mc::scenario("all-ranges", 3, [ls, lp](Ctx& c)
                 {
                     std::string rs = word(c, "ab", ls), rp = word(c, "ab", lp);
                     const Str s(rs), p(rp);
                     int a = position(c, rs.size()), b = position(c, rs.size());
                     LOG(c, quote(rs) << " pattern " << quote(rp) << " range " << a << ".." << b);
                     ranged(c, s, p, rs, rp, a, b);
                     c.state(rs + "|" + rp + "|" + std::to_string(a) + "," + std::to_string(b));
                 });
    mc::scenario("start-only", 4, [T](Ctx& c)
                 {
                     std::string rs = word(c, std::string("ab\0", 3), T ? 5 : 4), rp = word(c, std::string("ab\0", 3), 2);
                     const Str s(rs), p(rp);
                     int a = position(c, rs.size());
                     LOG(c, quote(rs) << " pattern " << quote(rp) << " from " << a);
                     int w = ref_find(rs, rp, a, INT_MAX), g = s.find(p, a);
                     CHECK(g == w, quote(rs) << ".find(" << quote(rp) << ", " << a << ") is " << g << ", expected " << w);
                     CHECK(s.contains(p, a) == (w != -1), "contains");
                     c.step(2);
                     c.state(rs + "|" + rp + "|" + std::to_string(a));
                 });
    mc::scenario("whole", 5, [T](Ctx& c)
                 {
                     static const std::string al("ab\0\xff", 4);
                     std::string rs = word(c, al, T ? 7 : 6), rp = word(c, al, 3);
                     LOG(c, quote(rs) << " pattern " << quote(rp));
                     whole(c, Str(rs), Str(rp), rs, rp);
                     c.state(rs + "|" + rp);
                 });
    mc::scenario("binary-long", 3, [T](Ctx& c)
                 {
                     std::string rs = word(c, "ab", T ? 13 : 11), rp = word(c, "ab", 4);
                     whole(c, Str(rs), Str(rp), rs, rp);
                     c.state(rs + "|" + rp);
                 });
    // patterns with rich inner repetition, where scanning algorithms fall back by more than one step
    mc::scenario("binary-patterns", 3, [T](Ctx& c)
                 {
                     std::string rs = word(c, "ab", T ? 14 : 11);
                     const Str s(rs);
                     LOG(c, quote(rs) << " every pattern over ab of length 5 to 8");
                     for (int m = 5; m <= std::min<int>(rs.size(), T ? 9 : 8); ++m)
                         for (int bits = 0; bits < 1 << m; ++bits)
                         {
                             std::string rp;
                             for (int i = 0; i < m; ++i)
                                 rp += "ab"[bits >> i & 1];
                             const Str p(rp);
                             int w = ref_find(rs, rp, 0, INT_MAX), g = s.find(p), k = s.count(p), wk = ref_count(rs, rp);
                             CHECK(g == w, quote(rs) << ".find(" << quote(rp) << ") is " << g << ", expected " << w);
                             CHECK(k == wk, quote(rs) << ".count(" << quote(rp) << ") is " << k << ", expected " << wk);
                             c.step(2);
                         }
                     c.state(rs);
                 });
    // longer strings: every substring of them (and a changed one) as pattern, ranges around the match
    static auto lg = long_strings(T ? std::vector<int>{15, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129, 256, 257} : std::vector<int>{15, 16, 17, 33, 64, 65, 129});
    mc::scenario("long", 28, [](Ctx& c)
                 {
                     const auto& rs = c.of(lg);
                     int n = rs.size();
                     static const std::vector<int> off{0, 1, 2, 7, 15, 16};
                     int from = c.of(off) % n;
                     if (c.flip())
                         from = n - 1 - from;
                     static const std::vector<int> lens{1, 2, 3, 8, 15, 16, 17, 32, 64, 1000};
                     int m = std::min(n - from, c.of(lens));
                     std::string rp = rs.substr(from, m);
                     switch (c.choose(4))
                     {
                         case 0: break;
                         case 1: rp.back() ^= 1; break;
                         case 2: rp[0] ^= 1; break;
                         case 3: rp += "z"; break;
                     }
                     const Str s(rs), p(rp);
                     LOG(c, quote(rs) << " pattern " << quote(rp));
                     whole(c, s, p, rs, rp);
                     int at = std::max(ref_find(rs, rp, 0, INT_MAX), 0);
                     const int starts[] = {0, at - 1, at, at + 1, -n, -1, -m, n, n + 1, -n - 1, INT_MIN};
                     const int stops[] = {n, at + m - 1, at + m, at + m + 1, -1, -2, -n, 0, at, n + 1, INT_MAX, INT_MIN};
                     for (int a : starts)
                         for (int b : stops)
                             ranged(c, s, p, rs, rp, a, b);
                     c.state(rs + "|" + rp);
                 });
    mc::scenario("very long", 32, [T](Ctx& c)
                 {
                     static const std::vector<int> ns{32768, 65535, 65536, 65537, 70001, 131073};
                     static const std::vector<int> ns2{32769, 65537};
                     int n = c.of(T ? ns : ns2), kind = c.choose(3);
                     std::string rs(n, 'a');
                     for (int i = 0; kind && i < n; ++i)
                         rs[i] = kind == 1 ? "ab"[__builtin_popcount(i) & 1] : char('a' + i % 23);
                     static const std::vector<int> at{0, 1, 255, 256, 32767, 32768, 65534, 65535, 65536, 70000};
                     static const std::vector<int> at2{0, 255, 32767, 32768, 65535};
                     int p = c.of(T ? at : at2);
                     std::string rp = std::vector<std::string>{"X", "aX", "XYZ", std::string(300, 'X')}[c.choose(4)];
                     if (c.flip() && p + (int)rp.size() <= n)
                         rs.replace(p, rp.size(), rp);
                     const Str s(rs), f(rp);
                     LOG(c, n << " characters of kind " << kind << ", pattern of " << rp.size() << " at " << p);
                     int w = rs.find(rp) == std::string::npos ? -1 : int(rs.find(rp));
                     CHECK(s.find(f) == w && s.contains(f) == (w >= 0), "find is " << s.find(f) << ", expected " << w);
                     CHECK(s.count(f) == ref_count(rs, rp) && s.count("a") == std::count(rs.begin(), rs.end(), 'a'), "count is " << s.count(f));
                     CHECK(s.starts_with(f) == (w == 0) && s.ends_with(f) == (w >= 0 && w + (int)rp.size() == n), "starts_with, ends_with");
                     for (int a : {p - 1, p, p + 1, p - n, p - n - 1, p - n + 1})
                         for (int b : {n, p + (int)rp.size(), p + (int)rp.size() - 1, INT_MAX, -1})
                         {
                             long x = a < 0 ? std::max<long>(a + n, 0) : a, y = b < 0 ? b + n : std::min(b, n);
                             int g = s.find(f, a, b), want = w >= 0 && x <= w && w + (int)rp.size() <= y ? w : -1;
                             CHECK(g == want && s.contains(f, a, b) == (want >= 0), "find(pattern, " << a << ", " << b << ") is " << g << ", expected " << want);
                         }
                     const Str tail(rs.substr(n / 2)), other(rs.substr(0, n - 1) + "?");
                     CHECK(s.ends_with(tail) && s.find(tail) == int(rs.find(rs.substr(n / 2))) && !s.starts_with(other) && !s.contains(other), "long patterns");
                     c.step(70);
                     c.state(rp + std::to_string(n * 3 + kind) + "," + std::to_string(w));
                 });
    // strings that a hash takes for each other
    static auto coll = collisions();
    mc::scenario("hash collisions", 16, [](Ctx& c)
                 {
                     auto [a, b] = c.of(coll);
                     int k = c.choose(4);
                     if (c.flip())
                         std::swap(a, b);
                     std::string rs = k == 0 ? a : k == 1 ? "x" + a + "y" : k == 2 ? a + b + a : a + a.substr(0, a.size() - 1) + b + b + "z";
                     const Str s(rs), p(b);
                     LOG(c, quote(rs) << " pattern " << quote(b));
                     whole(c, s, p, rs, b);
                     int n = rs.size();
                     for (int from : {0, 1, int(a.size()), -1, -int(a.size())})
                         for (int to : {n, n - 1, int(b.size()), int(b.size()) + 1, -1})
                             ranged(c, s, p, rs, b, from, to);
                     c.state(rs + "|" + b);
                 });
    mc::scenario("self", 2, [](Ctx& c)
                 {
                     std::string rs = word(c, "ab", 6);
                     const Str s(rs);
                     whole(c, s, s, rs, rs);
                     ranged(c, s, s, rs, rs, position(c, rs.size()), INT_MAX);
                     c.state(rs);
                 });
}
