// C10: Str is an indexable sequence.
#include "strfam.hpp"
using namespace fam;

// A production that must equal `want`, or must be rejected when want is null.
template <class F>
static void produce(Ctx& c, const Str& s, const std::string& rs, const std::string* want, const std::string& what, F&& f)
{
    Str r("untouched");
    std::string o = mc::outcome_of([&] { r = f(); });
    if (want)
    {
        CHECK(o == "ok", what << " on " << quote(rs) << " must be accepted, outcome: " << o);
        is(r, *want, what + " on " + quote(rs));
    }
    else
    {
        CHECK(o == "runtime_error", what << " on " << quote(rs) << " must raise a runtime error, outcome: " << o << " result " << quote(raw(r)));
        is(r, "untouched", "result object after a rejected " + what);
    }
    is(s, rs, "original string after " + what);
    c.outcome(o);
    c.step();
}
static bool ref_slice(const std::string& s, long a, long b, long step, std::string& out)
{
    long n = s.size();
    if (step == 0 || a < -n || a >= n || b < -n - 1 || b > n)
        return false;
    if (a < 0)
        a += n;
    if (b < 0)
        b += n;
    out.clear();
    for (long i = a; step > 0 ? i < b : i > b; i += step)
        out += s[i];
    return true;
}
static std::string rotl(const std::string& s, long k)
{
    if (s.empty())
        return s;
    long n = s.size();
    k = ((k % n) + n) % n;
    return s.substr(k) + s.substr(0, k);
}

static void index_check(Ctx& c, const std::string& rs, int i)
{
    const Str s(rs);
    LOG(c, quote(rs) << "[" << i << "]");
    long n = rs.size();
    char ch = '?';
    const char* at = nullptr;
    std::string o = mc::outcome_of([&] { const char& r = s[i]; ch = r; at = &r; });
    if (i >= -n && i < n)
    {
        CHECK(o == "ok", "[" << i << "] on " << quote(rs) << ": " << o);
        long k = i < 0 ? i + n : i;
        CHECK(ch == rs[k], "[" << i << "] on " << quote(rs) << " is " << int(ch));
        CHECK(at == s.data() + k, "reference to the element in place");
    }
    else
        CHECK(o == "runtime_error", "[" << i << "] on " << quote(rs) << " must raise a runtime error, outcome " << o);
    is(s, rs, "unchanged");
    c.step();
}
static void slice_check(Ctx& c, const std::string& rs, int a, int b, int step, bool deflt = false)
{
    const Str s(rs);
    LOG(c, quote(rs) << ".slice(" << a << ", " << b << ", " << step << ")");
    std::string w;
    bool ok = ref_slice(rs, a, b, deflt ? 1 : step, w);
    produce(c, s, rs, ok ? &w : nullptr, "slice(" + std::to_string(a) + ", " + std::to_string(b) + ", " + std::to_string(step) + ")", [&] { return deflt ? s.slice(a, b) : s.slice(a, b, step); });
}
static void erase_check(Ctx& c, const std::string& rs, int a, int b)
{
    const Str s(rs);
    LOG(c, quote(rs) << ".erase(" << a << ", " << b << ")");
    long n = rs.size();
    std::string w;
    bool ok = a >= 0 && a <= b && b <= n;
    if (ok)
        w = rs.substr(0, a) + rs.substr(b);
    produce(c, s, rs, ok ? &w : nullptr, "erase(" + std::to_string(a) + ", " + std::to_string(b) + ")", [&] { return s.erase(a, b); });
}
static void rotate_check(Ctx& c, const std::string& rs, int k)
{
    const Str s(rs);
    LOG(c, quote(rs) << " rotated by " << k);
    std::string l = rotl(rs, k), r = rotl(rs, -long(k));
    produce(c, s, rs, &l, "<< " + std::to_string(k), [&] { return s << k; });
    produce(c, s, rs, &r, ">> " + std::to_string(k), [&] { return s >> k; });
}
static void unary_check(Ctx& c, const std::string& rs)
{
    const Str s(rs);
    LOG(c, quote(rs));
    std::string w(rs.rbegin(), rs.rend());
    produce(c, s, rs, &w, "reverse()", [&] { return s.reverse(); });
    CHECK(std::string(s.rbegin(), s.rend()) == w, "reverse iteration");
    w = rs + rs;
    produce(c, s, rs, &w, "s + s", [&] { return s + s; });
    static const std::vector<std::string> tail{"", "x", std::string("\0", 1), std::string("\xff\0y", 3), "a long tail that does not fit into the small buffer"};
    for (auto& t : tail)
    {
        const Str st(t);
        w = rs + t;
        produce(c, s, rs, &w, "s + tail", [&] { return s + st; });
        w = t + rs;
        produce(c, s, rs, &w, "tail + s", [&] { return st + s; });
        is(st, t, "right operand unchanged");
    }
    for (int ch : {0, 1, 97, 127, 128, 255})
    {
        w = rs + char(ch);
        produce(c, s, rs, &w, "s + char", [&] { return s + char(ch); });
    }
}
static void repeat_check(Ctx& c, const std::string& rs, int k)
{
    const Str s(rs);
    LOG(c, quote(rs) << " * " << k);
    std::string w;
    long long total = (long long)rs.size() * k;
    bool ok = k >= 0 && total < INT_MAX;
    if (ok)
        for (int i = 0; i < k && !rs.empty(); ++i)
            w += rs;
    produce(c, s, rs, ok ? &w : nullptr, "* " + std::to_string(k), [&] { return s * k; });
}

void register_scenarios()
{
    bool T = mc::G.tier;
    static const std::string al("ab\0", 3);
    int L = T ? 6 : 5;
    auto W = [](Ctx& c, int L)
    {
        // all words over two characters, then words with every position distinguishable
        int k = c.choose(2);
        if (k == 0)
            return word(c, al, L);
        return std::string("\x80_0123456789ABCDEFGHIJ").substr(0, c.choose(L + 5));
    };
    mc::scenario("index", 2, [W, L](Ctx& c)
                 {
                     std::string rs = W(c, L);
                     int i = position(c, rs.size(), 4);
                     index_check(c, rs, i);
                     c.state(rs + std::to_string(i));
                 });
    mc::scenario("slice", 20, [T](Ctx& c)
                 {
                     int n = c.choose(T ? 12 : 8);
                     std::string rs = std::string("0123456789AB").substr(0, n);
                     static const int steps[] = {INT_MIN, INT_MIN + 1, -1000000000, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 1000000000, INT_MAX - 1, INT_MAX};
                     int step = c.of(steps);
                     int a = position(c, n), b = position(c, n);
                     slice_check(c, rs, a, b, step);
                     if (step == 1)
                         slice_check(c, rs, a, b, 1, true);
                     c.state(rs + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(step));
                 });
    mc::scenario("erase", 8, [W, L](Ctx& c)
                 {
                     std::string rs = W(c, L);
                     int a = position(c, rs.size()), b = position(c, rs.size());
                     erase_check(c, rs, a, b);
                     c.state(rs + std::to_string(a) + "," + std::to_string(b));
                 });
    mc::scenario("rotate", 8, [W, L](Ctx& c)
                 {
                     std::string rs = W(c, L);
                     int k = position(c, 3 * rs.size(), 3);
                     rotate_check(c, rs, k);
                     c.state(rs + std::to_string(k));
                 });
    mc::scenario("reverse-append", 4, [L](Ctx& c)
                 {
                     std::string rs = word(c, std::string("ab\0\xff", 4), L);
                     unary_check(c, rs);
                     c.state(rs);
                 });
    mc::scenario("repeat", 4, [W](Ctx& c)
                 {
                     std::string rs = W(c, 4);
                     static const int ks[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 33, 100, 257, 1000, -1, -2, -1000, INT_MIN, INT_MIN + 1};
                     repeat_check(c, rs, c.of(ks));
                     c.state(rs);
                 });
    mc::scenario("repeat-too-long", 4, [](Ctx& c)
                 {
                     // the product of size and count does not fit: below, at and far beyond every wrap-around
                     static const int sizes[] = {2, 3, 4, 5, 7, 16, 17, 64, 1000, 65536, 65537};
                     static const int ks[] = {INT_MAX, INT_MAX - 1, 1 << 30, (1 << 30) + 1, 858993460, 613566757, 1 << 29, 1 << 28, (1 << 26) + 1, 1 << 27, 134217729, 4294968, 65536, 65535, 32768, 98304, 131072};
                     int n = c.of(sizes), k = c.of(ks);
                     if ((long long)n * k <= INT_MAX)
                         return;
                     repeat_check(c, std::string(n, 'x'), k);
                     c.state(std::to_string(n) + "*" + std::to_string(k));
                 });
    mc::scenario("every index of long strings", 32, [T](Ctx& c)
                 {
                     static const std::vector<int> ns{70, 130, 257, 300, 519, 1100, 2100};
                     int n = ns[c.choose(T ? 7 : 5)], block = c.choose(32);
                     std::string rs(n, 0);
                     for (int i = 0; i < n; ++i)
                         rs[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[(i * 7 + i / 36) % 36];
                     for (int k = block; k <= n; k += 32)
                     {
                         c.beat();
                         rotate_check(c, rs, k);
                         rotate_check(c, rs, -k - n);
                         erase_check(c, rs, k, n);
                         erase_check(c, rs, 0, k);
                         erase_check(c, rs, k / 2, k);
                         index_check(c, rs, k);
                         index_check(c, rs, -k);
                         slice_check(c, rs, k, n, 1);
                         slice_check(c, rs, 0, k, 1, true);
                         slice_check(c, rs, k, -n - 1, -1);
                         slice_check(c, rs, 0, n, k);
                         slice_check(c, rs, -1, -n - 1, -k);
                     }
                     c.state(rs + std::to_string(block));
                 });
    mc::scenario("very long", 16, [](Ctx& c)
                 {
                     static const std::vector<int> ns{32768, 65535, 65537, 131073, 1048577};
                     int n = c.of(ns);
                     std::string rs(n, 0);
                     for (int i = 0; i < n; ++i)
                         rs[i] = char(i % 251 + i / 65521);
                     switch (c.choose(6))
                     {
                         case 0:
                         {
                             const int pos[] = {0, 32767, 32768, n / 2, n - 1, n, -1, -32768, -32769, -n, -n - 1};
                             index_check(c, rs, c.of(pos));
                             break;
                         }
                         case 1:
                         {
                             const int from[] = {0, 1, 32768, n - 1, -1, -n}, to[] = {0, 32767, n - 1, n, -1, -n - 1};
                             static const int steps[] = {1, -1, 2, -3, 40000, -70000};
                             int a = c.of(from), b = c.of(to);
                             slice_check(c, rs, a, b, c.of(steps));
                             break;
                         }
                         case 2:
                         {
                             const int pos[] = {0, 1, 32768, n / 2, n - 1, n};
                             int a = c.of(pos);
                             erase_check(c, rs, a, c.of(pos));
                             break;
                         }
                         case 3:
                         {
                             const int ks[] = {1, -1, 32767, 32769, n / 2, n - 1, n, n + 1, -n, -n - 1, 3 * n - 32769, INT_MAX, INT_MIN};
                             rotate_check(c, rs, c.of(ks));
                             break;
                         }
                         case 4: unary_check(c, rs); break;
                         case 5:
                         {
                             static const int ks[] = {0, 1, 2, 3, 17};
                             repeat_check(c, rs, c.of(ks));
                             break;
                         }
                     }
                     c.state(rs);
                 });
    static auto lg = long_strings(T ? std::vector<int>{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000} : std::vector<int>{15, 16, 17, 33, 64, 65, 129, 257});
    mc::scenario("long", 32, [](Ctx& c)
                 {
                     const auto& rs = c.of(lg);
                     int n = rs.size();
                     const int pos[] = {0, 1, n / 2, n - 1, n, n + 1, -1, -n / 2, -n, -n - 1, -n - 2, INT_MAX, INT_MIN};
                     switch (c.choose(6))
                     {
                         case 0: index_check(c, rs, c.of(pos)); break;
                         case 1:
                         {
                             static const int steps[] = {1, -1, 2, -2, 3, -7, 16, -17, 0, 1000000, INT_MAX, INT_MIN};
                             int st = c.of(steps);
                             int a = c.of(pos);
                             slice_check(c, rs, a, c.of(pos), st);
                             break;
                         }
                         case 2:
                         {
                             int a = c.of(pos);
                             erase_check(c, rs, a, c.of(pos));
                             break;
                         }
                         case 3:
                         {
                             const int ks[] = {0, 1, -1, 2, n / 2, n - 1, n, n + 1, -n, -n - 1, 2 * n, 2 * n + 1, -3 * n + 1, INT_MAX, INT_MIN, INT_MIN + 1};
                             rotate_check(c, rs, c.of(ks));
                             break;
                         }
                         case 4: unary_check(c, rs); break;
                         case 5:
                         {
                             static const int ks[] = {0, 1, 2, 3, 5, 16, 100, -1};
                             repeat_check(c, rs, c.of(ks));
                             break;
                         }
                     }
                     c.state(rs);
                 });
}
