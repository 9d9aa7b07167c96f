// C12: Str split, join and replace obey their algebra.
#include "strfam.hpp"
using namespace fam;
using pyincpp::List;

static std::vector<std::string> ref_split(const std::string& s, const std::string& sep, bool keep)
{
    std::vector<std::string> v;
    std::size_t at = 0;
    while (true)
    {
        std::size_t i = at;
        while (i + sep.size() <= s.size() && s.compare(i, sep.size(), sep) != 0)
            ++i;
        bool hit = i + sep.size() <= s.size();
        std::string piece = s.substr(at, hit ? i - at : std::string::npos);
        if (keep || !piece.empty())
            v.push_back(piece);
        if (!hit)
            return v;
        at = i + sep.size();
    }
}
static std::string ref_join(const std::string& sep, const std::vector<std::string>& v)
{
    std::string o;
    for (std::size_t i = 0; i < v.size(); ++i)
        o += (i ? sep : "") + v[i];
    return o;
}
static std::string ref_replace(const std::string& s, const std::string& a, const std::string& b)
{
    std::string o;
    if (a.empty())
    {
        o = b;
        for (char ch : s)
            o += ch + b;
        return o;
    }
    for (std::size_t i = 0; i < s.size();)
        if (s.compare(i, a.size(), a) == 0)
            o += b, i += a.size();
        else
            o += s[i++];
    return o;
}
static std::vector<std::string> raws(const List<Str>& l)
{
    std::vector<std::string> v;
    for (const auto& s : l)
        v.push_back(raw(s));
    return v;
}
static std::string showv(const std::vector<std::string>& v)
{
    std::string o = "[";
    for (auto& s : v)
        o += quote(s) + " ";
    return o + "]";
}

static void split_check(Ctx& c, const std::string& rs, const std::string& rp)
{
    const Str s(rs), p(rp);
    LOG(c, quote(rs) << " sep " << quote(rp));
    if (rp.empty())
    {
        CHECK(mc::outcome_of([&] { s.split(p); }) == "runtime_error", "split with an empty separator must raise a runtime error");
        CHECK(mc::outcome_of([&] { s.split(p, true); }) == "runtime_error", "split with an empty separator must raise a runtime error");
    }
    else
    {
        auto wk = ref_split(rs, rp, true), w = ref_split(rs, rp, false);
        List<Str> k = s.split(p, true), n = s.split(p), f = s.split(p, false);
        CHECK(raws(k) == wk, quote(rs) << ".split(" << quote(rp) << ", true) is " << showv(raws(k)) << ", expected " << showv(wk));
        CHECK(raws(n) == w, quote(rs) << ".split(" << quote(rp) << ") is " << showv(raws(n)) << ", expected " << showv(w));
        CHECK(raws(f) == w, "split(sep, false)");
        CHECK(k.size() == s.count(p) + 1, "number of pieces is count + 1");
        is(p.join(k), rs, "join of split");
        if (rp == " ")
            CHECK(raws(s.split()) == w, "split() is split(\" \")");
    }
    is(s, rs, "original");
    is(p, rp, "separator");
    c.step(5);
    c.state(rs + "|" + rp);
}
static void replace_check(Ctx& c, const std::string& rs, const std::string& ra, const std::string& rb)
{
    const Str s(rs), a(ra), b(rb);
    LOG(c, quote(rs) << " replace " << quote(ra) << " by " << quote(rb));
    std::string w = ref_replace(rs, ra, rb);
    is(s.replace(a, b), w, quote(rs) + ".replace(" + quote(ra) + ", " + quote(rb) + ")");
    is(s, rs, "original");
    is(a, ra, "pattern");
    is(b, rb, "replacement");
    c.step();
    c.state(rs + "|" + ra + "|" + rb);
}
static void join_check(Ctx& c, const std::string& rp, const std::vector<std::string>& v)
{
    const Str p(rp);
    LOG(c, quote(rp) << ".join(" << showv(v) << ")");
    std::vector<Str> e;
    for (auto& s : v)
        e.push_back(Str(s));
    const List<Str> l(e.begin(), e.end());
    is(p.join(l), ref_join(rp, v), "join");
    CHECK(raws(l) == v, "joined list unchanged");
    is(p, rp, "separator");
    c.step();
    c.state(rp + "|" + showv(v));
}

void register_scenarios()
{
    bool T = mc::G.tier;
    static const std::string al("ab\0", 3), sp("a \xff", 3);
    int L = T ? 7 : 6;
    mc::scenario("split", 8, [L](Ctx& c)
                 {
                     const std::string& A = c.flip() ? al : sp;
                     std::string rs = word(c, A, L), rp = word(c, A, 3);
                     split_check(c, rs, rp);
                 });
    mc::scenario("split-binary", 8, [T](Ctx& c)
                 {
                     std::string rs = word(c, "ab", T ? 13 : 10), rp = word(c, "ab", 4);
                     split_check(c, rs, rp);
                 });
    mc::scenario("replace", 8, [T](Ctx& c)
                 {
                     std::string rs = word(c, al, T ? 6 : 5), ra = word(c, al, 2), rb = word(c, al, 2);
                     replace_check(c, rs, ra, rb);
                 });
    mc::scenario("replace-binary", 8, [T](Ctx& c)
                 {
                     std::string rs = word(c, "ab", T ? 9 : 7), ra = word(c, "ab", 3), rb = word(c, "ab", 3);
                     replace_check(c, rs, ra, rb);
                 });
    mc::scenario("replace-with-nul-and-percent", 4, [](Ctx& c)
                 {
                     static const std::vector<std::string> rb{std::string("\0", 1), std::string("x\0y", 3), std::string("\0\0\0", 3), "%s", "\\", "\xff\xfe", std::string("\0x", 2) + std::string(30, 'q')};
                     static const std::vector<std::string> ra{"", "a", "%", std::string("\0", 1)};
                     std::string rs = word(c, std::string("a%\0", 3), 4);
                     const auto& a = c.of(ra);
                     replace_check(c, rs, a, c.of(rb));
                 });
    mc::scenario("join", 8, [](Ctx& c)
                 {
                     static const std::vector<std::string> it{"", "a", "b", std::string("\0", 1), ", ", "a string beyond the small buffer"};
                     static const std::vector<std::string> se{"", "a", ", ", std::string("\0", 1), "a separator beyond the small buffer"};
                     std::string rp = c.of(se);
                     std::vector<std::string> v;
                     for (int i = c.choose(5); i > 0; --i)
                         v.push_back(c.of(it));
                     join_check(c, rp, v);
                 });
    static auto coll = collisions();
    mc::scenario("hash collisions", 16, [](Ctx& c)
                 {
                     auto [a, b] = c.of(coll);
                     int k = c.choose(3);
                     if (c.flip())
                         std::swap(a, b);
                     std::string rs = k == 0 ? a : k == 1 ? "x" + a + "y" + b + a : a + b + b + a;
                     split_check(c, rs, b);
                     replace_check(c, rs, b, a);
                 });
    mc::scenario("self", 4, [](Ctx& c)
                 {
                     std::string rs = word(c, "ab", 5);
                     const Str s(rs);
                     if (!rs.empty())
                     {
                         CHECK(raws(s.split(s, true)) == (std::vector<std::string>{"", ""}), "s.split(s, true)");
                         CHECK(raws(s.split(s)).empty(), "s.split(s)");
                     }
                     is(s.replace(s, s), ref_replace(rs, rs, rs), "s.replace(s, s)");
                     is(s.join({s, s}), rs + rs + rs, "s.join({s, s})");
                     is(s, rs, "original");
                     c.step(4);
                     c.state(rs);
                 });
    static auto lg = long_strings(T ? std::vector<int>{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000} : std::vector<int>{15, 16, 17, 33, 64, 65, 129, 257});
    mc::scenario("long", 16, [](Ctx& c)
                 {
                     const auto& rs = c.of(lg);
                     static const std::vector<std::string> ps{"a", "b", "aa", "ab", "ba", "aab", "aaa", "z", "A", "Z", std::string("\0", 1), std::string(15, 'a'), std::string(16, 'a'), std::string(64, 'a'), "", "CDEFGHIJKLMNOPQRSTUVWXYZA"};
                     const auto& p = c.of(ps);
                     split_check(c, rs, p);
                     static const std::vector<std::string> bs{"", "a", "bb", std::string("\0", 1), std::string(40, 'r')};
                     replace_check(c, rs, p, c.of(bs));
                 });
    mc::scenario("very many pieces", 16, [](Ctx& c)
                 {
                     static const std::vector<int> ns{32767, 32769, 65535, 65536, 65537};
                     int n = c.of(ns), w = c.choose(3);
                     std::vector<std::string> v;
                     for (int i = 0; i < n; ++i)
                         v.push_back(w == 2 ? std::string(i % 3, 'q') : std::string(w, char('c' + i % 7)));
                     const std::string p = std::vector<std::string>{",", "--"}[c.choose(2)];
                     const std::string all = ref_join(p, v);
                     LOG(c, n << " pieces of kind " << w << ", separator " << p);
                     std::vector<std::string> full;
                     for (auto& x : v)
                         if (!x.empty())
                             full.push_back(x);
                     const Str s(all), sep(p);
                     List<Str> k = s.split(sep, true), f = s.split(sep);
                     CHECK(raws(k) == v && raws(f) == full, "split: " << k.size() << " and " << f.size() << " pieces");
                     is(sep.join(k), all, "join");
                     is(s.replace(sep, "#+#"), ref_join("#+#", v), "replace");
                     is(s.replace(sep, ""), ref_join("", v), "replace by nothing");
                     CHECK(s.count(sep) == n - 1, "count");
                     // one separator deep inside a long text
                     const std::string a(n, 'a'), b(n / 2, 'b');
                     List<Str> two = Str(a + p + b).split(sep);
                     CHECK(two.size() == 2 && raw(two[0]) == a && raw(two[1]) == b, "two long pieces");
                     is(Str(a + p + b).replace(sep, Str(a)), a + a + b, "replace by a long text");
                     is(Str(a).replace("", "-").replace("-", ""), a, "insert and remove");
                     c.step(10);
                     c.state(n * 10l + w);
                 });
    mc::scenario("many-pieces", 8, [](Ctx& c)
                 {
                     static const std::vector<int> ns{1, 2, 15, 16, 17, 63, 64, 65, 100, 255, 256, 257, 1000, 1025};
                     int n = c.of(ns), w = c.choose(4);
                     std::vector<std::string> v;
                     for (int i = 0; i < n; ++i)
                         v.push_back(w == 3 ? std::string(i % 3, 'q') : std::string(w, char('c' + i % 7)));
                     static const std::vector<std::string> se{",", ", ", std::string("\0", 1), "--separator beyond the small buffer--"};
                     const auto& p = c.of(se);
                     join_check(c, p, v);
                     split_check(c, ref_join(p, v), p);
                     replace_check(c, ref_join(p, v), p, "#");
                 });
}
