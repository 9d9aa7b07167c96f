// C21: Set algebra and subset relations follow set theory.
#include "confam.hpp"
#include "set.hpp"
using namespace fam;
using pyincpp::Set;

// Sets over 0..31 as bit masks: the reference is bitwise.
template <class E>
struct H
{
    typedef Set<E> S;
    static S set(unsigned m, bool down = false)
    {
        S s;
        for (int i = 0; i < 32; ++i)
        {
            int k = down ? 31 - i : i;
            if (m >> k & 1)
                s.add(El<E>::make(k));
        }
        return s;
    }
    static void is(const S& s, unsigned m, const char* what)
    {
        Seq w;
        for (int i = 0; i < 32; ++i)
            if (m >> i & 1)
                w.push_back(i);
        CHECK(keys(s) == w, what << ": got " << show(keys(s)) << ", expected " << show(w));
        CHECK(s.size() == (int)w.size(), what << ": size " << s.size());
    }
    static void relations(const S& a, const S& b, unsigned x, unsigned y)
    {
        bool sub = (x & ~y) == 0, sup = (y & ~x) == 0, eq = x == y;
        CHECK((a == b) == eq, "==");
        CHECK((a != b) == !eq, "!=");
        CHECK((a <= b) == sub, "<=");
        CHECK((a >= b) == sup, ">=");
        CHECK((a < b) == (sub && !eq), "<");
        CHECK((a > b) == (sup && !eq), ">");
    }
    static void pair(Ctx& c, unsigned x, unsigned y)
    {
        LOG(c, "sets " << std::hex << x << " " << y);
        S a = set(x), b = set(y, true);
        relations(a, b, x, y);
        relations(b, a, y, x);
        is(a & b, x & y, "&");
        is(a | b, x | y, "|");
        is(a - b, x & ~y, "-");
        is(a ^ b, x ^ y, "^");
        is(a, x, "left operand");
        is(b, y, "right operand");
        S t = a;
        CHECK(&(t &= b) == &t, "&= returns the set");
        is(t, x & y, "&=");
        t = a;
        CHECK(&(t |= b) == &t, "|= returns the set");
        is(t, x | y, "|=");
        t = a;
        CHECK(&(t -= b) == &t, "-= returns the set");
        is(t, x & ~y, "-=");
        t = a;
        CHECK(&(t ^= b) == &t, "^= returns the set");
        is(t, x ^ y, "^=");
        is(b, y, "right operand of compound operators");
        // results are ordinary sets
        relations(a & b, a, x & y, x);
        relations(a, a | b, x, x | y);
        S u = a ^ b;
        u |= a & b;
        CHECK(u == (a | b), "(a^b)|(a&b) == a|b");
        c.step(14);
        c.state((std::uint64_t(x) << 32 | y));
    }
    static void self(Ctx& c, unsigned x)
    {
        S a = set(x);
        relations(a, a, x, x);
        is(a & a, x, "a&a");
        is(a | a, x, "a|a");
        is(a - a, 0, "a-a");
        is(a ^ a, 0, "a^a");
        a &= a;
        is(a, x, "a&=a");
        a |= a;
        is(a, x, "a|=a");
        S b = a;
        b -= b;
        is(b, 0, "b-=b");
        a ^= a;
        is(a, 0, "a^=a");
        c.step(8);
    }
    static void laws(Ctx& c, unsigned x, unsigned y, unsigned z)
    {
        S a = set(x), b = set(y), d = set(z);
        CHECK(((a | b) | d) == (a | (b | d)) && ((a & b) & d) == (a & (b & d)) && ((a ^ b) ^ d) == (a ^ (b ^ d)), "associativity");
        CHECK((a & (b | d)) == ((a & b) | (a & d)), "distributivity");
        CHECK((a - (b | d)) == ((a - b) & (a - d)) && (a - (b & d)) == ((a - b) | (a - d)), "De Morgan");
        CHECK(!(a <= b && b <= d) || a <= d, "transitivity");
        CHECK(!(a < b && b < d) || a < d, "transitivity of <");
        c.step(5);
    }
    static void reg(bool T)
    {
        std::string e = El<E>::name();
        int k = T ? 8 : 6;
        mc::scenario(e + "/pairs", 64, [k](Ctx& c)
                     { unsigned x = c.choose(1 << k); pair(c, x, c.choose(1 << k)); });
        mc::scenario(e + "/self", 8, [k](Ctx& c)
                     { self(c, c.choose(1 << k)); });
        mc::scenario(e + "/laws", 32, [T](Ctx& c)
                     { int k = T ? 5 : 4; unsigned x = c.choose(1 << k), y = c.choose(1 << k); laws(c, x, y, c.choose(1 << k)); });
        // sparse, dense, interleaved and shifted patterns over 32 elements
        mc::scenario(e + "/32 elements", 32, [](Ctx& c)
                     {
                         static const std::vector<unsigned> ps{0, 1, 0x80000000u, 0xffffffffu, 0x55555555u, 0xaaaaaaaau, 0xffffu, 0xffff0000u, 0x0f0f0f0fu, 0x7fffffffu, 0xfffffffeu, 0x00ffff00u, 0x12345678u, 0x11111111u, 0x88888888u, 0x33333333u, 0xdeadbeefu, 0x00010000u};
                         unsigned x = c.of(ps), y = c.of(ps);
                         unsigned flip = c.choose(33);
                         pair(c, x, flip ? y ^ (1u << (flip - 1)) : y);
                     });
    }
};

void register_scenarios()
{
    bool T = mc::G.tier;
    H<int>::reg(T);
    H<std::string>::reg(T);
    H<Tracked>::reg(T);
    H<Padded>::reg(T);
    H<double>::reg(T);
    H<signed char>::reg(T);
    H<Large>::reg(T);
    H<Bulky>::reg(T);
    mc::scenario("beyond 16 bits", 8, [](Ctx& c)
                 {
                     int n = c.of(std::vector<int>{32769, 65537}), lack = c.choose(3), extra = c.choose(2);
                     // b is a without some elements at the end, and with one of its own
                     Set<int> a, b;
                     for (int i = 0; i < n; ++i)
                     {
                         a.add(i);
                         if (i < n - lack)
                             b.add(i);
                     }
                     if (extra)
                         b.add(n + 5);
                     LOG(c, n << " elements, the other lacks " << lack << " and has " << extra << " more");
                     CHECK((a & b).size() == n - lack && (b & a) == (a & b), "&");
                     CHECK((a | b).size() == n + extra && (b | a) == (a | b), "|");
                     CHECK((a - b).size() == lack && (b - a).size() == extra, "-");
                     CHECK((a ^ b).size() == lack + extra && (b ^ a) == (a ^ b), "^");
                     CHECK((a <= b) == (lack == 0) && (b >= a) == (lack == 0) && (a >= b) == !extra && (b <= a) == !extra, "subset");
                     CHECK((a < b) == (lack == 0 && extra) && (b < a) == (lack && !extra) && (a > b) == (lack && !extra) && (b > a) == (lack == 0 && extra), "proper subset");
                     CHECK((a == b) == (!lack && !extra) && (a != b) == (lack || extra), "equality");
                     c.step(10);
                     c.state(n * 10l + lack * 2 + extra);
                 });
    // structured larger sets
    mc::scenario("large", 16, [T](Ctx& c)
                 {
                     static const std::vector<int> ns{100, 255, 256, 257, 1000, 3000, 65537, 131073};
                     int n = ns[c.choose(T ? 8 : 5)];
                     int p = 1 + c.choose(5), q = 1 + c.choose(5), off = std::vector<int>{0, 1, n / 2, n}[c.choose(4)];
                     LOG(c, "n " << n << " multiples of " << p << " and " << q << " off " << off);
                     std::set<int> x, y, w;
                     Set<int> a, b;
                     for (int i = 0; i < n; i += p)
                         x.insert(i), a.add(i);
                     for (int i = off + n - 1; i >= off; i -= q)
                         y.insert(i), b.add(i);
                     auto eq = [&](const Set<int>& s, const char* what)
                     { CHECK(keys(s) == Seq(w.begin(), w.end()) && s.size() == (int)w.size(), what); w.clear(); c.step(); };
                     std::set_intersection(x.begin(), x.end(), y.begin(), y.end(), std::inserter(w, w.end()));
                     eq(a & b, "&");
                     std::set_union(x.begin(), x.end(), y.begin(), y.end(), std::inserter(w, w.end()));
                     eq(a | b, "|");
                     std::set_difference(x.begin(), x.end(), y.begin(), y.end(), std::inserter(w, w.end()));
                     eq(a - b, "-");
                     std::set_symmetric_difference(x.begin(), x.end(), y.begin(), y.end(), std::inserter(w, w.end()));
                     eq(a ^ b, "^");
                     bool sub = std::includes(y.begin(), y.end(), x.begin(), x.end()), sup = std::includes(x.begin(), x.end(), y.begin(), y.end());
                     CHECK((a <= b) == sub && (a >= b) == sup && (a < b) == (sub && !sup) && (a > b) == (sup && !sub) && (a == b) == (sub && sup), "relations");
                     c.state(std::to_string(n) + "," + std::to_string(p) + "," + std::to_string(q) + "," + std::to_string(off));
                 });
}
