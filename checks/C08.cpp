// C08: Int::random honours the requested number of digits.
// std::random_device is the library's environment: its out-of-line members are replaced here, so every answer of
// the entropy source is a choice of the explorer.
#include "intfam.hpp"
#include <random>
using namespace fam;
using mc::Ctx;

namespace ent
{
static unsigned first = 0, mode = 0, calls = 0;
static unsigned answer()
{
    unsigned k = calls++;
    if (k == 0 || (mode == 0 && k < 5000)) // the same answer for ever is no answer
        return first;
    if (mode == 1)
        return first + k;
    std::uint64_t x = (std::uint64_t(first) << 20) + k;
    x *= 0x9E3779B97F4A7C15ull;
    x ^= x >> 31;
    x *= 0xBF58476D1CE4E5B9ull;
    return unsigned(x >> 32);
}
} // namespace ent
void std::random_device::_M_init(const std::string&) {}
void std::random_device::_M_fini() {}
std::random_device::result_type std::random_device::_M_getval()
{
    return ent::answer();
}

static void entropy(unsigned first, unsigned mode)
{
    ent::first = first;
    ent::mode = mode;
    ent::calls = 0;
}

static void canonical(const Int& v, int n, const std::string& t)
{
    CHECK(!v.is_negative(), "random number is negative: " << cut(t));
    CHECK(v.digits() == n, "digits() is " << v.digits() << " for a random number of " << n << " digits: " << cut(t));
    if (n == 0)
        CHECK(t == "0" && v.is_zero() && v == 0, "zero digits must give 0, got " << cut(t));
    else
    {
        CHECK((int)t.size() == n, "text has " << t.size() << " characters, expected " << n << ": " << cut(t));
        CHECK(t[0] >= '1' && t[0] <= '9', "leading digit of " << cut(t));
        for (char ch : t)
            CHECK(ch >= '0' && ch <= '9', "not a digit in " << cut(t));
        CHECK(v.is_positive(), "sign of " << cut(t));
    }
    CHECK(v == Int(t.c_str()), "the random number is not the number it prints as: " << cut(t));
}

void register_scenarios()
{
    bool T = mc::G.tier;
    // every seed of a contiguous range and its mirror at the top of the range x every small digit count
    int seeds = MC_SAN ? (T ? 20000 : 3000) : (T ? 400000 : 60000);
    mc::scenario("seeds", 16, [seeds](Ctx& c)
                 {
                     unsigned s = c.choose(seeds);
                     if (c.flip())
                         s = ~s;
                     int n = c.pick(0, 12);
                     unsigned mode = c.choose(2) * 2;
                     entropy(s, mode);
                     LOG(c, "entropy " << s << " mode " << mode << " digits " << n);
                     Int v = Int::random(n);
                     std::string t = mc::str(v);
                     canonical(v, n, t);
                     c.step();
                     c.state(t);
                 });
    mc::scenario("very long", 16, [T](Ctx& c)
                 {
                     int n = c.of(T ? std::vector<int>{32767, 32768, 65535, 65536, 65537, 131073, 300000} : std::vector<int>{32768, 65536, 65537});
                     unsigned s = c.choose(T ? 12 : 4);
                     entropy(c.flip() ? ~s : s, 2);
                     LOG(c, "entropy " << ent::first << " digits " << n);
                     Int v = Int::random(n);
                     canonical(v, n, mc::str(v));
                     c.step();
                     c.state(mc::str(v));
                 });
    mc::scenario("long", 16, [T](Ctx& c)
                 {
                     static const std::vector<int> ns{13, 19, 20, 21, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4299, 4300, 4301, 8600, 10000};
                     int n = c.of(ns);
                     unsigned s = c.choose(T ? 600 : 100);
                     entropy(c.flip() ? ~s : s, 2);
                     LOG(c, "entropy " << ent::first << " digits " << n);
                     Int v = Int::random(n);
                     canonical(v, n, mc::str(v));
                     c.step();
                     c.state(mc::str(v));
                 });
    mc::scenario("default-length", 16, [](Ctx& c)
                 {
                     unsigned s = c.choose(MC_SAN ? 1500 : 24000);
                     unsigned mode = c.choose(2) * 2;
                     bool expl = c.flip();
                     entropy(s, mode);
                     LOG(c, "entropy " << s << " default digits");
                     Int v = expl ? Int::random(-1) : Int::random();
                     std::string t = mc::str(v);
                     int n = t == "0" ? 0 : t.size();
                     CHECK(n <= 4300, "Int::random() has " << n << " digits");
                     canonical(v, n, t);
                     c.step();
                     c.state(mc::hash_str(t));
                 });
    mc::scenario("negative-count", 2, [](Ctx& c)
                 {
                     static const std::vector<int> ns{-2, -3, -4, -10, -4300, INT_MIN + 1, INT_MIN};
                     int n = c.of(ns);
                     entropy(c.choose(50), 2);
                     LOG(c, "digits " << n);
                     CHECK(mc::outcome_of([&] { Int::random(n); }) == "runtime_error", "random(" << n << ") must raise a runtime error");
                     c.step();
                     c.state(std::to_string(n));
                 });
    // every digit value is reached at every position; different entropy gives different numbers
    mc::scenario("reachable", 16, [](Ctx& c)
                 {
                     static const std::vector<int> ns{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 20, 32, 33, 40, 64, 65, 100, 128, 129, 300, 1000, 4300};
                     int n = c.of(ns);
                     int k = n > 300 ? (MC_SAN ? 400 : 1000) : (MC_SAN ? 800 : 3000);
                     std::vector<unsigned> seen(n, 0);
                     std::set<std::string> all;
                     LOG(c, "digits " << n << " over " << k << " entropy words");
                     for (int s = 0; s < k; ++s)
                     {
                         entropy(s, 2);
                         std::string t = mc::str(Int::random(n));
                         CHECK((int)t.size() == n, "digit count");
                         for (int i = 0; i < n; ++i)
                             seen[i] |= 1u << (t[i] - '0');
                         all.insert(t);
                         c.step();
                         c.beat();
                     }
                     for (int i = 0; i < n; ++i)
                         CHECK(seen[i] == (i == 0 ? 0x3feu : 0x3ffu), "digit values seen at position " << i << " of " << n << ": mask " << seen[i]);
                     if (n >= 20)
                         CHECK((int)all.size() == k, "different entropy gave equal numbers of " << n << " digits: " << all.size() << " of " << k);
                     c.state(std::to_string(n));
                 });
    mc::scenario("length-varies", 1, [](Ctx& c)
                 {
                     std::set<int> lens;
                     int lo = 1 << 30, hi = 0;
                     for (int s = 0; s < 2000; ++s)
                     {
                         entropy(s, 2);
                         int n = Int::random().digits();
                         lens.insert(n);
                         lo = std::min(lo, n);
                         hi = std::max(hi, n);
                         c.step();
                         c.beat();
                     }
                     CHECK(lens.size() > 1, "lengths of Int::random() over 2000 entropy words: " << lens.size() << " different, " << lo << ".." << hi);
                     c.state("len");
                 });
}
