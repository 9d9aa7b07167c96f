// C14: Str.to_integer accepts exactly the literals of its base.
#include "strfam.hpp"
#include "intfam.hpp"
using namespace fam;

static int digit(char ch)
{
    if (ch >= '0' && ch <= '9')
        return ch - '0';
    if (ch >= 'a' && ch <= 'z')
        return ch - 'a' + 10;
    if (ch >= 'A' && ch <= 'Z')
        return ch - 'A' + 10;
    return 99;
}
static bool blank(char ch)
{
    return ch == ' ' || ch == '\t' || ch == '\r' || ch == '\n';
}
// Reference automaton.
static bool parse(const std::string& t, int base, Ref& v)
{
    std::size_t i = 0, e = t.size();
    while (i < e && blank(t[i]))
        ++i;
    while (e > i && blank(t[e - 1]))
        --e;
    bool ng = false;
    if (i < e && (t[i] == '+' || t[i] == '-'))
        ng = t[i++] == '-';
    if (i == e || base < 2 || base > 36)
        return false;
    v = 0;
    for (; i < e; ++i)
    {
        int d = digit(t[i]);
        if (d >= base)
            return false;
        v = v * base + d;
    }
    if (ng)
        v = -v;
    return true;
}
static void check(Ctx& c, const std::string& t, int base, bool deflt = false)
{
    const Str s(t);
    Ref w;
    bool ok = parse(t, base, w);
    LOG(c, quote(t) << " base " << base << (ok ? " is " + cut(rs(w)) : " is not a literal"));
    Int v = 7;
    std::string o = mc::outcome_of([&] { v = deflt ? s.to_integer() : s.to_integer(base); });
    if (ok)
    {
        CHECK(o == "ok", quote(t) << ".to_integer(" << base << ") must be accepted, outcome: " << o);
        is(v, w, quote(t) + ".to_integer(" + std::to_string(base) + ")");
    }
    else
    {
        CHECK(o == "runtime_error", quote(t) << ".to_integer(" << base << ") must raise a runtime error, outcome: " << o << ", value " << cut(mc::str(v)));
        CHECK(v == 7, "target changed");
    }
    is(s, t, "string unchanged");
    c.outcome(o);
    c.step();
    c.state(t + "@" + std::to_string(base));
}

static const char* LOW = "0123456789abcdefghijklmnopqrstuvwxyz";
static const char* UP = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ";

void register_scenarios()
{
    bool T = mc::G.tier;
    mc::scenario("words-all-bases", 35, [T](Ctx& c)
                 {
                     int base = c.pick(2, 36);
                     // blank, signs, zero, largest digit in both cases, smallest invalid digit, others
                     std::string al = " \t+-0";
                     al += LOW[base - 1];
                     al += UP[base - 1];
                     if (base < 36)
                         al += LOW[base];
                     al += ".";
                     std::string t = word(c, al, T ? 5 : 4);
                     check(c, t, base);
                 });
    mc::scenario("words-deep", 12, [T](Ctx& c)
                 {
                     static const int bases[] = {10, 16, 2};
                     int base = c.of(bases);
                     std::string al = base == 10 ? " \n+-09a\v" : base == 16 ? " \r+-0fFg" : " +-012";
                     std::string t = word(c, al, T ? 7 : 5);
                     check(c, t, base);
                     if (base == 10)
                         check(c, t, 10, true);
                 });
    mc::scenario("every-byte", 32, [](Ctx& c)
                 {
                     int b = c.choose(256);
                     static const std::vector<std::string> pre{"", "1", "-", " ", "1 "}, post{"", "1", " ", " 1"};
                     std::string t = c.of(pre) + char(b);
                     t += c.of(post);
                     check(c, t, c.pick(2, 36));
                 });
    mc::scenario("another locale", 8, [](Ctx& c)
                 {
                     static const std::vector<std::string> ts{"0", "1", "-15", "1,5", "1.000", "1000000", "123456789012345678901234567890", "iI", "\xe9", "\xc9", "\xa0" "1", "1\xa0", "1\xb2", "-zZ", " 7f\t", "x"};
                     const std::string& t = c.of(ts);
                     int base = c.pick(2, 36);
                     mc::ForeignLocale l;
                     check(c, t, base);
                 });
    mc::scenario("bad-base", 8, [](Ctx& c)
                 {
                     static const int bases[] = {INT_MIN, INT_MIN + 1, -36, -16, -10, -2, -1, 0, 1, 37, 38, 62, 64, 100, 256, 258, 266, 1 << 16, INT_MAX};
                     static const std::vector<std::string> ts{"", "0", "1", "10", "z", "-", " 1 ", "1x"};
                     int b = c.of(bases);
                     check(c, c.of(ts), b);
                 });
    // every single digit in every base, both cases
    mc::scenario("digits", 35, [](Ctx& c)
                 {
                     int base = c.pick(2, 36), d = c.choose(36);
                     bool up = c.flip();
                     std::string t(1, (up ? UP : LOW)[d]);
                     static const std::vector<std::string> pre{"", "-", "+", "1", "10"};
                     check(c, c.of(pre) + t, base);
                     check(c, t + t + "1", base);
                 });
    // mostly blanks and leading zeros, beyond 16 bits
    mc::scenario("very long", 35, [](Ctx& c)
                 {
                     int base = c.pick(2, 36), n = c.of(std::vector<int>{4096, 32768, 65535, 65536, 65537}), kind = c.choose(7);
                     const std::string B(n, ' '), Z(n, '0'), d(1, LOW[base - 1]);
                     const std::string t[] = {B + d + B, "-" + Z + d, Z + "1" + d + B, Z, "+" + Z + (base < 36 ? std::string(1, LOW[base]) : "."), B, B + "-" + Z + "1" + B + "1"};
                     check(c, t[kind], base);
                 });
    // more digits than 16 bits count, where the value is known without arithmetic
    mc::scenario("very many digits", 16, [T](Ctx& c)
                 {
                     int n = c.of(MC_SAN ? std::vector<int>{2049} : T ? std::vector<int>{4097, 16385, 65537} : std::vector<int>{4097, 16385}), kind = c.choose(3);
                     const std::string w = wide_number(n, kind);
                     LOG(c, n << " decimal digits of kind " << kind);
                     Int v = Str(w).to_integer();
                     CHECK(mc::str(v) == w && v.digits() == n, "to_integer of " << n << " digits is " << cut(mc::str(v)));
                     c.step();
                     c.state(n * 10 + kind);
                 });
    // long literals: runs of digits, all lengths around native limits and beyond
    mc::scenario("long", 35, [T](Ctx& c)
                 {
                     int base = c.pick(2, 36);
                     static const std::vector<int> lens{5, 8, 9, 10, 11, 15, 16, 17, 18, 19, 20, 31, 32, 33, 63, 64, 65, 66, 100, 128, 129, 300};
                     static const std::vector<int> lens2{5, 9, 10, 16, 17, 19, 20, 31, 32, 33, 63, 64, 65, 129};
                     int n = T ? c.of(lens) : c.of(lens2);
                     std::string t;
                     switch (c.choose(4))
                     {
                         case 0: t = std::string(n, UP[base - 1]); break;
                         case 1: t = "1" + std::string(n - 1, '0'); break;
                         case 2: t = std::string(n / 2, LOW[base - 1]) + std::string(n - n / 2, '0') + "1"; break;
                         case 3:
                             for (int i = 0; i < n; ++i)
                                 { int d = (i * 7 + 1) % base; t += i % 2 ? LOW[d] : UP[d]; }
                             break;
                     }
                     static const std::vector<std::string> pre{"", "-", "+", " \r\n\t-", "000"}, post{"", "  ", "\n"};
                     t = c.of(pre) + t;
                     check(c, t + c.of(post), base);
                 });
}
