// C04: Int text and native conversions are lossless.
#include "intfam.hpp"
using namespace fam;
using mc::Ctx;

// Reference automaton: sign? digit+ ; canonical form of the number denoted.
static bool parse(const std::string& t, std::string& canon)
{
    std::size_t i = 0;
    bool ng = false;
    if (i < t.size() && (t[i] == '+' || t[i] == '-'))
        ng = t[i++] == '-';
    if (i == t.size())
        return false;
    std::string d;
    for (; i < t.size(); ++i)
    {
        if (!(t[i] >= '0' && t[i] <= '9'))
            return false;
        d += t[i];
    }
    std::size_t p = d.find_first_not_of('0');
    canon = p == std::string::npos ? "0" : (ng ? "-" : "") + d.substr(p);
    return true;
}

static void text_check(Ctx& c, const std::string& t)
{
    std::string canon;
    bool ok = parse(t, canon);
    LOG(c, mc::quote(t) << (ok ? " denotes " + cut(canon) : " is not an integer"));
    // an exactly sized buffer, so that reading past the terminator is seen
    std::vector<char> buf(t.begin(), t.end());
    buf.push_back(0);
    buf.shrink_to_fit();
    Int v = 7;
    std::string r = mc::outcome_of([&] { v = Int(buf.data()); });
    if (!ok)
    {
        CHECK(r == "runtime_error", "text " << mc::quote(t) << " must be rejected with a runtime error, outcome: " << r << ", value " << cut(mc::str(v)));
        CHECK(mc::str(v) == "7", "target changed by a rejected text " << mc::quote(t));
    }
    else
    {
        CHECK(r == "ok", "text " << mc::quote(t) << " must be accepted, outcome: " << r);
        std::string p = mc::str(v);
        CHECK(p == canon, "text " << mc::quote(t) << " gives " << cut(p));
        Int w(canon.c_str());
        CHECK(v == w && w == v, "text " << mc::quote(t) << " and its canonical form give different values");
        bool z = canon == "0", ng = canon[0] == '-';
        CHECK(v.is_zero() == z && v.is_negative() == ng && v.is_positive() == (!z && !ng), "sign of " << mc::quote(t));
        CHECK(v.digits() == (z ? 0 : int(canon.size()) - ng), "digits of " << mc::quote(t));
        // arithmetic on the parsed value
        CHECK(mc::str(v + 0) == canon && (v - w).is_zero(), "arithmetic on the value of " << mc::quote(t));
    }
    c.outcome(r + canon);
    c.state(t);
    c.step();
}

// Native value v of type T, given as text.
template <class T>
static void native_check(Ctx& c, const std::string& s, const char* name)
{
    Int v(s.c_str());
    T t = v.template to_integer<T>();
    static_assert(std::is_same_v<decltype(v.template to_integer<T>()), T>);
    Ref back;
    if constexpr (std::is_signed_v<T>)
        back = static_cast<long long>(t);
    else
        back = static_cast<unsigned long long>(t);
    CHECK(rs(back) == s, "to_integer<" << name << ">() of " << s << " is " << rs(back));
    CHECK(mc::str(v) == s, "operand unchanged");
    c.step();
}
template <class T>
static void range_check(Ctx& c, const char* name)
{
    Ref lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    static const std::vector<std::string> e = edges(20, 3);
    std::string s;
    switch (c.choose(3))
    {
        case 0: s = rs(Ref(lo + c.choose(2000) % (hi - lo + 1))); break;
        case 1: s = rs(Ref(hi - c.choose(2000) % (hi - lo + 1))); break;
        case 2: s = c.of(e); break;
    }
    Ref r(s);
    if (r < lo || r > hi)
        return;
    LOG(c, name << " " << s);
    native_check<T>(c, s, name);
    c.state(name + s);
}

static void from_int(Ctx& c, long long v)
{
    LOG(c, "Int(" << v << ")");
    int i = int(v);
    Int a(i);
    std::string w = std::to_string(i);
    is(a, w, "Int(int)");
    Int b = 5;
    b = i;
    is(b, w, "assignment from int");
    CHECK(a.to_integer<int>() == i, "to_integer<int>() of " << w << " is " << a.to_integer<int>());
    CHECK(a == i, "comparison with int");
    is(a - 1, Ref(Ref(i) - 1), "minus one");
    c.step(4);
    c.state(w);
}

void register_scenarios()
{
    bool T = mc::G.tier;
    static const std::string alpha = std::string("+-019 a.\n/:\xb0", 12);
    int depth = MC_SAN ? 5 : (T ? 6 : 5);
    mc::scenario("words", 13, [depth](Ctx& c)
                 {
                     // every word up to the depth, over every character class of the automaton
                     std::string t;
                     for (int i = 0; i < depth; ++i)
                     {
                         int k = c.choose(alpha.size() + 1);
                         if (k == 0)
                             break;
                         t += alpha[k - 1];
                     }
                     text_check(c, t);
                 });
    // every byte value at every position of every short context
    mc::scenario("another locale", 8, [](Ctx& c)
                 {
                     static const std::vector<std::string> ts{"0", "1", "-1", "+12", "1000", "-1000000", "123456789012345678901234567890", "1.000", "1,000", "1\xb2", "\xb2", "\xa0" "1", "", "x", "007", "1 "};
                     const std::string& t = c.of(ts);
                     mc::ForeignLocale l;
                     text_check(c, t);
                     static const std::vector<int> ns{0, 1, -1, 999, 1000, -1000, 1234567, INT_MAX, INT_MIN};
                     from_int(c, c.of(ns));
                 });
    mc::scenario("every-byte", 16, [](Ctx& c)
                 {
                     static const std::vector<std::string> pre{"", "+", "-", "0", "1", "-9", "+0", "000", "123456789012345678901234567890"}, post{"", "0", "1", "99", "-", " ", "123456789012345678901234567890"};
                     int b = c.pick(1, 255);
                     text_check(c, c.of(pre) + std::string(1, char(b)) + c.of(post));
                 });
    static auto ed = edges(T ? 200 : 80, 3);
    static auto run = runs3("0123456789", {1, 2, 9, 20}, MC_SAN ? 12 : 42);
    static auto lg = longs({16, 17, 18, 19, 20, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4299, 4300, 4301, 10000});
    auto over = [](const std::vector<std::string>& f)
    {
        return [&f](Ctx& c)
        {
            std::string s = c.of(f);
            int k = c.choose(5);
            bool ng = s[0] == '-';
            if (k >= 1 && k <= 3) // leading zeros
                s = (ng ? "-" : k == 1 ? "+" : "") + std::string(k == 2 ? 1 : k == 3 ? 37 : 0, '0') + (ng ? s.substr(1) : s);
            if (k == 4) // one wrong character inside
                s[s.size() / 2] = 'o';
            text_check(c, s);
        };
    };
    mc::scenario("edges", 16, over(ed));
    mc::scenario("digit-runs", 16, over(run));
    mc::scenario("long", 8, over(lg));
    int n = MC_SAN ? (T ? 200000 : 70000) : (T ? 3000000 : 500000);
    mc::scenario("very long", 8, [](Ctx& c)
                 {
                     int n = c.of(wide()), kind = c.choose(3), sign = c.choose(3), zeros = std::vector<int>{0, 1, 40000, 70000}[c.choose(4)];
                     std::string t = wide_number(n, kind);
                     if (c.flip()) // one character that does not belong, anywhere
                         t[std::vector<int>{1, n / 2, n - 1}[c.choose(3)]] = "x. +"[c.choose(4)];
                     text_check(c, (sign == 0 ? "" : sign == 1 ? "-" : "+") + std::string(zeros, '0') + t);
                 });
    mc::scenario("from-int-dense", 16, [n](Ctx& c) { from_int(c, c.pick(-n, n)); });
    mc::scenario("from-int-edges", 8, [](Ctx& c)
                 {
                     // around every power of two and of ten, and at both ends of the type
                     int base = c.choose(2);
                     int k = c.pick(0, base ? 9 : 31);
                     long long p = 1;
                     for (int i = 0; i < k; ++i)
                         p *= base ? 10 : 2;
                     long long m = c.pick(1, 9), d = c.pick(-20, 20), sg = c.flip() ? -1 : 1;
                     long long v = sg * p * m + d;
                     if (v < INT_MIN || v > INT_MAX)
                         return;
                     from_int(c, v);
                 });
    mc::scenario("native-signed-char", 2, [](Ctx& c) { range_check<signed char>(c, "signed char"); });
    mc::scenario("native-unsigned-char", 2, [](Ctx& c) { range_check<unsigned char>(c, "unsigned char"); });
    mc::scenario("native-short", 2, [](Ctx& c) { range_check<short>(c, "short"); });
    mc::scenario("native-unsigned-short", 2, [](Ctx& c) { range_check<unsigned short>(c, "unsigned short"); });
    mc::scenario("native-int", 2, [](Ctx& c) { range_check<int>(c, "int"); });
    mc::scenario("native-unsigned", 2, [](Ctx& c) { range_check<unsigned>(c, "unsigned"); });
    mc::scenario("native-long", 2, [](Ctx& c) { range_check<long>(c, "long"); });
    mc::scenario("native-long-long", 2, [](Ctx& c) { range_check<long long>(c, "long long"); });
    mc::scenario("native-unsigned-long-long", 2, [](Ctx& c) { range_check<unsigned long long>(c, "unsigned long long"); });
    mc::scenario("native-Int", 2, [](Ctx& c)
                 {
                     const auto& s = c.of(ed);
                     is(Int(s.c_str()).to_integer<Int>(), s, "to_integer<Int>()");
                     c.step();
                     c.state(s);
                 });
}
